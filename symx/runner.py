"""Explores all paths of the harnesses of one property, confirms counterexamples on the unpatched code, writes evidence."""
import argparse
import importlib
import json
import os
import signal
import subprocess
import sys
import threading
import time
import traceback
from collections import deque

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SYMX_REPO", "/repo")
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True


class Claim:
    """One harness: fn(env, cfg) explored symbolically for every configuration."""

    def __init__(self, name, fn, quick, thorough=None, covers="", bounds="", path_s=60, query_ms=5000, logic=None, merge_index=False,
                 reach=(), validate=3, pypaths=200000):
        self.name, self.fn, self.quick, self.thorough = name, fn, quick, thorough or quick
        self.covers, self.bounds, self.path_s, self.query_ms, self.logic = covers, bounds, path_s, query_ms, logic
        self.merge_index, self.reach, self.validate = merge_index, set(reach), validate


class TimeUp(BaseException):
    pass


def _alarm(*a):
    raise TimeUp()


COVER = set()


def start_coverage():
    mon = sys.monitoring
    root = os.path.join(REPO, "pySOT") + os.sep

    def start(code, off):
        if code.co_filename.startswith(root):
            COVER.add("%s:%s" % (code.co_filename[len(REPO) + 1:], code.co_qualname))
        return mon.DISABLE

    try:
        mon.use_tool_id(4, "symx")
        mon.register_callback(4, mon.events.PY_START, start)
        mon.set_events(4, mon.events.PY_START)
    except ValueError:
        pass


def enc(v):
    from fractions import Fraction

    if isinstance(v, Fraction):
        return {"q": [str(v.numerator), str(v.denominator)], "f": float(v)}
    return v


def dec(v):
    from fractions import Fraction

    if isinstance(v, dict):
        return Fraction(int(v["q"][0]), int(v["q"][1]))
    return v


def pretty(values, limit=40):
    out = {}
    for i, (k, v) in enumerate(values.items()):
        if i >= limit:
            out["..."] = len(values) - limit
            break
        out[k] = round(float(v), 6) if not isinstance(v, (bool, int)) else v
    return out


def run_concrete(claim, cfg, values, choices, timeout=30):
    """(outcome, message): ok / violation / assume / hang.  Runs on the real, unpatched code."""
    from . import arr as A
    from . import core as C
    from . import env as E
    from . import state

    E.uninstall()
    state.keep(E.modules())
    state.restore()
    env = E.ConcEnv(values, choices)
    old, E.ENV = E.ENV, env
    oldctx, C.CTX = C.CTX, None
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, timeout)
    try:
        with E._ConcreteRandom():
            claim.fn(env, cfg)
        return "ok", "", env.notes
    except E.Violation as e:
        return "violation", e.msg, env.notes
    except E.AssumptionFailed:
        return "assume", "", env.notes
    except TimeUp:
        return "hang", "did not finish within %d s" % timeout, env.notes
    except (C.EngineLimit, C.PathAbort) as e:
        return "engine", repr(e), env.notes
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        inrepo = [f for f in tb if f.filename.startswith(REPO)]
        where = "%s:%s" % (os.path.relpath(inrepo[-1].filename, REPO), inrepo[-1].name) if inrepo else "harness"
        return "exception", "%s: %s in %s" % (type(e).__name__, str(e)[:200], where), env.notes
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        env.cleanup()
        E.ENV = old
        C.CTX = oldctx


class Explorer:
    """Runs in a worker process."""

    def __init__(self, claims):
        self.claims = claims

    def one_path(self, claim, cfg, prefix):
        from . import core as C
        from . import env as E
        from . import state

        state.keep(E.modules())  # with the stand-ins uninstalled
        state.restore()
        p = C.Path(prefix, claim.query_ms, claim.logic)
        p.merge_index = claim.merge_index
        found = []

        def on_violation(env, msg, negated, hints):
            cands = self.models(p, negated, hints)
            found.append((msg, cands))

        env = E.SymEnv(p, on_violation)
        E.ENV = env
        C.CTX = p
        E.install()
        status, info = "done", ""
        signal.signal(signal.SIGALRM, _alarm)
        signal.setitimer(signal.ITIMER_REAL, claim.path_s)
        try:
            claim.fn(env, cfg)
            if p.aborted:
                status = "aborted"
        except C.PathAbort:
            status = "aborted"
        except C.EngineLimit as e:
            status, info = "limit", "EngineLimit: %s" % e
        except TimeUp:
            status, info = "limit", "path ran longer than %d s" % claim.path_s
        except RecursionError as e:
            status, info = "limit", "RecursionError"
        except Exception as e:
            status, info = "exception", "%s: %s" % (type(e).__name__, str(e)[:300])
            info += " @ " + " < ".join("%s:%d" % (os.path.basename(f.filename), f.lineno) for f in reversed(traceback.extract_tb(e.__traceback__)[-5:]))
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            env.cleanup()
        cands = []
        try:
            if status in ("limit", "exception") and not p.aborted:
                try:
                    cands = self.models(p, None, ())
                    if not cands:
                        status, info = "aborted", "infeasible"
                except C.PathAbort:
                    status = "aborted"
            elif status == "done":
                m = None
                try:
                    m = p.get_model()
                except C.PathAbort:
                    status = "aborted"
                if m is not None:
                    cands = [p.values(m)]
        finally:
            E.uninstall()
        return p, env, status, info, cands, found

    def models(self, p, negated, hints):
        """Several models of the violated condition: first ones with exactly representable numbers and a clear margin."""
        from . import core as C

        z3 = C.z3
        reals = [c for c, k in p.symbols.values() if k == "real"]
        nice = [z3.IsInt(c * 8) for c in reals] + [c >= -64 for c in reals] + [c <= 64 for c in reals]
        nice2 = [z3.IsInt(c * 1024) for c in reals]
        out = []
        s = p.solver
        base = [] if negated is None else [negated]
        tries = []
        for h in list(hints):
            tries.append([h] + nice)
            tries.append([h])
        tries += [nice, nice2, []]
        for i, t in enumerate(tries):
            if len(out) >= 4:
                break
            s.push()
            try:
                s.set("timeout", 2500)
                for c in base + t:
                    s.add(c)
                C.GUARD["until"] = time.time() + 20
                if s.check() == z3.sat:
                    out.append(p.values(s.model()))
            finally:
                C.GUARD["until"] = None
                s.pop()
                s.set("timeout", p.query_ms)
        return out

    def slice(self, task):
        """Explore from a prefix for a while; returns what was found and the prefixes left."""
        ci, gi, cfg, prefix, seconds, validate = task
        claim = self.claims[ci]
        t0 = time.time()
        stack = [prefix]
        res = dict(ci=ci, gi=gi, paths=0, aborted=0, limits=[], incomplete=[], stats={}, violations=[], unconfirmed=[], samples=[], validated=0,
                   mismatches=[], reached=set(), cover=None, left=[], branches=0)
        st = res["stats"]
        while stack and time.time() - t0 < seconds and not res["violations"]:
            pre = stack.pop()
            p, env, status, info, cands, found = self.one_path(claim, cfg, pre)
            for k, v in p.stats.items():
                st[k] = st.get(k, 0) + v
            stack.extend(p.pending)
            res["reached"] |= env.reached
            if status == "aborted":
                res["aborted"] += 1
            else:
                res["paths"] += 1
            for x in p.incomplete[:3]:
                if len(res["incomplete"]) < 10:
                    res["incomplete"].append(x)
            choices = list(p.choices)
            for msg, ms in found:
                ok = False
                outcomes = []
                for vals in ms:
                    o, m, _ = run_concrete(claim, cfg, vals, choices)
                    outcomes.append(o + (": " + m if m else ""))
                    if o in ("violation", "exception", "hang"):
                        res["violations"].append(dict(claim=claim.name, cfg=cfg, ci=ci, gi=gi, msg=m or msg, sym=msg,
                                                      values={k: enc(v) for k, v in vals.items()}, choices=choices))
                        ok = True
                        break
                if not ok:
                    res["unconfirmed"].append(dict(claim=claim.name, cfg=repr(cfg), msg=msg, outcomes=outcomes,
                                                   values=pretty(ms[0]) if ms else None, choices=choices))
            if status in ("limit", "exception"):
                ok = False
                for vals in cands[:3]:
                    o, m, _ = run_concrete(claim, cfg, vals, choices)
                    if o in ("violation", "exception", "hang"):
                        res["violations"].append(dict(claim=claim.name, cfg=cfg, ci=ci, gi=gi, msg=m, sym=info,
                                                      values={k: enc(v) for k, v in vals.items()}, choices=choices))
                        ok = True
                        break
                if not ok and len(res["limits"]) < 10:
                    res["limits"].append(info)
                st["limits"] = st.get("limits", 0) + (not ok)
            elif status == "done" and cands and validate > 0 and not found:
                validate -= 1
                o, m, notes = run_concrete(claim, cfg, cands[0], choices)
                if o == "ok":
                    res["validated"] += 1
                    mm = self.compare(p, cands[0], env.notes, notes)
                    if mm:
                        res["mismatches"].append(mm)
                elif o in ("violation", "exception", "hang"):
                    res["violations"].append(dict(claim=claim.name, cfg=cfg, ci=ci, gi=gi, msg=m, sym="path validation",
                                                  values={k: enc(v) for k, v in cands[0].items()}, choices=choices))
                if len(res["samples"]) < 2:
                    res["samples"].append(dict(claim=claim.name, cfg=repr(cfg), choices=choices, values=pretty(cands[0], 12), replay=o))
        res["left"] = stack
        res["cover"] = set(COVER)
        return res

    def compare(self, p, vals, sym, conc):
        """Observations of the symbolic run, evaluated in the model, against those of the concrete run."""
        from . import arr as A
        from . import core as C

        m = None
        for (n, a), (n2, b) in zip(sym, conc):
            if n != n2:
                return "%s/%s" % (n, n2)
            fa, fb = A._flat(A._obj(a)), A._flat(A._obj(b))
            if len(fa) != len(fb):
                return "%s: sizes differ" % n
            for x, y in zip(fa, fb):
                if C.is_sym(x):
                    if m is None:
                        m = p.get_model()
                    e = C.zb(x) if type(x) is C.SymBool else x.e
                    if type(x) is C.SymBool:
                        x = C.z3.is_true(m.eval(e, model_completion=True))
                    else:
                        if p.uf_seen:
                            continue
                        x = float(C.model_value(m, e))
                try:
                    if abs(float(x) - float(y)) > 1e-6 * max(1.0, abs(float(y))) and not (x == y):
                        return "%s: symbolic %r, concrete %r" % (n, float(x), float(y))
                except (TypeError, ValueError):
                    pass
        return None


STUCK = 77


def guard():
    from . import core as C

    while True:
        time.sleep(1)
        u = C.GUARD["until"]
        if u is not None and time.time() > u:
            os._exit(STUCK)


def worker(conn, mod):
    from . import env as E

    threading.Thread(target=guard, daemon=True).start()
    E.load_all()
    start_coverage()
    m = importlib.import_module("checks." + mod)
    ex = Explorer(m.CLAIMS)
    while True:
        t = conn.recv()
        if t is None:
            return
        try:
            conn.send(ex.slice(t))
        except BaseException:
            conn.send(dict(error=traceback.format_exc()))


def known_findings(prop):
    out = []
    try:
        for line in open(os.path.join(VERIF, "known_findings.txt")):
            line = line.strip()
            if line.startswith("finding:") and ("property=%s " % prop) in line:
                out.append(line)
    except OSError:
        pass
    return out


def matches_known(v, known):
    for k in known:
        parts = dict(x.split("=", 1) for x in k.split() if "=" in x)
        if parts.get("claim") == v["claim"] and k.split("what:", 1)[-1].strip() in v["msg"]:
            return k
    return None


def run(prop, tier, seed, workers, budget, only=None):
    import multiprocessing as mp

    t0 = time.time()
    mod = prop.lower()
    from . import env as E  # noqa: the heavy imports are inherited by the forked workers

    E.load_all()
    m = importlib.import_module("checks." + mod)
    claims = m.CLAIMS
    tasks = deque()
    per = {}
    for ci, c in enumerate(claims):
        if only and c.name not in only:
            continue
        cfgs = c.thorough if tier == "thorough" else c.quick
        for gi, g in enumerate(cfgs):
            tasks.append((ci, gi, g, (), 1.0, c.validate))
        per[ci] = dict(name=c.name, covers=c.covers, bounds=c.bounds, configurations=[repr(g) for g in cfgs], paths=0, infeasible=0, queries=0, discharged=0,
                       discharged_trivially=0, undecided=0, unknown=0, solver_s=0.0, branches=0, concretized=0, limits=0, validated=0, left=0,
                       reached=set(), incomplete=[], limit_msgs=[], mismatches=[])
    ctxm = mp.get_context("fork")
    procs = []

    def start():
        a, b = ctxm.Pipe()
        p = ctxm.Process(target=worker, args=(b, mod), daemon=True)
        p.start()
        b.close()
        procs.append([p, a, None])

    for _ in range(workers):
        start()
    retried = set()

    def lost(w):
        """The worker has gone: its task is tried once more elsewhere, unless it is time to end."""
        t, w[2] = w[2], None
        procs.remove(w)
        w[0].join(1)
        if w[0].is_alive():
            w[0].kill()
        key = (t[0], t[1], t[3])
        if w[0].exitcode not in (STUCK, -signal.SIGKILL):
            errors.append("worker ended (%s) on %r" % (w[0].exitcode, t))
        elif key in retried or timeup or violations:
            per[t[0]]["left"] += 1
            per[t[0]]["incomplete"] = (["a query did not end: configuration %r" % (t[2],)] + per[t[0]]["incomplete"])[:10]
        else:
            retried.add(key)
            tasks.append(t)
        if not timeup and not violations:
            start()

    cover, samples, violations, unconfirmed, errors = set(), [], [], [], []
    known, seen_known = known_findings(prop), set()
    timeup, found_at = False, None
    while True:
        idle = [w for w in procs if w[2] is None]
        if time.time() - t0 > budget:
            timeup = True
        if not violations and not timeup:
            while idle and tasks:
                w = idle.pop()
                t = tasks.popleft()
                w[2] = t
                w[1].send(t)
        busy = [w for w in procs if w[2] is not None]
        if not busy and (not tasks or violations or timeup):
            break
        ready = mp.connection.wait([w[1] for w in busy], timeout=5)
        if time.time() - t0 > budget + 45 or (violations and time.time() - found_at > 10):
            for w in busy:
                w[0].kill()
                per[w[2][0]]["left"] += 1
                procs.remove(w)
            break
        for w in busy:
            if w[1] not in ready:
                continue
            try:
                r = w[1].recv()
            except (EOFError, OSError):
                lost(w)
                continue
            t = w[2]
            w[2] = None
            if "error" in r:
                errors.append(r["error"])
                continue
            d = per[r["ci"]]
            d["paths"] += r["paths"]
            d["infeasible"] += r["aborted"]
            d["validated"] += r["validated"]
            for k in ("queries", "discharged", "discharged_trivially", "undecided", "unknown", "solver_s", "branches", "concretized", "limits"):
                d[k] += r["stats"].get(k, 0)
            d["reached"] |= r["reached"]
            d["incomplete"] = (d["incomplete"] + r["incomplete"])[:10]
            d["limit_msgs"] = (d["limit_msgs"] + r["limits"])[:10]
            d["mismatches"] = (d["mismatches"] + r["mismatches"])[:5]
            cover |= r["cover"]
            if len(samples) < 12:
                samples += r["samples"][:1]
            for v in r["violations"]:
                k = matches_known(v, known)
                if k:
                    seen_known.add(k)
                else:
                    found_at = found_at or time.time()
                    violations.append(v)
            unconfirmed += r["unconfirmed"][: max(0, 20 - len(unconfirmed))]
            left = r["left"]
            # hand out what is left in pieces: shallow prefixes are the big ones
            sec = 3.0
            val = max(0, min(1, t[5] - 1)) if t[5] else 0
            n = len(left)
            k = min(n, 2 * workers) if len(tasks) < workers else 1
            if n:
                for pre in left:
                    tasks.append((r["ci"], r["gi"], t[2], pre, sec, val))
    for w in procs:
        try:
            w[1].send(None)
        except Exception:
            pass
    for w in procs:
        w[0].join(0.2)
        if w[0].is_alive():
            w[0].terminate()
    for t in tasks:
        per[t[0]]["left"] += 1
    wall = time.time() - t0
    rc = report(prop, tier, seed, m, claims, per, cover, samples, violations, unconfirmed, errors, seen_known, timeup, wall, known)
    return rc


def report(prop, tier, seed, m, claims, per, cover, samples, violations, unconfirmed, errors, seen_known, timeup, wall, known):
    ev = os.path.join(VERIF, "evidence")
    os.makedirs(ev, exist_ok=True)
    rc = 0
    lines = []
    confirmed = []
    for i, v in enumerate(violations):
        path = os.path.join(ev, "%s.replay%d.json" % (prop, i))
        json.dump(dict(property=prop, **v), open(path, "w"), indent=1)
        r = subprocess.run([sys.executable, os.path.join(VERIF, "check.py"), prop, "--replay", path], capture_output=True, text=True, cwd=VERIF)
        v["replay"] = path
        if r.returncode == 1:
            confirmed.append(v)
            lines.append("VIOLATION property=%s replay=%s" % (prop, path))
            lines.append("  claim %s %r: %s" % (v["claim"], v["cfg"], v["msg"]))
            break
        unconfirmed.append(dict(claim=v["claim"], cfg=repr(v["cfg"]), msg=v["msg"], outcomes=["fresh process: " + r.stdout[-300:] + r.stderr[-300:]]))
    if confirmed:
        rc = 1
    tot = {k: sum(d[k] for d in per.values()) for k in ("paths", "infeasible", "queries", "discharged", "discharged_trivially", "undecided", "unknown",
                                                       "solver_s", "branches", "concretized", "limits", "validated", "left")}
    vac = []
    for ci, d in per.items():
        miss = claims[ci].reach - d["reached"]
        if not confirmed and (d["discharged"] + d["discharged_trivially"] == 0 or miss) and not d["left"]:
            vac.append("%s: %s" % (d["name"], "never reached " + ", ".join(sorted(miss)) if miss else "no assertion was discharged"))
    if not confirmed:
        if unconfirmed:  # the engine or floating point, not the code: undecided (see DESIGN.md)
            for u in unconfirmed[:5]:
                lines.append("UNCONFIRMED %s" % json.dumps(u)[:1500])
        if errors:
            rc = 2
            lines += ["ERROR " + e[-1500:] for e in errors[:3]]
        if vac:
            lines += ["VACUOUS " + v for v in vac]
    for k in known:
        if k in seen_known:
            lines.append("KNOWN-FINDING: property=%s %s" % (prop, k.split("what:", 1)[-1].strip()))
    for d in per.values():
        d["reached"] = sorted(d["reached"])
        d["solver_s"] = round(d["solver_s"], 2)
    cov = dict(
        states=tot["paths"], transitions=tot["branches"], traces_validated_against_impl=tot["validated"], samples=samples or [dict(note="no path completed")],
        exhaustive=bool(not timeup and not unconfirmed and not vac and not errors and not tot["left"] and not tot["limits"] and not tot["concretized"] and not tot["undecided"] and not tot["unknown"]),
        meaning=dict(states="symbolic paths completed, each covering all values of its inputs", transitions="branch decisions taken",
                     traces_validated_against_impl="paths whose solver model was replayed on the unpatched code with the same outcome"),
        queries_to_solver=tot["queries"], assertions_discharged_by_solver=tot["discharged"], assertions_discharged_by_simplification=tot["discharged_trivially"],
        assertions_undecided=tot["undecided"], solver_unknown=tot["unknown"], solver_seconds=round(tot["solver_s"], 2), infeasible_paths=tot["infeasible"],
        values_concretized=tot["concretized"], paths_beyond_engine=tot["limits"], prefixes_left_unexplored=tot["left"],
        functions_encoded=sorted(c for c in cover if not c.endswith("<module>")), claims=list(per.values()),
        unconfirmed_counterexamples=len(unconfirmed), not_reached=vac, errors=errors[:3])
    e = dict(property=prop, tier=tier, seed=seed, level="model_checking", coverage=cov, assumptions=list(getattr(m, "ASSUMPTIONS", [])),
             wall_s=round(wall, 2), violations=len(confirmed))
    json.dump(e, open(os.path.join(ev, prop + ".json"), "w"), indent=1, default=str)
    print("%s %s: %d paths (%d infeasible), %d branches, %d queries (%.1f s), %d+%d assertions, %d undecided, %d limits, %d concretized, %d validated, %d left, %.1f s"
          % (prop, tier, tot["paths"], tot["infeasible"], tot["branches"], tot["queries"], tot["solver_s"], tot["discharged"], tot["discharged_trivially"],
             tot["undecided"], tot["limits"], tot["concretized"], tot["validated"], tot["left"], wall))
    if os.environ.get("SYMX_V"):
        for d in per.values():
            print("   %-34s cfgs %d paths %d inf %d br %d q %d %.1fs disc %d+%d und %d lim %d conc %d val %d left %d" % (
                d["name"], len(d["configurations"]), d["paths"], d["infeasible"], d["branches"], d["queries"], d["solver_s"], d["discharged"], d["discharged_trivially"],
                d["undecided"], d["limits"], d["concretized"], d["validated"], d["left"]))
            for x in d["limit_msgs"][:3]:
                print("      limit:", x)
            for x in d["incomplete"][:3]:
                print("      incomplete:", x)
            for x in d["mismatches"][:3]:
                print("      mismatch:", x)
    for l in lines:
        print(l)
    return rc


def replay(prop, path):
    from . import env as E

    E.load_all()
    m = importlib.import_module("checks." + prop.lower())
    v = json.load(open(path))
    c = {c.name: c for c in m.CLAIMS}[v["claim"]]
    cfg = v["cfg"]
    o, msg, _ = run_concrete(c, tup(cfg), {k: dec(x) for k, x in v["values"].items()}, v["choices"])
    print("replay of %s %r: %s %s" % (v["claim"], cfg, o, msg))
    return 1 if o in ("violation", "exception", "hang") else 0


def tup(x):
    return tuple(tup(i) for i in x) if isinstance(x, list) else {k: tup(v) for k, v in x.items()} if isinstance(x, dict) else x


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--workers", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("--budget", type=float, default=None)
    ap.add_argument("--claim", action="append")
    a = ap.parse_args()
    os.chdir(VERIF)
    if a.replay:
        sys.exit(replay(a.property, a.replay))
    budget = a.budget or (500 if a.tier == "quick" else 3000)
    rc = run(a.property, a.tier, int(os.environ.get("VERIF_SEED", "1")), a.workers, budget, a.claim)
    sys.stdout.flush()
    os._exit(rc)
