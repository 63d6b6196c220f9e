"""C13: Pareto-center search keeps its centers, radii and tabu memory consistent."""
import math

from checks.strat import *
from symx.runner import Claim

R0 = 0.2


class Rule:
    """The documented rules, on the history of completed evaluations."""

    def __init__(self, env, ncenters, M, num_exp, lb, ub):
        self.env, self.nc, self.M, self.num_exp, self.lb, self.ub = env, ncenters, M, num_exp, lb, ub
        self.x, self.f, self.sigma, self.nfail, self.tabu = [], [], [], [], []
        self.centers = []  # [evaluation, state: free/used/done, new point]
        self.d = []  # distances in the unit box

    def add(self, x, f):
        u = [(float(a) - l) / (h - l) for a, l, h in zip(flat(x), self.lb, self.ub)]
        row = []
        for k, v in enumerate(self.x):
            dist = math.sqrt(sum((a - b) ** 2 for a, b in zip(u, v)))
            row.append(dist)
            self.d[k].append(dist)
        self.d.append(row + [0.0])
        self.x.append(u)
        for g in self.f:
            self.env.assume(C.ne(g, f))
        self.f.append(f)
        self.sigma.append(R0)
        self.nfail.append(0)
        self.tabu.append(0)

    def ranks(self):
        n = len(self.x)
        sep = [min([v for v in self.d[i] if v > 0], default=math.inf) for i in range(n)]
        left, rank, k = list(range(n)), [0] * n, 1
        while left:
            front = [j for j in left if not any(sep[i] > sep[j] and bool(C.lt(self.f[i], self.f[j])) for i in left if i != j)]
            for j in front:
                rank[j] = k
            left = [j for j in left if j not in front]
            k += 1
        return rank

    def order(self, idx, key):
        out = []
        for i in idx:  # insertion by (key, value)
            p = len(out)
            while p > 0 and (key[out[p - 1]] > key[i] or key[out[p - 1]] == key[i] and bool(C.lt(self.f[i], self.f[out[p - 1]]))):
                p -= 1
            out.insert(p, i)
        return out

    def update_centers(self):
        n = len(self.x)
        self.centers = [c for c in self.centers if c[1] != "done"]
        count = self.nc - len(self.centers)
        if count <= 0:
            return
        used = {c[0] for c in self.centers}
        rank = self.ranks()
        key = [(math.inf if i in used else self.tabu[i], rank[i]) for i in range(n)]
        seq = self.order(range(n), key)
        best = 0
        for i in range(1, n):
            if bool(C.lt(self.f[i], self.f[best])):
                best = i
        if best not in used:
            seq.remove(best)
            seq.insert(0, best)
        thresh = 1.0 - float(n - self.num_exp) / float(self.M - self.num_exp)
        sel = [seq[0]]
        for i in seq[1:]:
            if len(sel) == count:
                break
            if all(self.d[i][c] >= R0 * 0.5 ** self.nfail[c] * thresh / math.sqrt(len(self.lb)) for c in sel):
                sel.append(i)
        k = len(sel)
        while len(sel) < count:
            sel.append(sel[len(sel) % k])
        self.centers += [[i, "free", None] for i in sel]
        self.env.reach("tabu" if any(self.tabu) else "selected")

    def take(self, x):
        """The next center to be used."""
        for c in self.centers:
            if c[1] == "free":
                c[1] = "used"
                c[2] = x
                return c
        return None

    def release(self, x):
        for c in self.centers:
            if c[1] == "used" and c[2] == x:
                c[1], c[2] = "free", None
                return

    def finish(self, x):
        for c in self.centers:
            if c[1] == "used" and c[2] == x:
                c[1] = "done"
                return (c, len(self.x) - 1)
        return None

    def memory(self, done):
        rank = self.ranks()
        for c, new in done:
            if rank[new] != 1:
                self.nfail[c[0]] += 1
                self.sigma[c[0]] /= 2.0
                self.env.reach("failed")
        for i in range(len(self.x)):
            if self.tabu[i] > 0:
                self.tabu[i] += 1
                if self.tabu[i] > 5:
                    self.tabu[i], self.nfail[i], self.sigma[i] = 0, 0, R0
                    self.env.reach("tenure over")
        for c, _ in done:
            if self.nfail[c[0]] > 3:
                self.nfail[c[0]], self.tabu[c[0]], self.sigma[c[0]] = 0, 1, R0


class Watch:
    def __init__(self, env, st, rule, asyn, seen):
        self.env, self.st, self.rule, self.asyn, self.seen, self.n = env, st, rule, asyn, seen, 0
        self.new, self.design, self.batch = [], set(), []

    def look(self, sim, *a):
        env, rule = self.env, self.rule
        for r in getattr(self.st.design, "given", []):
            self.design.add(key(r))
        calls = self.seen[self.n:]
        self.n = len(self.seen)
        if calls:
            rule.update_centers()
            env.check(len(self.st.centers) == rule.nc, "not the configured number of centers")
            env.reach("search")
        for name, b, x in calls:
            c = rule.take(key(x))
            env.check(c is not None, "points are generated although no center is available")
            want = rule.x[c[0]]
            got = [(float(v) - l) / (h - l) for v, l, h in zip(flat(b["xbest"]), rule.lb, rule.ub)]
            env.check(all(abs(p - q) < 1e-9 for p, q in zip(want, got)), "candidates are not generated around the center that is next")
            env.check(abs(b["sampling_radius"] - rule.sigma[c[0]]) < 1e-12, "candidates are not generated with the center's radius")
            env.check(len(b["X"]) == len(rule.x), "the search does not get all evaluated points")
        if a and a[-1] is not None and calls and self.asyn:
            env.check(key(a[0]) == key(calls[-1][2]), "the new point is not the one proposed")

    proposal = look

    def idle(self, sim):
        self.look(sim)

    def rejected(self, sim, x):
        if key(x) not in self.design and self.asyn:
            self.rule.release(key(x))

    def abort(self, sim, x, r):
        if key(x) not in self.design:
            self.rule.release(key(x))
            self.finish_batch(sim)

    def completed(self, sim, x, f, r):
        self.rule.add(x, f)
        if key(x) in self.design:
            return
        d = self.rule.finish(key(x))
        if self.asyn:
            if d:
                self.rule.memory([d])
        else:
            if d:
                self.batch.append(d)
            self.finish_batch(sim)

    def finish_batch(self, sim):
        if not self.asyn and not sim.out and not self.waiting(sim):
            self.rule.memory(sorted(self.batch, key=lambda d: self.rule.centers.index(d[0])))
            self.batch = []

    def waiting(self, sim):
        """Points of the batch that are still to be proposed."""
        return [c for c in self.rule.centers if c[1] == "used"]


def build(env, dim, nc, batch, n0, M, points, ninit_rejects=False):
    from pySOT import strategy as S

    lb, ub = np.array([-2.0, 1.0, 0.0][:dim]), np.array([3.0, 5.0, 1.0][:dim])
    it = iter(points)
    rest = [0]

    def pts():
        u = next(it, None)
        if u is None:  # afterwards: the van der Corput sequence, off the grid
            rest[0] += 1
            k, v, s = rest[0], 0.0, 0.5
            while k:
                v, k, s = v + s * (k % 2), k // 2, s / 2
            u = (v * 0.97 + 0.011,) * dim
        u = (u,) * dim if not isinstance(u, tuple) else u
        return [np.float64(l + a * (h - l)) for a, l, h in zip(u, lb, ub)]

    d = Design(env, n0, dim, pts)
    s = Surr(env, dim)
    st = S.SOPStrategy(max_evals=M, opt_prob=problem(dim, lb, ub), exp_design=d, surrogate=s, ncenters=nc, asynchronous=batch is None, batch_size=batch, num_cand=2)
    st.design = d
    seen = []
    from pySOT import auxiliary_problems as AP

    real = AP.candidate_dycors

    def stub(*a, **k):
        b = bind(real, a, k)
        env.check(b["num_pts"] == 1, "more than one point per center")
        x = env.arr([pts()])
        seen.append(("candidate_dycors", b, x[0, :].copy()))
        return x

    stub.__signature__ = inspect.signature(real)
    patch_everywhere(env, real, stub)
    rule = Rule(env, nc, M, n0, list(lb), list(ub))
    return st, Watch(env, st, rule, batch is None, seen)


def schedule(env, cfg):
    """Any order of events, rejections and aborts, any values."""
    dim, nc, batch, n0, workers, n, reject, fail, full, points = cfg
    st, w = build(env, dim, nc, batch, n0, 30, points)
    sim = Sim(env, st, workers, reject=reject, fail=fail, full=full, value=lambda x: env.real("f", -100, 100))
    sim.monitors.append(w)
    while len(sim.done) < n0 - (1 if batch is None else 0):
        for _ in range(workers):
            if len(sim.proposed) < n0 and len(sim.out) < workers:
                sim.ask(decide=False)
        sim.complete(0)
    sim.run(n)
    st.centers
    env.reach("end")


def memory(env, cfg):
    """Long runs: the values are free within intervals that fix how they compare; some are arbitrary."""
    dim, nc, batch, n0, script, M, points = cfg
    workers = abs(batch or 1)
    batch = batch if batch is not None and batch > 0 else None  # -w: asynchronous with w workers
    st, w = build(env, dim, nc, batch, n0, M, points)
    k = [0]

    def value(x):
        i = k[0]
        k[0] += 1
        c = script[i] if i < len(script) else "-"
        if c == "?":
            return env.real("f", -1000, 1000)
        base = {"+": 200.0 + 2 * i, "-": 100.0 - 2 * i, "0": 0.0, "1": 1.0, "2": 150.0 - i}[c]
        return env.real("f", base, base + 0.5)

    sim = Sim(env, st, workers, reject=False, fail=False, value=value)
    sim.monitors.append(w)
    while len(sim.done) < len(script):
        while len(sim.out) < sim.workers:
            if sim.ask(decide=False) is None:
                break
        if not sim.out:
            env.check(False, "nothing is outstanding, but no action is proposed")
        sim.complete(0 if batch else len(sim.done) % len(sim.out))
    sim.ask(decide=False)
    env.reach("end")


def radius_rule(env, cfg):
    from pySOT.utils import check_radius_rule

    dim, nc, fails, sigma, thresh = cfg
    X = np.array([0.25] * dim)
    Xc = np.zeros((nc, dim + 5))
    pos = env.array("c", nc, 0, 1)
    rows = []
    for i in range(nc):
        rows.append([pos[i]] + [np.float64(0.25)] * (dim - 1) + [np.float64(0)] * 4 + [np.float64(fails[i])])
    Xc = env.arr(rows)
    sig = env.real("sigma", 0.01, 1) if sigma is None else sigma
    th = env.real("thresh", 0, 1) if thresh is None else thresh
    r = check_radius_rule(X, Xc, sig, dim, nc, d_thresh=th)
    near = env.any([C.lt(C.absolute(C.sub(pos[i], 0.25)), C.mul(C.mul(sig, 0.5 ** fails[i]), C.div(th, math.sqrt(dim)))) for i in range(nc)])
    for i in range(nc):
        env.assume(C.gt(C.absolute(C.sub(C.absolute(C.sub(pos[i], 0.25)), C.mul(C.mul(sig, 0.5 ** fails[i]), C.div(th, math.sqrt(dim))))), 1e-9))
    env.check(bool(r) == (not bool(near)), "the radius rule does not compare with the radius of the selected center")
    env.reach("near" if not r else "far")


GRID = (0.1, 0.13, 0.9, 0.55, 0.3, 0.87, 0.5, 0.7, 0.15, 0.95)
CL = (0.02, 0.98, 0.5, 0.05, 0.95, 0.04, 0.93, 0.06, 0.52, 0.91, 0.03, 0.07)
DENSE = (0.1, 0.18, 0.26, 0.33, 0.42, 0.48, 0.57, 0.2, 0.61, 0.7, 0.3, 0.79, 0.88, 0.45, 0.97)
PLANE = ((0.05, 0.1), (0.9, 0.85), (0.5, 0.45), (0.1, 0.95), (0.95, 0.05), (0.3, 0.7), (0.72, 0.31), (0.35, 0.15), (0.6, 0.95), (0.02, 0.5), (0.8, 0.6), (0.2, 0.33), (0.97, 0.4))
SC = [(1, 2, None, 2, 2, 6, False, True, False, GRID), (1, 3, None, 3, 2, 5, True, False, False, CL), (2, 2, None, 2, 2, 5, True, True, True, GRID), (1, 2, 2, 2, 2, 5, True, True, False, CL), (1, 1, None, 2, 1, 6, True, True, False, GRID), (1, 3, 2, 3, 2, 4, False, True, True, GRID),
      (1, 4, None, 2, 4, 5, False, False, True, CL), (1, 1, 1, 1, 1, 6, True, True, False, GRID)]
ME = [(1, 1, None, 2, "-0" + "+" * 5 + "?" + "++++" + "+?", 60, GRID), (1, 2, None, 3, "-+0" + "+" * 12 + "?", 60, CL), (2, 2, None, 2, "0+" + "+-" * 6 + "?", 40, GRID), (1, 3, 3, 3, "0++" + "+" * 15 + "-?", 60, CL), (1, 2, 2, 2, "0+" + "+" * 18 + "??", 60, GRID),
      (1, 3, None, 4, "0+-2" + "-+2" * 5, 30, CL), (2, 3, 2, 3, "0+-" + "2+--" * 4, 25, GRID), (1, 4, None, 2, "0+" + "+" * 22, 60, CL),
      (1, 3, None, 6, "2-+1?" + "-+2" * 2, 12, DENSE), (2, 4, None, 5, "2+0-?" + "2+" * 3, 12, DENSE), (1, 4, 2, 6, "+2-1+?" + "2+-+", 11, DENSE[::-1]),
      (1, 3, 3, 4, "2-+1" + "?2+" + "+-+" + "2?-", 14, DENSE), (1, 4, 4, 5, "21-+2" + "?2+-" + "+-2+", 15, DENSE[::-1]), (2, 3, 3, 4, "+-21" + "+2?" + "+-+" + "2+-", 14, DENSE[3:]),
      (2, 6, None, 9, "+2-1+-2+?" + "2-+2++", 40, PLANE), (2, 5, 5, 10, "-+2+12-?+2" + "2-+2+" * 2, 60, PLANE),
      (1, 3, None, 3, "0+2" + "+" * 19 + "?+", 26, CL), (2, 2, 2, 2, "0" + "+" * 28 + "?++", 33, GRID), (1, 5, None, 3, "02" + "+" * 26, 60, CL), (2, 4, None, 5, "0" + "+" * 30, 60, PLANE),
      (1, 1, None, 4, "02+++++2+2+++++", 17, CL), (2, 1, 1, 2, "0-+++++2---2++++", 18, PLANE), (1, 1, None, 5, "02++2++++++++++++?", 60, DENSE),
      (2, 4, -3, 5, "0+-2+" + "+" * 16 + "?+", 60, PLANE), (1, 3, -2, 3, "0+2" + "+-+++" * 4, 30, DENSE), (1, 5, -4, 4, "02+-" + "+" * 18, 60, CL)]
CLAIMS = [
    Claim("schedules", schedule, SC, [(a, b, c, d, e, n + 2, g, h, i, j) for a, b, c, d, e, n, g, h, i, j in SC], covers="SOPStrategy: centers, radii, release of centers", bounds="4-6 (6-8) events after the initial design, 1-4 centers, 1-4 workers, any values at given points",
          reach=["end", "search", "selected", "failed"]),
    Claim("memory", memory, ME, ME + [(1, 2, None, 3, "-+0" + "+" * 14 + "???", 60, CL), (1, 3, 3, 3, "0++" + "+" * 17 + "???", 60, CL), (1, 1, None, 2, "-0" + "+" * 5 + "???" + "++++" + "+?", 60, GRID), (2, 4, 2, 4, "0+-2" + "?+?+" * 3, 40, GRID)],
          covers="SOPStrategy: failure counts, tabu tenure, order of the centers", bounds="runs of 13-32 evaluations whose values are free in ordered intervals, with 0-3 arbitrary values", reach=["end", "search", "tabu", "failed", "tenure over"]),
    Claim("radius-rule", radius_rule, [(1, 2, (0, 1), None, 0.5), (2, 1, (3,), 0.2, None), (4, 2, (2, 0), 0.2, None)], [(1, 3, (0, 1, 2), None, 0.5), (2, 2, (3, 1), 0.2, None), (4, 2, (2, 0), 0.2, None)], covers="check_radius_rule", bounds="1-2 (3) selected centers on a line", reach=["near", "far"]),
]
ASSUMPTIONS = [REALS, "evaluated points are given (distances are numbers); values are arbitrary and pairwise different", "at least as many centers as workers, and at least one completed evaluation when points are generated", "the candidate search is arbitrary (C07, C08)"]
