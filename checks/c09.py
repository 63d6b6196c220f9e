"""C09: the search radius follows the trust-region rules; merit weights cycle."""
import math

from checks.strat import *
from symx.runner import Claim

LEVELS = 6  # halvings from the initial radius to the minimum


class Rule:
    """The documented rule; step() is told whether the step improved."""

    def __init__(self, limit):
        self.limit = limit
        self.restart()

    def restart(self):
        self.level, self.run, self.fails, self.epoch, self.converged, self.best = 0, 0, 0, 0, False, None

    def state(self):
        return (self.level, self.run, self.fails, self.converged)

    def step(self, better):
        if better:
            self.run = max(self.run, 0) + 1
            self.fails = 0
        else:
            self.run = min(self.run, 0) - 1
            self.fails += 1
        if self.run == -self.limit:
            self.level, self.run, self.epoch = self.level + 1, 0, self.epoch + 1
        elif self.run == 3:
            self.level, self.run, self.epoch = max(self.level - 1, 0), 0, self.epoch + 1
        if self.fails >= 4 * self.limit or self.level >= LEVELS:
            self.converged = True

    def radius(self):
        return 0.2 * 0.5 ** self.level


def limit(dim, batch):
    return max(math.ceil(dim / (batch or 1)), math.ceil(4 / (batch or 1)))


def prefixes(lim):
    """A shortest sequence of steps into every reachable state of the counters (not converged)."""
    seen, todo, out = set(), [""], []
    while todo:
        nxt = []
        for p in todo:
            r = Rule(lim)
            for c in p:
                r.step(c == "S")
            if r.converged or r.state() in seen:
                continue
            seen.add(r.state())
            out.append(p)
            nxt += [p + "S", p + "F"] if p else ["S"]
        todo = nxt
    return out


class Watch:
    """Compares the radius, the weights and the restarts with the rule."""

    def __init__(self, env, st, rule, asyn, batch, seen, weights, restarts):
        self.env, self.st, self.rule, self.asyn, self.batch, self.seen = env, st, rule, asyn, batch, seen
        self.weights, self.restarts, self.nw, self.n = weights, restarts, 0, 0
        self.run, self.tag, self.values, self.calls = 0, {}, [], len(st.design.calls)
        self.steps = self.lost = 0
        self.design = set()
        self.sync()

    def sync(self):
        """A restart is seen by a new design."""
        d = self.st.design
        if len(d.calls) > self.calls:
            self.env.check(self.rule.converged, "the search restarts although it has not converged")
            self.env.check(len(d.calls) == self.calls + 1, "the search restarts twice")
            self.calls = len(d.calls)
            self.run += 1
            self.values, self.lost = [], 0
            self.rule.restart()
            self.env.reach("restart")
        for r in getattr(d, "given", []):
            self.design.add(key(r))

    def look(self, sim, *a):
        self.sync()
        env = self.env
        for name, b in self.seen[self.n:]:
            env.check(not self.rule.converged, "points are generated although the search has converged")
            env.check(b["sampling_radius"] == self.rule.radius(), "the search radius is not the one of the rule")
            for w in b["weights"]:
                env.check(w == self.weights[self.nw % len(self.weights)], "the merit weights are not used in turn")
                self.nw += 1
            env.check(len(b["weights"]) == b["num_pts"] == (self.batch or 1), "not as many weights as points")
        self.n = len(self.seen)

    proposal = idle = look

    def terminate(self, sim):
        self.look(sim)
        if not self.restarts:
            self.env.check(self.rule.converged, "the run terminates although the search has not converged")
            self.env.reach("converged")

    def accepted(self, sim, x, r):
        self.tag[id(r)] = (self.run, self.rule.epoch, key(x) in self.design)

    def abort(self, sim, x, r):
        self.sync()
        run, epoch, initial = self.tag[id(r)]
        if not initial and run == self.run:
            self.lost += 1

    def completed(self, sim, x, f, r):
        self.sync()
        run, epoch, initial = self.tag[id(r)]
        if initial or run != self.run or epoch != self.rule.epoch:
            self.env.reach("ignored" if not initial else "initial")
            return
        self.values.append(f)
        if not self.asyn and len(self.values) + self.lost < self.batch:
            return
        v = self.env.minimum(self.values)
        self.values, self.lost = [], 0
        b = self.rule.best
        if b is None:
            better = True
        else:
            least = C.sub(b, C.mul(0.001, C.absolute(b)))
            if C.is_sym(v) or C.is_sym(b) or not self.env.symbolic:  # not so close that rounding decides
                self.env.assume(self.env.any([C.gt(C.absolute(C.sub(v, least)), 1e-9), self.env.all([C.eq(b, 0), C.eq(v, 0)])]))
            better = bool(C.lt(v, least))
        if better:
            self.rule.best = v
        self.rule.step(better)
        self.steps += 1


def build(env, kind, dim, batch, weights, restarts, M=400):
    from pySOT import strategy as S

    pts = Points(env, dim, False)
    d = Design(env, 2, dim, pts)
    s = Surr(env, dim)
    kw = dict(weights=list(weights)) if weights else {}
    st = getattr(S, kind)(max_evals=M, opt_prob=problem(dim), exp_design=d, surrogate=s, asynchronous=batch is None, batch_size=batch, num_cand=2, use_restarts=restarts, **kw)
    st.design = d
    seen = []
    stub_search(env, st, seen)
    w = Watch(env, st, Rule(limit(dim, batch)), batch is None, batch, seen, weights or [0.3, 0.5, 0.8, 0.95], restarts)
    return st, w


def lead(sim, w, prefix, batch):
    """The initial design and the steps of the prefix, with given values."""
    env = sim.env
    vals = {"S": lambda b: np.float64(7.0) if b is None else b - 1.0 - abs(b) / 64.0, "F": lambda b: b + 0.25}
    for _ in range(2):
        sim.ask(decide=False)
    while sim.out:
        sim.complete(0, np.float64(50.0 + len(sim.out)))
    for c in prefix:
        v = vals[c](w.rule.best)
        for i in range(batch or 1):
            sim.ask(decide=False)
        for i in range(batch or 1):
            sim.complete(len(sim.out) - 1, v + i)


def rules(env, cfg):
    """From every reachable state of the counters: steps with any values."""
    kind, dim, batch, part, parts, k, weights, restarts = cfg
    ps = prefixes(limit(dim, batch))[part::parts]
    p = ps[env.choice("state", len(ps))]
    st, w = build(env, kind, dim, batch, weights, restarts)
    sim = Sim(env, st, batch or 1, reject=False, fail=False, value=lambda x: env.real("f", -1000, 1000))
    sim.monitors.append(w)
    lead(sim, w, p, batch)
    for _ in range(k):
        for _ in range(batch or 1):
            if sim.terminated:
                break
            sim.ask(decide=False)
        if w.run or sim.terminated:
            break
        while sim.out:
            sim.complete(env.choice("which", len(sim.out)) if batch and len(sim.out) == batch else 0)
    if not sim.terminated:
        sim.ask(decide=False)
    if w.rule.converged:
        env.check(not restarts and sim.terminated, "the search has converged, but does not restart")
    env.check(w.steps >= len(p), "steps are missing")
    env.reach("end")


def schedules(env, cfg):
    """Any order of events and any values, with outstanding evaluations across radius changes and restarts."""
    kind, dim, batch, workers, prefix, n, reject, fail, dirs = cfg
    st, w = build(env, kind, dim, batch, (0.25, 0.75, 1.0) if dim == 1 else None, True)
    if dirs:  # values that lead to a change soon; the solver decides the rest
        sim = Sim(env, st, workers, reject=reject, fail=fail, value=lambda x: env.choice("better", 2) and np.float64(500.0) or (w.rule.best if w.rule.best is not None else np.float64(9.0)) - 1.0)
    else:
        sim = Sim(env, st, workers, reject=reject, fail=fail, value=lambda x: env.real("f", -1000, 1000))
    sim.monitors.append(w)
    lead(sim, w, prefix, batch)
    sim.run(n)
    w.look(sim)
    env.reach("end")


def batches(env, cfg):
    """Batches of which any evaluations but the last one fail: the step is made of those that complete."""
    kind, dim, batch, prefix, n = cfg
    st, w = build(env, kind, dim, batch, None, True)
    sim = Sim(env, st, batch, reject=False, fail=False, value=lambda x: env.real("f", -1000, 1000))
    sim.monitors.append(w)
    lead(sim, w, prefix, batch)
    for _ in range(n):
        for _ in range(batch):
            sim.ask(decide=False)
        if w.run or sim.terminated:
            break
        while sim.out:
            i = env.choice("which", len(sim.out))
            if len(sim.out) > 1 and env.flag("fails"):
                sim.abort(i, env.choice("cancelled", 2) if w.lost == 0 else 0)
                env.reach("failure")
            else:
                sim.complete(i)
    sim.ask(decide=False)
    env.reach("end")


def late(env, cfg):
    """Evaluations outstanding across a radius change complete at any later moment, with any values."""
    kind, early, prefix, n = cfg
    st, w = build(env, kind, 1, None, None, True)
    sim = Sim(env, st, early + 1, reject=False, fail=False, value=lambda x: env.real("f", -1000, 1000))
    sim.monitors.append(w)
    lead(sim, w, "S", None)
    for _ in range(early):
        sim.ask(decide=False)
    old = [r for r, _ in sim.out]
    for c in prefix:
        sim.ask(decide=False)
        sim.complete(len(sim.out) - 1, w.rule.best + 1.0 if c == "F" else w.rule.best - 1.0 - abs(w.rule.best) / 64.0)
    for _ in range(n):
        sim.ask(decide=False)
        if w.run:
            break
        left = [i for i, (r, _) in enumerate(sim.out) if r in old]
        if left and env.flag("late"):
            sim.complete(left[0])
        else:
            sim.complete(len(sim.out) - 1)
    if not sim.terminated and len(sim.out) < sim.workers:
        sim.ask(decide=False)
    env.reach("end")


def again(env, cfg):
    """A second run starts afresh: the first step improves, the radius is back, late evaluations of the first run are no steps."""
    kind, batch, early, lead1, n = cfg
    st, w = build(env, kind, 1, batch, None, True)
    sim = Sim(env, st, (batch or 1) + early, reject=False, fail=False, value=lambda x: env.real("f", -1000, 1000))
    sim.monitors.append(w)
    lead(sim, w, "S", batch)
    for _ in range(early):  # kept outstanding until the next run
        sim.ask(decide=False)
    old = [r for r, _ in sim.out]
    steps = lambda i: lead1[i] if i < len(lead1) else "F"
    for i in range(40):
        sim.ask(decide=False)
        if w.run:
            break
        for _ in range((batch or 1) - 1):
            sim.ask(decide=False)
        for _ in range(batch or 1):
            sim.complete(len(sim.out) - 1, w.rule.best + 1.0 if steps(i) == "F" else w.rule.best - 1.0 - abs(w.rule.best) / 64.0)
    env.check(w.run == 1, "no restart although no step improves")
    if len(sim.out) < sim.workers:
        sim.ask(decide=False)
    for i, (r, _) in reversed(list(enumerate(sim.out))):
        if r not in old:
            sim.complete(i, np.float64(60.0))
    for _ in range(n):
        for _ in range(batch or 1):
            if len(sim.out) < sim.workers:
                sim.ask(decide=False)
        if w.run > 1:
            break
        left = [i for i, (r, _) in enumerate(sim.out) if r in old]
        if left and env.flag("late"):
            sim.complete(left[0])
        else:
            for _ in range(batch or 1):
                sim.complete(len(sim.out) - 1)
    if not sim.terminated and len(sim.out) < sim.workers:
        sim.ask(decide=False)
    env.reach("end")


SR, DY = "SRBFStrategy", "DYCORSStrategy"
FULL = [(SR, 1, None, i, 4, 3, None, True) for i in range(4)] + [(DY, 1, None, 0, 3, 3, (0.5,), True), (SR, 6, None, 1, 8, 3, None, True), (SR, 1, 2, 0, 1, 2, None, True), (DY, 10, 4, 0, 3, 2, (0.0, 1.0), True), (SR, 3, 5, 0, 1, 1, None, True),
                                                                   (SR, 1, None, 2, 5, 2, None, False), (SR, 2, 2, 0, 2, 2, None, False)]
CLAIMS = [
    Claim("rules", rules, FULL,
          [(k, 1, None, i, 4, 4, None, r) for k in (SR, DY) for i in range(4) for r in (True, False)] + [(SR, 6, None, i, 6, 4, None, True) for i in range(6)] + [(DY, 5, None, i, 4, 3, (0.5,), True) for i in range(4)] +
          [(SR, 1, 2, 0, 1, 3, None, True), (DY, 10, 4, 0, 1, 2, (0.0, 1.0), True), (SR, 3, 5, 0, 1, 2, None, True), (SR, 7, 3, 0, 1, 2, None, False)],
          covers="SRBFStrategy.adjust_step, get_weights, generate_evals; DYCORSStrategy.generate_evals", bounds="from every reachable state of the counters, 2-3 (4) steps with any values", reach=["end", "restart", "converged"]),
    Claim("schedules", schedules,
          [(SR, 1, None, 2, "S", 6, True, True, False), (SR, 1, None, 2, "SFF", 6, False, True, False), (DY, 1, None, 3, "SFFFFSS", 5, False, True, False), (SR, 1, None, 2, "SFFFFFFFFFFFFFFF", 6, False, False, False), (SR, 2, 2, 2, "SF", 8, True, False, False)],
          [(SR, 1, None, 2, "S", 8, True, True, False), (SR, 1, None, 2, "SFF", 7, True, True, False), (DY, 1, None, 3, "SFFFFSS", 7, False, True, False), (SR, 1, None, 3, "SFFFFFFFFFFFFFFF", 7, False, True, False), (SR, 2, 2, 2, "SF", 11, True, False, False),
           (DY, 1, None, 3, "S", 12, False, False, True)],
          covers="event orders around radius changes and restarts", bounds="5-8 (7-12) events, 2-3 workers", reach=["end", "ignored", "restart"]),
    Claim("batches", batches, [(SR, 1, 2, "SF", 2), (DY, 2, 3, "SF", 1), (SR, 1, 4, "S", 1)], [(SR, 1, 2, "SF", 3), (DY, 2, 3, "SF", 2), (SR, 6, 3, "SFS", 2), (SR, 1, 4, "SS", 1)],
          covers="synchronous batches with failures", bounds="1-2 (1-3) batches of 2-4 evaluations, any order, any of them but the last to finish fail, any values", reach=["end", "failure"]),
    Claim("late", late, [(SR, 1, "FFFF", 6), (DY, 2, "FFFF", 5), (SR, 1, "SS", 6), (SR, 2, "FFFFFFFF", 6)], [(SR, 2, "FFFF", 7), (DY, 2, "SS", 7), (SR, 3, "FFFFFFFF", 7), (SR, 2, "FFFFSFFFFSSS", 7)],
          covers="evaluations that finish after one or more radius changes", bounds="1-2 (3) late evaluations and 3-5 (5-7) steps with any values", reach=["end", "ignored"]),
    Claim("second-run", again, [(SR, None, 1, "", 6), (DY, None, 2, "SS", 5), (SR, 2, 0, "FFS", 5)], [(SR, None, 2, "SS", 8), (DY, None, 3, "", 7), (SR, 2, 0, "FFS", 7), (SR, None, 1, "SFFS", 8)], covers="state after a restart",
          bounds="0-2 (3) late evaluations of the first run, 4-5 (5-8) steps with any values", reach=["end", "restart", "initial"]),
]
ASSUMPTIONS = [REALS, "in synchronous mode the last evaluation of a batch to finish does not fail", "a value is not within 1e-9 of the limit of an improvement (rounding), except 0 against 0", "the candidate search itself is arbitrary (C07, C08)"]
