"""C05: the surrogate holds exactly the current run's completed evaluations."""
from checks.strat import *
from symx.runner import Claim


def schedule(env, cfg):
    kind, asyn, batch, ninit, conv, workers, n, nknown = cfg
    extra = vals = None
    known = []
    if nknown:
        extra = np.array([[1 - (i + 1) / 128.0] for i in range(nknown)])
        vals = env.array("val", (nknown, 1), -10, 10)
        known = [(extra[i], vals[i, 0]) for i in range(nknown)]
    st = make(env, 40, asyn, batch, ninit, converge=conv, kind=kind, extra=extra, vals=vals)
    sim = Sim(env, st, workers, full=False)
    mon = Contents(env, st, known)
    sim.monitors.append(mon)
    mon.after(sim)
    sim.run(n)
    env.reach("run %d" % min(mon.run, 1))


class Seen:
    """The data given to the candidate search are the data of the run, and all pending points."""

    def __init__(self, env, mon):
        self.env, self.mon, self.seen, self.n = env, mon, [], 0

    def idle(self, sim):
        pass

    def proposal(self, sim, x, p):
        env = self.env
        for name, b in self.seen[self.n:]:
            X, f = b["X"], b["fX"]
            self.mon.match([list(r) for r in X], flat(f), "the data given to the candidate search")
            pend = [key(r) for r in b["Xpend"]]
            env.check(sorted(pend) == sorted(key(o) for _, o in sim.out), "the candidate search is not given all pending points")
            self.n += 1


def radius(env, cfg):
    """Evaluations stay outstanding while the search radius changes, possibly several times."""
    from pySOT import strategy as S

    kind, batch, ninit, early, steps, n = cfg
    asyn = batch is None
    cls = {"srbf": S.SRBFStrategy, "dycors": S.DYCORSStrategy}[kind]
    pts = Points(env, 1, False)
    d = Design(env, ninit, 1, pts)
    s = Surr(env, 1)
    st = cls(max_evals=60, opt_prob=problem(1), exp_design=d, surrogate=s, asynchronous=asyn, batch_size=batch, num_cand=2)
    st.design, st.surr = d, s
    mon = Contents(env, st)
    seen = Seen(env, mon)
    stub_search(env, st, seen.seen)
    sim = Sim(env, st, 4, reject=False, fail=False)
    sim.monitors += [mon, seen]
    r0 = st.sampling_radius
    for _ in range(ninit):
        sim.ask(decide=False)
    while sim.out:
        sim.complete(0)
    mon.after(sim)
    if asyn:
        for _ in range(early):
            sim.ask(decide=False)
        changed = False
        for _ in range(steps):
            sim.ask(decide=False)
            sim.complete(len(sim.out) - 1)
            mon.after(sim)
            changed = changed or st.sampling_radius != r0
        if changed:
            env.reach("radius changed")
        for _ in range(early):
            i = env.choice("which", min(early, len(sim.out)))
            sim.complete(i)
            mon.after(sim)
            sim.ask(decide=False)
            mon.after(sim)
    else:
        for _ in range(steps):
            for _ in range(batch):
                sim.ask(decide=False)
            while sim.out:
                sim.complete(env.choice("which", len(sim.out)) if n else 0)
                mon.after(sim)
        if st.sampling_radius != r0:
            env.reach("radius changed")


def restart(env, cfg):
    """The search of SRBF converges with evaluations outstanding; they complete in the middle of the next run."""
    from pySOT import strategy as S

    kind, early, mid = cfg
    cls = {"srbf": S.SRBFStrategy, "dycors": S.DYCORSStrategy}[kind]
    pts = Points(env, 1, False)
    d = Design(env, 2, 1, pts)
    s = Surr(env, 1)
    st = cls(max_evals=60, opt_prob=problem(1), exp_design=d, surrogate=s, asynchronous=True, num_cand=2)
    st.design, st.surr = d, s
    mon = Contents(env, st)
    seen = Seen(env, mon)
    stub_search(env, st, seen.seen)
    sim = Sim(env, st, early + 1, reject=False, fail=False)
    sim.monitors += [mon, seen]
    sim.ask(decide=False), sim.ask(decide=False) if early else None
    while sim.out:
        sim.complete(0)
    last = None
    sim.ask(decide=False)
    sim.complete(0)
    f0 = sim.done[-1][1]
    for _ in range(early):
        sim.ask(decide=False)
    for i in range(40):
        sim.ask(decide=False)
        if mon.run > 0 or st.surr.resets > mon.resets:
            break
        f = env.real("f", -100, 100)
        env.assume(C.ge(f, f0))
        sim.complete(len(sim.out) - 1, f)
        mon.after(sim)
    env.check(i < 30, "no restart although no step improves")
    mon.after(sim)
    env.reach("restarted")
    old = [o for o in sim.out if mon.tag[id(o[0])] == 0]
    for _ in range(mid):
        i = env.choice("which", len(sim.out))
        sim.complete(i)
        mon.after(sim)
        sim.ask(decide=False)
        mon.after(sim)


A_, S_ = True, False
CLAIMS = [
    Claim("schedules", schedule,
          [("base", A_, None, 1, "complete", 2, 6, 0), ("base", A_, None, 2, "complete", 3, 5, 1), ("base", A_, None, 1, "generate", 2, 6, 0), ("base", S_, 2, 1, "batch", 2, 7, 0), ("base", S_, 2, 1, "complete", 2, 6, 1), ("srbf", S_, 2, 1, None, 2, 5, 0)],
          [("base", A_, None, 1, "complete", 3, 8, 0), ("base", A_, None, 2, "complete", 3, 7, 1), ("base", A_, None, 1, "generate", 2, 8, 0), ("base", S_, 2, 1, "batch", 2, 9, 0), ("base", S_, 2, 1, "complete", 2, 8, 1), ("srbf", S_, 4, 1, None, 4, 7, 0)],
          covers="all event orders, restarts at any moment", bounds="up to 5-7 (thorough 7-9) events, 2-3 workers, restarts at any completion", reach=["run 0", "run 1"]),
    Claim("radius-changes", radius,
          [("srbf", None, 2, 2, 6, 0), ("dycors", None, 1, 1, 5, 0), ("srbf", 4, 2, 0, 3, 0), ("dycors", 2, 1, 0, 3, 1)], [("srbf", None, 2, 3, 8, 0), ("dycors", None, 2, 2, 8, 0), ("srbf", 4, 2, 0, 4, 0), ("dycors", 2, 1, 0, 5, 1)],
          covers="SRBFStrategy, DYCORSStrategy with outstanding evaluations across radius changes; data passed to the candidate search", bounds="5-6 (8) steps with any values, 1-3 early evaluations finishing late", reach=["radius changed"]),
    Claim("srbf-restart", restart, [("srbf", 1, 4), ("dycors", 2, 3)], [("srbf", 2, 6), ("dycors", 3, 4)], covers="restart of the radius-based strategies with evaluations outstanding",
          bounds="convergence by failed steps, 1-2 (3) late evaluations, then 3-4 (6) completions in any order", reach=["restarted"]),
]
ASSUMPTIONS = ["points are distinct (they only have to be told apart)", "a restart is the moment the surrogate is reset"]
