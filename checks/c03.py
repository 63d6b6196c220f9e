"""C03: the ledger of completed, pending and finished evaluations."""
from checks.strat import *
from symx.runner import Claim


def count(env, rows, p):
    n = 0
    for r in rows:
        n = n + env.ite(rows_equal(env, r, p), 1, 0)
    return n


class Ledger:
    def __init__(self, env):
        self.env = env

    def after(self, sim):
        env, s = self.env, sim.s
        n, out = len(sim.done), [x for _, x in sim.out]
        env.check(s.num_evals == n, "the number of completed evaluations is wrong")
        env.check(s.pending_evals == len(out), "the number of pending evaluations is wrong")
        env.check(np.shape(s.X) == (n, s.opt_prob.dim), "the history does not have one point per completed evaluation")
        env.check(np.shape(s.fX) == (n, 1), "the history does not have one value per completed evaluation")
        for i, (x, f, r) in enumerate(sim.done):
            env.check(env.all([rows_equal(env, s.X[i, :], x), C.eq(s.fX[i, 0], f)]), "a completed evaluation is recorded with the wrong point or value, or out of order")
        pend = [s.Xpend[i, :] for i in range(len(s.Xpend))]
        env.check(len(pend) == len(out), "the list of pending points has the wrong length")
        for x in out:
            env.check(C.eq(count(env, pend, x), count(env, out, x)), "the pending points are not the outstanding evaluations")
        env.check(len(s.fevals) == len(sim.finished) and all(a is b for a, b in zip(s.fevals, sim.finished)), "the log does not hold every finished evaluation once")

    idle = after


def schedule(env, cfg):
    kind, asyn, batch, ninit, dim, symbolic, conv, workers, n = cfg[:9]
    st = make(env, 50, asyn, batch, ninit, dim=dim, converge=conv, kind=kind, symbolic=bool(symbolic))
    sim = Sim(env, st, workers, full=False)
    mon = Ledger(env)
    sim.monitors.append(mon)
    mon.after(sim)
    if len(cfg) > 9:  # from the adaptive phase on, with every worker busy
        for _ in range(ninit):
            sim.ask(decide=False)
            sim.complete(0)
        for _ in range(workers):
            sim.ask(decide=False)
    sim.run(n)
    env.note("X", st.X)
    env.note("fX", st.fX)
    env.reach("end")


def prefilled(env, cfg):
    """Several evaluations are outstanding; every order of their outcomes."""
    asyn, batch, ninit, dim, k = cfg
    st = make(env, 50, asyn, batch, ninit, dim=dim, symbolic=True)
    sim = Sim(env, st, k, full=False)
    mon = Ledger(env)
    sim.monitors.append(mon)
    for _ in range(k):
        sim.ask(decide=False)
        mon.after(sim)
    while sim.out:
        i = env.choice("which", len(sim.out))
        if env.flag("fails"):
            sim.abort(i, env.choice("how", 2))
        else:
            sim.complete(i)
        mon.after(sim)
    env.reach("end")


A_, S_ = True, False
CLAIMS = [
    Claim("schedules", schedule,
          [("base", A_, None, 2, 1, 0, None, 3, 6), ("base", S_, 2, 2, 2, 0, None, 2, 6), ("base", A_, None, 1, 1, 0, "complete", 2, 6), ("base", A_, None, 1, 1, 1, None, 2, 5), ("base", S_, 2, 1, 1, 1, None, 2, 5), ("srbf", A_, None, 1, 1, 0, None, 2, 5), ("base", A_, None, 1, 1, 0, "complete", 2, 4, 1)],
          [("base", A_, None, 2, 1, 0, None, 3, 8), ("base", S_, 3, 2, 2, 0, None, 3, 8), ("base", A_, None, 1, 1, 0, "complete", 3, 8), ("base", A_, None, 1, 1, 1, None, 3, 7), ("base", S_, 2, 1, 1, 1, None, 2, 7), ("base", S_, 2, 1, 1, 0, "generate", 2, 8), ("srbf", A_, None, 1, 1, 0, None, 2, 7), ("base", A_, None, 1, 1, 0, "complete", 3, 6, 1)],
          covers="all event orders from the start, with arbitrary (also equal) points and values", bounds="up to 5-6 (thorough 8) events, up to 3 workers, 1-2 variables", reach=["end"]),
    Claim("outcomes", prefilled, [(A_, None, 1, 1, 3), (A_, None, 3, 1, 3), (S_, 3, 1, 1, 1), (A_, None, 1, 2, 2)], [(A_, None, 1, 1, 4), (A_, None, 4, 1, 4), (A_, None, 2, 2, 3)],
          covers="all orders and kinds of outcomes of outstanding evaluations, all points", bounds="3 (4) outstanding evaluations", reach=["end"]),
]
ASSUMPTIONS = ["the controller accepts or rejects a proposal before the next event (as all POAP controllers do)"]
