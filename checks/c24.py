"""C24: random search evaluates its points exactly once each."""
from checks.cand import *
from checks.strat import *
from symx.runner import Claim

LB, UB = np.array([-2.0, 0.25, 1.0]), np.array([3.0, 1.0, 9.5])


class Once:
    """Each of the M points is proposed whenever it is neither outstanding nor completed."""

    def __init__(self, env, M):
        self.env, self.M, self.state = env, M, {}

    def proposal(self, sim, x, p):
        k = key(x)
        self.env.check(self.state.get(k, "todo") == "todo", "a point is proposed again although it is outstanding or completed")
        self.state[k] = "out"
        self.env.check(len(self.state) <= self.M, "more points than the budget")

    def rejected(self, sim, x):
        self.state[key(x)] = "todo"
        self.env.reach("rejected")

    def abort(self, sim, x, r):
        self.state[key(x)] = "todo"
        self.env.reach("failed")

    def completed(self, sim, x, f, r):
        self.env.check(self.state[key(x)] == "out", "a point was completed that is not outstanding")
        self.state[key(x)] = "done"

    def count(self, s):
        return list(self.state.values()).count(s)

    def idle(self, sim):
        self.env.check(self.count("out") + self.count("done") == self.M, "a worker is left idle although points are to be evaluated")
        self.env.check(self.count("out") > 0, "all points have completed, but the run is not terminated")

    def terminate(self, sim):
        self.env.check(self.count("done") == self.M, "the run is terminated although points have not completed")
        self.env.reach("terminated")


def schedule(env, cfg):
    from pySOT.strategy import RandomStrategy

    M, workers, n, full, end = cfg
    draws = [0]

    def nxt():
        draws[0] += 1
        return (draws[0] % 64) / 64.0

    env.draw = nxt
    st = RandomStrategy(max_evals=M, opt_prob=problem(1))
    sim = Sim(env, st, workers, full=full, value=lambda x: env.real("f", -10, 10))
    mon = Once(env, M)
    sim.monitors.append(mon)
    sim.run(n)
    if end:
        sim.drain()
        env.check(len(sim.done) == M and mon.count("done") == M, "the run does not complete every point exactly once")
        env.reach("end")


def uniform(env, cfg):
    """Every coordinate of every point is a uniform draw of its own over the range of the variable."""
    from pySOT.strategy import RandomStrategy

    dim, M, iv = cfg
    prob = problem(dim, LB[:dim].copy(), UB[:dim].copy(), iv)
    env.take_logs("draws")
    st = RandomStrategy(max_evals=M, opt_prob=prob)
    draws = env.take_logs("draws")
    sim = Sim(env, st, M, reject=False, fail=False)
    for _ in range(M):
        sim.ask(decide=False)
    env.check(len(sim.proposed) == M, "not as many points as the budget")
    same(env, prob.lb, LB[:dim], "the problem was modified")
    same(env, prob.ub, UB[:dim], "the problem was modified")
    used = []
    for x in sim.proposed:
        shape(env, x, (dim,), "point")
        for j in range(dim):
            lo, hi = LB[j], UB[j]
            env.check(env.all([env.leq(lo, x[j]), env.leq(x[j], hi)]), "a point outside the bounds")
            if j in iv:
                continue
            for i, (v, a, b) in enumerate(draws):
                if i not in used and bool(env.close(C.mul(C.sub(x[j], lo), float(b) - float(a)), C.mul(C.sub(v, a), hi - lo))):
                    used.append(i)
                    break
            else:
                env.check(False, "a coordinate is not a uniform draw of its own over the range of the variable")
    env.reach("end")


def wide(env, cfg):
    """Any bounds: points stay within them, integer variables are integers."""
    from pySOT.strategy import RandomStrategy

    dim, iv, M = cfg
    b = Box(env, dim, iv, 1)
    st = RandomStrategy(max_evals=M, opt_prob=b.prob)
    sim = Sim(env, st, M, reject=False, fail=False)
    for _ in range(M):
        sim.ask(decide=False)
    for x in sim.proposed:
        b.feasible(env, np.atleast_2d(x), "a random point")
    env.reach("end")


CLAIMS = [
    Claim("schedules", schedule, [(1, 1, 7, True, True), (2, 2, 7, True, True), (3, 2, 7, False, True), (3, 4, 7, False, True), (4, 3, 6, False, True)],
          [(1, 1, 10, True, True), (2, 2, 10, True, True), (3, 2, 10, False, True), (3, 4, 9, False, True), (5, 3, 9, False, True)],
          covers="RandomStrategy with POAP's RetryStrategy", bounds="any 6-7 (thorough 9-10) events of 1-4 workers with rejections, kills and cancellations, then to the end; budgets 1-5", reach=["end", "terminated", "rejected", "failed"]),
    Claim("uniform", uniform, [(1, 3, ()), (2, 2, ()), (3, 2, (1,)), (3, 1, ())], [(1, 6, ()), (2, 4, ()), (3, 3, (1,)), (3, 3, ())], covers="generation of the points", bounds="1-3 (6) points in 1-3 dimensions, given bounds, any draws", reach=["end"]),
    Claim("bounds", wide, [(2, (), 1), (2, (0,), 1), (2, (0, 1), 1), (1, (0,), 2)], [(3, (1,), 2), (3, (), 2), (2, (0, 1), 2)], covers="rounding and bounds", bounds="any bounds, any draws, 1-2 points in 1-3 dimensions", reach=["end"]),
]
ASSUMPTIONS = [REALS, "every draw of the generator is an arbitrary value of its range; for the schedules the draws are pairwise different"]
