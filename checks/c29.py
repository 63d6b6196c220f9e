"""C29: with the same random draws and the same results, everything proposes the same."""
from checks.cand import *
from checks.models import *
from checks.strat import *
from checks.tape import Tape, outside
from symx.runner import Claim


def twice(env, f, what):
    """The same calls with the same draws; what they return is the same, and nothing else is drawn."""
    t = Tape(env)
    out = []
    for mode in (t.recording, t.playing):
        env.take_logs("seed")
        env.take_logs("fixed")
        with mode():
            try:
                out.append(f())
            except (ValueError, np.linalg.LinAlgError) as e:
                out.append(type(e))
        env.check(not env.take_logs("seed"), "%s seeds the generator of the caller" % what)
        env.check(not env.take_logs("fixed"), "%s draws from a generator with a fixed seed, that of the caller has no effect" % what)
    env.check(not t.lost and not t.left, "%s makes other random draws when it is repeated" % what)
    a, b = out
    env.check(isinstance(a, type) == isinstance(b, type) and (not isinstance(a, type) or a is b), "%s fails only once" % what)
    if not isinstance(a, type):
        env.check(len(a) == len(b), "%s returns something else when it is repeated" % what)
        for x, y in zip(a, b):
            same(env, np.asarray(x) if not isinstance(x, np.ndarray) else x, np.asarray(y) if not isinstance(y, np.ndarray) else y, "%s returns something else when it is repeated with the same draws" % what)
        env.reach("end")
    return out


def given(env, f):
    """A prediction is a function of the point: the values of the first call with a given number of points and position are used again."""
    vals = {}

    def predict(xx):
        out = []
        for i in range(len(xx)):
            if i not in vals:
                with outside(env):
                    vals[i] = env.real("pred", -10, 10)
            out.append([vals[i]])
        return env.arr(out)

    return predict


def searches(env, cfg):
    name, dim, iv, nX, npend, ncand, num, subset = cfg
    b = Box(env, dim, iv, nX, npend, fixed=True)
    env.cdist = lambda a, c: np.array([[1.0 + (i + 2 * j) % 3 for j in range(len(c))] for i in range(len(a))])
    given_ = given(env, None)
    r, p = env.real("radius", 0.003, 0.2), env.real("prob", 0, 1)

    def f():
        kw = dict(num_pts=num, opt_prob=b.prob, surrogate=Surr(env, dim, given_), X=b.X, fX=b.fX, Xpend=b.P, weights=[0.5, 0.75][:num], dtol=0.5, num_cand=ncand)
        if subset is not None:
            kw["subset"] = np.array(subset, dtype=int)
        if name != "candidate_uniform":
            kw["sampling_radius"] = r
        if name == "candidate_dycors":
            kw["prob_perturb"] = p
        return [search(name)(**kw)]

    twice(env, f, name)


def designs(env, cfg):
    from pySOT import experimental_design as ED

    kind, dim, n, it, iv = cfg
    env.cdist = lambda a, b: np.ones((len(a), len(b)))
    env.matrix_rank = lambda M: M.shape[1]
    lb, ub = np.array([-3.0, 2.0, -10.0][:dim]), np.array([5.0, 9.0, 10.0][:dim])

    def f():
        d = ED.TwoFactorial(dim) if kind == "TwoFactorial" else getattr(ED, kind)(dim, n, iterations=it)
        return [d.generate_points(lb=lb, ub=ub, int_var=np.array(iv, dtype=int))]

    twice(env, f, kind)


def genetic(env, cfg):
    from pySOT.utils import GeneticAlgorithm

    dim, iv, pop, gen, start, extreme = cfg
    b = Box(env, dim, iv, 1, fixed=True)
    env.randn_range = (-4, 4)
    if start == "SLHD":
        env.cdist = lambda a, c: np.ones((len(a), len(c)))
        env.matrix_rank = lambda M: M.shape[1]

    def f():
        env.extreme = extreme
        try:
            g = GeneticAlgorithm(lambda x: env.array("val", (len(np.atleast_2d(x)),), -10, 10), dim, b.lb, b.ub, int_var=np.array(iv, dtype=int), pop_size=pop, num_gen=gen, start=start)
            g.tournament_size = 2
            x, v = g.optimize()
        finally:
            env.extreme = None
        return [x, v]

    twice(env, f, "the genetic algorithm")


def acquisition(env, cfg):
    """ei_ga and lcb_ga with the real genetic algorithm (its draws at an end of their ranges)."""
    from pySOT import auxiliary_problems as AP
    from pySOT import utils

    kind, num, extreme = cfg
    b = Box(env, 1, (), 2, 1, fixed=True)
    env.randn_range = (-4, 4)
    GA = utils.GeneticAlgorithm

    def small(function, dim, lb, ub, *a, **k):
        names = ("int_var", "pop_size", "num_gen", "start")
        k.update(zip(names, a))
        k.update(pop_size=2, num_gen=1, start="Random")
        return GA(function, dim, lb, ub, **k)

    patch_everywhere(env, GA, small)
    env.cdist = lambda a, c: np.full((len(a), len(c)), 1.0)

    class M:
        def predict(self, xx):
            return env.array("mu", (len(xx), 1), -10, 10)

        def predict_std(self, xx):
            return np.full((len(xx), 1), 0.5)

    def f():
        env.extreme = extreme
        try:
            kw = dict(num_pts=num, opt_prob=b.prob, surrogate=M(), X=b.X, fX=b.fX, Xpend=b.P, dtol=0.125)
            x = AP.ei_ga(ei_tol=-1.0, **kw) if kind == "ei_ga" else AP.lcb_ga(lcb_target=1000.0, **kw)
        finally:
            env.extreme = None
        return [] if x is None else [x]

    twice(env, f, kind)


def random_search(env, cfg):
    from pySOT.strategy import RandomStrategy

    dim, iv, M = cfg
    b = Box(env, dim, iv, 1, fixed=True)

    def f():
        sim = Sim(env, RandomStrategy(max_evals=M, opt_prob=b.prob), M, reject=False, fail=False)
        for _ in range(M):
            sim.ask(decide=False)
        return sim.proposed

    twice(env, f, "RandomStrategy")


def runs(env, cfg):
    """Whole runs with the real searches: the same draws and results in the same order of events."""
    from pySOT import strategy as S

    kind, asyn, batch, dim, iv, ninit, n, M, workers, kw = cfg
    env.cdist = lambda a, c: np.array([[1.0 + (i + 2 * j) % 3 for j in range(len(c))] for i in range(len(a))])
    schedule, vals = [], []

    def f():
        class P:
            k = 0

            def __call__(self):
                self.k += 1
                return [np.float64((self.k % 8) / 8.0 if j not in iv else float(self.k % 2)) for j in range(dim)]

        s = Surr(env, dim, lambda xx: np.array([[float((3 * i) % 5)] for i in range(len(xx))]))
        st = getattr(S, kind)(max_evals=M, opt_prob=problem(dim, int_var=iv), exp_design=Design(env, ninit, dim, P()), surrogate=s, asynchronous=asyn, batch_size=batch, num_cand=1, **kw)
        value = iter(range(100))
        sim = Sim(env, st, workers, reject=False, fail=False)

        def val(x):
            k = next(value)
            if k == len(vals):
                with outside(env):
                    vals.append(env.real("f", -10, 10) if k in (ninit, ninit + 1) else float((5 * k) % 7))
            return vals[k]

        sim.value = val
        out = []
        for k in range(n):
            if sim.terminated:
                break
            if len(sim.out) < workers:
                p = sim.ask(decide=False)
                out.append(-1.0 if p is None else -2.0 if p.action != "eval" else p.args[0].copy())
                if p is not None:
                    continue
            if sim.out:
                sim.complete(k % len(sim.out))
        return out

    a, b = twice(env, f, kind)
    env.reach("run")


SR, DY, UN = "candidate_srbf", "candidate_dycors", "candidate_uniform"
LH, SL = "LatinHypercube", "SymmetricLatinHypercube"
SEA = [(SR, 2, (), 2, 1, 2, 2, None), (SR, 2, (1,), 1, 0, 2, 1, (0,)), (DY, 2, (), 1, 1, 2, 1, None), (DY, 2, (0,), 2, 0, 1, 1, None), (DY, 3, (), 1, 0, 1, 1, (2, 0)), (UN, 2, (1,), 2, 1, 2, 2, None), (UN, 2, (), 1, 0, 2, 1, (1,))]
CLAIMS = [
    Claim("searches", searches, SEA, SEA + [(SR, 3, (2,), 2, 1, 3, 2, None), (DY, 2, (1,), 2, 1, 3, 2, None), (UN, 3, (0,), 2, 1, 3, 2, None)], covers="candidate_srbf, candidate_dycors, candidate_uniform", bounds="1-3 variables, 1-2 (3) candidates, any draws, radius, probability, values and predictions", reach=["end"]),
    Claim("designs", designs, [(LH, 2, 3, 1, ()), (LH, 1, 2, 2, (0,)), (SL, 2, 4, 1, (1,)), (SL, 1, 3, 2, ()), ("TwoFactorial", 2, 4, 1, (0,))], [(LH, 2, 3, 2, ()), (LH, 2, 4, 1, (1,)), (SL, 2, 4, 2, (1,)), (SL, 2, 5, 1, ()), ("TwoFactorial", 3, 8, 1, (0,))], covers="experimental designs", bounds="1-2 (3) variables, 2-4 (8) points, 1-2 iterations, any draws", reach=["end"]),
    Claim("genetic", genetic, [(1, (), 2, 1, "Random", None), (2, (1,), 2, 2, "Random", "low"), (1, (0,), 2, 1, "Random", "high"), (1, (), 2, 1, "SLHD", "low")], [(2, (1,), 2, 1, "Random", None), (2, (), 2, 3, "Random", "low"), (1, (0,), 4, 1, "Random", "high"), (1, (), 2, 1, "SLHD", None)], covers="GeneticAlgorithm", bounds="1-2 variables, populations of 2 (4), 1-2 (3) generations, any objective, any draws (or those at an end of their ranges)", reach=["end"]),
    Claim("acquisition", acquisition, [("ei_ga", 1, "low"), ("lcb_ga", 1, "high"), ("lcb_ga", 2, "low")], [("ei_ga", 1, None), ("lcb_ga", 1, None), ("lcb_ga", 2, "low"), ("ei_ga", 2, "high")], covers="ei_ga, lcb_ga with the real genetic algorithm", bounds="1 variable, batches of 1-2, population 2, 1 generation", reach=["end"]),
    Claim("random-search", random_search, [(2, (0,), 3), (1, (), 2)], [(3, (0, 2), 5)], covers="RandomStrategy", bounds="2-3 (5) points, any draws", reach=["end"]),
    Claim("runs", runs, [("SRBFStrategy", True, None, 1, (), 1, 6, 5, 1, {}), ("DYCORSStrategy", False, 2, 2, (1,), 2, 7, 6, 2, {}), ("SOPStrategy", False, 2, 1, (), 2, 7, 6, 2, dict(ncenters=2))],
          [("SRBFStrategy", True, None, 2, (), 1, 10, 8, 2, {}), ("DYCORSStrategy", False, 2, 2, (1,), 2, 10, 8, 2, {}), ("DYCORSStrategy", True, None, 1, (), 1, 9, 8, 1, {}), ("SOPStrategy", False, 2, 1, (), 2, 10, 8, 2, dict(ncenters=2)), ("SOPStrategy", True, None, 2, (), 2, 9, 8, 1, dict(ncenters=3))],
          covers="whole runs of SRBF, DYCORS and SOP with their real searches", bounds="6-7 (9-10) events of one order, 1-2 workers, 1 candidate, any draws, two results arbitrary", reach=["end", "run"]),
]
ASSUMPTIONS = [REALS, "all draws come from numpy's or scipy's generators (or are really random in the check as well)", "iteration orders that differ between processes (hashes of strings) are outside"]
