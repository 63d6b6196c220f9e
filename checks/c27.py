"""C27: the arrays of the caller are never modified."""
from checks.c16 import GRID
from checks.cand import *
from checks.models import *
from checks.strat import *
from symx.runner import Claim


class Keep:
    """Remembers the contents of everything that is handed to the library."""

    def __init__(self, env):
        self.env, self.kept = env, []

    def __call__(self, name, a):
        self.kept.append((name, a, a.copy() if isinstance(a, np.ndarray) else list(a)))
        return a

    def check(self, who):
        for name, a, b in self.kept:
            if isinstance(a, np.ndarray):
                same(self.env, a, b, "%s modifies its argument %s" % (who, name))
            else:
                self.env.check(len(a) == len(b) and all(x is y or C.is_sym(x) is C.is_sym(y) is False and x == y for x, y in zip(a, b)), "%s modifies its argument %s" % (who, name))


def keep_problem(keep, p):
    for n in ("lb", "ub", "int_var", "cont_var"):
        keep("opt_prob." + n, getattr(p, n))


def box(env, cfg):
    """utils: box mapping, rescaling, rounding (which is in place by design), sorting."""
    from pySOT import utils as U

    dim, n = cfg
    keep = Keep(env)
    lb, ub = keep("lb", env.array("lb", dim, -10, -1)), keep("ub", env.array("ub", dim, 0, 10))
    x = keep("x", env.array("x", (n, dim), -10, 10))
    u = U.to_unit_box(x, lb, ub)
    keep.check("to_unit_box")
    U.from_unit_box(keep("x", u), lb, ub)
    keep.check("from_unit_box")
    U.unit_rescale(keep("v", env.array("v", (n, 1), -10, 10)))
    keep.check("unit_rescale")
    U.unit_rescale(keep("v", np.full((n, 1), 2.5)))
    keep.check("unit_rescale")
    iv = keep("int_var", np.array([dim - 1]))
    U.round_vars(env.array("r", (n, dim), -20, 20), iv, lb, ub)
    keep.check("round_vars")
    F = keep("F", env.array("F", (2, n), -10, 10))
    U.nd_front(F)
    keep.check("nd_front")
    U.nd_sorting(F, 2)
    keep.check("nd_sorting")
    a, b = keep("fA", env.array("a", 2, -1, 1)), keep("fB", env.array("b", 2, -1, 1))
    U.domination(a, b)
    keep.check("domination")
    env.cdist = None
    c = np.array([[0.25 * (i + j) for j in range(dim)] + [0, 0, 0, 0, i] for i in range(n)], dtype=float)
    U.check_radius_rule(keep("X", np.full(dim, 0.125)), keep("X_c", c), 0.2, dim, n)
    keep.check("check_radius_rule")
    env.reach("end")


def searches(env, cfg):
    name, dim, iv, nX, npend, ncand, num, subset, given = cfg
    b = Box(env, dim, iv, nX, npend)
    keep = Keep(env)
    keep_problem(keep, b.prob)
    keep("X", b.X), keep("fX", b.fX)
    if npend:
        keep("Xpend", b.P)
    w = keep("weights", [0.3, 0.95])
    kw = dict(num_pts=num, opt_prob=b.prob, X=b.X, fX=b.fX, weights=w, Xpend=b.P, num_cand=ncand, dtol=0.125, surrogate=Surr(env, dim, lambda xx: np.arange(float(len(xx))).reshape(-1, 1)))
    if subset is not None:
        kw["subset"] = keep("subset", np.array(subset, dtype=int))
    if name == "candidate_dycors":
        kw["prob_perturb"] = 0.5
        if given:
            kw["xbest"] = keep("xbest", b.points(env, "center", 1)[0, :])
    env.cdist = lambda a, c: A.wrap(np.array([[C.absolute(C.sub(x[0], y[0])) for y in A._obj(c)] for x in A._obj(a)], dtype=object).reshape(len(a), len(c)), "f")
    search(name)(**kw)
    keep.check(name)
    env.reach("end")


def merits(env, cfg):
    from pySOT import auxiliary_problems as AP
    from pySOT import utils
    from pySOT.auxiliary_problems.candidate_srbf import weighted_distance_merit

    kind, m, nk = cfg
    keep = Keep(env)
    X, XX, fX = keep("X", env.array("X", (m, 1), 0, 1)), keep("XX", env.array("XX", (nk, 1), 0, 1)), keep("fX", env.array("fX", (nk, 1), -10, 10))
    P = keep("Xpend", env.array("P", (1, 1), 0, 1))
    env.cdist = lambda a, c: A.wrap(np.array([[C.absolute(C.sub(x[0], y[0])) for y in A._obj(c)] for x in A._obj(a)], dtype=object).reshape(len(a), len(c)), "f")

    class M:
        def predict(self, xx):
            return env.array("mu", (len(xx), 1), -10, 10)

        def predict_std(self, xx):
            return np.full((len(xx), 1), 0.5)

    prob = problem(1, np.array([0.0]), np.array([1.0]))
    keep_problem(keep, prob)
    if kind == "weighted":
        s = Surr(env, 1, lambda xx: np.arange(float(len(xx))).reshape(-1, 1))
        weighted_distance_merit(num_pts=1, surrogate=s, X=XX, fX=fX, Xpend=P, cand=keep("cand", X), dtol=0.125, weights=keep("weights", [0.5]))
        keep.check("weighted_distance_merit")
    elif kind in ("ei_merit", "lcb_merit"):
        getattr(AP, kind)(X, M(), fX, XX=XX, dtol=0.125)
        keep.check(kind)
    else:
        class Opt:
            def __init__(self, function, dim, lb, ub, *a, **k):
                self.f = function

            def optimize(self):
                x = keep("x", env.array("x", (1, 1), 0, 1))
                v = flat(self.f(x))[0]
                return x[0, :], v

        patch_everywhere(env, utils.GeneticAlgorithm, Opt)
        kw = dict(num_pts=2, opt_prob=prob, surrogate=M(), X=XX, fX=fX, Xpend=P, dtol=0.125)
        if kind == "ei_ga":
            AP.ei_ga(ei_tol=0.0, **kw)
        else:
            AP.lcb_ga(lcb_target=100.0, **kw)
        keep.check(kind)
    env.reach("end")


def kernels(env, cfg):
    from pySOT import surrogate as S

    kind, shape_ = cfg
    keep = Keep(env)
    k = getattr(S, kind)()
    r = keep("dists", env.array("r", shape_, 0, 10))
    k.eval(r)
    keep.check("%s.eval" % kind)
    k.deriv(r)
    keep.check("%s.deriv" % kind)
    env.reach("end")


def tails(env, cfg):
    from pySOT import surrogate as S

    kind, dim = cfg
    keep = Keep(env)
    t = getattr(S, kind)(dim)
    t.eval(keep("X", env.array("x", (2, dim), -10, 10)))
    keep.check("%s.eval" % kind)
    t.deriv(keep("x", env.array("y", (1, dim), -10, 10)))
    keep.check("%s.deriv" % kind)
    env.reach("end")


def transformations(env, cfg):
    from pySOT.surrogate import output_transformations as T

    for name in ("identity", "median_capping"):
        keep = Keep(env)
        getattr(T, name)(keep("x", env.array("x", (cfg, 1), -10, 10)))
        keep.check(name)
    env.reach("end")


def models(env, cfg):
    """The surrogates: points, values, queries and bounds."""
    kind, dim = cfg
    lib = Lib(env)
    keep = Keep(env)
    from pySOT.surrogate.output_transformations import median_capping

    s = lib.make(kind, dim, median_capping)
    keep("lb", s.lb), keep("ub", s.ub)
    n = dim + 1
    X = keep("xx", env.arr([GRID[i][:dim] for i in range(n)]) if kind == "RBFInterpolant" else env.array("x", (n, dim), -3, 3))
    f = keep("fx", env.array("f", (n, 1), -10, 10))
    one = keep("xx", env.arr(GRID[n][:dim]) if kind == "RBFInterpolant" else env.array("y", dim, -3, 3))
    q = keep("xx", env.arr([[0.25 * (i + 1) for _ in range(dim)] for i in range(2)] + [GRID[0][:dim]]) if kind == "RBFInterpolant" else env.array("q", (2, dim), -3, 3))
    s.add_points(X, f)
    keep.check("add_points")
    s.predict(q)
    keep.check("predict")
    s.add_points(one, keep("fx", env.array("g", 1, -10, 10)))
    keep.check("add_points")
    if kind == "GPRegressor":
        s.predict_std(q)
        keep.check("predict_std")
    s.predict(q[0])
    if kind == "RBFInterpolant":
        s.predict_deriv(q)
        keep.check("predict_deriv")
        s.predict_deriv(q[0])
    keep.check("predict_deriv")
    s.reset()
    keep.check("reset")
    env.reach("end")


def designs(env, cfg):
    from pySOT import experimental_design as D

    kind, dim, iv = cfg
    b = Box(env, dim, iv, 1, fixed=True)
    keep = Keep(env)
    lb, ub, i = keep("lb", b.lb), keep("ub", b.ub), keep("int_var", np.array(iv, dtype=int))
    d = D.TwoFactorial(dim=dim) if kind == "TwoFactorial" else getattr(D, kind)(dim=dim, num_pts=2 * dim, iterations=2)
    env.extreme = None
    try:
        d.generate_points(lb=lb, ub=ub, int_var=i)
    except ValueError:  # no full-rank design was drawn
        pass
    keep.check("generate_points")
    env.reach("end")


def genetic(env, cfg):
    from pySOT.utils import GeneticAlgorithm

    dim, iv, start = cfg
    b = Box(env, dim, iv, 1, fixed=True)
    keep = Keep(env)
    keep("lb", b.lb), keep("ub", b.ub)
    i = keep("int_var", np.array(iv, dtype=int))
    P = keep("start", b.points(env, "P", 2)) if start == "given" else start
    g = GeneticAlgorithm(lambda x: env.array("f", (len(x), 1), -1, 1), dim, b.lb, b.ub, int_var=i, pop_size=2, num_gen=1, start=P)
    env.randn_range = (-4, 4)
    env.extreme = "low"
    g.optimize()
    env.extreme = None
    keep.check("GeneticAlgorithm")
    env.reach("end")


def runs(env, cfg):
    """A run leaves the problem, the weights and every point that was proposed as they were."""
    kind, asyn, batch, dim, iv, n = cfg
    from pySOT import strategy as S

    lb, ub = np.array([-2.0, 1.0, 0.0][:dim]), np.array([3.0, 4.0, 8.0][:dim])
    prob = problem(dim, lb, ub, iv)
    keep = Keep(env)
    keep_problem(keep, prob)
    k = [0]

    def pts():
        k[0] += 1
        return [np.float64(lb[j] + (k[0] % 4 if j in iv else k[0] / 16.0)) for j in range(dim)]

    d = Design(env, 2, dim, pts)
    kw = dict(max_evals=30, opt_prob=prob, exp_design=d, surrogate=Surr(env, dim, lambda xx: np.arange(float(len(xx))).reshape(-1, 1)), asynchronous=asyn, batch_size=batch)
    if kind in ("SRBFStrategy", "DYCORSStrategy"):
        kw["weights"] = keep("weights", [0.3, 0.5, 0.8])
    if kind == "SOPStrategy":
        kw["ncenters"] = 4
    st = getattr(S, kind)(num_cand=3, **kw)
    seen = []

    class Points_:
        def proposal(self, sim, x, p):
            seen.append((x, x.copy()))

        def after(self, sim):
            keep.check(kind)
            for x, y in seen:
                same(env, x, y, "a point is modified after it was proposed")

        idle = after

    env.extreme = "high"  # which candidates are drawn does not matter here
    k2 = [0]

    def draw():
        k2[0] += 1
        return np.float64((k2[0] * 37 % 64 + 0.5) / 64.0)

    env.draw = draw
    sim = Sim(env, st, batch or 2, value=lambda x: np.float64([1.0, -1.0][env.choice("better", 2)] * (2 + len(sim.done))))
    sim.monitors.append(Points_())
    for _ in range(4):
        sim.ask(decide=False) if len(sim.out) < sim.workers else sim.complete(0)
        sim.emit("after")
    sim.run(n)
    env.extreme = env.draw = None
    env.reach("end")


def random_search(env, cfg):
    from pySOT import strategy as S

    dim, iv, n = cfg
    b = Box(env, dim, iv, 1, fixed=True)
    keep = Keep(env)
    keep_problem(keep, b.prob)
    st = S.RandomStrategy(max_evals=n, opt_prob=b.prob)
    keep.check("RandomStrategy")
    sim = Sim(env, st, 2)
    seen = []

    class Points_:
        def proposal(self, sim, x, p):
            seen.append((x, x.copy()))

        def after(self, sim):
            keep.check("RandomStrategy")
            for x, y in seen:
                same(env, x, y, "a point is modified after it was proposed")

    sim.monitors.append(Points_())
    sim.run(4)
    env.reach("end")


def checking(env, cfg):
    """Checking a problem, accepted or refused, leaves it as it was (arrays in any order)."""
    from pySOT.utils import check_opt_prob

    dim, iv, cv, broken = cfg
    p = problem(dim, env.array("lb", dim, -10, -1), env.array("ub", dim, 0, 10))
    p.int_var, p.cont_var = np.array(iv, dtype=int), np.array(cv, dtype=int)
    if broken:
        p.lb, p.ub = p.ub, p.lb
    keep = Keep(env)
    keep_problem(keep, p)
    before = {k: getattr(p, k) for k in ("lb", "ub", "int_var", "cont_var", "dim")}
    try:
        check_opt_prob(p)
    except (AttributeError, ValueError):
        pass
    keep.check("check_opt_prob")
    env.check(all(getattr(p, k) is v for k, v in before.items()), "check_opt_prob replaces an attribute of the problem")
    env.reach("end")


SR, DY, UN = "candidate_srbf", "candidate_dycors", "candidate_uniform"
SEA = [(SR, 1, (), 1, 1, 2, 1, None, False), (SR, 2, (1,), 1, 0, 1, 1, (0,), False), (DY, 1, (0,), 1, 1, 2, 1, None, False), (DY, 2, (1,), 1, 0, 1, 1, (1,), True), (DY, 2, (0,), 1, 1, 1, 1, None, True), (UN, 1, (), 1, 1, 2, 2, None, False), (UN, 2, (0,), 1, 0, 1, 1, (1,), False), (DY, 3, (2, 0), 1, 0, 1, 1, None, True), (UN, 3, (2, 0), 1, 0, 1, 1, (2, 0), False)]
MER = [(k, 2, 1) for k in ("ei_merit", "lcb_merit", "ei_ga", "lcb_ga")] + [("weighted", 3, 1)]
KER = ["LinearKernel", "CubicKernel", "TPSKernel"]
MOD = ["GPRegressor", "PolyRegressor", "MARSInterpolant", "RBFInterpolant"]
DES = [("TwoFactorial", 2, (1,)), ("LatinHypercube", 1, (0,)), ("SymmetricLatinHypercube", 1, (0,)), ("SymmetricLatinHypercube", 2, (1, 0))]
RUNS = [("SRBFStrategy", True, None, 2, (1, 0), 3), ("DYCORSStrategy", True, None, 2, (0,), 3), ("DYCORSStrategy", False, 2, 1, (), 4), ("SOPStrategy", True, None, 2, (1,), 3), ("SRBFStrategy", False, 2, 1, (0,), 4)]
CHK = [(3, (2, 0), (1,), False), (3, (1,), (2, 0), False), (2, (), (1, 0), False), (2, (1, 0), (), False), (3, (2, 0), (1,), True), (3, (2, 0), (0,), False)]
CLAIMS = [
    Claim("checking", checking, CHK, CHK + [(4, (3, 0, 2), (1,), False), (4, (3,), (2, 1, 0), False), (4, (3, 0), (2, 1), True)], covers="check_opt_prob", bounds="2-3 (4) variables, any bounds", reach=["end"]),
    Claim("utilities", box, [(1, 2), (2, 2)], [(1, 3), (2, 3), (3, 2)], covers="box mapping, rescaling, rounding, sorting", bounds="2 (3) points in 1-2 (3) variables", reach=["end"]),
    Claim("searches", searches, SEA, SEA + [(SR, 2, (1,), 2, 1, 2, 2, None, False), (DY, 3, (0, 2), 2, 1, 1, 1, (0, 2), True), (UN, 3, (1,), 2, 1, 2, 2, (0, 1), False)], covers="candidate_srbf, candidate_dycors, candidate_uniform", bounds="1-2 candidates, 1-2 (3) variables, any bounds, points, values and draws", reach=["end"]),
    Claim("merits", merits, MER, MER + [(k, 3, 2) for k, _, _ in MER], covers="weighted_distance_merit, ei_merit, lcb_merit, ei_ga, lcb_ga", bounds="2-3 points, 1-2 known ones", reach=["end"]),
    Claim("kernels", kernels, [(k, (2, 2)) for k in KER], [(k, s) for k in KER for s in ((2, 3), (4, 1))], covers="LinearKernel, CubicKernel, TPSKernel", bounds="2x2 (2x3) distances, zero included", reach=["end"]),
    Claim("tails", tails, [(t, d) for t in ("ConstantTail", "LinearTail") for d in (1, 2)], [(t, d) for t in ("ConstantTail", "LinearTail") for d in (1, 2, 3)], covers="ConstantTail, LinearTail", bounds="1-2 (3) variables", reach=["end"]),
    Claim("transformations", transformations, [1, 3, 4], [1, 2, 3, 4, 5], covers="identity, median_capping", bounds="1-4 (5) values", reach=["end"]),
    Claim("surrogates", models, [(k, d) for k in MOD for d in (1, 2)], [(k, d) for k in MOD for d in (1, 2, 3)], covers="Surrogate, GPRegressor, PolyRegressor, MARSInterpolant, RBFInterpolant", bounds="3-4 (5) points in 1-2 (3) variables", reach=["end"]),
    Claim("designs", designs, DES, DES + [("TwoFactorial", 3, (0, 2)), ("LatinHypercube", 2, (0,))], covers="generate_points", bounds="2-4 (8) points in 1-2 (3) variables", reach=["end"]),
    Claim("genetic-algorithm", genetic, [(1, (0,), "Random"), (1, (), "given"), (2, (1, 0), "given")], [(1, (0,), "Random"), (2, (0, 1), "given"), (2, (1,), "given")], covers="GeneticAlgorithm", bounds="two individuals, one generation, 1-2 variables", reach=["end"]),
    Claim("runs", runs, RUNS, [r[:5] + (r[5] + 2,) for r in RUNS], covers="SRBFStrategy, DYCORSStrategy, SOPStrategy", bounds="7-8 (9-10) events, any values", reach=["end"]),
    Claim("random-search", random_search, [(1, (), 2), (2, (1, 0), 2)], [(2, (0,), 3), (1, (0,), 3)], covers="RandomStrategy", bounds="2 (3) evaluations, 4 events", reach=["end"]),
]
ASSUMPTIONS = [REALS, "scikit-learn and pyearth do not modify the data they are given (their fit and predict are replaced)", "rounding (round_vars) works in place on its first argument, and nd_add on the index lists, by design"]
