"""C10: EI and LCB acquisition: formula, separation, stopping threshold."""
import scipy.stats as SS

from checks.cand import *
from checks.strat import Points
from symx.runner import Claim


def cdf(env, g):
    return C.uf("cdf", g) if C.is_sym(g) else np.float64(SS.norm.cdf(float(g)))


def pdf(env, g):
    return C.uf("pdf", g) if C.is_sym(g) else np.float64(SS.norm.pdf(float(g)))


class Model:
    """Prediction and deviation at any point: arbitrary values, always the same at the same query row."""

    def __init__(self, env, mu, sig):
        self.env, self.mu, self.sig = env, mu, sig

    def predict(self, xx):
        return self.mu[: len(xx), :].copy()

    def predict_std(self, xx):
        return self.sig[: len(xx), :].copy()


def dist1(env):
    env.cdist = lambda a, b: A.wrap(np.array([[C.absolute(C.sub(x[0], y[0])) for y in A._obj(b)] for x in A._obj(a)], dtype=object).reshape(len(a), len(b)), "f")


def near(env, x, known, dtol):
    d = [C.absolute(C.sub(x, k)) for k in known]
    for v in d:
        env.assume(C.gt(C.absolute(C.sub(v, dtol)), 1e-6))
    return env.any([C.lt(v, dtol) for v in d])


def merit(env, cfg):
    from pySOT import auxiliary_problems as AP

    kind, m, n, nk, sigs, sep = cfg
    mu = env.array("mu", (m, 1), -10, 10)
    sig = env.array("sig", (m, 1), 0.1, 5) if sigs is None else np.array(sigs, dtype=float).reshape(-1, 1)
    fX = env.array("fX", (n, 1), -10, 10)
    X = env.array("X", (m, 1), 0, 1)
    XX = env.array("XX", (nk, 1), 0, 1)
    x0, k0, f0 = X.copy(), XX.copy(), fX.copy()
    dist1(env)
    kw = {}
    dtol = 0
    if sep:
        dtol = env.real("dtol", 0.0625, 1)
        kw = dict(XX=XX, dtol=dtol)
    model = Model(env, mu, sig)
    if kind == "lcb":
        kappa = env.real("kappa", 0, 5) if sigs is not None else 2.0
        if kappa is not 2.0:
            kw["kappa"] = kappa
        v = AP.lcb_merit(X, model, fX, **kw)
    else:
        v = AP.ei_merit(X, model, fX, **kw)
    shape(env, v, (m, 1), kind + "_merit")
    for a, b in ((X, x0), (XX, k0), (fX, f0)):
        same(env, a, b, "the input is modified")
    best = env.minimum([f0[i, 0] for i in range(n)])
    for i in range(m):
        if sep and bool(near(env, x0[i, 0], [k0[j, 0] for j in range(nk)], dtol)):
            env.reach("near")
            if kind == "lcb":
                env.check(C.nonfinite(v[i, 0]) and bool(v[i, 0] > 0), "a point too close to a known one does not get the worst merit")
            else:
                env.eq(v[i, 0], 0, "a point too close to a known one does not get the worst merit")
            continue
        env.reach("far")
        if kind == "lcb":
            env.eq(v[i, 0], C.sub(mu[i, 0], C.mul(kappa, sig[i, 0])), "the merit is not mu - kappa * sigma")
        else:
            g = C.div(C.sub(best, mu[i, 0]), sig[i, 0])
            env.eq(v[i, 0], C.mul(sig[i, 0], C.add(C.mul(g, cdf(env, g)), pdf(env, g))), "the merit is not sigma * (g * cdf(g) + pdf(g))")


def search_(env, cfg):
    """Batch selection with an arbitrary optimizer: it is given the right merit, box and integer variables, and its results are used."""
    from pySOT import auxiliary_problems as AP
    from pySOT import utils

    kind, num, nX, npend, iv, probe = cfg
    lb, ub = (0.0, 1.0) if not iv else (-4.0, 4.0)
    prob = problem(1, np.array([lb]), np.array([ub]), iv)
    X = env.array("X", (nX, 1), lb, ub)
    P = env.array("P", (npend, 1), lb, ub) if npend else None
    fX = env.array("fX", (nX, 1), -10, 10)
    dist1(env)
    mus, sigs = {}, {}

    class M:
        def predict(self, xx):
            return env.arr([[env.real("mu", -10, 10)] for _ in range(len(xx))]) if "mu" not in mus else np.full((len(xx), 1), 0.0) + mus["mu"]

        def predict_std(self, xx):
            return np.full((len(xx), 1), 0.5)

    dtol = 0.125
    tol = env.real("tol", -5, 5)
    known = [X[i, 0] for i in range(nX)] + [P[i, 0] for i in range(npend)]
    found, gave = [], []
    best = env.minimum([fX[i, 0] for i in range(nX)])
    NOTHING = object()

    def want(x, mu):
        if bool(near(env, x, known, dtol)):
            return np.float64(0.0) if kind == "ei" else np.inf
        if kind == "lcb":
            return C.sub(mu, C.mul(kappa, 0.5))
        g = C.div(C.sub(best, mu), 0.5)
        return C.mul(0.5, C.add(C.mul(g, cdf(env, g)), pdf(env, g)))

    class Opt:
        def __init__(self, function, dim, lb, ub, int_var=None, pop_size=20, num_gen=300, start="SLHD"):
            env.check(dim == 1 and np.array_equal(lb, prob.lb) and np.array_equal(ub, prob.ub), "the merit is not optimized over the box")
            env.check(list(np.ravel([] if int_var is None else int_var)) == list(iv), "the merit is not optimized over the integer variables")
            self.f = function

        def optimize(self):
            env.check(not gave, "the search goes on although the merit missed the threshold")
            if probe:  # the merit at another point
                self.at(env.real("y", lb, ub) if not iv else C._real(env.int("y", lb, ub), 1.0))
            x = env.real("x", lb, ub) if not iv else env.int("x", lb, ub) + 0.0
            v = self.at(x)
            miss = C.gt(v, tol) if kind == "lcb" else C.lt(C.neg(v), tol)
            if bool(miss):
                gave.append(1)
            found.append(x)
            known.append(x)
            return env.arr([x]), v

        def at(self, x):
            mus["mu"] = mu = env.real("mu", -10, 10)
            a = env.arr([[x]])
            v = self.f(a)
            env.check(C.eq(a[0, 0], x), "the merit function modifies the point")
            v = flat(v)
            env.check(len(v) == 1, "the merit of one point is not one value")
            w = want(x, mu)
            if C.nonfinite(w) or C.nonfinite(v[0]):
                env.check(bool(v[0] == w), "the merit given to the optimizer is wrong")
            else:
                env.eq(v[0], C.neg(w) if kind == "ei" else w, "the merit given to the optimizer is wrong")
            return v[0]

    patch_everywhere(env, utils.GeneticAlgorithm, Opt)
    kw = dict(num_pts=num, opt_prob=prob, surrogate=M(), X=X, fX=fX, dtol=dtol)
    if npend:
        kw["Xpend"] = P
    if kind == "lcb":
        kappa = 1.5
        r = AP.lcb_ga(kappa=kappa, lcb_target=tol, **kw)
    else:
        r = AP.ei_ga(ei_tol=tol, **kw)
    if gave:
        env.check(r is None, "the search does not give up although the merit misses the threshold")
        env.reach("gave up")
        return
    env.check(r is not None, "the search gives up although the merit reaches the threshold")
    shape(env, r, (num, 1), kind + "_ga")
    for i in range(num):
        env.eq(r[i, 0], found[i], "the returned points are not those found")
    env.reach("found")


def strategy(env, cfg):
    from pySOT import auxiliary_problems as AP
    from pySOT import strategy as S
    from pySOT.surrogate import GPRegressor

    kind, asyn, batch, given, restarts, n, dim, cont = cfg

    class G(GPRegressor):
        def __init__(self):
            self.resets, self.data = 0, []
            super().__init__(dim=dim, lb=np.zeros(dim), ub=np.ones(dim))

        def reset(self):
            self.resets += 1
            self.data = []
            super().reset()

        def add_points(self, xx, fx):
            self.data.append((xx, fx))

    pts = Points(env, dim, False)
    d = Design(env, 2, dim, pts)
    lb, ub = np.array([-1.0, 2.0, 0.0][:dim]), np.array([3.0, 5.0, 12.0][:dim])
    prob = problem(dim, lb, ub)
    kw = dict(given)
    st = getattr(S, {"ei": "EIStrategy", "lcb": "LCBStrategy"}[kind])(max_evals=30, opt_prob=prob, exp_design=d, surrogate=G(), asynchronous=asyn, batch_size=batch, use_restarts=restarts, **kw)
    seen = []
    func = getattr(AP, kind + "_ga")

    class Runs:
        of = {}

        def accepted(self, sim, x, r):
            self.of[id(r)] = len(d.calls)

    runs = Runs()

    def stub(*a, **k):
        b = bind(func, a, k)
        f = [v for _, v, _ in sim.done]
        lo, hi = env.minimum(f), env.maximum(f)
        mine = [(x, v) for x, v, r in sim.done if runs.of[id(r)] == len(d.calls)]
        if len(d.calls) > 1:
            env.reach("searched after a restart")
        env.check(b["opt_prob"] is prob and b["surrogate"] is st.surrogate, "the search gets another problem or model")
        env.check(b["num_pts"] == (batch or 1), "the wrong number of points is requested")
        env.check(abs(b["dtol"] - kw.get("dtol", 1e-3 * float(np.sqrt(sum((ub - lb) ** 2))))) < 1e-12, "the distance tolerance is not the documented one")
        if kind == "ei":
            env.eq(b["ei_tol"], kw["ei_tol"] if "ei_tol" in kw else C.mul(1e-6, C.sub(hi, lo)), "the EI threshold is not the documented one", 1e-9)
        else:
            env.check(b["kappa"] == kw.get("kappa", 2.0), "kappa is not the documented one")
            env.eq(b["lcb_target"], C.sub(lo, kw["lcb_tol"] if "lcb_tol" in kw else C.mul(1e-6, C.sub(hi, lo))), "the LCB threshold is not the documented one", 1e-9)
        got = sorted(tuple(float(v) for v in r) for r in b["X"])
        env.check(got == sorted(tuple(float(v) for v in x) for x, _ in mine), "the search does not get the points of the run")
        env.check(len(b["fX"]) == len(mine), "the search does not get the values of the run")
        for x, v in mine:
            i = [i for i in range(len(b["X"])) if np.array_equal(np.asarray(b["X"])[i].astype(float), np.asarray(x).astype(float))]
            env.check(len(i) == 1 and C.eq(flat(b["fX"])[i[0]], v), "the search does not get the values of the run")
        pend = sorted(tuple(float(v) for v in r) for r in b["Xpend"])
        env.check(pend == sorted(tuple(float(v) for v in x) for _, x in sim.out), "the search does not get the pending points")
        if (cont and len(d.calls) == 1) or env.flag("give up"):
            seen.append(None)
            return None
        r = env.arr([pts() for _ in range(b["num_pts"])])
        seen.append(r.copy())
        return r

    stub.__signature__ = inspect.signature(func)
    patch_everywhere(env, func, stub)
    sim = Sim(env, st, batch or 2, reject=False, fail=False)
    sim.monitors.append(runs)
    for _ in range(2):
        sim.ask(decide=False)
    todo = []
    for _ in range(n):
        k = len(seen)
        if len(sim.out) == sim.workers or (sim.out and env.flag("complete")):
            sim.complete(env.choice("which", len(sim.out)))
            continue
        before = len(d.calls)
        p = sim.ask(decide=False)
        for r in seen[k:]:
            if r is None:
                env.reach("give up")
                if restarts:
                    env.check(len(d.calls) == before + 1, "giving up does not restart the search")
                    env.check(p is not None and any(np.array_equal(np.asarray(p.args[0]).astype(float), np.asarray(x).astype(float)) for x in d.given), "giving up does not restart the search")
                else:
                    env.check(st.converged, "giving up is not convergence")
                    env.check(not sim.out and sim.terminated or sim.out and p is None, "giving up does not end the run")
                    return
                if not cont:
                    return
                todo.clear()
                continue
            todo += [tuple(float(v) for v in x) for x in r]
        if p is not None and p.action == "eval" and not any(np.array_equal(np.asarray(p.args[0]).astype(float), np.asarray(x).astype(float)) for x in d.history):
            k = tuple(float(v) for v in p.args[0])
            env.check(k in todo, "a proposed point is not one of those found")
            todo.remove(k)
            env.reach("proposed")
    env.reach("end")



MER = [("ei", 1, 1, 1, None, False), ("ei", 2, 2, 2, None, True), ("ei", 2, 2, 1, (0.5, 2.0), True), ("lcb", 1, 1, 1, None, False), ("lcb", 2, 2, 2, (0.5, 2.0), True), ("lcb", 2, 1, 1, None, True)]
SEA = [("ei", 1, 2, 0, (), False), ("ei", 2, 1, 1, (), False), ("ei", 1, 1, 1, (), True), ("ei", 2, 1, 0, (0,), False), ("lcb", 1, 2, 0, (), False), ("lcb", 2, 1, 1, (), False), ("lcb", 1, 1, 1, (), True), ("lcb", 2, 1, 0, (0,), False)]
STR = [("ei", True, None, (), True, 5, 2, 0), ("ei", False, 2, (("ei_tol", 0.25), ("dtol", 0.5)), True, 6, 1, 0), ("ei", True, None, (), False, 5, 1, 0), ("lcb", True, None, (), True, 5, 2, 0),
       ("lcb", False, 2, (("kappa", 3.0), ("dtol", 0.5), ("lcb_tol", 0.125)), True, 6, 1, 0), ("lcb", True, None, (), False, 5, 1, 0), ("lcb", False, 2, (("kappa", 0.5),), False, 6, 3, 0), ("ei", False, 2, (), False, 6, 3, 0),
       ("ei", True, None, (("ei_tol", 0.0), ("dtol", 0.0)), True, 8, 1, 1), ("lcb", True, None, (("kappa", 0.0), ("lcb_tol", 0.0), ("dtol", 0.0)), True, 8, 1, 1), ("ei", True, None, (), True, 8, 1, 1), ("lcb", True, None, (), True, 8, 1, 1),
       ("ei", False, 2, (), True, 7, 1, 1), ("lcb", False, 2, (), True, 7, 1, 1)]
CLAIMS = [
    Claim("merit", merit, MER, MER + [("ei", 3, 3, 2, (0.5, 1.0, 2.0), True), ("ei", 2, 3, 3, None, True), ("lcb", 3, 3, 3, (0.5, 1.0, 2.0), True), ("ei", 4, 1, 0, None, False), ("lcb", 4, 2, 0, (1.0, 0.5, 0.1, 4.0), False)], covers="ei_merit, lcb_merit",
          bounds="1-2 (4) query points, 1-2 (3) values and known points in one variable", reach=["near", "far"]),
    Claim("selection", search_, SEA, SEA + [("ei", 3, 1, 1, (), False), ("lcb", 3, 2, 1, (), False), ("ei", 2, 2, 2, (), True), ("lcb", 2, 2, 2, (0,), True), ("ei", 2, 2, 1, (0,), True)], covers="ei_ga, lcb_ga", bounds="batches of 1-2 (3), 1-2 evaluated and 0-1 (2) pending points in one variable", reach=["found", "gave up"]),
    Claim("strategies", strategy, STR, [a[:5] + (a[5] + 3,) + a[6:] for a in STR], covers="EIStrategy, LCBStrategy", bounds="5-8 (8-11) events, 2 workers, up to one restart", reach=["give up", "proposed", "end", "searched after a restart"]),
]
ASSUMPTIONS = [REALS, "the normal distribution's cdf and pdf are arbitrary functions with the bounds, monotonicity and symmetry of the real ones", "the merit is maximized by an arbitrary optimizer (C11 decides the genetic algorithm)",
               "distances that differ from the tolerance by less than 1e-6 are left out", "standard deviations are positive"]
