"""C30: optional arguments: leaving one out means its documented default, and one that is given takes effect."""
from checks.c28 import equal
from checks.models import *
from checks.strat import *
from checks.tape import Tape, outside
from symx.runner import Claim

W4 = [0.3, 0.5, 0.8, 0.95]


# ---------------------------------------------------------------------------------------------------- strategies


def defaults(kind, dim):
    """The documented defaults of the optional arguments (those of EI and LCB that depend on the values found: C10)."""
    kw = dict(asynchronous=True, batch_size=None, extra_points=None, extra_vals=None, use_restarts=True)
    if kind in ("SRBFStrategy", "DYCORSStrategy"):
        kw.update(weights=list(W4), num_cand=100 * dim)
    if kind == "SOPStrategy":
        kw.update(ncenters=4, num_cand=100 * dim)
    if kind in ("EIStrategy", "LCBStrategy"):
        kw.update(dtol=1e-3 * math.sqrt(sum((u - l) ** 2 for l, u in zip(LB[:dim], UB[:dim]))))
    if kind == "LCBStrategy":
        kw.update(kappa=2.0)
    return kw


def searches(env):
    """All searches return arbitrary points (those of EI and LCB may give up), and tell the run of the surrogate that is passed to them."""
    from pySOT import auxiliary_problems as AP

    for name in ("candidate_srbf", "candidate_dycors", "candidate_uniform", "ei_ga", "lcb_ga"):
        func = getattr(AP, name)
        func = getattr(func, "__symx_real__", func)

        def f(*a, _func=func, **k):
            b = bind(_func, a, k)
            run = b["surrogate"].run
            run.call(_func.__name__, {n: v.copy() if isinstance(v, np.ndarray) else list(v) if isinstance(v, (list, tuple)) else v for n, v in b.items() if n not in ("surrogate", "opt_prob", "kwargs")})
            if _func.__name__.endswith("_ga") and run.gives_up():
                return None
            return env.arr([run.st.design.point() for _ in range(b["num_pts"])])

        f.__name__ = func.__name__
        f.__signature__ = inspect.signature(func)
        patch_everywhere(env, func, f)


class Run:
    def __init__(self, env, kind, dim, ninit, vals, kw, workers, full):
        from pySOT import strategy as S

        self.env, self.vals, self.k, self.out, self.calls, self.kind, self.full = env, vals, 0, [], [], kind, full
        self.ups = env.__dict__.setdefault("_ups", [])
        self.nups = 0
        lb, ub = bounds(dim)
        pts = Points(env, dim, False)
        d, s = Design(env, ninit, dim, pts), Surr(env, dim)
        s.run = d.run = self
        cls = getattr(S, kind)
        if kind in ("EIStrategy", "LCBStrategy"):
            cls = env.__dict__.setdefault("any_" + kind, type("Any" + kind, (cls,), dict(check_input=S.SurrogateBaseStrategy.check_input)))  # any surrogate will do
        self.st = cls(max_evals=12, opt_prob=problem(dim, lb, ub), exp_design=d, surrogate=s, **kw)
        self.st.design = d
        self.sim = Sim(env, self.st, workers, reject=False, fail=False, value=self.value)

    def call(self, name, b):
        env, full = self.env, self.full
        for a in ("num_cand", "kappa", "dtol"):
            if a in full and a in b:
                env.check(b[a] is not None and bool(C.eq(b[a], full[a])) or not C.is_sym(full[a]) and abs(b[a] - full[a]) <= 1e-12, "a given argument, or the documented default of an omitted one, has no effect: " + a)
        if "weights" in full and "weights" in b:
            env.check(env.all([env.any([C.eq(w, v) for v in full["weights"]]) for w in b["weights"]]), "the given weights (or the documented default ones) are not used")
        self.calls.append([name] + [b[n] for n in sorted(b)])

    def gives_up(self):
        self.nups += 1
        if self.nups > len(self.ups):
            self.ups.append(self.env.flag("gives up") if self.nups <= 3 else False)
        return self.ups[self.nups - 1]

    def value(self, x):
        self.k += 1
        if self.k > len(self.vals):
            with outside(self.env):
                self.vals.append(self.env.real("f", -10, 10) if self.k <= 2 else 20.0 + self.k % 3)
        return self.vals[self.k - 1]

    def event(self, e):
        if e == "ask":
            p = self.sim.ask(decide=False)
            self.out.append(p.args[0].copy() if p is not None and p.action == "eval" else "idle" if p is None else p.action)
        else:
            self.sim.complete(e[1] % len(self.sim.out))


def strategies(env, cfg):
    kind, dim, ninit, given, pre, n = cfg
    searches(env)
    given = dict(given)
    if given.get("weights") == "any":
        given["weights"] = [env.real("w", 0, 1), env.real("w", 0, 1)]
    if given.get("weights") == "one":
        given["weights"] = [env.real("w", 0, 1)]
    if given.get("kappa") == "any":
        given["kappa"] = env.real("kappa", 0, 5)
    if given.get("dtol") == "any":
        given["dtol"] = env.real("dtol", 0, 1)
    if given.get("extra_vals") == "any":
        given["extra_points"] = np.array([[1.0 + 0.25 * j] * dim for j in range(2)])
        given["extra_vals"] = env.array("extra", (2, 1), -10, 10)
    full = defaults(kind, dim)
    env.check(all(k in full for k in given), "unknown argument")
    full.update(given)
    vals, workers = [], 3
    env._ups = []
    one = Run(env, kind, dim, ninit, vals, given, workers, full)
    env.new_process()
    two = Run(env, kind, dim, ninit, vals, {k: list(v) if k == "weights" else v for k, v in full.items()}, workers, full)

    def go(e):
        if not one.sim.terminated:
            one.event(e)
            two.event(e)
            env.check(len(one.sim.out) == len(two.sim.out) and one.sim.terminated == two.sim.terminated, "a run with omitted arguments goes on in another way than with their documented defaults")

    for _ in range(pre):
        go("ask")
        if one.sim.out:
            go(("complete", 0))
    for _ in range(n):
        if one.sim.terminated:
            break
        opts = (["ask"] if len(one.sim.out) < workers else []) + (["complete"] if one.sim.out else [])
        e = opts[env.choice("event", len(opts))]
        go(e if e == "ask" else (e, 0))
    equal(env, one.out, two.out, "a run with omitted arguments proposes something else than with their documented defaults")
    equal(env, one.calls, two.calls, "a run with omitted arguments searches in another way than with their documented defaults")
    if "extra_points" in given:
        known = [tuple(x) for x in given["extra_points"]]
        for r in (one, two):
            env.check(all(isinstance(x, str) or tuple(float(v) for v in x) not in known for x in r.out), "an extra point with a known value is evaluated")
            env.check([tuple(float(v) for v in x) for x, _ in r.st.surrogate.data][:2] == known or not r.calls or len(r.st.design.calls) > 1, "the given extra points are not used")
    if one.calls:
        env.reach("searched")
    env.reach("end")


# ---------------------------------------------------------------------------------------------------- searches


def candidates(env, cfg):
    """The real searches, with the candidates they consider as the surrogate sees them."""
    name, dim, given, npts, near = cfg
    func = search(name)
    lb, ub = bounds(dim)
    k = [0]

    def draw():  # 400 and more draws: definite ones
        k[0] += 1
        return ((37 * k[0]) % 256) / 256.0

    env.draw = draw
    env.extreme = "low"
    if near:  # next to some of the candidates
        X = np.array([[l + (u - l) * (37 * i % 256) / 256.0 + d for l, u in zip(lb, ub)] for i, d in ((3, 0.0004), (8, 0.002))])
    else:
        X = env.arr([[env.real("x", l, u) for l, u in zip(lb, ub)] for _ in range(2)])
        env.cdist = lambda a, b: np.ones((len(a), len(b)))
    fX = env.array("fX", (2, 1), -10, 10)
    asked = []

    class M:
        def predict(self, xx):
            asked.append(xx.copy())
            if near:  # the closer to a known point, the better
                return np.abs(np.asarray(xx, dtype=float) - X[near - 1])
            return np.array([[float((7 * i) % 31)] for i in range(len(xx))])

    defaults = dict(Xpend=np.empty((0, dim)), subset=np.arange(dim), num_cand=100 * dim, dtol=1e-3)
    if name != "candidate_uniform":
        defaults["sampling_radius"] = 0.2
    center = X[1 if bool(C.lt(fX[1, 0], fX[0, 0])) else 0, :].copy()
    if name == "candidate_dycors":
        defaults["xbest"] = center.copy()
    given = dict(given)
    for a, v in list(given.items()):
        if v == "any":
            given[a] = env.arr([env.real(a, l, u) for l, u in zip(lb, ub)]) if a == "xbest" else env.arr([[env.real(a, l, u) for l, u in zip(lb, ub)]])
        elif a == "subset":
            given[a] = np.array(v)
    base = dict(num_pts=npts, weights=[1.0] if near else [0.25, 0.75][:npts], fX=fX)
    if name == "candidate_dycors":
        base["prob_perturb"] = 0.75

    def go(kw):
        k[0] = 0
        kw = {a: v.copy() if isinstance(v, np.ndarray) else v for a, v in kw.items()}
        r = func(opt_prob=problem(dim, lb.copy(), ub.copy()), surrogate=M(), X=X.copy(), **base, **kw)
        return r, asked.pop(), k[0], len(asked), [[v for v in d] for d in env.take_logs("draw")]

    a, b = go(given), go(dict(defaults, **given))
    if given.get("num_cand"):
        env.check(len(a[1]) == given["num_cand"], "not the given number of candidates is considered")
    equal(env, list(a), list(b), "a search with omitted arguments differs from one with their documented defaults")
    if "subset" in given:
        env.check(env.all([C.eq(r[j], center[j]) for r in list(a[0]) + list(a[1]) for j in range(dim) if j not in given["subset"]]), "other coordinates than the given ones are changed")
    if "xbest" in given:
        far = [j for j in range(dim)]
        env.check(env.all([env.any([C.eq(r[j], given["xbest"][j]) for r in a[1]]) for j in far]), "the given center is not used")
    env.reach("end")


def genetic(env, cfg):
    """Expected improvement and the lower confidence bound, with an optimizer that asks for any points."""
    from pySOT import auxiliary_problems as AP
    from pySOT import utils

    kind, npend, given, npts = cfg
    X = np.array([[0.0], [1.0]])
    fX = env.array("fX", (2, 1), -10, 10)
    ats = [0.0005, 0.0015, 0.25, 1.002, 0.5] + [0.25 + d for d in (0.0004, 0.0012)]
    mu = env.array("mu", (len(ats), 1), -10, 10) if kind == "lcb_ga" else np.array([[2.0 - 0.5 * i] for i in range(len(ats))])
    if kind == "ei_ga":
        fX = np.array([[1.0], [0.5]])
    seen = []

    class M:
        def predict(self, xx):
            return mu[: len(xx)].copy()

        def predict_std(self, xx):
            return np.array([[0.5 + 0.125 * i] for i in range(len(xx))])

    class Opt:
        def __init__(self, function, **kw):
            self.f = function

        def optimize(self):
            v = flat(self.f(np.array(ats).reshape(-1, 1)))
            seen.append(v)
            i = [2, 4][len(seen) % 2]
            return np.array([ats[i]]), v[i]

    patch_everywhere(env, utils.GeneticAlgorithm, Opt)
    given = dict(given)
    for a, v in list(given.items()):
        if v == "any":
            given[a] = env.real(a, 0, 5)
    if npend:
        given["Xpend"] = np.array([[0.5]])
    full = dict(Xpend=np.empty((0, 1)), dtol=1e-3)
    full.update(dict(kappa=2.0, lcb_target=None) if kind == "lcb_ga" else dict(ei_tol=1e-6))
    full.update(given)

    def go(kw):
        seen.clear()
        r = getattr(AP, kind)(num_pts=npts, opt_prob=problem(1, np.array([-1.0]), np.array([2.0])), surrogate=M(), X=X.copy(), fX=fX.copy(), **kw)
        return [r is None, [] if r is None else r, [list(v) for v in seen]]

    a, b = go(given), go(full)
    env.check(a[0] == b[0], "a search with omitted arguments gives up in other cases than with their documented defaults")
    for u, v in zip(a[2], b[2]):
        env.check(len(u) == len(v) and all(bool(C.nonfinite(x)) == bool(C.nonfinite(y)) for x, y in zip(u, v)), "the merit with omitted arguments differs from that with their documented defaults")
    equal(env, a, b, "a search with omitted arguments differs from one with their documented defaults")
    env.reach("end")


def merits(env, cfg):
    from pySOT import auxiliary_problems as AP

    kind, given = cfg
    X, fX, XX = np.array([[0.0], [0.5]]), env.array("fX", (2, 1), -10, 10), np.array([[0.0], [0.25]])
    mu, sig = env.array("mu", (2, 1), -10, 10), np.array([[0.5], [0.75]])

    class M:
        def predict(self, xx):
            return mu.copy()

        def predict_std(self, xx):
            return sig.copy()

    given = {a: env.real(a, 0, 5) if v == "any" else v for a, v in given}
    if "dtol" in given:
        given["XX"] = XX
    full = dict(XX=None, dtol=0.0)
    if kind == "lcb_merit":
        full["kappa"] = 2.0
    full.update(given)
    f = getattr(AP, kind)
    equal(env, f(X.copy(), M(), fX.copy(), **given), f(X.copy(), M(), fX.copy(), **full), "a merit with omitted arguments differs from that with their documented defaults")
    if kind == "lcb_merit":
        kappa, d = full["kappa"], full["dtol"]
        v = flat(f(X.copy(), M(), fX.copy(), **given))
        for i in (0, 1):
            if d == 0.0 or i == 1:
                env.eq(v[i], C.sub(mu[i, 0], C.mul(kappa, sig[i, 0])), "the given or default kappa is not used")
    env.reach("end")


# ---------------------------------------------------------------------------------------------------- surrogates


def rbf(env, cfg):
    from pySOT import surrogate as S

    dim, given, npts = cfg
    given = dict(given)
    lb, ub = bounds(dim)
    order = dict(CubicKernel=2, TPSKernel=2, LinearKernel=1)

    def make(kw):
        kw = dict(kw)
        if kw.get("kernel"):
            kw["kernel"] = getattr(S, kw["kernel"])()
        if kw.get("tail"):
            kw["tail"] = getattr(S, kw["tail"])(dim)
        if kw.get("output_transformation") == "twice":
            kw["output_transformation"] = lambda f: 2.0 * f
        return S.RBFInterpolant(dim=dim, lb=lb.copy(), ub=ub.copy(), **kw)

    full = dict(kernel="CubicKernel", tail="LinearTail", eta=1e-6, output_transformation=None)
    full.update({a: v for a, v in given.items() if v is not None})
    if order[full["kernel"]] - 1 > dict(LinearTail=1, ConstantTail=0)[full["tail"]]:
        for kw in (given, full):
            try:
                make(kw)
            except ValueError:
                env.reach("refused")
            else:
                env.check(False, "a kernel and a tail that do not fit together are accepted")
        return
    X = np.array(GRID[dim][:npts])
    f = env.array("f", (npts, 1), -10, 10)
    out = []
    for kw in (given, full):
        s = make(kw)
        s.add_points(X[: npts - 1].copy(), f[: npts - 1].copy())
        s.predict(X[0])
        s.add_points(X[npts - 1 :].copy(), f[npts - 1 :].copy())
        at = (X[0] + X[1] + X[2]) / 3.0
        out.append(flat(s.predict(at)) + flat(s.predict_deriv(at)))
    for o in out[1:]:
        for u, v in zip(out[0], o):
            env.eq(u, v, "a surrogate with omitted arguments differs from one with their documented defaults", 1e-6)
    env.reach("predicted")


GRID = {1: [[-3.0 + 8.0 * t] for t in (0.0, 1.0, 0.4, 0.25, 0.75)], 2: [[-3.0 + 8.0 * a, 1.0 + 1.5 * b] for a, b in ((0, 0), (1, 0.1), (0.2, 1), (1, 1), (0.6, 0.25), (0.25, 0.75))]}


def models(env, cfg):
    """The other surrogates: the transformation is the identity unless one is given; a given Gaussian process is the one that is used."""
    from pySOT import surrogate as S

    kind, dim, trans, own = cfg
    lib = Lib(env)
    lb, ub = bounds(dim)
    X = np.array(GRID[dim][:4])
    vals = env.array("f", (4, 1), -10, 10) if kind != "GPRegressor" else env.arr([[env.real("f", -10, 10)], [1.0], [2.0], [4.0]])
    t = {"none": None, "identity": lambda f: f, "twice": lambda f: 2.0 * f}[trans]
    out = []
    model = None
    for kw in ({} if t is None else dict(output_transformation=t), dict(output_transformation=t or (lambda f: f))):
        if own:
            from sklearn.gaussian_process import GaussianProcessRegressor

            model = kw["gp"] = GaussianProcessRegressor()
        s = lib.make(kind, dim, kw.pop("output_transformation", None)) if not kw.get("gp") else S.GPRegressor(dim=dim, lb=lb, ub=ub, **kw)
        s.add_points(X.copy(), vals.copy())
        lib.values = [1.5]
        n = len(lib.fits)
        v = flat(s.predict(X[0] + 0.125))
        env.check(len(lib.fits) == n + 1, "a surrogate is not fitted once")
        if own:
            env.check(lib.fits[-1][0] is model, "the given model is not used")
        out.append([v, lib.fits[-1][1], flat(lib.fits[-1][2])])
    for u, v in zip(flat(out[0][1]), flat(out[1][1])):
        env.eq(u, v, "a surrogate without transformation is fitted at other points", 1e-9)
    for u, v in zip(out[0][0] + out[0][2], out[1][0] + out[1][2]):
        env.eq(u, v, "a surrogate without a transformation differs from one with the identity")
    env.reach("end")


# ---------------------------------------------------------------------------------------------------- designs


def designs(env, cfg):
    from pySOT import experimental_design as ED

    name, dim, n, it, iv, box = cfg
    env.cdist = lambda a, b: np.ones((len(a), len(b)))
    env.matrix_rank = lambda M: M.shape[1]
    make = lambda: ED.TwoFactorial(dim) if name == "TwoFactorial" else getattr(ED, name)(dim, n, iterations=it)
    lb, ub = env.array("lb", dim, -20, 0), env.array("ub", dim, 1, 20)
    empty = {"none": None, "list": [], "array": np.array([]), "ints": np.array([], dtype=int)}
    unit = dict(lb=np.zeros(dim), ub=np.ones(dim), int_var=np.array([], dtype=int))
    one = {"omitted": {}, "lb only": dict(lb=lb, ub=None), "ub only": dict(ub=ub), "unit": dict(lb=np.zeros(dim), ub=np.ones(dim)), "box": dict(lb=lb, ub=ub), "ints": dict(lb=None, ub=None)}[box]
    two = dict(lb=lb, ub=ub, int_var=np.array([], dtype=int)) if box == "box" else unit
    if iv != "omitted":
        one = dict(one, int_var=empty[iv] if box != "ints" else [0])
    t = Tape(env)

    def points(kw):
        try:
            return make().generate_points(**kw)
        except ValueError:  # no valid design among those drawn
            return None

    with t.recording():
        a = points(one)
    with t.playing():
        b = points(two)
    env.check(not t.lost and not t.left, "a design with omitted arguments is drawn in another way")
    env.check((a is None) == (b is None), "a design with omitted arguments fails in other cases")
    if a is None:
        return
    shape(env, a, (2 ** dim if name == "TwoFactorial" else n, dim), "a design")
    for u, v in zip(flat(a), flat(b)):
        env.eq(u, v, "a design with omitted arguments differs from the documented one", 1e-9)
    env.reach("end")


from checks.cand import search

SRBF, DYC, SOP, EI, LCB = "SRBFStrategy", "DYCORSStrategy", "SOPStrategy", "EIStrategy", "LCBStrategy"
SYNC = (("asynchronous", False), ("batch_size", 2))
ANY = lambda **k: tuple(k.items())
STR = [(SRBF, 1, 2, ANY(weights="one"), 2, 3), (DYC, 2, 2, ANY(weights="one", num_cand=1) + SYNC, 2, 3), (SRBF, 2, 2, (), 2, 4), (SRBF, 2, 2, SYNC, 2, 4), (SRBF, 1, 2, ANY(weights="any"), 2, 3), (SRBF, 3, 2, ANY(num_cand=7), 3, 3), (DYC, 2, 2, (), 2, 4), (DYC, 1, 2, ANY(weights="any") + SYNC, 2, 3), (DYC, 3, 1, ANY(num_cand=7), 3, 2),
       (SOP, 2, 5, SYNC, 5, 4), (SOP, 2, 5, (), 5, 4), (SOP, 1, 4, ANY(ncenters=2) + SYNC, 4, 4), (SOP, 2, 5, ANY(num_cand=7) + SYNC, 5, 3), (EI, 2, 2, (), 2, 4), (EI, 1, 2, ANY(dtol="any") + SYNC, 2, 3), (LCB, 2, 2, (), 2, 4), (LCB, 1, 2, ANY(kappa="any"), 2, 3), (LCB, 2, 2, ANY(dtol="any", use_restarts=False) + SYNC, 2, 3),
       (SRBF, 2, 1, ANY(extra_vals="any"), 2, 3), (EI, 1, 1, ANY(use_restarts=False), 2, 3), (EI, 2, 2, ANY(extra_vals="any"), 3, 2), (LCB, 1, 2, ANY(extra_vals="any"), 3, 2), (DYC, 2, 2, ANY(extra_vals="any"), 3, 2), (SOP, 2, 5, ANY(extra_vals="any") + SYNC, 6, 2)]
SR, DY, UN = "candidate_srbf", "candidate_dycors", "candidate_uniform"
CAN = [(n, d, g, p, 0) for n in (SR, DY, UN) for d, g, p in ((1, (), 1), (2, (), 2), (2, ANY(num_cand=5), 2), (3, ANY(subset=(0, 2)), 1), (3, ANY(subset=(1,)), 1), (2, ANY(num_cand=1), 1), (2, ANY(Xpend="any"), 2))] + [(SR, 2, ANY(sampling_radius=0.05), 1, 0), (DY, 2, ANY(sampling_radius=0.05), 2, 0), (DY, 2, ANY(xbest="any"), 2, 0)] + [(n, 1, (), 1, i) for n in (SR, DY, UN) for i in (1, 2)]
GEN = [("lcb_ga", 0, (), 1), ("lcb_ga", 1, ANY(lcb_target=-3.0), 2), ("lcb_ga", 1, ANY(kappa="any", lcb_target=1.0), 1), ("lcb_ga", 0, ANY(dtol=0.25), 2), ("ei_ga", 0, (), 2), ("ei_ga", 1, ANY(dtol=0.002), 2), ("ei_ga", 1, ANY(ei_tol=0.125), 1)]
MER = [("lcb_merit", ()), ("lcb_merit", ANY(kappa="any")), ("lcb_merit", ANY(dtol=0.125)), ("ei_merit", ()), ("ei_merit", ANY(dtol=0.125))]
RBF = [(d, g, 4 + (d > 1)) for d in (1, 2) for g in ((), ANY(kernel="TPSKernel"), ANY(kernel="LinearKernel"), ANY(tail="LinearTail"), ANY(kernel="LinearKernel", tail="ConstantTail"), ANY(tail="ConstantTail"), ANY(eta=0.125), ANY(kernel=None, tail="LinearTail"), ANY(kernel="TPSKernel", tail=None), ANY(output_transformation="twice"), ANY(kernel="LinearKernel", eta=0.125))]
MOD = [(k, d, t, False) for k in ("GPRegressor", "PolyRegressor", "MARSInterpolant") for d, t in ((1, "none"), (2, "identity"), (1, "twice"))] + [("GPRegressor", 2, "none", True), ("GPRegressor", 1, "twice", True)]
LH, SL, TF = "LatinHypercube", "SymmetricLatinHypercube", "TwoFactorial"
DES = [(LH, 2, 3, 1, "omitted", "omitted"), (LH, 2, 2, 1, "none", "lb only"), (LH, 1, 3, 1, "list", "box"), (SL, 2, 3, 1, "array", "box"), (SL, 1, 4, 1, "omitted", "ub only"), (SL, 2, 2, 1, "ints", "unit"), (TF, 2, 4, 1, "omitted", "omitted"), (TF, 2, 4, 1, "none", "box"), (TF, 2, 4, 1, "list", "box"), (TF, 1, 2, 1, "array", "ub only"), (SL, 2, 3, 1, "none", "box"), (LH, 2, 2, 1, "array", "box"), (TF, 2, 4, 1, "none", "ints"), (SL, 1, 3, 1, "none", "ints")]
CLAIMS = [
    Claim("strategies", strategies, [c[:5] + (c[5] + 1,) for c in STR], [c[:5] + (c[5] + 4,) for c in STR], covers="SRBFStrategy, DYCORSStrategy, SOPStrategy, EIStrategy, LCBStrategy", bounds="3-5 (thorough 6-8) events in any order after 2-5 evaluations in turn, any values of the first two evaluations, any given weights, kappa, dtol, extra values; 1-3 variables", reach=["searched", "end"]),
    Claim("candidates", candidates, CAN, covers="candidate_srbf, candidate_dycors, candidate_uniform", bounds="1-3 variables, two evaluated points anywhere, any values; one sequence of draws", reach=["end"]),
    Claim("genetic", genetic, GEN, covers="ei_ga, lcb_ga", bounds="any predictions (LCB), thresholds and kappa; 7 query points", reach=["end"]),
    Claim("merits", merits, MER, covers="ei_merit, lcb_merit", bounds="any predictions, values, kappa", reach=["end"]),
    Claim("rbf", rbf, RBF, covers="RBFInterpolant", bounds="4-5 points in 1-2 variables, any values", reach=["predicted"]),
    Claim("models", models, MOD, covers="GPRegressor, PolyRegressor, MARSInterpolant", bounds="4 points in 1-2 variables, any values", reach=["end"]),
    Claim("designs", designs, DES, covers="experimental designs", bounds="1-2 variables, 2-4 points, any draws, any bounds", reach=["end"]),
]
ASSUMPTIONS = [REALS, "the searches inside the strategies are arbitrary functions (claim strategies), and their own optional arguments are checked by the other claims", "the default thresholds of EI and LCB depend on the values found: C10"]
