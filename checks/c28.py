"""C28: objects are independent: what is done with one changes nothing that another one reports or does."""
from checks import fs as F
from checks.c17 import queries
from checks.c19 import checkpointed
from checks.c20 import compare
from checks.c21 import REF
from checks.models import *
from checks.strat import *
from checks.tape import Tape, outside
from symx.runner import Claim


def equal(env, a, b, msg):
    """Nested lists, arrays and numbers."""
    if isinstance(a, (list, tuple)):
        env.check(isinstance(b, (list, tuple)) and len(a) == len(b), msg)
        for x, y in zip(a, b):
            equal(env, x, y, msg)
    elif isinstance(a, np.ndarray) or C.is_sym(a) or isinstance(a, (int, float)):
        env.check(b is not None and not isinstance(b, (list, tuple, str)), msg)
        same(env, np.asarray(a) if not isinstance(a, np.ndarray) else a, np.asarray(b) if not isinstance(b, np.ndarray) else b, msg)
    else:
        env.check(a == b, msg)


# ---------------------------------------------------------------------------------------------------- strategies


class Run:
    """One run with its own objects (the problem may be shared), values and calls of the searches."""

    def __init__(self, env, cfg, vals, off, prob=None):
        from pySOT import strategy as S

        kind, asyn, batch, ninit, kw = cfg
        self.env, self.vals, self.out, self.k, self.calls = env, vals, [], 0, []
        if kind == "RandomStrategy":
            env.draw = lambda n=iter(range(off, 999)): ((7 * next(n)) % 64) / 64.0
            self.st = S.RandomStrategy(max_evals=12, opt_prob=prob or problem(1))
            env.draw = None
        else:
            pts = Points(env, 1, False)
            pts.k = off
            d, s = Design(env, ninit, 1, pts), Surr(env, 1)
            kw = dict(kw)
            cls = getattr(S, kind)
            if kind in (EI, LCB):
                cls = env.__dict__.setdefault("any_" + kind, type("Any" + kind, (cls,), dict(check_input=S.SurrogateBaseStrategy.check_input)))  # any surrogate will do
            else:
                kw["num_cand"] = 2
            self.st = cls(max_evals=30, opt_prob=prob or problem(1), exp_design=d, surrogate=s, asynchronous=asyn, batch_size=batch, **kw)
            self.st.design = d
            d.run = self
            s.run = self
        self.sim = Sim(env, self.st, 2, reject=False, fail=False, value=self.value)
        self.given = []

    free = None  # which values are arbitrary

    def value(self, x):
        self.k += 1
        if self.k > len(self.vals):
            with outside(self.env):
                k = self.k - 1
                self.vals.append(self.env.real("f", -10, 10) if self.free is None or k in self.free else 5.0 + 45.0 * (k > 0) + k)
        return self.vals[self.k - 1]

    def event(self, e):
        sim = self.sim
        if e == "ask":
            p = sim.ask(decide=False)
            if p is not None and p.action == "eval":
                self.out.append(p.args[0].copy())
                self.given.append((p.args[0], p.args[0].copy()))
            else:
                self.out.append("idle" if p is None else p.action)
        else:
            sim.complete(e[1] % len(sim.out))

    def legal(self):
        if self.sim.terminated:
            return []
        out = ["ask"] if len(self.sim.out) < 2 else []
        return out + (["complete"] if self.sim.out else [])

    def report(self):
        """What the run shows to others."""
        s = self.st
        if not hasattr(s, "surrogate"):
            return []
        return [s.num_evals, s.pending_evals, getattr(s, "init_pending", 0), s.X.copy(), s.fX.copy(), s.Xpend.copy(), len(s.fevals), bool(s.converged), [list(x) + [f] for x, f in s.surrogate.data], s.design.calls.__len__()]


def searches(env):
    """All searches return arbitrary points, and tell the run of the surrogate that is passed to them."""
    from pySOT import auxiliary_problems as AP

    for name in ("candidate_srbf", "candidate_dycors", "candidate_uniform", "ei_ga", "lcb_ga"):
        func = getattr(AP, name)
        func = getattr(func, "__symx_real__", func)

        def f(*a, _func=func, **k):
            b = bind(_func, a, k)
            run = b["surrogate"].run
            run.calls.append([_func.__name__] + [v.copy() if isinstance(v, np.ndarray) else list(v) if isinstance(v, (list, tuple)) else v for n, v in sorted(b.items()) if n not in ("surrogate", "opt_prob", "kwargs")])
            return env.arr([run.st.design.point() for _ in range(b["num_pts"])])

        f.__name__ = func.__name__
        f.__signature__ = inspect.signature(func)
        patch_everywhere(env, func, f)


def strategies(env, cfg):
    """Each run alone, in a process of its own; then both again with the same results, their events mixed in any way."""
    one, two, pre, n, shared = cfg[:5]
    asks, Run.free = cfg[5:7] if len(cfg) > 5 else (1, None)
    searches(env)
    prob = problem(1) if shared else None
    cfgs, offs, vals, logs = (one, two), (0, 500), ([], []), ([], [])
    new = lambda i: Run(env, cfgs[i], vals[i], offs[i], prob)

    def alone(i):
        env.new_process()
        r = new(i)

        def go(e):
            r.event(e)
            logs[i].append(e)

        for _ in range(pre):
            for _ in range(asks):
                if "ask" in r.legal():
                    go("ask")
            for _ in range(asks):
                if r.sim.out:
                    go(("complete", 0))
        for _ in range((n + 1 - i) // 2):
            opts = r.legal()
            if opts:
                e = opts[env.choice("event", len(opts))]
                go(e if e == "ask" else (e, 0))
        return r

    first = [alone(i) for i in (0, 1)]
    env.new_process()
    runs = [None, None]  # each one is created just before its first event
    left = [list(logs[0]), list(logs[1])]
    turn = 0
    while left[0] or left[1]:
        if not (left[0] and left[1]):
            i = 0 if left[0] else 1
        elif len(left[0]) > (n + 1) // 2 + 1 or len(left[1]) > n // 2 + 1:  # in turn
            i = turn
        else:
            i = env.choice("run", 2)
        turn = 1 - i
        other = runs[1 - i]
        before = other and other.report()
        runs[i] = runs[i] or new(i)
        runs[i].event(left[i].pop(0))
        if other:
            equal(env, before, other.report(), "an event of one run changes what another run reports")
        if hasattr(runs[i].st, "surrogate"):
            Ledger(env).after(runs[i].sim)
    for r in first + runs:
        for x, x0 in r.given:
            same(env, x, x0, "a point that was proposed is changed later")
    for r, q in zip(first, runs):
        equal(env, r.out, q.out, "a run proposes something else when another run exists")
        equal(env, r.calls, q.calls, "a run searches in another way when another run exists")
        equal(env, r.report(), q.report(), "a run reports something else when another run exists")
    env.reach("end")


# ---------------------------------------------------------------------------------------------------- models


class Sums(Lib):
    """Models whose predictions depend on the data of their last fit."""

    def __init__(self, env):
        super().__init__(env)
        import sklearn.gaussian_process as g
        import sklearn.pipeline as p

        def fit(model, X, y, *a, **k):
            model.seen = (X.copy(), y.copy())
            return model

        def predict(model, X, return_std=False, **k):
            XX, y = model.seen
            v = [sum([C.mul(float(i + 1), w) for i, w in enumerate(flat(y))], 0.0) for _ in range(len(X))]
            v = env.arr(v)
            return (v, np.full(len(X), float(len(flat(y))))) if return_std else v

        def column(model, X, **k):
            return predict(model, X).reshape(-1, 1)

        env.patch(g.GaussianProcessRegressor, "fit", fit)
        env.patch(g.GaussianProcessRegressor, "predict", predict)
        env.patch(p.Pipeline, "fit", fit)
        env.patch(p.Pipeline, "predict", column)
        self.earth.Earth.fit, self.earth.Earth.predict = fit, predict


def median_cap(fX):
    from pySOT.surrogate import median_capping

    return median_capping(fX)


def surrogates(env, cfg):
    one, two, ops = cfg
    lib = Sums(env)

    def make(kind):
        name, dim, kernel, tail = kind
        if name != "RBFInterpolant":
            return lib.make(name, dim)
        from pySOT import surrogate as S

        lb, ub = bounds(dim)
        kw = {} if kernel is None else dict(kernel=getattr(S, kernel)(), tail=getattr(S, tail)(dim))
        return S.RBFInterpolant(dim=dim, lb=lb, ub=ub, **kw)

    def look(s, kind, predict=True):
        r = [s.num_pts, s.X.copy(), s.fX.copy(), s.dim, s.lb.copy(), s.ub.copy()]
        if predict and s.num_pts >= 3 + kind[1]:
            Q = queries(kind[1], [list(x) for x in GRID[kind[1]][:2]])
            r.append(s.predict(np.array(Q)).copy())
        return r

    kinds, objs, data = (one, two), [None, None], [[], []]
    few = one[0] == "GPRegressor" or two[0] == "GPRegressor"  # their normalization is not linear
    vals = [iter((flat(env.array("f%d" % i, 1, -10, 10)) + [float((7 * j + 3 * i) % 11) for j in range(15)]) if few else flat(env.array("f%d" % i, 16, -10, 10))) for i in (0, 1)]

    def add(s, kind, log, xs, fs):
        s.add_points(np.array(xs, dtype=float), env.arr([[f] for f in fs]))
        log += list(zip(xs, fs))

    new = [look(make(k), k) for k in kinds]
    last = [None, None]  # what each one answered after its last operation
    for i, op in ops:
        k, o = kinds[i], 1 - i
        if op == "new":
            objs[i], data[i] = make(k), []
            equal(env, look(objs[i], k), new[i], "a surrogate does not start empty when another one was used before")
        elif op == "reset":
            objs[i].reset()
            data[i] = []
        elif op == "look":
            look(objs[i], k)
        else:
            m = len(data[i])
            add(objs[i], k, data[i], [list(x) for x in GRID[k[1]][m : m + op]], [next(vals[i]) for _ in range(op)])
        if last[o] is not None:
            equal(env, last[o], look(objs[o], kinds[o]), "using one surrogate changes what another one answers")
        last[i] = look(objs[i], k)
    for i in (0, 1):
        s = make(kinds[i])
        if data[i]:
            add(s, kinds[i], [], [x for x, _ in data[i]], [f for _, f in data[i]])
        a, b = look(objs[i], kinds[i]), look(s, kinds[i])
        equal(env, a[:6], b[:6], "a surrogate holds something else when another one exists")
        for p, q in zip(a[6:], b[6:]):
            for u, v in zip(flat(p), flat(q)):
                env.eq(u, v, "a surrogate predicts something else when another one exists", 1e-5)
            env.reach("predicted")
    env.reach("end")


GRID = {1: [[-3.0 + 8.0 * t] for t in (0.0, 1.0, 0.5, 0.25, 0.75, 0.125, 0.875, 0.375)],
        2: [[-3.0 + 8.0 * a, 1.0 + 1.5 * b] for a, b in ((0, 0), (1, 0), (0, 1), (1, 1), (0.5, 0.25), (0.25, 0.75), (0.75, 0.5), (0.125, 0.375))]}


def parts(env, cfg):
    """Kernels, tails and transformations: another object of any kind does not change their results."""
    from pySOT import surrogate as S

    kernel, tail, dims = cfg

    def new():
        return getattr(S, kernel)(), [getattr(S, tail)(d) for d in dims]

    R = env.array("r", (2, 2), 0.5, 3)
    X = [env.array("x%d" % d, (2, d), 0, 1) for d in dims]

    def look(k, t):
        return [k.eval(R).copy(), k.deriv(R).copy(), k.order] + [[np.asarray(a.eval(x)).copy(), np.asarray(a.deriv(x[0:1, :])).copy(), a.dim_tail, a.degree] for a, x in zip(t, X)]

    k, t = new()
    a = look(k, t)
    env.new_process()
    k, t = new()
    for other in ("CubicKernel", "TPSKernel", "LinearKernel"):
        o = getattr(S, other)()
        o.eval(env.array("o", (2, 2), 0.5, 3)), o.deriv(env.array("o", (2, 2), 0.5, 3))
    for other in ("LinearTail", "ConstantTail"):
        for d in (1, 2, 3):
            o = getattr(S, other)(d)
            o.eval(env.array("y", (3, d), 0, 1)), o.deriv(env.array("y", (1, d), 0, 1))
    S.median_capping(env.array("v", (3, 1), -10, 10))
    b = look(k, t)
    c = look(*new())
    equal(env, a, c, "a new kernel or tail gives something else after others were used")
    equal(env, a, b, "a kernel or tail gives something else after others were used")
    env.reach("end")


# ---------------------------------------------------------------------------------------------------- designs, problems, searches


def designs(env, cfg):
    from pySOT import experimental_design as ED

    one, two, kept = cfg
    env.cdist = lambda a, b: np.ones((len(a), len(b)))
    env.matrix_rank = lambda M: M.shape[1]

    def make(kind, dim, n, it):
        return ED.TwoFactorial(dim) if kind == "TwoFactorial" else getattr(ED, kind)(dim, n, iterations=it)

    def points(d, cfg):
        try:
            return d.generate_points(lb=np.full(cfg[1], -2.0), ub=np.full(cfg[1], 6.0), int_var=np.array([], dtype=int)) if kept else d.generate_points()
        except ValueError:
            return None

    a = make(*one)
    t = Tape(env)
    with t.recording():
        x = points(a, one)
    x0 = None if x is None else x.copy()
    env.extreme = "high"  # permutations at an end of their order
    b = make(*two)
    y = points(b, two)
    env.check((a.dim, a.num_pts) == (one[1], 2 ** one[1] if one[0] == "TwoFactorial" else one[2]), "a design has another size when another one exists")
    z = points(a, one)
    y0 = None if y is None else y.copy()
    points(make(*one), one)
    env.extreme = None
    if x is not None:
        same(env, x, x0, "points that were handed out are changed by later designs")
    if y is not None:
        same(env, y, y0, "points that were handed out are changed by later designs")
    if z is not None and x is not None:
        z[0, 0] = 99.0
        same(env, x, x0, "points that were handed out are changed by later designs")
    c = make(*one)
    with t.playing():
        w = points(c, one)
    env.check(not t.lost and not t.left, "a design is drawn in another way when others exist")
    env.check((w is None) == (x is None), "a design fails only when others exist")
    if x is not None:
        same(env, x0, w, "a design gives something else when others exist, with the same draws")
        env.reach("end")


def problems(env, cfg):
    from pySOT import optimization_problems as OP

    name, dim = cfg
    cls = getattr(OP, name)
    fixed = name in ("Branin", "GoldsteinPrice", "Hartmann3", "Hartmann6", "SixHumpCamel")
    mk = lambda d=None: cls() if fixed else cls(dim=d or dim)
    at = np.array([0.3 + 0.1 * j for j in range(dim)])

    def look(p):
        return [p.dim, np.array(getattr(p, "minimum", 0)), np.asarray(p.lb).copy(), np.asarray(p.ub).copy(), np.asarray(p.int_var).copy(), np.asarray(p.cont_var).copy(), float(p.eval(at.copy()))]

    a = mk()
    b = mk()
    first = look(a)
    b.lb[:] = env.array("lb", dim, -9, -8) if b.lb.dtype == object else -8.5
    b.ub[:] = 99
    b.lb, b.ub = env.array("lb", dim, -9, -8), env.array("ub", dim, 8, 9)
    b.int_var = np.array([0])
    b.eval(at + 0.125)
    if not fixed:
        c = mk(dim + 1)
        c.eval(np.full(dim + 1, 0.25))
    equal(env, first, look(a), "a problem changes when another one is changed")
    equal(env, first, look(mk()), "a new problem is not like the first one")
    env.reach("end")


def genetic(env, cfg):
    from pySOT.utils import GeneticAlgorithm

    one, two, extreme = cfg
    env.randn_range = (-4, 4)

    def make(c, calls, vals):
        dim, iv, pop, gen = c

        def f(x):
            calls.append(np.array(x).copy() if not env.symbolic else x.copy())
            k = sum(len(np.atleast_2d(a)) for a in calls)
            n = len(np.atleast_2d(x))
            while len(vals) < k:
                with outside(env):
                    vals.append(env.real("val", -10, 10))
            return env.arr(vals[k - n : k])

        g = GeneticAlgorithm(f, dim, np.array([-2.0, 1.0][:dim]), np.array([3.0, 4.0][:dim]), int_var=np.array(iv, dtype=int), pop_size=pop, num_gen=gen, start="Random")
        g.tournament_size = 1
        return g

    ca, cb, cc, va, vb = [], [], [], [], []
    env.extreme = extreme
    ga, gb = make(one, ca, va), make(two, cb, vb)
    ta, tb = Tape(env), Tape(env)
    with tb.recording():
        xb, fb = gb.optimize()
    env.check(not ca, "a search evaluates the objective of another one")
    nb = len(cb)
    with ta.recording():
        xa, fa = ga.optimize()
    env.check(len(cb) == nb, "a search evaluates the objective of another one")
    keep = [xa.copy(), xb.copy()]
    with ta.playing():
        xc, fc = make(one, cc, va).optimize()
    env.extreme = None
    env.check(not ta.lost and not ta.left, "a search draws in another way when another one was run")
    equal(env, [xa, fa], [xc, fc], "a search finds something else when another one was run")
    equal(env, ca, cc, "a search evaluates other points when another one was run")
    equal(env, [xa, xb], keep, "a returned point is changed by a later search")
    env.reach("end")


# ---------------------------------------------------------------------------------------------------- checkpoints


def checkpoints(env, cfg):
    """Two checkpointed runs with their own files."""
    kind, n, names = cfg
    F.FS(env)
    M = 6
    runs = []
    for i in (0, 1):
        st = make(env, M, True, None, 2, kind=kind)
        st.design.point.k += 500 * i
        c, ck = checkpointed(env, st, F.ROOT + "/" + names[i])
        sim = Sim(env, st, 2, reject=False)
        sim.how = 0
        sim.record = c.new_feval
        runs.append((st, c, sim))
    saved = [False, False]
    for _ in range(n):
        opts = [i for i in (0, 1) if not runs[i][2].terminated]
        i = opts[env.choice("run", len(opts))]
        runs[i][2].step()
        saved[i] = saved[i] or bool(runs[i][2].finished)
    for i in (0, 1):
        c, ck = checkpointed(env, None, F.ROOT + "/" + names[i])
        try:
            ck.resume()
        except OSError:
            env.check(not saved[i], "the checkpoint of a run is lost when another run is checkpointed")
            continue
        env.check(saved[i], "a run that was never saved resumes from the checkpoint of another one")
        compare(env, c, c.strategy, runs[i][2].done, runs[i][2].finished, None)
        env.reach("resumed")
    env.reach("end")


from checks.c03 import Ledger

SRBF, DYC, SOP, EI, LCB, RND = "SRBFStrategy", "DYCORSStrategy", "SOPStrategy", "EIStrategy", "LCBStrategy", "RandomStrategy"


def k_(name, asyn=True, batch=None, ninit=1, kw=()):
    return (name, asyn, batch, ninit, kw)


STR = [(k_(SRBF), k_(SRBF), 2, 4, True), (k_(DYC), k_(DYC, False, 2), 1, 4, False), (k_(SOP, False, 2, 2, (("ncenters", 2),)), k_(SOP, True, None, 2, (("ncenters", 1),)), 3, 3, False), (k_(EI), k_(LCB), 2, 4, True), (k_(SRBF, False, 2, 2), k_(DYC), 0, 5, False), (k_(RND), k_(RND), 0, 5, True),
       (k_(SRBF, kw=(("weights", [0.5, 0.9]),)), k_(SRBF), 3, 3, False), (k_(EI, kw=(("dtol", 0.125), ("ei_tol", 0.25))), k_(EI, kw=(("dtol", 0.5), ("ei_tol", 0.125))), 2, 3, False), (k_(LCB, kw=(("dtol", 0.125), ("kappa", 1.0))), k_(LCB, kw=(("dtol", 0.5), ("kappa", 3.0))), 2, 3, False), (k_(SRBF, False, 1), k_(DYC), 0, 6, True), (k_(SRBF, False, 2), k_(SRBF, False, 2), 4, 2, False, 2, (1, 3)), (k_(SOP, False, 2, 2, (("ncenters", 2),)), k_(SOP, False, 2, 2, (("ncenters", 3),)), 4, 2, False, 2, (2, 4))]
G, P_, M_ = ("GPRegressor", 1, None, None), ("PolyRegressor", 2, None, None), ("MARSInterpolant", 1, None, None)
R1, R2, R3, R4 = ("RBFInterpolant", 1, None, None), ("RBFInterpolant", 1, "LinearKernel", "ConstantTail"), ("RBFInterpolant", 2, "TPSKernel", "LinearTail"), ("RBFInterpolant", 2, None, None)
O1 = [(0, "new"), (0, 4), (0, "look"), (1, "new"), (1, 5), (0, 1), (1, "look"), (1, "reset"), (1, 4), (0, 2)]
O2 = [(0, "new"), (1, "new"), (0, 5), (1, 5), (0, 1), (1, 1), (0, "reset"), (1, 1), (0, 5), (1, "new"), (1, 5)]
PROBS = [(n, {"Branin": 2, "GoldsteinPrice": 2, "Hartmann3": 3, "Hartmann6": 6, "SixHumpCamel": 2}.get(n, 3)) for n in REF]
LH, SL, TF = "LatinHypercube", "SymmetricLatinHypercube", "TwoFactorial"
DES = [((LH, 2, 3, 1), (LH, 2, 3, 1), False), ((SL, 2, 4, 1), (SL, 1, 3, 1), True), ((LH, 1, 2, 2), (SL, 2, 4, 1), True), ((TF, 2, 4, 1), (TF, 1, 2, 1), False), ((SL, 1, 3, 1), (SL, 1, 3, 1), False), ((TF, 2, 4, 1), (TF, 2, 4, 1), True)]
CLAIMS = [
    Claim("strategies", strategies, STR, [c[:3] + (c[3] + 2,) + c[4:] for c in STR], covers="every strategy, two runs at the same time", bounds="3-5 (thorough 5-7) events in any order after up to 3 rounds in turn, any values, up to 2 workers", reach=["end"]),
    Claim("surrogates", surrogates, [(R1, R1, O1), (R2, R3, O1), (R4, R4, O2), (R1, R4, O2), (G, G, O1), (P_, P_, O2), (M_, M_, O1), (G, P_, O2)], [(a, b, o) for a in (R1, R2, R3, R4) for b in (R1, R2, R3, R4) for o in (O1, O2)] + [(a, b, o) for a in (G, P_, M_) for b in (G, P_, M_) for o in (O1, O2)],
          covers="all surrogates, two at the same time", bounds="two sequences of 10-11 operations, up to 8 points in 1-2 variables, any values", reach=["end", "predicted"]),
    Claim("parts", parts, [("CubicKernel", "LinearTail", (1, 2)), ("TPSKernel", "ConstantTail", (1, 1)), ("LinearKernel", "LinearTail", (2, 1))], covers="kernels, tails, median_capping", bounds="any distances and points", reach=["end"]),
    Claim("designs", designs, DES, DES + [((LH, 2, 3, 2), (LH, 1, 3, 2), True), ((SL, 2, 5, 1), (SL, 2, 4, 1), False)], covers="experimental designs", bounds="1-2 variables, 2-4 (5) points, any draws", reach=["end"]),
    Claim("problems", problems, PROBS, covers="all optimization problems", bounds="any other bounds", reach=["end"]),
    Claim("genetic", genetic, [((1, (), 2, 1), (1, (0,), 2, 1), None), ((2, (1,), 2, 2), (2, (), 2, 1), "low")], [((1, (), 2, 2), (1, (0,), 2, 1), None), ((2, (1,), 2, 2), (2, (), 2, 1), "low"), ((2, (), 2, 1), (1, (0,), 3, 1), "high")], covers="GeneticAlgorithm", bounds="1-2 variables, population 2 (4), 1-2 generations, any objective, any draws (or those at an end of their ranges)", reach=["end"]),
    Claim("checkpoints", checkpoints, [("base", 5, ("a.ck", "b.ck")), ("srbf", 5, ("d/run.ck", "run.ck"))], [("base", 7, ("a.ck", "b.ck")), ("srbf", 7, ("d/run.ck", "run.ck")), ("base", 7, ("run", "run.ck"))], covers="CheckpointController, two runs with their own files", bounds="up to 5 (7) events in any order", reach=["resumed", "end"]),
]
ASSUMPTIONS = [REALS, "each object gets its own design, surrogate and file (the problem may be shared)", "the searches inside the strategies are arbitrary functions here (their own independence of earlier calls: C29)"]
