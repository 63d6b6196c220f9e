"""C22: malformed problems and configurations are rejected, valid ones accepted."""
from checks.strat import *
from symx.runner import Claim


def rejected(f, *a, **k):
    try:
        f(*a, **k)
    except Exception as e:
        return e
    return None


def verdict(env, e, valid, what):
    """valid: a condition; the call has accepted (e is None) or rejected on this path."""
    if e is None:
        env.check(valid, "accepted although invalid: " + what)
        env.reach("accepted")
    else:
        env.check(C.lnot(valid) if C.is_sym(valid) else not valid, "rejected although valid: %s (%s: %s)" % (what, type(e).__name__, e))
        env.reach("rejected")


class Any:
    """Looks like a problem, but does not implement the interface."""

    def __init__(self, p):
        self.__dict__.update(p.__dict__)

    def eval(self, x):
        return 0.0


def index_sets(env, cfg):
    from pySOT.utils import check_opt_prob

    dim, nc, ni = cfg
    p = problem(dim)
    ent = [env.int("index", -2, dim + 1) for _ in range(nc + ni)]
    p.cont_var = env.arr(ent[:nc]) if nc else np.array([], dtype=int)
    p.int_var = env.arr(ent[nc:]) if ni else np.array([], dtype=int)
    e = rejected(check_opt_prob, p)
    ok = [nc + ni == dim] + [env.all([C.ge(x, 0), C.lt(x, dim)]) for x in ent] + [C.ne(ent[i], ent[j]) for i in range(len(ent)) for j in range(i)]
    verdict(env, e, env.all(ok), "the index sets of integer and continuous variables")


def bounds(env, cfg):
    from pySOT.utils import check_opt_prob

    dim, nl, nu, iv = cfg
    p = problem(dim, int_var=iv)
    p.lb = env.array("lb", nl, -5, 5)
    p.ub = env.array("ub", nu, -5, 5)
    if env.flag("nan"):
        a = [p.lb, p.ub][env.choice("which", 2)]
        lst = list(a)
        lst[env.choice("where", len(lst))] = float("nan")
        b = env.arr(lst)
        if a is p.lb:
            p.lb = b
        else:
            p.ub = b
    e = rejected(check_opt_prob, p)
    ok = nl == dim and nu == dim and env.all([C.lt(p.lb[i], p.ub[i]) if not (C.nonfinite(p.lb[i]) or C.nonfinite(p.ub[i])) else False for i in range(dim)])
    verdict(env, e, ok, "the bounds")


def dimension(env, cfg):
    from pySOT.utils import check_opt_prob

    n, = cfg
    p = problem(n)
    p.dim = env.int("dim", -3, 6)
    e = rejected(check_opt_prob, p)
    verdict(env, e, env.all([C.eq(p.dim, n), C.gt(p.dim, 0)]), "the dimension")


BAD = [("dim", lambda n: float(n)), ("dim", lambda n: str(n)), ("dim", lambda n: None), ("dim", lambda n: [n]), ("lb", lambda n: [0.0] * n), ("ub", lambda n: [1.0] * n), ("lb", lambda n: None), ("ub", lambda n: tuple([1.0] * n)),
       ("cont_var", lambda n: list(range(n))), ("cont_var", lambda n: tuple(range(n)))]


def kinds(env, cfg):
    """Parts of the wrong type."""
    from pySOT.utils import check_opt_prob

    n, = cfg
    i = env.choice("what", len(BAD) + 4)
    p = problem(n)
    if i < len(BAD):
        name, f = BAD[i]
        setattr(p, name, f(n))
        verdict(env, rejected(check_opt_prob, p), False, "%s of type %s" % (name, type(getattr(p, name)).__name__))
    elif i == len(BAD):
        p.cont_var, p.int_var = p.int_var, list(range(n))
        verdict(env, rejected(check_opt_prob, p), False, "int_var of type list")
    elif i == len(BAD) + 1:
        verdict(env, rejected(check_opt_prob, Any(p)), False, "an object that does not implement OptimizationProblem")
    elif i == len(BAD) + 2:
        verdict(env, rejected(check_opt_prob, None), False, "no problem at all")
    else:
        verdict(env, rejected(check_opt_prob, p), True, "a valid problem")


def real(kind):
    from pySOT import strategy as S

    return {"base": S.SurrogateBaseStrategy, "srbf": S.SRBFStrategy, "dycors": S.DYCORSStrategy, "ei": S.EIStrategy, "lcb": S.LCBStrategy, "sop": S.SOPStrategy}[kind]


def parts(env, kind, n, dim=1, pts=None):
    pts = pts or Points(env, dim, False)
    s = Surr(env, dim)
    if kind in ("ei", "lcb"):
        from pySOT.surrogate import GPRegressor

        s = GPRegressor(dim, np.zeros(dim), np.ones(dim))
    return dict(opt_prob=problem(dim), exp_design=Design(env, n, dim, pts), surrogate=s)


def budget(env, cfg):
    """Any budget, with and without a batch size."""
    kind, n, asyn = cfg
    cls = real(kind)
    M = env.int("max_evals", -5, 1000000)
    batch = [None, 1, 2][env.choice("batch", 3)]
    e = rejected(cls, max_evals=M, asynchronous=asyn, batch_size=batch, use_restarts=env.flag("restarts"), **parts(env, kind, n))
    ok = [C.ge(M, n), C.gt(M, 0), asyn or batch is not None]
    verdict(env, e, env.all(ok), "budget %s, %s initial points, %s, batch size %s" % ("M", n, "asynchronous" if asyn else "synchronous", batch))


def budget_kinds(env, cfg):
    kind, n = cfg
    M = [10.0, np.float64(10), "10", None, [10], 10.5, 10][env.choice("budget", 7)]
    if kind == "random":
        from pySOT.strategy import RandomStrategy

        e = rejected(RandomStrategy, M, problem(1))
    else:
        e = rejected(real(kind), max_evals=M, asynchronous=True, **parts(env, kind, n))
    verdict(env, e, type(M) is int, "budget of type " + type(M).__name__)


def random_budget(env, cfg):
    from pySOT.strategy import RandomStrategy

    M = env.int("max_evals", -3, 3)
    verdict(env, rejected(RandomStrategy, M, problem(1)), C.gt(M, 0), "budget of random search")


def components(env, cfg):
    """Look-alikes that do not implement the interfaces, and problems that are malformed."""
    kind, asyn = cfg
    p = parts(env, kind, 2)
    i = env.choice("what", 9)
    ok = False
    if i == 0:
        p["opt_prob"], what = Any(p["opt_prob"]), "a problem that does not implement OptimizationProblem"
    elif i == 1:
        class D:
            dim, num_pts = 1, 2

            def generate_points(self, lb=None, ub=None, int_var=None):
                return np.array([[0.25], [0.75]])

        p["exp_design"], what = D(), "a design that does not implement ExperimentalDesign"
    elif i == 2:
        s = p["surrogate"]

        class L:
            def __getattr__(self, k):
                return getattr(s, k)

        p["surrogate"], what = L(), "a surrogate that does not implement Surrogate"
    elif i == 3:
        p["opt_prob"].lb, what = np.array([2.0]), "a problem with lower bounds above the upper bounds"
    elif i == 4:
        p["opt_prob"].cont_var, what = np.array([], dtype=int), "a problem with a variable that is neither integer nor continuous"
    elif i == 5:
        p["exp_design"], what = Design(env, 2, 2, Points(env, 2, False)), "a design of another dimension"
    elif i == 6:
        if kind in ("ei", "lcb"):
            p["surrogate"], what = Surr(env, 1), "a surrogate that is no Gaussian process"
        else:
            ok, what = True, "valid components"
    elif i == 7:
        p["opt_prob"].ub, what = np.array([1.0, 2.0]), "a problem with too many bounds"
    else:
        ok, what = True, "valid components"
    kw = dict(extra_points=np.array([[0.3]]), use_restarts=env.flag("restarts")) if ok and env.flag("more") else {}
    e = rejected(real(kind), max_evals=10, asynchronous=asyn, batch_size=None if asyn else 2, **p, **kw)
    verdict(env, e, ok, what)


def weights(env, cfg):
    kind, n, asyn = cfg
    w = [env.real("weight", -1, 2) for _ in range(n)]
    form = env.choice("form", 2)
    ws = env.arr(w) if form else list(w)
    e = rejected(real(kind), max_evals=10, asynchronous=asyn, batch_size=None if asyn else 1, weights=ws, **parts(env, kind, 2))
    verdict(env, e, env.all([env.all([C.ge(x, 0), C.le(x, 1)]) for x in w]), "weights")


def centers(env, cfg):
    batch, = cfg
    nc = env.int("ncenters", 4, 20)
    e = rejected(real("sop"), max_evals=30, asynchronous=False, batch_size=batch, ncenters=nc, **parts(env, "sop", 2))
    verdict(env, e, C.ge(nc, batch), "more points per batch than centers")


def kernel_tail(env, cfg):
    """Any orders and degrees of user-defined kernels and tails, and the bundled ones."""
    from pySOT.surrogate import ConstantTail, CubicKernel, Kernel, LinearKernel, LinearTail, RBFInterpolant, Tail, TPSKernel

    dim, = cfg
    which = env.choice("which", 8)
    if which == 0:
        order, degree, td = env.int("order", 0, 9), env.int("degree", -1, 9), env.int("taildim", 1, 4)

        class K(Kernel):
            def __init__(self):
                self.order = order

            def eval(self, dists):
                return dists

            def deriv(self, dists):
                return dists

        class T(Tail):
            def __init__(self):
                self.degree, self.dim, self.dim_tail = degree, td, 1

            def eval(self, X):
                return X

            def deriv(self, x):
                return x

        k, t = K(), T()
        ok = env.all([C.le(C.sub(order, 1), degree), C.eq(td, dim)])
    elif which == 7:
        k, t, ok = LinearKernel(), LinearTail(dim + 1), False
    else:
        k = [LinearKernel, CubicKernel, TPSKernel][(which - 1) % 3]()
        t = [ConstantTail, LinearTail][(which - 1) // 3](dim)
        ok = type(k) is LinearKernel or type(t) is LinearTail
    e = rejected(RBFInterpolant, dim, np.zeros(dim), np.ones(dim), kernel=k, tail=t)
    verdict(env, e, ok, "kernel and tail")


def points(env, cfg):
    """Points of the wrong dimension or number are rejected and leave the model as it was."""
    from pySOT.surrogate import ConstantTail, LinearKernel, RBFInterpolant

    dim, n, d, m = cfg
    s = RBFInterpolant(dim, np.zeros(dim), np.ones(dim), kernel=LinearKernel(), tail=ConstantTail(dim))
    n0 = 3 * env.choice("filled", 2)
    X0, f0 = env.array("X0", (3, dim), 0, 1), env.array("f0", 3, -5, 5)
    if n0:
        s.add_points(X0, f0)
    X, f = env.array("X", (n, d), 0, 1), env.array("f", m, -5, 5)
    e = rejected(s.add_points, X, f)
    verdict(env, e, n == m and d == dim, "%d points of dimension %d with %d values for a model of dimension %d" % (n, d, m, dim))
    if e is not None:
        env.check(s.num_pts == n0, "rejected points are counted")
        if not n0:
            return
        same(env, s.X, X0, "rejected points changed the model")
        same(env, np.ravel(s.fX), f0, "rejected points changed the model")


T3 = [(d, c, i) for d in (1, 2, 3) for c in range(0, 4) for i in range(0, 4) if d - 1 <= c + i <= d + 1]
KINDS = ["base", "srbf", "dycors", "ei", "lcb", "sop"]
BOTH = ["accepted", "rejected"]
CLAIMS = [
    Claim("index-sets", index_sets, T3, [(d, c, i) for d in (1, 2, 3, 4) for c in range(0, 5) for i in range(0, 5) if c + i <= d + 1 and c + i <= 4], covers="check_opt_prob", bounds="dimensions up to 3 (4), any indices of -2..dim+1, also too few or too many", reach=BOTH),
    Claim("bounds", bounds, [(1, 1, 1, ()), (2, 2, 2, (0,)), (2, 1, 2, ()), (2, 2, 3, ()), (2, 3, 2, ()), (3, 3, 3, (1,))], [(1, 1, 1, ()), (2, 2, 2, (0,)), (4, 4, 4, (1, 3)), (3, 2, 3, ()), (3, 3, 4, ()), (3, 4, 3, ()), (3, 3, 3, (0, 1, 2))],
          covers="check_opt_prob", bounds="any real bounds or NaN, up to 3 (4) dimensions", reach=BOTH),
    Claim("dimension", dimension, [(1,), (2,), (3,)], None, covers="check_opt_prob", bounds="any dimension of -3..6 against arrays of 1-3", reach=BOTH),
    Claim("kinds", kinds, [(1,), (2,)], None, covers="check_opt_prob", bounds="wrong types of every part", reach=BOTH),
    Claim("budget", budget, [(k, n, a) for k in KINDS for n, a in ((2, True), (1, False))] + [("base", 0, True), ("base", 3, False)], [(k, n, a) for k in KINDS for n in (0, 1, 2, 3) for a in (True, False)],
          covers="check_input of all surrogate strategies", bounds="any budget of -5..10^6, designs of 0-3 points, batch sizes none, 1, 2", reach=BOTH),
    Claim("budget-kinds", budget_kinds, [(k, 2) for k in KINDS + ["random"]], None, covers="budgets of the wrong type", bounds="six wrong types", reach=BOTH),
    Claim("random-budget", random_budget, [()], None, covers="RandomStrategy", bounds="any budget of -3..3", reach=BOTH),
    Claim("components", components, [(k, a) for k in KINDS for a in (True, False)], None, covers="components of the wrong kind", bounds="look-alikes of problem, design and surrogate, malformed problems", reach=BOTH),
    Claim("weights", weights, [("srbf", 1, True), ("srbf", 3, False), ("dycors", 2, True)] , None, covers="SRBFStrategy and DYCORSStrategy", bounds="1-3 weights, any values", reach=BOTH),
    Claim("centers", centers, [(1,), (4,), (5,), (7,)], [(b,) for b in range(1, 20)], covers="SOPStrategy", bounds="any number of centers of 4-20", reach=BOTH),
    Claim("kernel-tail", kernel_tail, [(1,), (2,), (3,)], None, covers="RBFInterpolant", bounds="orders and degrees up to 9, bundled kernels and tails", reach=BOTH),
    Claim("points", points, [(1, 2, 1, 2), (2, 1, 1, 1), (2, 1, 3, 1), (2, 2, 2, 1), (1, 1, 1, 2), (2, 1, 2, 1)], None, covers="Surrogate.add_points", bounds="1-2 points, any values", reach=BOTH),
]
ASSUMPTIONS = ["rejecting means raising an exception", "an index set that is empty may be of any sequence type; numpy integers as budgets or dimensions are not judged", "at least four centers (fewer: not judged)"]
