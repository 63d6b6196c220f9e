"""C18: surrogate derivatives are the derivatives of the predictions."""
from checks.c16 import GRID
from checks.c17 import PHI, breaking, make, unit
from checks.common import *
from checks.models import bounds
from symx import calc
from symx.runner import Claim

DPHI = {"LinearKernel": lambda r: np.ones_like(r), "CubicKernel": lambda r: 3 * r ** 2, "TPSKernel": lambda r: np.where(r > 0, r * (1 + 2 * np.log(np.where(r > 0, r, 1.0))), 0.0)}


def derivative(env, given, values, var, step, name, msg, tol=1e-4, known=()):
    """`given` is the derivative of `values()` with respect to the variable `var` (by exact differentiation of the term, or by
    central differences in a concrete run)."""
    if not env.symbolic:
        lo, hi = float(values(-step)), float(values(step))
        want = (hi - lo) / (2 * step)
        env.check(abs(float(given) - want) <= tol * max(1.0, abs(want)), msg + " (%r instead of %r)" % (float(given), want))
        return
    F = calc.Field(env.path)
    v = values(0)
    try:
        for n, rad in list(env.path.sqrt_rads.items()):  # the same distances, written differently
            if any(F.poly(rad) == F.poly(k) for k in known):
                env.path.define(C.z3.And(rad >= C.z3.Q(1, 100), C.z3.Real(n) >= C.z3.Q(1, 10)))
        d = F.add(F.poly(given), F.diff(F.poly(v), name), -1)
        ok = F.zero(d)
    except calc.Unsupported as e:
        raise C.EngineLimit("derivative: %s" % e)
    # identical terms, or a difference that the solver decides where it is largest in a model
    env.check(ok, msg)


def kernel(env, cfg):
    from pySOT import surrogate as S

    kind, shape_ = cfg
    k = getattr(S, kind)()
    env.check(k.order == {"LinearKernel": 1, "CubicKernel": 2, "TPSKernel": 2}[kind], "the order of the kernel is wrong")
    n = shape_[0] * shape_[1]
    r = [env.real("r", 0.01, 10) for _ in range(n)]

    def vals(i, e):
        a = list(r)
        a[i] = C.add(a[i], e) if e else a[i]
        v = k.eval(env.arr(np.array(a, dtype=object).reshape(shape_)))
        shape(env, v, shape_, "the kernel values")
        return flat(v)

    d = k.deriv(env.arr(np.array(r, dtype=object).reshape(shape_)))
    shape(env, d, shape_, "the kernel derivatives")
    ref = {"LinearKernel": lambda x: x, "CubicKernel": lambda x: C.mul(x, C.mul(x, x)), "TPSKernel": lambda x: C.mul(C.mul(x, x), C.log(x) if C.is_sym(x) else np.log(x))}[kind]
    v0 = vals(0, 0)
    for i in range(n):
        env.eq(v0[i], ref(r[i]), "the kernel is not the documented one")
        derivative(env, flat(d)[i], lambda e: vals(i, e)[i], r[i], 1e-5, str(r[i].e) if env.symbolic else None, "the kernel derivative is not the derivative of the kernel")
    env.reach("end")


def tail(env, cfg):
    from pySOT import surrogate as S

    kind, dim = cfg
    t = getattr(S, kind)(dim)
    x = [env.real("x", -10, 10) for _ in range(dim)]
    m = 1 if kind == "ConstantTail" else dim + 1
    row = env.flag("row")
    env.check(t.dim == dim and t.dim_tail == m and t.degree == (0 if m == 1 else 1), "the tail's size attributes are wrong")

    def vals(j, e):
        a = list(x)
        a[j] = C.add(a[j], e) if e else a[j]
        v = t.eval(env.arr([a]) if row else env.arr(a))
        shape(env, v, (1, m), "the tail values")
        return flat(v)

    P = t.eval(env.arr([x, x]))
    shape(env, P, (2, m), "the tail values")
    want = [1.0] + (x if m > 1 else [])
    for k in range(m):
        env.eq(P[1, k], want[k], "the tail is not the documented basis")
    d = t.deriv(env.arr([x]))
    shape(env, d, (dim, m), "the tail derivatives")
    for j in range(dim):
        for k in range(m):
            derivative(env, d[j, k], lambda e: vals(j, e)[k], x[j], 1e-3, str(x[j].e) if env.symbolic else None, "the tail derivative is not the derivative of the tail")
    for bad in ([[0.0] * (dim + 1)], [[0.0] * (dim - 1)]):
        for f in (t.eval, t.deriv):
            try:
                f(np.array(bad))
                env.check(False, "the tail accepts points of the wrong dimension")
            except ValueError:
                pass
    env.reach("end")


def gradient(env, cfg):
    """Any query point away from the centers."""
    ker, tl, dim, n, order, single = cfg
    s = make(ker, tl, dim, 0.001)
    X = [GRID[(order * i) % 12][:dim] for i in range(n)]
    f = [((7 * i + 3) % 11) - 4.5 for i in range(n)]
    s.add_points(np.array(X), np.array(f))
    lb, ub = bounds(dim)
    x = [env.real("x", lb[j], ub[j]) for j in range(dim)]
    U = unit(X, dim)
    known = []
    for i in range(n):
        d2 = [C.mul(t, t) for t in (C.sub(C.div(C.sub(x[j], lb[j]), ub[j] - lb[j]), np.float64(U[i, j])) for j in range(dim))]
        d2 = sum(d2[1:], d2[0])
        env.assume(C.ge(d2, 0.01))
        known.append(d2)
    other = [lb[j] + (ub[j] - lb[j]) * 0.3125 for j in range(dim)]

    def value(j, e):
        a = list(x)
        a[j] = C.add(a[j], e) if e else a[j]
        return s.predict(env.arr([a]))[0, 0]

    g = s.predict_deriv(env.arr(x) if single else env.arr([other, x]))
    shape(env, g, (1 if single else 2, dim), "the gradient")
    for j in range(dim):
        derivative(env, g[-1, j], lambda e: value(j, e), x[j], 1e-5 * (ub[j] - lb[j]), str(x[j].e) if env.symbolic else None, "the gradient is not the derivative of the prediction", known=known)
    env.reach("end")


def slopes(kernel_, tail_, dim, eta, X, Q):
    """Weights of the values in the gradient at the queries (independent solution)."""
    lb, ub = bounds(dim)
    one = tail_ == "ConstantTail"
    U, V = unit(X, dim), unit(Q, dim)
    n = len(U)
    P = np.ones((n, 1)) if one else np.hstack((np.ones((n, 1)), U))
    m = P.shape[1]
    dist = lambda a, b: np.sqrt(((a[:, None, :] - b[None, :, :]) ** 2).sum(axis=2))
    M = np.zeros((m + n, m + n))
    M[:m, m:], M[m:, :m] = P.T, P
    M[m:, m:] = PHI[kernel_](dist(U, U)) + eta * np.eye(n)
    out = []
    for v in V:
        r = np.sqrt(((U - v) ** 2).sum(axis=1))
        G = np.zeros((dim, m + n))
        if not one:
            G[:, 1:m] = np.eye(dim)
        for i in range(n):
            if r[i] > 0:
                G[:, m + i] = DPHI[kernel_](r[i : i + 1])[0] * (v - U[i]) / r[i]
        out.append(np.linalg.solve(M.T, G.T).T[:, m:] / (ub - lb)[:, None])
    return out


def centers(env, cfg):
    """Any values; fixed queries, some of them centers (where the smooth kernels have a derivative, too); points added in batches."""
    ker, tl, dim, n, order = cfg
    s = make(ker, tl, dim, 0.001)
    nt = 1 if tl == "ConstantTail" else dim + 1
    X = [GRID[(order * i) % 12][:dim] for i in range(n)]
    f = [env.real("f", -10, 10) for _ in range(n)]
    k = nt + env.choice("first", n - nt + 1)
    s.add_points(env.arr(X[:k]), env.arr(f[:k]))
    if k < n:
        if env.flag("fit"):
            s.predict_deriv(env.arr(X[:1]))
        s.add_points(env.arr(X[k:]), env.arr(f[k:]))
    lb, ub = bounds(dim)
    Q = [[lb[j] + (ub[j] - lb[j]) * ((3 * i + 2 * j + 1) % 7) / 6.0 for j in range(dim)] for i in range(2)]
    if ker != "LinearKernel":
        Q += [X[0], X[-1]]
    g = s.predict_deriv(env.arr(Q))
    shape(env, g, (len(Q), dim), "the gradients")
    ok = []
    for q, W in enumerate(slopes(ker, tl, dim, 0.001, X, Q)):
        for j in range(dim):
            want = C.mul(f[0], W[j, 0])
            for i in range(1, n):
                want = C.add(want, C.mul(f[i], W[j, i]))
            ok.append(env.close(g[q, j], want, 1e-4))
    env.check(env.all(ok), "the gradients are not those of the regularized interpolant")
    env.reach("end")


CO, LT = "ConstantTail", "LinearTail"
LI, CU, TP = "LinearKernel", "CubicKernel", "TPSKernel"
GRA = [(CU, LT, 1, 4, 5, True), (CU, LT, 2, 5, 5, False), (TP, LT, 1, 4, 5, False), (TP, LT, 2, 4, 7, True), (LI, CO, 1, 3, 5, True), (LI, CO, 2, 4, 7, False), (LI, LT, 2, 5, 1, False), (CU, LT, 3, 5, 7, False)]
CLAIMS = [
    Claim("kernels", kernel, [(k, s) for k in (LI, CU, TP) for s in ((1, 1), (2, 2))], [(k, s) for k in (LI, CU, TP) for s in ((1, 1), (3, 2), (1, 4))], covers="LinearKernel, CubicKernel, TPSKernel", bounds="any distances in [0.01, 10]", reach=["end"]),
    Claim("tails", tail, [(t, d) for t in (CO, LT) for d in (1, 2, 3)], [(t, d) for t in (CO, LT) for d in (1, 2, 3, 4, 5)], covers="ConstantTail, LinearTail", bounds="any point in 1-3 (5) variables", reach=["end"]),
    Claim("gradient", gradient, GRA, GRA + [(TP, LT, 3, 6, 7, False), (LI, CO, 3, 6, 1, False), (CU, LT, 3, 8, 11, True), (CU, LT, 2, 8, 5, False)], covers="RBFInterpolant.predict_deriv", bounds="3-5 (8) fixed points in 1-3 variables, any query at least 0.1 (unit box) from them", reach=["end"]),
    Claim("values", centers, [(CU, LT, 1, 4, 5), (CU, LT, 2, 5, 7), (TP, LT, 2, 5, 5), (LI, CO, 2, 4, 1), (TP, LT, 1, 4, 7), (CU, LT, 3, 6, 7)], [(k, t, d, d + 4, o) for k, t in ((CU, LT), (TP, LT), (LI, CO), (LI, LT)) for d in (1, 2, 3) for o in (1, 5, 7)], covers="RBFInterpolant.predict_deriv", bounds="4-6 (7) fixed points with any values, fixed queries", query_ms=20000, reach=["end"]),
]
ASSUMPTIONS = [REALS, "terms are differentiated exactly and compared as normal forms (polynomials over the coordinates, the distances and their logarithms)"]
