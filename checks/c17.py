"""C17: the RBF interpolant solves its system, however the points were added."""
import scipy.linalg
import scipy.spatial.distance as SD

from checks.c16 import GRID
from checks.common import *
from checks.models import bounds
from symx.runner import Claim

PHI = {"LinearKernel": lambda r: r, "CubicKernel": lambda r: r ** 3, "TPSKernel": lambda r: np.where(r > 0, r * r * np.log(np.where(r > 0, r, 1.0)), 0.0)}


def make(kernel, tail, dim, eta, T=None):
    from pySOT import surrogate as S

    lb, ub = bounds(dim)
    kw = {}
    if kernel is not None:
        kw = dict(kernel=getattr(S, kernel)(), tail=getattr(S, tail)(dim))
    if eta is not None:
        kw["eta"] = eta
    return S.RBFInterpolant(dim=dim, lb=lb, ub=ub, output_transformation=T, **kw)


def unit(X, dim):
    lb, ub = bounds(dim)
    return (np.array(X, dtype=float) - lb) / (ub - lb)


def weights(kernel, tail, dim, eta, X, Q):
    """Row i holds the weights of the values in the prediction at query i (independent dense solution of the system)."""
    phi = PHI[kernel or "CubicKernel"]
    one = (tail or "LinearTail") == "ConstantTail"
    X, Q = unit(X, dim), unit(Q, dim)
    n = len(X)
    P = np.ones((n, 1)) if one else np.hstack((np.ones((n, 1)), X))
    PQ = np.ones((len(Q), 1)) if one else np.hstack((np.ones((len(Q), 1)), Q))
    m = P.shape[1]
    dist = lambda a, b: np.sqrt(((a[:, None, :] - b[None, :, :]) ** 2).sum(axis=2))
    M = np.zeros((m + n, m + n))
    M[:m, m:], M[m:, :m] = P.T, P
    M[m:, m:] = phi(dist(X, X)) + (1e-6 if eta is None else eta) * np.eye(n)
    V = np.hstack((PQ, phi(dist(Q, X))))
    assert np.linalg.cond(M) < 1e9
    W = np.linalg.solve(M.T, V.T).T
    return W[:, m:]


def queries(dim, X):
    lb, ub = bounds(dim)
    return [list(X[0]), list(X[-1])] + [[lb[j] + (ub[j] - lb[j]) * ((3 * i + 2 * j + 1) % 7) / 6.0 for j in range(dim)] for i in range(3)]


def breaking(env, fail):
    """The incremental factorization may fail."""
    if not fail:
        return
    for m in (scipy.linalg, np.linalg):
        real = getattr(m, "cholesky")
        real = getattr(real, "__symx_real__", real)

        def chol(a=None, *x, _real=real, **k):
            if env.flag("cholesky fails"):
                env.reach("failed")
                raise np.linalg.LinAlgError("not positive definite")
            return A.to_sarr(_real(A.to_float(a), *x, **k)) if env.symbolic else _real(a, *x, **k)

        env.patch(m, "cholesky", chol)


def compare(env, kernel, tail, dim, eta, trans, s, X, f):
    from checks.c25 import median

    Q = queries(dim, X)
    p = s.predict(env.arr(Q))
    shape(env, p, (len(Q), 1), "the prediction")
    W = weights(kernel, tail, dim, eta, X, Q)
    t = list(f)
    if trans == "affine":
        t = [C.sub(C.mul(v, 2.0), 3.0) for v in t]
    elif trans == "capped":
        m = median(env, t)
        t = [C.minimum(v, m) for v in t]
    ok = []
    for i in range(len(Q)):
        want = C.mul(t[0], W[i, 0])
        for j in range(1, len(t)):
            want = C.add(want, C.mul(t[j], W[i, j]))
        ok.append(env.close(p[i, 0], want, 1e-5))
    if eta == 0:
        ok += [env.close(p[0, 0], t[0], 1e-5), env.close(p[1, 0], t[-1], 1e-5)]
    env.check(env.all(ok), "the prediction is not that of the regularized interpolant of all points")


def system(env, cfg):
    """Any way to add up to n points in batches, with a prediction after each."""
    kernel, tail, dim, n, eta, trans, fail, order = cfg
    from pySOT.surrogate import median_capping

    T = {None: None, "affine": lambda y: y * 2.0 - 3.0, "capped": median_capping}[trans]
    breaking(env, fail)
    s = make(kernel, tail, dim, eta, T)
    nt = 1 if tail == "ConstantTail" else dim + 1
    f, X = [], []
    while True:
        k = len(X)
        lo = nt if not X else 1
        if n - k < lo or X and env.flag("stop"):
            break
        b = lo + env.choice("batch", n - k - lo + 1)
        X += [GRID[(order * i) % 12][:dim] for i in range(k, k + b)]
        f += [env.real("f", -10, 10) for _ in range(b)]
        if b > 1 and env.flag("several additions"):
            for i in range(k, k + b):
                s.add_points(env.arr(X[i]), env.arr([f[i]]))
        else:
            s.add_points(env.arr(X[k:]), env.arr([[v] for v in f[k:]]))
        s.predict(env.arr(X[:1]))
    compare(env, kernel, tail, dim, eta, trans, s, X, f)
    env.reach("end")


def query(env, cfg):
    """Any query point in one variable, for a basis of the values."""
    kernel, tail, n, split, order = cfg
    s = make(kernel, tail, 1, 0.001)
    X = [GRID[(order * i) % 12][:1] for i in range(n)]
    e = env.choice("value", n)
    f = [1.0 if i == e else 0.0 for i in range(n)]
    s.add_points(np.array(X[:split]), np.array(f[:split]))
    s.predict(np.array(X[:1]))
    s.add_points(np.array(X[split:]), np.array(f[split:]))
    q = env.real("q", -3, 5)
    p = s.predict(env.arr([[q]]))
    # the same expansion with independent coefficients
    one = tail == "ConstantTail"
    U = unit(X, 1)
    P = np.ones((n, 1)) if one else np.hstack((np.ones((n, 1)), U))
    m = P.shape[1]
    M = np.zeros((m + n, m + n))
    M[:m, m:], M[m:, :m] = P.T, P
    M[m:, m:] = PHI[kernel](np.abs(U - U.T)) + 0.001 * np.eye(n)
    c = np.linalg.solve(M, np.concatenate((np.zeros(m), f)))
    u = C.div(C.add(q, 3.0), 8.0)
    want = np.float64(c[0]) if one else C.add(np.float64(c[0]), C.mul(u, np.float64(c[1])))
    for i in range(n):
        r = C.absolute(C.sub(u, np.float64(U[i, 0])))
        v = r if kernel == "LinearKernel" else C.mul(r, C.mul(r, r))
        want = C.add(want, C.mul(v, np.float64(c[m + i])))
    env.eq(p[0, 0], want, "the prediction is not that of the regularized interpolant", 1e-5)
    env.reach("end")


def grow(env, cfg):
    """Resets in between, and predictions only at some of the additions."""
    kernel, tail, dim, n, order = cfg
    breaking(env, True)
    s = make(kernel, tail, dim, 0.01)
    nt = 1 if tail == "ConstantTail" else dim + 1
    X, f, used = [], [], 0
    for i in range(n):
        op = env.choice("op", 4)
        if op == 3:
            break
        if op == 2:
            s.reset()
            X, f = [], []
            continue
        b = nt if not X else 1 + op
        xs = [GRID[(order * (used + j)) % 12][:dim] for j in range(b)]
        used += b
        fs = [env.real("f", -10, 10) for _ in range(b)]
        s.add_points(env.arr(xs), env.arr(fs))
        X, f = X + xs, f + fs
        if env.flag("predict"):
            s.predict(env.arr(X[:1]))
    if X:
        compare(env, kernel, tail, dim, 0.01, None, s, X, f)
    env.reach("end")


CO, LT = "ConstantTail", "LinearTail"
LI, CU, TP = "LinearKernel", "CubicKernel", "TPSKernel"
SYS = [(None, None, 2, 6, None, None, True, 1), (CU, LT, 1, 5, 0.01, "affine", False, 5), (CU, LT, 2, 6, 0, None, True, 5), (CU, LT, 3, 6, None, None, False, 7), (TP, LT, 1, 5, 0.001, None, True, 5), (TP, LT, 2, 6, None, "affine", False, 7),
       (LI, CO, 1, 4, 0.01, None, False, 5), (LI, CO, 2, 5, 0, None, False, 5), (LI, LT, 2, 6, None, None, True, 11), (CU, LT, 1, 4, 0.01, "capped", False, 7), (TP, LT, 2, 7, 0, None, False, 1)]
CLAIMS = [
    Claim("system", system, SYS, SYS + [(k, t, d, n, eta, None, fail, o) for k, t in ((LI, CO), (LI, LT), (CU, LT), (TP, LT)) for d, n in ((1, 6), (2, 8), (3, 8)) for eta in (None, 0.01) for fail in (True,) for o in (5, 11)],
          covers="RBFInterpolant", bounds="4-7 (8) points from fixed sets in 1-3 variables with arbitrary values, added in any batches, any incremental factorization failing", reach=["failed", "end"]),
    Claim("growth", grow, [(CU, LT, 1, 4, 5), (TP, LT, 2, 3, 7), (LI, CO, 1, 3, 1)], [(CU, LT, 1, 5, 5), (CU, LT, 2, 5, 7), (TP, LT, 2, 4, 7), (LI, CO, 1, 5, 1), (LI, LT, 2, 4, 5)], covers="RBFInterpolant", bounds="3-4 (4-5) additions or resets", reach=["end"]),
    Claim("query", query, [(CU, LT, 4, 2, 5), (LI, CO, 3, 1, 5), (LI, LT, 4, 3, 7), (CU, LT, 5, 4, 1)], [(CU, LT, 6, 3, 5), (CU, LT, 5, 2, 11), (LI, CO, 5, 2, 5), (LI, LT, 6, 3, 7)], covers="RBFInterpolant.predict", bounds="3-5 (6) points in one variable, any query", reach=["end"]),
]
ASSUMPTIONS = [REALS + "; the triangular solves run on arbitrary right-hand sides with the real factorizations of the fixed points' matrices (condition number below 1e9, tolerance 1e-5)"]
