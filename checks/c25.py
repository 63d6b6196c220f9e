"""C25: values are transformed and normalized consistently by the surrogates."""
from checks.common import *
from checks.models import *
from symx.runner import Claim


def ordered(env, v):
    """The values in order (odd-even transposition)."""
    v = list(v)
    for r in range(len(v)):
        for i in range(r % 2, len(v) - 1, 2):
            v[i], v[i + 1] = C.minimum(v[i], v[i + 1]), C.maximum(v[i], v[i + 1])
    return v


def median(env, v):
    s = ordered(env, v)
    n = len(s)
    return s[n // 2] if n % 2 else C.mul(0.5, C.add(s[n // 2 - 1], s[n // 2]))


def capping(env, cfg):
    from pySOT.surrogate import median_capping

    n, col = cfg[:2]
    f = env.array("f", (n, 1) if col else (n,), -1000, 1000)
    if len(cfg) > 2:  # integers of the caller
        f = np.array(cfg[2]).reshape(f.shape)
    f0 = f.copy()
    r = median_capping(f)
    same(env, f, f0, "the input is modified")
    shape(env, r, f0.shape, "the capped values")
    m = median(env, flat(f0))
    for a, b in zip(flat(r), flat(f0)):
        env.eq(a, C.minimum(b, m), "the values above the median are not replaced by it, or others are changed")


def ident(env, cfg):
    from pySOT.surrogate import identity

    f = env.array("f", (3, 1), -1000, 1000)
    f0 = f.copy()
    same(env, identity(f), f0, "the identity changes the values")


def normalize(env, cfg):
    """The model is fitted to y with y * s + m = T(f), mean 0 and deviation 1; predictions come back as m + s * p, deviations as s * std."""
    from pySOT.surrogate import median_capping

    n, trans, dim = cfg
    lib = Lib(env)
    T = {"none": None, "capped": median_capping, "affine": lambda y: y * 3.0 - 1.0}[trans]
    s = lib.make("GPRegressor", dim, T)
    lb, ub = bounds(dim)
    X = [[lb[j] + (ub[j] - lb[j]) * ((7 * i + 3 * j) % 11) / 11.0 for j in range(dim)] for i in range(n)]
    f = env.array("f", n, -100, 100)
    f0 = list(flat(f.copy()))
    s.add_points(env.arr(X), f)
    t = list(f0)
    if trans == "capped":
        m = median(env, t)
        t = [C.minimum(v, m) for v in t]
    elif trans == "affine":
        t = [C.sub(C.mul(v, 3.0), 1.0) for v in t]
    lib.values, lib.stds = [0.0, 1.0, -2.5], [0.0, 1.0, 2.5]
    q = env.arr([[0.5 * (lb[j] + ub[j]) for j in range(dim)]] * 3)
    p = s.predict(q)
    d = s.predict_std(q)
    shape(env, p, (3, 1), "the predictions")
    shape(env, d, (3, 1), "the deviations")
    mu = p[0, 0]
    sig = C.sub(p[1, 0], mu)
    y = flat(lib.fits[-1][2])
    env.check(len(y) == n, "the model is not fitted to one value per point")
    mean = C.div(sum(t[1:], t[0]), float(n))
    env.eq(mu, mean, "predictions are not shifted by the mean of the transformed values")
    const = all(bool(C.eq(v, t[0])) for v in t[1:])
    if const:
        env.eq(sig, 1e-6, "the scale of constant data is not 1e-6", 1e-8)
        for v in y:
            env.eq(v, 0, "constant values are not normalized to zero")
        env.reach("constant")
    else:
        var = C.div(sum([C.mul(C.sub(v, mean), C.sub(v, mean)) for v in t[1:]], C.mul(C.sub(t[0], mean), C.sub(t[0], mean))), float(n))
        env.assume(C.gt(var, 1e-4))
        env.check(C.ge(sig, 0), "the scale is negative")
        env.eq(C.mul(sig, sig), var, "the scale is not the standard deviation of the transformed values", 1e-4)
        env.reach("spread")
    for a, b in zip(y, t):
        env.eq(C.add(C.mul(a, sig), mu), b, "the model is not fitted to the values that its predictions are mapped back from", 1e-4)
    env.eq(p[2, 0], C.sub(mu, C.mul(2.5, sig)), "predictions are not mapped back affinely", 1e-4)
    env.eq(d[0, 0], 0, "deviations are not scaled only", 1e-4)
    env.eq(d[1, 0], sig, "deviations are not scaled like the values", 1e-4)
    env.eq(d[2, 0], C.mul(2.5, sig), "deviations are not scaled like the values", 1e-4)


def rows(env, cfg):
    """Predictions are columns with one row per point, in the order of the points."""
    kind, dim, n = cfg
    lib = Lib(env)
    s = lib.make(kind, dim)
    lb, ub = bounds(dim)
    X = [[lb[j] + (ub[j] - lb[j]) * ((5 * i * (j + 1) + 3 * j) % 7) / 7.0 for j in range(dim)] for i in range(4)]
    s.add_points(env.arr(X), env.array("f", 4, -10, 10) if kind != "GPRegressor" else np.array([1.0, 3.0, 2.0, 7.0]))
    lib.values = [env.real("p", -10, 10) for _ in range(n)]
    lib.stds = [env.real("s", 0, 10) for _ in range(n)]
    q = env.arr([[lb[j] + (ub[j] - lb[j]) * (0.1 + 0.2 * i) for j in range(dim)] for i in range(n)])
    p = s.predict(q if n > 1 or env.flag("row") else q[0])
    shape(env, p, (n, 1), "the prediction")
    if kind == "GPRegressor":
        d = s.predict_std(q)
        shape(env, d, (n, 1), "the deviation")
        mu, sig = 3.25, float(np.std([1.0, 3.0, 2.0, 7.0]))
        for i in range(n):
            env.eq(d[i, 0], C.mul(lib.stds[i], sig), "the deviations are not in the order of the points")
            env.eq(p[i, 0], C.add(C.mul(lib.values[i], sig), mu), "the predictions are not in the order of the points")
    elif kind != "RBFInterpolant":
        for i in range(n):
            env.eq(p[i, 0], lib.values[i], "the predictions are not in the order of the points")
    else:
        for i in range(n):
            w = s.predict(q[i])
            shape(env, w, (1, 1), "the prediction")
            env.eq(p[i, 0], w[0, 0], "the predictions are not in the order of the points")
    env.reach("end")


NORM = [(1, "none", 1), (2, "none", 1), (3, "none", 2), (2, "capped", 1), (3, "capped", 1), (3, "affine", 1)]
INTS = [(4, 0, (1, 2, 5, 9)), (2, 1, (3, 4))]
CLAIMS = [
    Claim("capping", capping, [(n, c) for n in (1, 2, 3, 4, 5) for c in (0, 1)] + INTS, [(n, c) for n in (1, 2, 3, 4, 5, 6, 7) for c in (0, 1)] + INTS, covers="median_capping", bounds="1-5 (7) values; two integer arrays"),
    Claim("identity", ident, [()], covers="identity", bounds="3 values"),
    Claim("normalize", normalize, NORM, NORM + [(4, "none", 1), (4, "capped", 2), (5, "none", 1)], covers="GPRegressor", bounds="1-3 (5) values in [-100, 100], constant or with a variance above 1e-4", reach=["constant", "spread"]),
    Claim("rows", rows, [(k, d, n) for k in ("GPRegressor", "PolyRegressor", "MARSInterpolant", "RBFInterpolant") for d, n in ((1, 1), (2, 1), (2, 3), (1, 2))], covers="predict, predict_std", bounds="1-3 points", reach=["end"]),
]
ASSUMPTIONS = [REALS, "scikit-learn and pyearth are arbitrary models (their fit and predict are replaced)"]
