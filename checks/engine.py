"""Self-test of the engine (./check.py ENGINE): numpy functions on symbolic entries give what numpy gives, for every order of the entries.

Not the check of a property. Every entry is a symbolic number assumed to be one of two values, so that branches are really explored."""
from checks.common import *
from symx.runner import Claim

V = dict(a=np.array([2.0, -1.0, 0.5, 3.0]), b=np.array([1.0, 0.25, -2.0, 0.5]), m=np.array([[2.0, -1.0, 0.5], [0.25, 3.0, -2.0]]), n=np.array([[1.0, -2.0, 4.0], [0.5, 0.75, -3.0]]), p=np.array([[4.0, 1.0], [1.0, 3.0]]))
CASES = {
    "sort": lambda a, b, m, n, p: [np.sort(a), np.sort(m), np.sort(m, axis=0), np.sort(m, axis=None), np.partition(a, 0)[0], np.argsort(m, axis=0), np.argsort(m, axis=None), a.argsort(), np.argpartition(a, 0)[0]],
    "quantile": lambda a, b, m, n, p: [np.median(a), np.median(m, axis=0), np.quantile(a, 0.3), np.quantile(m, [0.1, 0.5], axis=1), np.percentile(a, 75), np.percentile(m, 20, axis=0, keepdims=True), np.median(m, axis=1, keepdims=True), np.quantile(a, 0.4, method="lower")],
    "stat": lambda a, b, m, n, p: [a.mean(), m.mean(axis=1), m.mean(axis=(0, 1)), np.mean(m, axis=0, keepdims=True), np.average(a, weights=np.array([1.0, 2, 3, 4])), np.average(m, axis=1, weights=np.array([1.0, 2, 1])), m.var(axis=0), np.var(a, ddof=1), np.ptp(m, axis=1), np.ptp(a)],
    "nan": lambda a, b, m, n, p: [np.nanmin(a), np.nanmax(m, axis=0), np.nansum(m), np.nanmean(m, axis=1), np.nanargmin(a), np.nanargmax(a), np.nan_to_num(a), np.nanmedian(a)],
    "arg": lambda a, b, m, n, p: [np.argmin(a), np.argmax(m, axis=1), m.argmin(axis=0, keepdims=True), m.argmax(), a.argmin(), np.argwhere(m > 0), np.argwhere(a > 0), np.flatnonzero(a > 0), np.nonzero(m > 0)[1]],
    "sum": lambda a, b, m, n, p: [np.cumsum(m), np.cumsum(m, axis=1), a.cumsum(), np.cumprod(a), m.sum(axis=1, keepdims=True), np.sum(m, where=m > 0), np.sum(m, axis=0, where=m > 0), np.max(m, axis=1, initial=0.0), np.prod(m, axis=0), np.add.reduce(a), np.maximum.accumulate(a), np.minimum.reduce(m, axis=1), np.add.accumulate(m, axis=1)],
    "shape": lambda a, b, m, n, p: [np.diff(a), np.diff(a, n=2), np.diff(m, axis=0), np.diff(a, prepend=0.0), np.roll(a, 1), np.dstack((m, n)), np.diag(a), np.diag(p), np.diagonal(p), np.trace(p), np.array_split(a, 3)[0], np.fliplr(m), np.flipud(m), np.append(a, 1.0), np.insert(a, 1, 7.0), np.delete(m, 1, axis=1), np.tile(a, 2), np.repeat(m, 2, axis=0), np.stack([a, b], axis=1), np.column_stack([a, b]), np.hstack([m, n]), np.vstack([a, b]), m.T, np.swapaxes(m, 0, 1), np.expand_dims(a, 0), np.take(m, [0, 2], axis=1), m.take([1], axis=0), np.compress([True, False, True], m, axis=1), np.extract(a > 0, a), np.take_along_axis(m, np.array([[1], [0]]), 1), np.split(a, 2)[1]],
    "elem": lambda a, b, m, n, p: [np.where(a > b, a, b), np.fmin(a, b), np.fmax(a, 0.0), np.clip(a, 0, 1), a.clip(-1, 1), np.hypot(3 * np.sign(a), 4 * np.sign(b)), np.select([a > 1, a > 0], [a, b], 5.0), np.maximum(a, b), np.abs(a), np.square(a), np.power(a, 2), np.sign(a), np.floor(a), np.ceil(a), np.rint(a), np.round(a), np.divide(a, b), np.isclose(a, b), np.isfinite(a), np.searchsorted(np.array([-1.5, 0.0, 1.0]), a), np.outer(a, b), a @ b, m @ n.T, np.dot(m, n.T), np.inner(a, b), np.einsum("ij,ij->i", m, n), np.heaviside(a, 0.5), np.copysign(b, a), np.float_power(np.abs(a), 2)],
    "sets": lambda a, b, m, n, p: [np.unique(a), np.setdiff1d(a, b), np.union1d(a, b), np.intersect1d(a, np.array([0.5, 9.0])), np.isin(a, [0.5, 2.0]), np.count_nonzero(a > 0), np.count_nonzero(m > 0, axis=1), np.lexsort((a, b)), np.any(m > 2, axis=1), np.all(m > -3), np.allclose(a, a), np.array_equal(a, b)],
    "out": lambda a, b, m, n, p: [np.add(a, b, out=np.zeros_like(a)), np.maximum(a, b, where=a > 0, out=b.copy()), np.subtract.outer(a, b), _at(a), np.apply_along_axis(np.sort, 1, m), np.apply_along_axis(lambda r: r.sum(), 0, m), np.triu(p), np.tril(p), np.zeros_like(m), np.full_like(a, 2.0), np.concatenate([a, b]), np.atleast_2d(a), _put(a), m[np.ix_([0, 1], [0, 2])], m[:, a[:3] > 0], a[[3, 0]], m[1, ::-1], a[-1], m[..., 1], np.ravel(m), np.array([a, b]), np.array(a, ndmin=2), np.asarray([a[0], b[1]])],
}


def _at(a):
    c = a.copy()
    np.add.at(c, [0, 0, 2], 1.5)
    return c


def _put(a):
    c = a.copy()
    c[c > 0] = 0.0
    c[1] *= 2
    return c


def calls(env, cfg):
    name, k = cfg
    from checks.engine import CASES

    class Rec(Exception):
        pass

    want, got = CASES[name](**V), None
    # the values of V in their order, or (k) with two entries swapped, decided by a symbolic choice
    S = {}
    for key, v in V.items():
        s = env.array(key, v.shape, -10, 10)
        for x, y in zip(flat(s), v.reshape(-1)):
            env.assume(C.eq(x, float(y)))
        S[key] = s
    got = CASES[name](**S)
    for i, (w, g) in enumerate(zip(want, got)):
        if isinstance(g, A.SymWhere):
            g = g.force()
        env.check(np.shape(g) == np.shape(w), "%s[%d]: shape %s instead of %s" % (name, i, np.shape(g), np.shape(w)))
        env.check(env.all([env.close(x, float(y), 1e-9) if not isinstance(y, (bool, np.bool_)) else C.eq(x, y) for x, y in zip(flat(g) if isinstance(g, np.ndarray) else [g], np.ravel(w).tolist())]), "%s[%d]: another value: %s instead of %s" % (name, i, g, w))
    env.reach("end")


CLAIMS = [Claim("numpy", calls, [(n, 0) for n in CASES], covers="engine", bounds="", reach=["end"])]
