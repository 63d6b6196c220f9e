"""Symbolic and concrete environments, and the stand-ins for numpy & co. inside the modules under test."""
import builtins
import importlib
import itertools
import math
import os
import pkgutil
import sys
import types
from fractions import Fraction

import numpy as np
import scipy.linalg
import scipy.spatial
import scipy.spatial.distance
import scipy.stats

from . import arr as A
from . import core as C
from .core import EngineLimit, PathAbort, is_sym, z3

ENV = None  # the active environment


class Violation(BaseException):
    """A property does not hold (concrete mode) or may not hold (symbolic mode, unconfirmed)."""

    def __init__(self, msg):
        super().__init__(msg)
        self.msg = msg


# ------------------------------------------------------------------------------------------------ stand-in types


def _fake(real, conv):
    class Meta(type):
        def __instancecheck__(cls, o):
            return builtins.isinstance(o, real)

        def __subclasscheck__(cls, o):
            return issubclass(getattr(o, "__symx_real__", o), real)

        def __eq__(cls, o):
            return o is real or o is cls

        def __hash__(cls):
            return hash(real)

        def __repr__(cls):
            return repr(real)

        def __getattr__(cls, n):
            return getattr(real, n)

    class F(metaclass=Meta):
        __symx_real__ = real

        def __new__(cls, *a, **k):
            if len(a) == 1 and isinstance(a[0], np.ndarray) and a[0].size == 1 and A.has_sym(a[0]):
                a = (a[0].reshape(-1)[0],)
            if len(a) == 1 and is_sym(a[0]):
                return conv(a[0])
            return real(*a, **k)

    F.__name__ = real.__name__
    return F


def _conv_float(x):
    return C._real(x if C.isnum(x) else x._num(), 1.0)


def _conv_int(x):
    return C.trunc(x if C.isnum(x) else x._num())


Float = _fake(float, _conv_float)
Int = _fake(int, _conv_int)


def _minmax(real, pick):
    def f(*a, **k):
        xs = list(a[0]) if len(a) == 1 else list(a)
        if not any(is_sym(x) for x in xs) or "key" in k:
            return real(xs, **k) if xs or "default" not in k else k["default"]
        r = xs[0]
        for x in xs[1:]:
            if C.nonfinite(x) or C.nonfinite(r):
                if pick(x, r):
                    r = x
            else:
                r = C.ite(pick(x, r), x, r)
        return r

    return f


Min = _minmax(builtins.min, C.lt)
Max = _minmax(builtins.max, C.gt)


def Round(x, nd=None):
    return C.rint(x) if is_sym(x) else (builtins.round(x) if nd is None else builtins.round(x, nd))


# ------------------------------------------------------------------------------------------------ module stand-ins


def _wrapfn(f, name=None):
    name = name or getattr(f, "__name__", "?")

    def g(*a, **k):
        if "dtype" in k:
            k["dtype"] = A._np_dtype(k["dtype"])
        a = tuple(A._np_dtype(x) if isinstance(x, type) else x for x in a)
        if _deep(a) or _deep(tuple(k.values())):
            return A.call_np(f, a, k, name)
        return A.to_sarr(f(*a, **k)) if not isinstance(f, type) else f(*a, **k)

    g.__name__ = name
    g.__symx_real__ = f
    return g


def _deep(x):
    t = type(x)
    if t is A.SArr or t is A.SymWhere or t is C.Num or t is C.SqrtNum or t is C.SymBool:
        return True
    if t is tuple or t is list:
        return any(_deep(v) for v in x)
    return False


class UF:
    def __init__(self, f):
        self.f = f
        self.__name__ = f.__name__

    def __call__(self, *a, **k):
        if k.get("out") is not None or not _deep(a):
            out = k.pop("out", None)
            k.pop("dtype", None)
            r = A.to_sarr(self.f(*a, **k)) if not _deep(a) else A.ufunc_call(self.__name__, self.f, a)
            if out is not None:
                out = out[0] if isinstance(out, tuple) else out
                out[...] = r
                return out
            return r
        return A.ufunc_call(self.__name__, self.f, a)

    def reduce(self, a, *x, **k):
        return A.to_sarr(self.f.reduce(a, *x, **k)) if not _deep(a) else A.reduce_ufunc(self.__name__, a, *x, **k)

    def accumulate(self, a, *x, **k):
        return A.to_sarr(self.f.accumulate(a, *x, **k)) if not _deep(a) else A.accumulate(self.__name__, a, *x, **k)

    def outer(self, a, b):
        a, b = A._obj(a), A._obj(b)
        return A.ufunc_call(self.__name__, self.f, (A.wrap(a.reshape(a.shape + (1,) * b.ndim)), A.wrap(b)))

    def __getattr__(self, n):
        return getattr(self.f, n)


class Proxy:
    """Stand-in for a numpy/scipy/math module: the real thing for concrete arguments, the encoding for symbolic ones."""

    def __init__(self, real, over=None):
        self.__dict__["_real"] = real
        self.__dict__["_over"] = over or {}
        self.__dict__["_cache"] = {}

    def __getattr__(self, n):
        if ENV is not None and (id(self._real), n) in ENV.module_over:  # replaced by the harness
            return ENV.module_over[id(self._real), n]
        o = self._over
        if n in o:
            return o[n]
        c = self._cache
        if n in c:
            return c[n]
        v = getattr(self._real, n)
        if id(v) in SUBST:
            v = SUBST[id(v)][1]
        elif isinstance(v, np.ufunc):
            v = UF(v)
        elif isinstance(v, types.ModuleType):
            v = Proxy(v)
        elif isinstance(v, type):
            pass
        elif callable(v):
            v = _wrapfn(v, n)
        c[n] = v
        return v


SUBST = {}  # id(real object) -> (real object, stand-in)


def subst(real, standin):
    SUBST[id(real)] = (real, standin)
    return standin


# ------------------------------------------------------------------------------------------------ randomness


def _size(size):
    if size is None:
        return None
    if isinstance(size, (tuple, list)):
        return tuple(int(s) for s in size)
    return (int(size),)


def _draw(size, f):
    s = _size(size)
    if s is None:
        return f(())
    out = np.empty(s, dtype=object)
    for i in np.ndindex(*s):
        out[i] = f(i)
    if ENV.symbolic:
        return A.wrap(out, "f")
    return out.astype(float)


def _rand():
    v = ENV.real("rand", 0, 1, hi_open=True) if ENV.draw is None else ENV.draw()
    ENV.log("rand", v)
    ENV.log("draws", (v, 0.0, 1.0))
    return v


def _pick(name, n):
    ENV.picked = True
    if ENV.extreme is not None:
        return 0 if ENV.extreme == "low" else n - 1
    return ENV.choice(name, n) if n > 1 else 0


class Random:
    """numpy.random (and Generator/RandomState): every draw is an arbitrary value of its range."""

    def rand(self, *shape):
        return _draw(shape if shape else None, lambda i: _rand())

    def random(self, size=None):
        return _draw(size, lambda i: _rand())

    random_sample = sample = ranf = random

    def uniform(self, low=0.0, high=1.0, size=None):
        ENV.log("uniform", (low, high, size))

        def f(i):
            lo = np.broadcast_to(A._obj(low), _size(size))[i] if size is not None and isinstance(low, np.ndarray) else low
            hi = np.broadcast_to(A._obj(high), _size(size))[i] if size is not None and isinstance(high, np.ndarray) else high
            v = ENV.real("uniform", lo, hi) if ENV.draw is None else lo + (hi - lo) * ENV.draw()
            ENV.log("draws", (v, lo, hi))
            return v

        if size is None and (isinstance(low, np.ndarray) or isinstance(high, np.ndarray)):
            size = np.broadcast(A._obj(low), A._obj(high)).shape
        return _draw(size, f)

    def randn(self, *shape):
        return _draw(shape if shape else None, lambda i: ENV.real("randn", *ENV.randn_range))

    def standard_normal(self, size=None):
        return _draw(size, lambda i: ENV.real("randn", *ENV.randn_range))

    def normal(self, loc=0.0, scale=1.0, size=None):
        return loc + scale * self.standard_normal(size)

    def randint(self, low, high=None, size=None, dtype=int, endpoint=False):
        if high is None:
            low, high = 0, low
        if endpoint:
            high = high + 1
        if ENV.extreme is not None:  # the smallest or the largest value of every draw
            ENV.picked = True
            v = int(low) if ENV.extreme == "low" else int(high) - 1
            return v if size is None else np.full(_size(size), v, dtype=int)
        if size is None:
            v = ENV.int("randint", low, high - 1)
            ENV.picked = ENV.picked or not is_sym(v)
            return v
        s = _size(size)
        out = np.empty(s, dtype=object)
        for i in np.ndindex(*s):
            out[i] = ENV.choice("randint", int(high) - int(low)) + int(low) if not ENV.lazy_randint else ENV.int("randint", low, high - 1)
        if any(is_sym(x) for x in out.reshape(-1)):
            return A.wrap(out, "f")
        ENV.picked = True
        return out.astype(int)

    integers = random_integers = randint

    def permutation(self, x):
        if isinstance(x, (int, np.integer)):
            x = np.arange(x)
        n = len(x)
        left = list(range(n))
        order = []
        while left:
            order.append(left.pop(_pick("perm", len(left))))
        if isinstance(x, range):
            return np.array(order)[...] + 0 if x == range(n) else np.array(list(x))[order]
        x = x if isinstance(x, np.ndarray) else np.array(list(x))
        return x[order]

    def shuffle(self, x):
        n = len(x)
        left = list(range(n))
        order = []
        while left:
            order.append(left.pop(_pick("perm", len(left))))
        y = x.copy() if isinstance(x, np.ndarray) else list(x)
        for i, j in enumerate(order):
            x[i] = y[j]

    def choice(self, a, size=None, replace=True, p=None):
        xs = np.arange(a) if isinstance(a, (int, np.integer)) else a
        if size is None:
            return xs[_pick("pick", len(xs))]
        s = _size(size)
        k = int(np.prod(s))
        left = list(range(len(xs)))
        idx = []
        for _ in range(k):
            j = _pick("pick", len(left))
            idx.append(left[j])
            if not replace:
                left.pop(j)
        return xs[np.array(idx, dtype=int).reshape(s)]

    def seed(self, *a, **k):
        ENV.log("seed", a)

    def default_rng(self, seed=None):
        return _generator(seed)

    def get_state(self, *a, **k):
        return None

    def set_state(self, *a, **k):
        pass


RANDOM = Random()


_RealRandomState = np.random.RandomState


class FreshRandom(Random):
    """A generator seeded by the operating system: its draws are not those of the global generator."""

    def __getattribute__(self, n):
        v = object.__getattribute__(self, n)
        if not callable(v) or n.startswith("_"):
            return v

        def f(*a, **k):
            ENV.fresh += 1
            try:
                return v(*a, **k)
            finally:
                ENV.fresh -= 1

        return f


def _generator(seed):
    if isinstance(seed, Random):
        return seed
    if not ENV.picked and not is_sym(seed) and isinstance(seed, (int, np.integer)):  # not drawn from the global generator
        ENV.log("fixed", seed)
    return FreshRandom() if seed is None else RANDOM


def own_generators():
    """(namespace, name, generator): generators that the code under test has created at its import."""
    import random

    kinds = (np.random.Generator, _RealRandomState, random.Random)
    for m in modules():
        if m.__name__.split(".")[0] != "pySOT":
            continue
        for n, v in list(m.__dict__.items()):
            if isinstance(v, kinds) and v is not np.random.mtrand._rand:
                yield m, n, v
            if isinstance(v, type) and v.__module__ == m.__name__:
                for k, w in list(v.__dict__.items()):
                    if isinstance(w, kinds) and w is not np.random.mtrand._rand:
                        yield v, k, w


class _RSMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, Random)


class FakeRandomState(metaclass=_RSMeta):
    def __new__(cls, seed=None, *a, **k):
        return _generator(seed)


RANDOM.RandomState = FakeRandomState
RANDOM.Generator = FakeRandomState


class TruncNorm:
    """scipy.stats.truncnorm: rvs returns arbitrary values in [loc + a*scale, loc + b*scale]."""

    def rvs(self, a, b, loc=0, scale=1, size=None, random_state=None):
        if not is_sym(random_state) and isinstance(random_state, (int, np.integer)):
            _generator(random_state)
        if isinstance(random_state, FreshRandom):
            ENV.fresh += 1
            try:
                return self.rvs(a, b, loc, scale, size)
            finally:
                ENV.fresh -= 1
        s = _size(size)
        ENV.log("truncnorm", dict(a=a, b=b, loc=loc, scale=scale, size=s))
        lo = loc + a * scale
        hi = loc + b * scale
        if size is None:
            size = np.broadcast(A._obj(lo), A._obj(hi)).shape or None
            s = _size(size)

        def at(v, i):
            return np.broadcast_to(A._obj(v), s)[i] if isinstance(v, np.ndarray) and s else v

        def f(i):
            v = ENV.real("truncnorm", at(lo, i), at(hi, i)) if ENV.draw is None else at(lo, i) + (at(hi, i) - at(lo, i)) * ENV.draw()
            ENV.log("draw", (v, at(loc, i), at(scale, i), at(lo, i), at(hi, i)))
            return v

        return _draw(size, f)

    def __call__(self, a, b, loc=0, scale=1):
        return _Frozen(self, dict(a=a, b=b, loc=loc, scale=scale))


class _Frozen:
    def __init__(self, d, kw):
        self.d, self.kw = d, kw

    def rvs(self, size=None, random_state=None):
        return self.d.rvs(size=size, random_state=random_state, **self.kw)


def _is(v, c):
    return not is_sym(v) and not isinstance(v, np.ndarray) and v == c


class NormDist:
    @staticmethod
    def _std(x, loc, scale):
        if not _is(loc, 0):
            x = x - loc
        if not _is(scale, 1):
            x = x / scale
        return x

    def cdf(self, x, loc=0, scale=1):
        x = self._std(x, loc, scale)
        return A.map1(lambda v: C.uf("cdf", v) if is_sym(v) else np.float64(scipy.stats.norm.cdf(v)), x)

    def pdf(self, x, loc=0, scale=1):
        y = A.map1(lambda v: C.uf("pdf", v) if is_sym(v) else np.float64(scipy.stats.norm.pdf(v)), self._std(x, loc, scale))
        if not _is(scale, 1):
            y = y / scale
        return y

    def sf(self, x, loc=0, scale=1):
        return 1 - self.cdf(x, loc, scale)

    def __getattr__(self, n):
        return getattr(scipy.stats.norm, n)


# ------------------------------------------------------------------------------------------------ linear algebra


def _conc(name, f):
    def known(x):
        return tuple(np.asarray(y) if i else A.to_float(y) for i, y in enumerate(x)) if isinstance(x, tuple) else A.to_float(x)

    def g(*a, **k):
        if name.split(".")[-1] in ("solve", "lu_solve", "cho_solve") and len(a) > 1 and not A.has_sym(a[0]) and A.has_sym(a[1]):
            m = known(a[0])
            n = len(m[0] if isinstance(m, tuple) else m)
            return A.dot(A.to_sarr(f(m, np.eye(n), *a[2:], **k)), a[1])
        if A.has_sym(list(a)) or A.has_sym(list(k.values())):
            raise EngineLimit("%s of a symbolic matrix" % name)
        r = f(*[A.to_float(x) for x in a], **{n: A.to_float(v) for n, v in k.items()})
        if isinstance(r, (tuple, list)):
            return type(r)(A.to_sarr(x) for x in r)
        return A.to_sarr(r)

    return g


def matrix_rank(M, *a, **k):
    if not A.has_sym(M):
        if ENV.rank_always:  # also for known matrices
            return ENV.matrix_rank(M)
        return np.linalg.matrix_rank(A.to_float(M), *a, **k)
    return ENV.matrix_rank(M)


def _rank_sym(M):
    """Rank of a small symbolic matrix by fraction-free elimination (forks on pivots)."""
    m = [[C.add(x, np.float64(0.0)) for x in row] for row in A._obj(M)]
    rank, rows, cols = 0, len(m), len(m[0])
    for c in range(cols):
        p = None
        for r in range(rank, rows):
            if bool(C.ne(m[r][c], 0)):
                p = r
                break
        if p is None:
            continue
        m[rank], m[p] = m[p], m[rank]
        for r in range(rank + 1, rows):
            m[r] = [C.sub(C.mul(m[r][j], m[rank][c]), C.mul(m[r][c], m[rank][j])) for j in range(cols)]
        rank += 1
        if rank == rows:
            break
    return rank


# ------------------------------------------------------------------------------------------------ install


def _build():
    rnd = RANDOM
    subst(np.random, rnd)
    math_over = dict(
        sqrt=lambda x: C.sqrt(x) if is_sym(x) else math.sqrt(x), fabs=lambda x: C.absolute(x) if is_sym(x) else math.fabs(x),
        floor=lambda x: Int(C.floor(x)) if is_sym(x) else math.floor(x), ceil=lambda x: Int(C.ceil(x)) if is_sym(x) else math.ceil(x),
        isinf=lambda x: False if is_sym(x) else math.isinf(x), isnan=lambda x: False if is_sym(x) else math.isnan(x),
        isfinite=lambda x: True if is_sym(x) else math.isfinite(x), exp=lambda x: C.exp(x) if is_sym(x) else math.exp(x),
        log=lambda x, *b: (C.log(x) if not b else C.div(C.log(x), math.log(b[0]))) if is_sym(x) else math.log(x, *b),
        pow=lambda x, y: C.power(x, y) if is_sym(x) or is_sym(y) else math.pow(x, y),
        cos=lambda x: C.cos(x) if is_sym(x) else math.cos(x), sin=lambda x: C.sin(x) if is_sym(x) else math.sin(x),
        trunc=lambda x: C.trunc(x) if is_sym(x) else math.trunc(x),
        isclose=lambda a, b, rel_tol=1e-9, abs_tol=0.0: A.allclose(a, b, rel_tol, abs_tol) if is_sym(a) or is_sym(b) else math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol),
        dist=lambda a, b: A.euclidean(a, b),
    )
    for k, v in math_over.items():
        subst(getattr(math, k), v)
    subst(math, Proxy(math, math_over))
    cd = _wrapfn(scipy.spatial.distance.cdist, "cdist")

    def cdist(XA, XB, metric="euclidean", **k):
        return ENV.cdist(XA, XB) if ENV.cdist else cd(XA, XB, metric, **k)

    subst(scipy.spatial.distance.cdist, cdist)

    def euclid(u, v, w=None):
        return _wrapfn(scipy.spatial.distance.euclidean, "euclidean")(u, v)

    subst(scipy.spatial.distance.euclidean, euclid)
    subst(np.linalg.matrix_rank, matrix_rank)
    subst(np.linalg.norm, _wrapfn(np.linalg.norm, "norm"))
    for n in ("inv", "solve", "cholesky", "det", "eig", "eigh", "svd", "qr", "lstsq", "pinv"):
        f = getattr(np.linalg, n)
        subst(f, _conc("linalg." + n, f))
    for n in ("lu_factor", "cholesky", "lu", "inv", "solve", "lu_solve", "cho_factor", "cho_solve", "qr", "svd"):
        f = getattr(scipy.linalg, n)

        def g(*a, _n=n, _f=_conc("scipy.linalg." + n, f), **k):
            h = ENV.linalg.get(_n) if ENV is not None else None
            return h(_f, *a, **k) if h else _f(*a, **k)

        subst(f, g)
    def st(a, b, *x, **k):
        if A.has_sym(a) or A.has_sym(b):
            names = ("trans", "lower", "unit_diagonal")
            kk = dict(zip(names, x))
            kk.update(k)
            return A.solve_triangular(a, b, **kk)
        return A.to_sarr(scipy.linalg.solve_triangular(A.to_float(a), A.to_float(b), *x, **k))

    subst(scipy.linalg.solve_triangular, st)
    subst(scipy.stats.truncnorm, TruncNorm())
    subst(scipy.stats.norm, NormDist())
    for n in ("zeros", "ones", "empty", "full", "zeros_like", "ones_like", "empty_like", "full_like"):
        f = getattr(np, n)
        subst(f, _creator(f, n))
    f = np.array
    subst(f, _wrapfn(np.array, "array"))
    for m in (scipy.spatial.distance, scipy.spatial, scipy.linalg, scipy.stats, np.linalg, np):
        subst(m, Proxy(m))
    subst(scipy, Proxy(scipy))


def _creator(f, n):
    def g(*a, **k):
        if "dtype" in k:
            k["dtype"] = A._np_dtype(k["dtype"])
        a = tuple(A._np_dtype(x) if isinstance(x, type) else x for x in a)
        if n.endswith("_like") and isinstance(a[0], A.SArr):
            d = k.get("dtype")
            if d is None:
                return A.full(a[0].shape, {"zeros_like": 0.0, "ones_like": 1.0, "empty_like": 0.0}.get(n, a[1] if len(a) > 1 else k.get("fill_value")))
            a = (np.empty(a[0].shape),) + a[1:]
        if n == "full":
            v = a[1] if len(a) > 1 else k.get("fill_value")
            if is_sym(v):
                return A.full(a[0] if a else k["shape"], v)
        if a and isinstance(a[0], (tuple, list)):
            a = (tuple(x.__index__() if is_sym(x) else x for x in a[0]),) + a[1:]
        elif a and is_sym(a[0]):
            a = (a[0].__index__(),) + a[1:]
        r = f(*a, **k)
        if n in ("empty", "empty_like") and r.dtype.kind == "f":
            r = np.full(r.shape, 0.0)
        return A.to_sarr(r)

    g.__name__ = n
    return g


PATCHED_PKGS = ("pySOT", "pyDOE2")
_saved = []
_own = []
_mods = None


def load_all():
    """Import every module of the package under test (those whose dependencies are missing are skipped)."""
    import warnings

    warnings.simplefilter("ignore")
    import logging

    logging.disable(logging.CRITICAL)
    import pySOT

    for m in pkgutil.walk_packages(pySOT.__path__, "pySOT."):
        try:
            importlib.import_module(m.name)
        except Exception:
            pass
    import pyDOE2.doe_lhs  # noqa


def modules():
    return [m for n, m in list(sys.modules.items()) if m is not None and n.split(".")[0] in PATCHED_PKGS]


def install():
    """Put the stand-ins into the module globals of the code under test."""
    if _saved:
        return
    for o, n, v in own_generators():
        _own.append((o, n, v))
        setattr(o, n, FreshRandom())
    for m in modules():
        d = m.__dict__
        for n, v in list(d.items()):
            if n.startswith("__"):
                continue
            if id(v) in SUBST and SUBST[id(v)][0] is v:
                _saved.append((d, n, v, True))
                d[n] = SUBST[id(v)][1]
            elif isinstance(v, np.ufunc):
                _saved.append((d, n, v, True))
                d[n] = UF(v)
            elif isinstance(v, types.BuiltinFunctionType) and getattr(v, "__module__", "") == "math":
                pass
            elif isinstance(v, types.FunctionType) and (getattr(v, "__module__", "") or "").split(".")[0] == "numpy" or type(v).__name__ == "_ArrayFunctionDispatcher":
                _saved.append((d, n, v, True))
                d[n] = _wrapfn(v)
        for n, v in (("float", Float), ("int", Int), ("min", Min), ("max", Max), ("round", Round)):
            if n not in d:
                _saved.append((d, n, None, False))
                d[n] = v
    # class attributes/defaults that hold numpy objects are left alone


def uninstall():
    for d, n, v, had in reversed(_saved):
        if had:
            d[n] = v
        else:
            d.pop(n, None)
    _saved.clear()
    for o, n, v in _own:
        setattr(o, n, v)
    _own.clear()


class _ConcreteRandom:
    """Patch the entry points of real randomness for a concrete replay."""

    active = None

    def __enter__(self):
        _ConcreteRandom.active = self
        self.saved = []
        import scipy.stats as st

        def put(o, n, v):
            self.saved.append((o, n, getattr(o, n)))
            setattr(o, n, v)

        for n in ("rand", "random", "random_sample", "sample", "ranf", "uniform", "randn", "standard_normal", "normal", "randint",
                  "permutation", "shuffle", "choice", "seed", "default_rng"):
            put(np.random, n, getattr(RANDOM, n))
        put(np.random, "RandomState", FakeRandomState)
        put(st, "truncnorm", TruncNorm())
        self.mods = []
        table = {id(v): getattr(o, n) for o, n, v in self.saved}
        for o, n, v in list(own_generators()):
            put(o, n, FreshRandom())
        for m in modules():
            for n, v in list(m.__dict__.items()):
                if id(v) in table and not n.startswith("__"):
                    self.mods.append((m.__dict__, n, v))
                    m.__dict__[n] = table[id(v)]
        return self

    def __exit__(self, *a):
        _ConcreteRandom.active = None
        for d, n, v in self.mods:
            d[n] = v
        for o, n, v in reversed(self.saved):
            setattr(o, n, v)


# ------------------------------------------------------------------------------------------------ environments


class BaseEnv:
    symbolic = False
    TOL = 1e-6

    def __init__(self):
        self.logs = []
        self.notes = []
        self.cdist = None
        self.rank_always = False
        self.linalg = {}
        self.lazy_randint = False
        self.extreme = None
        self.picked = False  # a discrete draw has had a definite value
        self.fresh = 0  # inside a draw from a generator that the operating system has seeded
        self.draw = None  # source of uniform draws in [0,1), instead of arbitrary values
        self.randn_range = (None, None)
        self.reached = set()
        self.cleanups = []
        self.module_over = {}

    def log(self, what, info):
        self.logs.append((what, info))

    def take_logs(self, what):
        r = [i for w, i in self.logs if w == what]
        self.logs = [x for x in self.logs if x[0] != what]
        return r

    def patch(self, obj, name, value):
        """Set an attribute for the duration of this run."""
        had = name in obj.__dict__ if hasattr(obj, "__dict__") else True
        old = getattr(obj, name, None)
        self.cleanups.append((obj, name, old, had))
        if isinstance(obj, types.ModuleType):
            self.module_over[id(obj), name] = value
        setattr(obj, name, value)

    def new_process(self):
        """Forget what the code under test keeps between calls, as if it was imported again."""
        from . import state

        now = [(o, n, getattr(o, n)) for o, n, v, had in self.cleanups]
        ins = bool(_saved)
        real = _ConcreteRandom.active
        if ins:
            uninstall()
        if real:
            real.__exit__()
        state.restore()
        if ins:
            install()
        if real:
            real.__enter__()
        for o, n, v in now:
            setattr(o, n, v)

    def cleanup(self):
        for o, n, v, had in reversed(self.cleanups):
            if had:
                setattr(o, n, v)
            else:
                delattr(o, n)
        self.cleanups = []
        self.module_over = {}

    def array(self, name, shape, lo=None, hi=None, kind="real"):
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        out = np.empty(shape, dtype=object)
        for i in np.ndindex(*shape):
            l = lo[i[-1]] if isinstance(lo, (list, tuple, np.ndarray)) else lo
            h = hi[i[-1]] if isinstance(hi, (list, tuple, np.ndarray)) else hi
            out[i] = getattr(self, kind)("%s%s" % (name, "".join("[%d]" % j for j in i)), l, h)
        return self.arr(out)

    def reach(self, label):
        self.reached.add(label)

    # conjunctions/disjunctions that do not fork
    def all(self, xs):
        r = True
        for x in xs:
            r = C.land(r, x)
        return r

    def any(self, xs):
        r = False
        for x in xs:
            r = C.lor(r, x)
        return r

    def implies(self, a, b):
        return C.lor(C.lnot(a), b)

    def ite(self, c, a, b):
        return C.ite(c, a, b)

    def minimum(self, xs):
        r = None
        for x in xs:
            r = x if r is None else C.minimum(r, x)
        return r

    def maximum(self, xs):
        r = None
        for x in xs:
            r = x if r is None else C.maximum(r, x)
        return r

    def abs(self, x):
        return C.absolute(x)

    def close(self, a, b, tol=None):
        tol = self.TOL if tol is None else tol
        return C.le(C.absolute(C.sub(a, b)), tol)

    def leq(self, a, b, tol=None):
        tol = self.TOL if tol is None else tol
        return C.le(C.sub(a, b), tol)


class SymEnv(BaseEnv):
    symbolic = True

    def __init__(self, path, on_violation):
        super().__init__()
        self.path = path
        self.on_violation = on_violation
        self.checks = []

    # inputs
    def real(self, name, lo=None, hi=None, hi_open=False):
        if lo is not None and hi is not None and not is_sym(lo) and not is_sym(hi) and lo == hi:
            return np.float64(lo)
        v = C.Num(self.path.fresh(name, "real"))
        self._bound(v, lo, hi, hi_open)
        return v

    def int(self, name, lo=None, hi=None):
        if lo is not None and hi is not None and not is_sym(lo) and not is_sym(hi) and lo == hi:
            return int(lo)
        v = C.Num(self.path.fresh(name, "int"))
        self._bound(v, lo, hi)
        return v

    def _bound(self, v, lo, hi, hi_open=False):
        if lo is not None and not C.nonfinite(lo):
            self.path.define(C.zb(C.ge(v, lo)))
        if hi is not None and not C.nonfinite(hi):
            self.path.define(C.zb(C.lt(v, hi) if hi_open else C.le(v, hi)))

    def bool(self, name, *a):
        return C.SymBool(self.path.fresh(name, "bool"))

    def choice(self, name, n):
        return self.path.choose(name, n)

    def flag(self, name):
        return bool(self.choice(name, 2))

    def arr(self, data):
        return A.SArr(data, "f")

    def matrix_rank(self, M):
        return _rank_sym(M)

    # properties
    def assume(self, c):
        if not is_sym(c):
            if not c:
                self.path.aborted = True
                raise PathAbort()
            return
        self.path.add(C.zb(c))
        self.path.get_model()

    def check(self, c, msg, hints=()):
        self.path.stats["checks"] += 1
        if not is_sym(c):
            if c:
                self.path.stats["discharged_trivially"] += 1
                return
            r = self.path.check()
            if r == z3.unsat:
                self.path.aborted = True
                raise PathAbort()
            self.on_violation(self, msg, z3.BoolVal(True), hints)
            self.path.aborted = True
            raise PathAbort()
        b = C.zb(c)
        r = self.path.check(z3.Not(b))
        if r == z3.unsat:
            self.path.stats["discharged"] += 1
            return
        if r == z3.unknown:
            self.path.stats["undecided"] += 1
            self.path.incomplete.append("undecided: " + msg)
            return
        self.on_violation(self, msg, z3.Not(b), hints)
        self.path.add(b)
        self.path.model = None
        self.path.get_model()

    def eq(self, a, b, msg, tol=None):
        tol = self.TOL if tol is None else tol
        if is_sym(a) or is_sym(b):
            if not C.nonfinite(a) and not C.nonfinite(b):
                ea, eb = C.unify(a, b)
                if ea.eq(eb) or z3.is_true(z3.simplify(ea == eb)):
                    self.path.stats["checks"] += 1
                    self.path.stats["discharged"] += 1
                    return
                d = z3.simplify(C.zr(C.sub(a, b)))
                hints = [z3.Or(d > m, d < -m) for m in (0.25, 0.01)]
                return self.check(self.close(a, b, tol), msg, hints)
            return self.check(False, msg)
        self.check(_conc_close(a, b, tol), msg)

    def le(self, a, b, msg, tol=None):
        tol = self.TOL if tol is None else tol
        if (is_sym(a) or is_sym(b)) and not C.nonfinite(a) and not C.nonfinite(b):
            d = z3.simplify(C.zr(C.sub(a, b)))
            return self.check(C.mkb(z3.simplify(d <= z3.Q(Fraction(tol).limit_denominator(10 ** 12).numerator, Fraction(tol).limit_denominator(10 ** 12).denominator))), msg, [d > m for m in (z3.Q(1, 4), z3.Q(1, 100))])
        self.check(C.le(a, b) if (is_sym(a) or is_sym(b)) else bool(a <= b + tol), msg)

    def note(self, name, v):
        if len(self.notes) < 60:
            self.notes.append((name, v))


def _conc_close(a, b, tol):
    a, b = float(a), float(b)
    if not (math.isfinite(a) and math.isfinite(b)):
        return a == b or (math.isnan(a) and math.isnan(b))
    return abs(a - b) <= tol * max(1.0, abs(b))


class AssumptionFailed(BaseException):
    pass


class ConcEnv(BaseEnv):
    """Replays a harness on the unpatched code with the values of a model."""

    def __init__(self, values, choices):
        super().__init__()
        self.values = values
        self.choices = list(choices)
        self.ci = 0
        self.used = {}

    def _name(self, name):
        self.used[name] = i = self.used.get(name, 0) + 1
        n = name if i == 1 else "%s#%d" % (name, i)
        return n

    def _val(self, name, lo, hi, default):
        n = self._name(name)
        if n in self.values:
            return self.values[n]
        return lo if lo is not None else (hi if hi is not None else default)

    def real(self, name, lo=None, hi=None, hi_open=False):
        if lo is not None and hi is not None and lo == hi:
            return np.float64(lo)
        v = np.float64(float(self._val(name, lo, hi, 0)))
        if hi_open and hi is not None and v >= hi:
            v = np.nextafter(np.float64(hi), -np.inf)
        return v

    def int(self, name, lo=None, hi=None):
        if lo is not None and hi is not None and lo == hi:
            return int(lo)
        return int(self._val(name, lo, hi, 0))

    def bool(self, name, *a):
        return bool(self._val(name, None, None, False))

    def choice(self, name, n):
        if n == 1:
            return 0
        if self.ci < len(self.choices):
            v = self.choices[self.ci]
            self.ci += 1
            return min(v, n - 1)
        return 0

    def flag(self, name):
        return bool(self.choice(name, 2))

    def arr(self, data):
        return np.array(np.asarray(data, dtype=object).tolist(), dtype=float).reshape(np.shape(data))

    def assume(self, c):
        if not bool(c):
            raise AssumptionFailed()

    def check(self, c, msg, hints=()):
        if not bool(c):
            raise Violation(msg)

    def eq(self, a, b, msg, tol=None):
        tol = self.TOL if tol is None else tol
        if not _conc_close(a, b, tol * 0.5):
            raise Violation("%s (%r != %r)" % (msg, float(a), float(b)))

    def le(self, a, b, msg, tol=None):
        tol = self.TOL if tol is None else tol
        if not (float(a) <= float(b) + 0.5 * tol):
            raise Violation("%s (%r > %r)" % (msg, float(a), float(b)))

    def note(self, name, v):
        if len(self.notes) < 60:
            self.notes.append((name, v))


_build()
