"""numpy arrays with symbolic entries, and the numpy functions the code under test uses on them."""
import math

import numpy as np
import scipy.linalg

from . import core as C
from .core import EngineLimit, is_sym

ND = np.ndarray


class SymWhere:
    """Result of np.where(mask)[0]/np.nonzero(mask)[0] for a symbolic 1-d mask, not yet forked."""

    def __init__(self, mask):
        self.mask = mask
        self._idx = None

    def force(self):
        if self._idx is None:
            self._idx = np.array([i for i, m in enumerate(self.mask) if bool(m)], dtype=int)
        return self._idx

    def __len__(self):
        return len(self.force())

    def __iter__(self):
        return iter(self.force())

    def __array__(self, dtype=None, copy=None):
        return self.force()

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return getattr(self.force(), n)

    def __getitem__(self, k):
        return self.force()[k]

    def __eq__(self, o):
        return self.force() == o

    def __index__(self):
        return self.force().__index__()


def kind_of(x):
    t = type(x)
    if t is C.SymBool or t is bool or t is np.bool_:
        return "b"
    return "f"


class SArr(np.ndarray):
    """Object array whose entries are numbers (floats, ints, Num) or truth values (bool, SymBool)."""

    kind = "f"

    def __new__(cls, data, kind=None):
        a = _obj(data)
        r = a.view(cls)
        r.kind = kind or _guess(a)
        return r

    def __array_finalize__(self, o):
        if o is not None:
            self.kind = getattr(o, "kind", "f")

    def __deepcopy__(self, memo):
        return self.copy()

    def __reduce__(self):
        raise EngineLimit("pickling a symbolic array")

    # -- indexing
    def __getitem__(self, k):
        k = norm_index(k, self)
        if isinstance(k, _SymIdx):
            return k.get(self)
        r = ND.__getitem__(self, k)
        if isinstance(r, ND):
            return r
        if type(r) is float:
            return np.float64(r)
        return r

    def __setitem__(self, k, v):
        if isinstance(k, ND) and k.dtype == object or _has_symwhere(k):
            if _masked_set(self, k, v):
                return
        k = norm_index(k, self)
        if isinstance(k, _SymIdx):
            k = k.force()
        v = _value(v, self.kind)
        ND.__setitem__(self, k, v)

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError("iteration over a 0-d array")
        for i in range(self.shape[0]):
            yield self[i]

    # -- operators
    def __array_ufunc__(self, uf, method, *ins, out=None, **kw):
        name = uf.__name__
        if method == "__call__":
            r = ufunc_call(name, uf, ins)
            w = kw.get("where", True)
            if w is not True:
                o = out[0] if out is not None else np.zeros(getattr(r, "shape", ()))
                r = IMPL["where"](w, r, o)
            if out is not None:
                o = out[0]
                if isinstance(o, SArr):
                    o[...] = r
                    return o
                if has_sym(r):
                    raise EngineLimit("in-place operation stores a symbolic value in a numeric array")
                o[...] = np.asarray(r, dtype=o.dtype)
                return o
            return r
        if method == "reduce":
            return reduce_ufunc(name, ins[0], **kw)
        if method == "at" and name in _BIN:
            o = ins[0]
            k = ins[1]
            if isinstance(k, SArr):
                k = norm_index(k, o)
            v = np.broadcast_to(_obj(ins[2]), np.shape(np.zeros(o.shape)[k])) if len(ins) > 2 else None
            pos = np.arange(o.size).reshape(o.shape)[k]
            f = o.reshape(-1)
            for i, j in enumerate(np.ravel(pos)):
                f[j] = _BIN[name](f[j], v.reshape(-1)[i])
            o[...] = f.reshape(o.shape)
            return None
        if method == "accumulate" and name in _BIN:
            return accumulate(name, ins[0], **kw)
        if method == "outer":
            a, b = _obj(ins[0]), _obj(ins[1])
            return ufunc_call(name, uf, (wrap(a.reshape(a.shape + (1,) * b.ndim)), wrap(b)))
        raise EngineLimit("ufunc method %s.%s" % (name, method))

    def __array_function__(self, func, types, args, kwargs):
        return call_np(func, args, kwargs)

    # -- methods
    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **kw):
        return reduce_ufunc("add", self, axis=axis, keepdims=keepdims)

    def prod(self, axis=None, dtype=None, out=None, keepdims=False, **kw):
        return reduce_ufunc("multiply", self, axis=axis, keepdims=keepdims)

    def min(self, axis=None, out=None, keepdims=False, **kw):
        return reduce_ufunc("minimum", self, axis=axis, keepdims=keepdims, **kw)

    def max(self, axis=None, out=None, keepdims=False, **kw):
        return reduce_ufunc("maximum", self, axis=axis, keepdims=keepdims, **kw)

    def all(self, axis=None, out=None, keepdims=False, **kw):
        return reduce_ufunc("logical_and", self, axis=axis, keepdims=keepdims)

    def any(self, axis=None, out=None, keepdims=False, **kw):
        return reduce_ufunc("logical_or", self, axis=axis, keepdims=keepdims)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **kw):
        n = self.size if axis is None else int(np.prod([self.shape[x] for x in (axis if isinstance(axis, tuple) else (axis,))]))
        if n == 0:
            return reduce_ufunc("add", self, axis=axis, keepdims=keepdims) * float("nan")
        return reduce_ufunc("add", self, axis=axis, keepdims=keepdims) / float(n)

    def std(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **kw):
        return IMPL["std"](self, axis=axis, ddof=ddof, keepdims=keepdims)

    def var(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **kw):
        return IMPL["var"](self, axis=axis, ddof=ddof, keepdims=keepdims)

    def cumsum(self, axis=None, dtype=None, out=None):
        return IMPL["cumsum"](self, axis=axis)

    def cumprod(self, axis=None, dtype=None, out=None):
        return IMPL["cumprod"](self, axis=axis)

    def take(self, indices, axis=None, out=None, mode="raise"):
        return IMPL["take"](self, indices, axis=axis)

    def compress(self, condition, axis=None, out=None):
        return IMPL["compress"](condition, self, axis=axis)

    def partition(self, kth, axis=-1, **kw):
        self[...] = IMPL["sort"](self, axis=axis)

    def argpartition(self, kth, axis=-1, **kw):
        return argsort(self, axis)

    def argmin(self, axis=None, out=None, keepdims=False, **kw):
        return argmin(self, axis, keepdims=keepdims)

    def argmax(self, axis=None, out=None, keepdims=False, **kw):
        return argmin(map1(lambda x: -x, self), axis, keepdims=keepdims)

    def argsort(self, axis=-1, kind=None, order=None, **kw):
        return argsort(self, axis)

    def sort(self, axis=-1, kind=None, order=None, **kw):
        self[...] = IMPL["sort"](self, axis=axis)

    def dot(self, o):
        return dot(self, o)

    def __matmul__(self, o):
        return dot(self, o)

    def __rmatmul__(self, o):
        return dot(o, self)

    def round(self, decimals=0, out=None):
        return IMPL["round"](self, decimals)

    def clip(self, min=None, max=None, **kw):
        return IMPL["clip"](self, min, max)

    def nonzero(self):
        return where(self)

    def astype(self, dtype, *a, **kw):
        d = _np_dtype(dtype)
        if d == object or d is not None and np.dtype(d).kind == "f":
            r = self.copy()
            r.kind = "f"
            if self.kind == "b":
                r[...] = [_num(x) for x in self.ravel()] if False else np.array([_num(x) for x in _flat(self)], dtype=object).reshape(self.shape)
            return r
        if has_sym(self):
            if np.dtype(d).kind == "b":
                return IMPL["not_equal"](self, 0) if self.kind != "b" else self.copy()
            if np.dtype(d).kind in "iu":
                r = map1(C.trunc, self)
                return r if has_sym(r) else to_float(r).astype(d)
        return to_float(self).astype(d)

    def tolist(self):
        return np.asarray(self.view(ND)).tolist()

    def flatten(self, order="C"):
        return self.copy().reshape(-1)

    def repeat(self, repeats, axis=None):
        return wrap(ND.repeat(self.view(ND), repeats, axis), self.kind)

    def __repr__(self):
        return "SArr%s" % (self.shape,)

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def __bool__(self):
        if self.size == 1:
            return bool(self.reshape(-1)[0])
        raise ValueError("The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()")

    def __float__(self):
        return float(self.reshape(-1)[0]) if self.size == 1 else ND.__float__(self)

    def __index__(self):
        return self.reshape(-1)[0].__index__()

    def __int__(self):
        return int(self.reshape(-1)[0])


def _np_dtype(d):
    """The builtin type a (possibly patched) dtype argument stands for."""
    real = getattr(d, "__symx_real__", None)
    return real if real is not None else d


def _obj(data):
    """Plain object ndarray of a nested structure of scalars/arrays."""
    if isinstance(data, SArr):
        return data.view(ND)
    if isinstance(data, SymWhere):
        data = data.force()
    if isinstance(data, ND):
        return data if data.dtype == object else data.astype(object)
    if is_sym(data) or np.isscalar(data):
        a = np.empty((), dtype=object)
        a[()] = data
        return a
    if isinstance(data, (list, tuple, range)) or hasattr(data, "__iter__"):
        parts = [_obj(x) for x in data]
        if not parts:
            return np.empty((0,), dtype=object)
        sh = parts[0].shape
        if any(p.shape != sh for p in parts):
            raise ValueError("inhomogeneous shape")
        a = np.empty((len(parts),) + sh, dtype=object)
        for i, p in enumerate(parts):
            a[i] = p if sh else p[()]
        return a
    a = np.empty((), dtype=object)
    a[()] = data
    return a


def _flat(a):
    return a.view(ND).reshape(-1) if isinstance(a, ND) else _obj(a).reshape(-1)


def _guess(a):
    f = a.reshape(-1)
    return "b" if f.size and all(kind_of(x) == "b" for x in f) else "f"


def _num(x):
    if type(x) is C.SymBool:
        return C.Num(C.z3.If(x.b, C.z3.RealVal(1), C.z3.RealVal(0)))
    if isinstance(x, (bool, np.bool_)):
        return np.float64(x)
    return x


def _value(v, kind):
    """Prepare a right-hand side: entries become numbers (kind f) or truth values (kind b)."""
    if isinstance(v, (list, tuple)):
        v = _obj(v)
    if isinstance(v, SymWhere):
        v = v.force()
    if isinstance(v, ND):
        o = v.view(ND)
        if o.dtype != object:
            return o.astype(bool if kind == "b" else float).astype(object)
        if kind == "b":
            out = np.empty(o.shape, dtype=object)
            for i, x in np.ndenumerate(o):
                out[i] = _tob(x)
            return out
        return o if getattr(v, "kind", "f") == "f" else wrap(o).astype(float).view(ND)
    if kind == "b":
        return _tob(v)
    if v is None:
        return math.nan
    v = _num(v)
    if not is_sym(v):
        v = np.float64(v)
    return v


def _tob(x):
    if type(x) is C.SymBool:
        return x
    if C.isnum(x):
        return C.ne(x, 0)
    return bool(x)


def wrap(a, kind=None):
    """SArr view of an object array; scalars come back as scalars."""
    if not isinstance(a, ND):
        return a
    if a.dtype != object:
        return a
    r = a.view(SArr)
    r.kind = kind or _guess(a)
    return r


def has_sym(x):
    if is_sym(x):
        return True
    if isinstance(x, ND):
        return x.dtype == object and any(is_sym(v) for v in x.view(ND).reshape(-1))
    if isinstance(x, (list, tuple)):
        return any(has_sym(v) for v in x)
    return isinstance(x, SymWhere) and x._idx is None


def to_float(x):
    """Numeric numpy value of a fully concrete SArr (or nested argument)."""
    if isinstance(x, SArr):
        f = x.view(ND)
        if x.kind == "b":
            return f.astype(bool)
        return f.astype(float)
    if isinstance(x, SymWhere):
        return x.force()
    if isinstance(x, list):
        return [to_float(v) for v in x]
    if isinstance(x, tuple):
        return tuple(to_float(v) for v in x)
    return _np_dtype(x) if isinstance(x, type) else x


def to_sarr(x):
    """Float arrays become SArr (so that symbolic values can be stored later)."""
    if isinstance(x, ND) and not isinstance(x, SArr):
        if x.dtype.kind == "f":
            return wrap(_box(x), "f")
        if x.dtype == object:
            return wrap(x)
    return x


def _box(x):
    a = np.empty(x.shape, dtype=object)
    xf = x.reshape(-1)
    af = a.reshape(-1)
    for i in range(xf.size):
        af[i] = xf[i]
    return af.reshape(x.shape)


def concretize(x):
    if is_sym(x):
        return bool(x) if type(x) is C.SymBool else float(x)
    if isinstance(x, SArr):
        out = np.array([concretize(v) for v in _flat(x)], dtype=bool if x.kind == "b" else float)
        return out.reshape(x.shape)
    if isinstance(x, list):
        return [concretize(v) for v in x]
    if isinstance(x, tuple):
        return tuple(concretize(v) for v in x)
    return to_float(x)


# ---------------------------------------------------------------------------------------------------- indexing


class _SymIdx:
    """Index with one symbolic integer (per axis); values are selected by nested choices."""

    def __init__(self, k, pos, arr):
        self.k, self.pos, self.arr = k, pos, arr

    def force(self):
        k = list(self.k)
        for p in self.pos:
            v = k[p]
            if isinstance(v, ND):
                k[p] = np.array([int(x) if not C.isnum(x) else C.ctx().enumerate_int(C.z(x)) for x in _flat(v)], dtype=int).reshape(v.shape)
            else:
                k[p] = C.ctx().enumerate_int(C.z(v))
        return tuple(k)

    def get(self, a):
        if len(self.pos) == 1 and not isinstance(self.k[self.pos[0]], ND) and C.ctx().merge_index:
            p = self.pos[0]
            i = self.k[p]
            n = a.shape[p]
            if n == 0:
                raise IndexError("index out of bounds")
            c = C.ctx()
            if c.branch(C.z3.Or(C.z(i) < -n, C.z(i) >= n)):
                raise IndexError("index out of bounds")
            e = C.z(i)
            k = list(self.k)
            res = None
            for j in range(n - 1, -1, -1):
                k[p] = j
                v = a[tuple(k)]
                res = v if res is None else IMPL["where"](C.mkb(C.z3.simplify(C.z3.Or(e == j, e == j - n))), v, res)
            return res
        k = self.force()
        return a[k]


def _is_intsym(x):
    return C.isnum(x)


def norm_index(k, a):
    """Turn an index that may contain symbolic parts into a numpy index or a _SymIdx."""
    if isinstance(k, (int, slice)) and not is_sym(k):
        return k
    ks = list(k) if isinstance(k, tuple) else [k]
    pos = []
    for i, x in enumerate(ks):
        if isinstance(x, tuple) and len(x) == 1:
            x = x[0]
            x = np.asarray(x.force() if isinstance(x, SymWhere) else x)
            ks[i] = x[None, ...] if True else x
            continue
        if isinstance(x, SymWhere):
            ks[i] = x.force()
        elif isinstance(x, SArr):
            if x.kind == "b":
                f = np.array([bool(v) for v in _flat(x)], dtype=bool).reshape(x.shape)
                ks[i] = f
            elif has_sym(x):
                pos.append(i)
            else:
                f = to_float(x)
                if f.size and not np.all(f == np.round(f)):
                    raise IndexError("arrays used as indices must be of integer (or boolean) type")
                ks[i] = f.astype(int)
        elif isinstance(x, ND) and x.dtype == object:
            ks[i] = np.array([bool(v) if kind_of(v) == "b" else C.ctx().enumerate_int(C.z(v)) for v in x.reshape(-1)]).reshape(x.shape)
        elif isinstance(x, list) and has_sym(x):
            ks[i] = SArr(x)
            pos.append(i)
        elif type(x) is C.SymBool:
            ks[i] = bool(x)
        elif C.isnum(x):
            pos.append(i)
        elif isinstance(x, (float, np.floating)) and not is_sym(x):
            raise IndexError("only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and integer or boolean arrays are valid indices")
        elif isinstance(x, slice):
            def f(v):
                return v if v is None or not C.isnum(v) else C.ctx().enumerate_int(C.z(v))
            ks[i] = slice(f(x.start), f(x.stop), f(x.step))
    if pos:
        return _SymIdx(ks, pos, a)
    return tuple(ks) if isinstance(k, tuple) else ks[0]


def _has_symwhere(k):
    for x in k if isinstance(k, tuple) else (k,):
        if isinstance(x, SymWhere) and x._idx is None or isinstance(x, tuple) and len(x) == 1 and isinstance(x[0], SymWhere) and x[0]._idx is None:
            return True
        if isinstance(x, SArr) and x.kind == "b":
            return True
    return False


def _masked_set(a, k, v):
    """a[mask] = scalar with a symbolic mask: merge instead of forking.  Returns False when that is not possible."""
    ks = list(k) if isinstance(k, tuple) else [k]
    for i, x in enumerate(ks):
        if isinstance(x, tuple) and len(x) == 1:
            ks[i] = x[0]
    v0 = v
    if isinstance(v0, ND):
        if v0.size != 1:
            return False
        v0 = v0.reshape(-1)[0]
    elif isinstance(v0, (list, tuple)):
        return False
    if C.nonfinite(v0) or v0 is None:
        return False
    v0 = _value(v0, a.kind)
    if len(ks) == 1 and isinstance(ks[0], SArr) and ks[0].kind == "b" and ks[0].ndim == a.ndim:
        m = ks[0]
        if m.shape != a.shape:
            return False
        af = a.view(ND)
        new = []
        for i, c in np.ndenumerate(m.view(ND)):
            if is_sym(c) and C.nonfinite(af[i]):
                return False
        for i, c in np.ndenumerate(m.view(ND)):
            new.append((i, C.ite(c, v0, af[i])))
        for i, x in new:
            af[i] = x
        return True
    masks = [i for i, x in enumerate(ks) if isinstance(x, SymWhere) or isinstance(x, SArr) and x.kind == "b" and x.ndim == 1]
    others = [x for i, x in enumerate(ks) if i not in masks]
    if len(masks) != 1 or any(not isinstance(x, (int, np.integer)) and x != slice(None) for x in others if not isinstance(x, ND)) or any(isinstance(x, ND) for x in others):
        return False
    if any(is_sym(x) for x in others):
        return False
    p = masks[0]
    m = ks[p].mask if isinstance(ks[p], SymWhere) else ks[p]
    af = a.view(ND)
    if len(m) != a.shape[p]:
        return False
    sel = []
    for j, c in enumerate(m):
        kk = list(ks)
        kk[p] = j
        cur = af[tuple(kk)]
        if isinstance(cur, ND):
            if is_sym(c) and any(C.nonfinite(x) for x in cur.reshape(-1)):
                return False
        elif is_sym(c) and C.nonfinite(cur):
            return False
        sel.append((tuple(kk), c, cur))
    for kk, c, cur in sel:
        if isinstance(cur, ND):
            n = np.empty(cur.shape, dtype=object)
            for i, x in np.ndenumerate(cur):
                n[i] = C.ite(c, v0, x)
            af[kk] = n
        else:
            af[kk] = C.ite(c, v0, cur)
    return True


# ---------------------------------------------------------------------------------------------------- ufuncs

_BIN = {
    "add": C.add, "subtract": C.sub, "multiply": C.mul, "divide": C.div, "true_divide": C.div, "floor_divide": C.floordiv,
    "remainder": C.mod, "mod": C.mod, "power": C.power, "float_power": C.power, "minimum": C.minimum, "maximum": C.maximum,
    "fmin": C.minimum, "fmax": C.maximum,
    "less": C.lt, "less_equal": C.le, "greater": C.gt, "greater_equal": C.ge, "equal": C.eq, "not_equal": C.ne,
    "logical_and": C.land, "logical_or": C.lor, "bitwise_and": C.land, "bitwise_or": C.lor,
    "copysign": lambda a, b: C.ite(C.ge(b, 0), C.absolute(a), -C.absolute(a)), "heaviside": lambda a, b: C.ite(C.lt(a, 0), np.float64(0.0), C.ite(C.eq(a, 0), b, np.float64(1.0))),
    "hypot": lambda a, b: C.sqrt(C.add(C.mul(a, a), C.mul(b, b))),
    "logical_xor": lambda a, b: C.ne(C.mkb(C.zb(a)), C.mkb(C.zb(b))), "bitwise_xor": lambda a, b: C.ne(C.mkb(C.zb(a)), C.mkb(C.zb(b))),
}
_BOOLRES = {"less", "less_equal", "greater", "greater_equal", "equal", "not_equal", "logical_and", "logical_or", "bitwise_and",
            "bitwise_or", "logical_not", "invert", "isinf", "isnan", "isfinite", "logical_xor", "bitwise_xor", "signbit"}
_UN = {
    "negative": lambda a: -a, "positive": lambda a: a, "absolute": C.absolute, "fabs": C.absolute, "abs": C.absolute,
    "square": lambda a: C.power(a, 2), "sqrt": C.sqrt, "exp": C.exp, "log": C.log, "sin": C.sin, "cos": C.cos, "tanh": C.tanh,
    "floor": C.floor, "ceil": C.ceil, "rint": C.rint, "trunc": C.trunc, "logical_not": C.lnot, "invert": C.lnot,
    "reciprocal": lambda a: C.div(1.0, a), "sign": lambda a: np.float64(C.sgn(a)),
    "isinf": lambda a: False if is_sym(a) else bool(np.isinf(a)), "isnan": lambda a: False if is_sym(a) else bool(np.isnan(a)),
    "isfinite": lambda a: True if is_sym(a) else bool(np.isfinite(a)),
    "conjugate": lambda a: a, "log1p": lambda a: C.log(C.add(1.0, a)), "expm1": lambda a: C.sub(C.exp(a), 1.0), "log2": lambda a: C.div(C.log(a), math.log(2)), "log10": lambda a: C.div(C.log(a), math.log(10)),
    "signbit": lambda a: C.lt(a, 0), "deg2rad": lambda a: C.mul(a, math.pi / 180), "radians": lambda a: C.mul(a, math.pi / 180),
}


def map1(f, a):
    if not isinstance(a, (ND, list, tuple)):
        return f(a)
    o = _obj(a)
    out = np.empty(o.shape, dtype=object)
    of, f2 = o.reshape(-1), out.reshape(-1)
    for i in range(of.size):
        f2[i] = f(of[i])
    return wrap(out)


def elementwise(f, *args):
    if not any(isinstance(a, (ND, list, tuple)) for a in args):
        return f(*args)
    os = [_obj(a) for a in args]
    bs = np.broadcast_arrays(*os)
    out = np.empty(bs[0].shape, dtype=object)
    fl = [b.reshape(-1) for b in bs]
    of = out.reshape(-1)
    with np.errstate(all="ignore"):
        for i in range(of.size):
            of[i] = f(*[x[i] for x in fl])
    return wrap(out)


def _shape_back(r, name):
    if isinstance(r, SArr):
        r.kind = "b" if name in _BOOLRES else "f"
        if r.ndim == 0:
            return r.view(ND)[()]
    return r


def ufunc_call(name, uf, ins):
    if not has_sym(ins):
        with np.errstate(all="ignore"):
            return to_sarr(uf(*[to_float(x) for x in ins]))
    if name in _BIN and len(ins) == 2:
        return _shape_back(elementwise(_BIN[name], *ins), name)
    if name in _UN and len(ins) == 1:
        return _shape_back(map1(_UN[name], ins[0]), name)
    if name == "matmul":
        return dot(*ins)
    C.ctx().incomplete.append("ufunc %s concretized" % name)
    return to_sarr(uf(*[concretize(x) for x in ins]))


def _axes(a, axis):
    """Iterate (output index, list of entries) of a reduction."""
    o = _obj(a)
    if axis is None:
        yield (), list(o.reshape(-1))
        return
    if isinstance(axis, tuple):
        o2 = np.moveaxis(o, axis, range(o.ndim - len(axis), o.ndim))
        o2 = o2.reshape(o2.shape[: o.ndim - len(axis)] + (-1,))
        for i in np.ndindex(*o2.shape[:-1]):
            yield i, list(o2[i])
        return
    o = np.moveaxis(o, axis, -1)
    for i in np.ndindex(*o.shape[:-1]):
        yield i, list(o[i])


def _reduced(a, axis, f, keepdims=False, boolres=False):
    o = _obj(a)
    if axis is None:
        r = f(list(o.reshape(-1)))
        if keepdims:
            out = np.empty((1,) * o.ndim, dtype=object)
            out[...] = r
            return wrap(out, "b" if boolres else "f")
        return r
    ax = axis if isinstance(axis, tuple) else (axis,)
    ax = tuple(x % o.ndim for x in ax)
    sh = tuple(n for i, n in enumerate(o.shape) if i not in ax)
    out = np.empty(sh, dtype=object)
    for i, xs in _axes(o, axis):
        out[i] = f(xs)
    if keepdims:
        out = out.reshape(tuple(1 if i in ax else n for i, n in enumerate(o.shape)))
    elif out.ndim == 0:
        return out[()]
    return wrap(out, "b" if boolres else "f")


_IDENT = {"add": np.float64(0.0), "multiply": np.float64(1.0), "logical_and": True, "logical_or": False}


def reduce_ufunc(name, a, axis=0, dtype=None, out=None, keepdims=False, initial=None, where=True, **kw):
    if initial is np._NoValue:
        initial = None
    if out is not None:
        o = out[0] if isinstance(out, tuple) else out
        r = reduce_ufunc(name, a, axis, keepdims=keepdims, initial=initial, where=where)
        o[...] = r
        return o
    if where is not True and where is not np._NoValue:
        e = {"add": 0.0, "multiply": 1.0, "logical_and": True, "logical_or": False}.get(name, initial)
        if e is None:
            raise ValueError("reduction operation '%s' does not have an identity, so to use a where mask one has to specify 'initial'" % name)
        a = IMPL["where"](np.broadcast_to(_obj(where), _obj(a).shape) if not has_sym(where) else wrap(np.broadcast_to(_obj(where), _obj(a).shape).copy(), "b"), a, e)
    keepdims = bool(keepdims) and keepdims is not np._NoValue
    if not has_sym(a) and not is_sym(initial):
        f = to_float(a)
        kws = {} if initial is None else {"initial": initial}
        u = getattr(np, name)
        with np.errstate(all="ignore"):
            return to_sarr(u.reduce(f, axis=axis, keepdims=keepdims, **kws))
    op = _BIN[name]

    def f(xs):
        if initial is not None:
            xs = [initial] + xs
        if not xs:
            if name in _IDENT:
                return _IDENT[name]
            raise ValueError("zero-size array to reduction operation %s which has no identity" % name)
        if name == "add":
            xs = [_num(x) for x in xs]
        if name in ("logical_and", "logical_or"):
            r = _IDENT[name]
        else:
            r, xs = xs[0], xs[1:]
        with np.errstate(all="ignore"):
            for x in xs:
                r = op(r, x)
        return r

    return _reduced(a, axis, f, keepdims, name in _BOOLRES)


def accumulate(name, a, axis=0, **kw):
    o = _obj(a).copy()
    op = _BIN[name]
    m = np.moveaxis(o, axis, 0)
    for i in range(1, m.shape[0]):
        m[i] = _obj(elementwise(op, m[i - 1], m[i])) if m.ndim > 1 else op(m[i - 1], m[i])
    return wrap(o)


# ---------------------------------------------------------------------------------------------------- functions


def _argmin_list(xs):
    """Index of the first minimum.  Merged into a symbolic index when allowed, otherwise forks."""
    if not xs:
        raise ValueError("attempt to get argmin of an empty sequence")
    if not has_sym(xs):
        return int(np.argmin(np.array([float(x) for x in xs])))
    for i, x in enumerate(xs):  # nan comes first
        if C.nonfinite(x) and math.isnan(x):
            return i
    best = 0
    c = C.ctx()
    if c.merge_index:
        bi, bv = 0, xs[0]
        for i in range(1, len(xs)):
            cond = C.lt(xs[i], bv)
            bi, bv = C.ite(cond, i, bi), C.ite(cond, xs[i], bv)
        return bi
    for i in range(1, len(xs)):
        if bool(C.lt(xs[i], xs[best])):
            best = i
    return best


def argmin(a, axis=None, keepdims=False, **kw):
    if keepdims is True:
        r = argmin(a, axis)
        return wrap(np.expand_dims(_obj(r), axis)) if axis is not None else wrap(_obj(r).reshape((1,) * _obj(a).ndim))
    if axis is None:
        return _argmin_list(list(_flat(a)))
    o = _obj(a)
    m = np.moveaxis(o, axis, -1)
    out = np.empty(m.shape[:-1], dtype=object)
    for i in np.ndindex(*m.shape[:-1]):
        out[i] = _argmin_list(list(m[i]))
    if has_sym(out):
        return wrap(out, "f")
    return out.astype(int)


def _sorted_idx(keys):
    """Stable order of a list of key tuples (least significant last), by insertion with forks."""
    idx = []
    for i in range(len(keys)):
        j = len(idx)
        while j > 0 and _less(keys[i], keys[idx[j - 1]]):
            j -= 1
        idx.insert(j, i)
    return np.array(idx, dtype=int)


def _less(a, b):
    for x, y in zip(a, b):
        if bool(C.lt(x, y)):
            return True
        if bool(C.lt(y, x)):
            return False
    return False


def argsort(a, axis=-1, **kw):
    o = _obj(a)
    if axis is None:
        o = o.reshape(-1)
        axis = -1
    m = np.moveaxis(o, axis, -1)
    out = np.empty(m.shape, dtype=int)
    for i in np.ndindex(*m.shape[:-1]):
        out[i] = _sorted_idx([(x,) for x in m[i]])
    return np.moveaxis(out, -1, axis)


def where(c, *xy, **kw):
    if not xy:
        if is_sym(c):
            c = SArr([c])
        if isinstance(c, (list, tuple)):
            c = SArr(c)
        if not has_sym(c):
            return np.nonzero(to_float(c))
        cc = c if c.kind == "b" else wrap(_obj(map1(lambda v: C.ne(v, 0), c)), "b")
        if cc.ndim == 1:
            return (SymWhere(list(_flat(cc))),)
        f = np.array([bool(v) for v in _flat(cc)], dtype=bool).reshape(cc.shape)
        return np.nonzero(f)
    x, y = xy
    if not any(isinstance(v, (ND, list, tuple)) for v in (c, x, y)):
        return C.ite(c, x, y)
    return elementwise(C.ite, c, x, y)


def dot(a, b, out=None):
    a, b = _obj(a), _obj(b)
    if not has_sym(a) and not has_sym(b):
        return to_sarr(np.dot(to_float(wrap(a, "f")), to_float(wrap(b, "f"))))
    if a.ndim == 0 or b.ndim == 0:
        return elementwise(C.mul, wrap(a), wrap(b))

    def ip(x, y):
        r = np.float64(0.0)
        for u, v in zip(x, y):
            r = C.add(r, C.mul(u, v))
        return r

    if a.shape[-1] != b.shape[-2 if b.ndim > 1 else 0]:
        raise ValueError("shapes %s and %s not aligned" % (a.shape, b.shape))
    if a.ndim == 1 and b.ndim == 1:
        return ip(a, b)
    if a.ndim == 1:
        return SArr([ip(a, b[:, j]) for j in range(b.shape[1])], "f")
    if b.ndim == 1:
        return SArr([ip(a[i], b) for i in range(a.shape[0])], "f")
    out = np.empty((a.shape[0], b.shape[1]), dtype=object)
    for i in range(a.shape[0]):
        for j in range(b.shape[1]):
            out[i, j] = ip(a[i], b[:, j])
    return wrap(out, "f")


def _concat(xs, axis=0, **kw):
    os = [_obj(x) for x in xs]
    kinds = [getattr(x, "kind", None) or ("b" if isinstance(x, ND) and x.dtype == bool else "f") for x in xs]
    return wrap(np.concatenate(os, axis=axis), "b" if all(k == "b" for k in kinds) else "f")


def _atleast(n):
    def f(*xs):
        r = []
        for x in xs:
            o = _obj(x)
            k = getattr(x, "kind", None)
            if o.ndim < n:
                o = o.reshape((1,) * (n - o.ndim) + o.shape)
            r.append(wrap(o, k) if o.dtype == object else o)
        return r[0] if len(r) == 1 else tuple(r)

    return f


def vstack(xs, **kw):
    return _concat([_atleast(2)(x) for x in xs], 0)


def hstack(xs, **kw):
    xs = [_atleast(1)(x) for x in xs]
    return _concat(xs, 0 if _obj(xs[0]).ndim == 1 else 1)


def array(x, dtype=None, copy=True, ndmin=0, **kw):
    o = _obj(x)
    o = o.copy() if copy else o
    if o.ndim < ndmin:
        o = o.reshape((1,) * (ndmin - o.ndim) + o.shape)
    k = getattr(x, "kind", None)
    r = wrap(o, k)
    d = _np_dtype(dtype)
    if d is not None and np.dtype(d).kind in "iub" and d is not object:
        return r.astype(d)
    return r


def delete(a, obj, axis=None):
    o = _obj(a)
    if isinstance(obj, SymWhere):
        obj = obj.force()
    if isinstance(obj, SArr):
        obj = norm_index(obj, a)
    if is_sym(obj):
        obj = obj.__index__()
    return wrap(np.delete(o, obj, axis=axis), getattr(a, "kind", "f"))


def array_equal(a, b, **kw):
    try:
        oa, ob = _obj(a), _obj(b)
    except Exception:
        return False
    if oa.shape != ob.shape:
        return False
    if any(v is None for v in oa.reshape(-1)) or any(v is None for v in ob.reshape(-1)):
        return False
    r = True
    for x, y in zip(oa.reshape(-1), ob.reshape(-1)):
        r = C.land(r, C.eq(x, y))
    return r


def _quantile(scale, nan=False):
    def g(a, q, axis=None, out=None, overwrite_input=False, method="linear", keepdims=False, **kw):
        if method not in ("linear", "lower", "higher", "nearest", "midpoint"):
            raise EngineLimit("quantile method")
        qs = to_float(q) if isinstance(q, (SArr,)) else q
        if np.ndim(qs):
            return wrap(np.stack([_obj(g(a, v, axis, method=method, keepdims=keepdims)) for v in np.ravel(qs)]), "f")

        def f(xs):
            if nan:
                xs = [x for x in xs if not (C.nonfinite(x) and math.isnan(x))]
            if not has_sym(xs):
                return np.float64(np.quantile([float(x) for x in xs], float(qs) / scale, method=method))
            i = [xs[j] for j in _sorted_idx([(x,) for x in xs])]
            h = float(qs) / scale * (len(i) - 1)
            lo, hi = int(math.floor(h)), int(math.ceil(h))
            if method == "lower" or lo == hi:
                return i[lo]
            if method == "higher":
                return i[hi]
            if method == "nearest":
                return i[int(np.rint(h))]
            t = 0.5 if method == "midpoint" else h - lo
            return C.add(i[lo], C.mul(t, C.sub(i[hi], i[lo])))

        return _reduced(a, axis, f, keepdims)

    return g


def _nan_red(name):
    """nanmin, nanmax, nansum, nanmean, ... : symbolic entries are numbers, NaN is concrete."""
    def f(a, axis=None, out=None, keepdims=False, **kw):
        def g(xs):
            ys = [x for x in xs if not (C.nonfinite(x) and math.isnan(x))]
            if not ys:
                return np.float64(0.0 if name == "sum" else "nan")
            return IMPL[name](SArr(ys, "f"))

        return _reduced(a, axis, g, bool(keepdims) and keepdims is not np._NoValue)

    return f


def _nan_arg(neg):
    def f(a, axis=None, **kw):
        def fix(x):
            if C.nonfinite(x) and math.isnan(x):
                return np.float64("inf")
            return C.neg(x) if neg and hasattr(C, "neg") else (-x if neg else x)

        return argmin(map1(fix, a), axis)

    return f


def _nan_num(a, copy=True, nan=0.0, posinf=None, neginf=None):
    big = np.finfo(float).max

    def f(x):
        if C.nonfinite(x):
            if math.isnan(x):
                return np.float64(nan)
            return np.float64((big if posinf is None else posinf) if x > 0 else (-big if neginf is None else neginf))
        return x

    r = map1(f, a)
    if not copy and isinstance(a, SArr):
        a[...] = r
        return a
    return r


def _compress(c, a, axis=None, out=None):
    a = a if isinstance(a, SArr) else SArr(a)
    i = np.array([j for j, v in enumerate(_flat(c)) if bool(v)], dtype=int)
    return a.reshape(-1)[i] if axis is None else wrap(np.take(_obj(a), i, axis=axis), a.kind)


def _take_along(a, i, axis=-1):
    if has_sym(i):
        raise EngineLimit("take_along_axis with a symbolic index")
    a = a if isinstance(a, SArr) else SArr(a)
    return wrap(np.take_along_axis(_obj(a), np.asarray(to_float(i)).astype(int), axis), a.kind)


def _searchsorted(a, v, side="left", sorter=None):
    if sorter is not None:
        a = SArr(a)[sorter]
    xs = list(_flat(a))

    def f(y):
        r = 0
        for x in xs:
            r = C.add(r, C.ite(C.lt(x, y) if side == "left" else C.le(x, y), 1, 0))
        return r

    return map1(f, v) if isinstance(v, (ND, list, tuple)) else f(v)


def _average(a, axis=None, weights=None, returned=False, keepdims=False, **kw):
    a = a if isinstance(a, SArr) else SArr(a)
    if weights is None:
        return a.mean(axis=axis)
    w = SArr(weights)
    if w.shape != a.shape:
        sh = [1] * a.ndim
        sh[axis] = w.size
        w = wrap(np.broadcast_to(_obj(w).reshape(sh), a.shape).copy(), "f")
    return (a * w).sum(axis=axis) / w.sum(axis=axis)


def _cum(name):
    def f(a, axis=None, **kw):
        return accumulate(name, wrap(_obj(a).reshape(-1)) if axis is None else a, 0 if axis is None else axis)

    return f


def _diff(a, n=1, axis=-1, prepend=np._NoValue, append=np._NoValue):
    o = np.moveaxis(_obj(a), axis, -1)
    parts = [o]
    for p, first in ((prepend, True), (append, False)):
        if p is not np._NoValue:
            q = _obj(p)
            q = np.broadcast_to(q, o.shape[:-1] + (1,)) if q.ndim == 0 else np.moveaxis(q, axis, -1)
            parts = [q] + parts if first else parts + [q]
    o = np.concatenate(parts, axis=-1) if len(parts) > 1 else o
    for _ in range(n):
        o = _obj(elementwise(C.sub, o[..., 1:], o[..., :-1]))
    return wrap(np.moveaxis(o, -1, axis))


def _argwhere(a):
    o = _obj(a)
    if o.ndim == 1:
        return np.array(where(a)[0]).reshape(-1, 1)
    f = np.array([bool(v) if not C.is_sym(v) or kind_of(v) == "b" else bool(C.ne(v, 0)) for v in o.reshape(-1)], dtype=bool).reshape(o.shape)
    return np.argwhere(f)


def _setdiff(a, b, **kw):
    bs = list(_flat(b))
    return SArr([x for x in unique(a) if not any(bool(C.eq(x, y)) for y in bs)], "f")


def _hypot(a, b):
    return elementwise(lambda x, y: C.sqrt(C.add(C.mul(x, x), C.mul(y, y))), a, b)


def _ptp(a, axis=None, **k):
    return _red("maximum")(a, axis, keepdims=k.get("keepdims", False)) - _red("minimum")(a, axis, keepdims=k.get("keepdims", False))


def _apply(f, axis, a, *args, **kw):
    m = np.moveaxis(_obj(a), axis, -1)
    rows = {i: f(wrap(m[i].copy(), getattr(a, "kind", None)), *args, **kw) for i in np.ndindex(*m.shape[:-1])}
    r0 = _obj(next(iter(rows.values())))
    out = np.empty(m.shape[:-1] + r0.shape, dtype=object)
    for i, r in rows.items():
        out[i] = _obj(r) if r0.shape else _obj(r)[()]
    return wrap(out if not r0.shape else np.moveaxis(out, -1, axis) if r0.ndim == 1 else out)


def _select(conds, vals, default=0):
    r = default
    for c, v in reversed(list(zip(conds, vals))):
        r = where(c, v, r)
    return r


def _roll(a, shift, axis=None):
    return wrap(np.roll(_obj(a), shift, axis), getattr(a, "kind", None))


def median(a, axis=None, keepdims=False, **kw):
    keepdims = bool(keepdims) and keepdims is not np._NoValue

    def f(xs):
        if not has_sym(xs):
            return np.float64(np.median([float(x) for x in xs]))
        i = [xs[j] for j in _sorted_idx([(x,) for x in xs])]
        n = len(i)
        return i[n // 2] if n % 2 else C.div(C.add(i[n // 2 - 1], i[n // 2]), 2.0)

    return _reduced(a, axis, f, keepdims)


def std(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **kw):
    keepdims = bool(keepdims) and keepdims is not np._NoValue

    def f(xs):
        n = len(xs)
        m = np.float64(0.0)
        for x in xs:
            m = C.add(m, x)
        m = C.div(m, float(n))
        s = np.float64(0.0)
        for x in xs:
            d = C.sub(x, m)
            s = C.add(s, C.mul(d, d))
        return C.sqrt(C.div(s, float(n - ddof)))

    return _reduced(a, axis, f, keepdims)


def var(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **kw):
    keepdims = bool(keepdims) and keepdims is not np._NoValue

    def f(xs):
        m = C.div(_flat_sum(xs), float(len(xs)))
        return C.div(_flat_sum([C.mul(C.sub(x, m), C.sub(x, m)) for x in xs]), float(len(xs) - ddof))

    return _reduced(a, axis, f, keepdims)


def _flat_sum(xs):
    s = np.float64(0.0)
    for x in xs:
        s = C.add(s, x)
    return s


def sort(a, axis=-1, **kw):
    o = _obj(a)
    if axis is None:
        o, axis = o.reshape(-1), -1
    m = np.moveaxis(o, axis, -1)
    out = np.empty(m.shape, dtype=object)
    for i in np.ndindex(*m.shape[:-1]):
        out[i] = m[i][_sorted_idx([(x,) for x in m[i]])]
    return wrap(np.moveaxis(out, -1, axis), "f")


def lexsort(keys, axis=-1):
    ks = [list(_flat(k)) for k in keys]
    n = len(ks[0])
    return _sorted_idx([tuple(k[i] for k in reversed(ks)) for i in range(n)])


def unique(a, **kw):
    if kw:
        raise EngineLimit("np.unique with options")
    out = []
    for x in sort(wrap(_obj(a).reshape(-1), "f")):
        if not out or not bool(C.eq(out[-1], x)):
            out.append(x)
    return SArr(out, "f")


def intersect1d(a, b, **kw):
    return SArr([x for x in unique(a) if any(bool(C.eq(x, y)) for y in _flat(b))], "f")


def union1d(a, b):
    return unique(_concat([_atleast(1)(a).reshape(-1), _atleast(1)(b).reshape(-1)]))


def isin(a, b, **kw):
    bs = list(_flat(b))

    def f(x):
        r = False
        for y in bs:
            r = C.lor(r, C.eq(x, y))
        return r

    return _shape_back(map1(f, a), "equal")


def norm(x, ord=None, axis=None, keepdims=False):
    if ord not in (None, 2):
        raise EngineLimit("norm ord")

    def f(xs):
        if len(xs) == 1:
            return C.absolute(xs[0])
        s = np.float64(0.0)
        for v in xs:
            s = C.add(s, C.power(v, 2))
        return C.sqrt(s)

    return _reduced(x, axis, f, keepdims)


def _euclid(x, y):
    if len(x) == 1:
        return C.absolute(C.sub(x[0], y[0]))
    s = np.float64(0.0)
    for u, v in zip(x, y):
        d = C.sub(u, v)
        s = C.add(s, C.mul(d, d))
    if not is_sym(s):
        return np.float64(math.sqrt(s))
    return C.mksqrt(C.z3.simplify(C.zr(s)))


def cdist(a, b, metric="euclidean", **kw):
    if metric != "euclidean":
        raise EngineLimit("cdist metric")
    a, b = _obj(a), _obj(b)
    if a.ndim != 2:
        raise ValueError("XA must be a 2-dimensional array.")
    if b.ndim != 2:
        raise ValueError("XB must be a 2-dimensional array.")
    if a.shape[1] != b.shape[1]:
        raise ValueError("XA and XB must have the same number of columns (i.e. feature dimension.)")
    out = np.empty((a.shape[0], b.shape[0]), dtype=object)
    for i in range(a.shape[0]):
        for j in range(b.shape[0]):
            out[i, j] = _euclid(a[i], b[j])
    return wrap(out, "f")


def euclidean(u, v, w=None):
    return _euclid(list(_flat(u)), list(_flat(v)))


def solve_triangular(a, b, trans=0, lower=False, unit_diagonal=False, **kw):
    if not has_sym(a):  # a known matrix: its (rounded) inverse times an arbitrary right-hand side
        a = to_float(a)
        T = scipy.linalg.solve_triangular(a, np.eye(len(a)), trans=trans, lower=lower, unit_diagonal=unit_diagonal)
        B = _obj(b)
        X = np.empty((len(a), B.size // len(a)), dtype=object)
        for j, col in enumerate(B.reshape(len(a), -1).T):
            for i in range(len(a)):
                s = np.float64(0.0)
                for k in range(len(a)):
                    if T[i, k]:
                        s = C.add(s, C.mul(T[i, k], col[k]))
                X[i, j] = s
        return wrap(X.reshape(B.shape), "f")
    A = _obj(a)
    if trans in (1, "T", 2, "C"):
        A, lower = A.T, not lower
    B = _obj(b)
    vec = B.ndim == 1
    B = B.reshape(B.shape[0], -1)
    n = A.shape[0]
    X = np.empty(B.shape, dtype=object)
    for j in range(B.shape[1]):
        for i in range(n) if lower else range(n - 1, -1, -1):
            s = B[i, j]
            for k in range(i) if lower else range(i + 1, n):
                s = C.sub(s, C.mul(A[i, k], X[k, j]))
            X[i, j] = s if unit_diagonal else C.div(s, A[i, i])
    return wrap(X.reshape(-1) if vec else X, "f")


def round_(a, decimals=0, out=None):
    if decimals:
        raise EngineLimit("round with decimals")
    return map1(C.rint, a)


def copy_(a, **kw):
    return wrap(_obj(a).copy(), getattr(a, "kind", None))


def array_str(a, *args, **kw):
    return "<array>"


def expand_dims(a, axis):
    return wrap(np.expand_dims(_obj(a), axis), getattr(a, "kind", None))


def squeeze(a, axis=None):
    return wrap(np.squeeze(_obj(a), axis=axis), getattr(a, "kind", None))


def ravel(a, **kw):
    return wrap(_obj(a).reshape(-1), getattr(a, "kind", None))


def reshape(a, shape=None, newshape=None, **kw):
    s = shape if shape is not None else newshape
    return wrap(_obj(a).reshape(s), getattr(a, "kind", None))


def transpose(a, axes=None):
    return wrap(_obj(a).transpose(axes) if axes is not None else _obj(a).T, getattr(a, "kind", None))


def _tri(upper):
    def f(m, k=0):
        o = _obj(m).copy()
        for i in range(o.shape[0]):
            for j in range(o.shape[1]):
                if (j < i + k) if upper else (j > i + k):
                    o[i, j] = np.float64(0.0)
        return wrap(o, "f")

    return f


def fill_diagonal(a, val, **kw):
    for i in range(min(a.shape)):
        a[i, i] = val


def tile(a, reps):
    return wrap(np.tile(_obj(a), reps), getattr(a, "kind", None))


def repeat(a, repeats, axis=None):
    return wrap(np.repeat(_obj(a), repeats, axis), getattr(a, "kind", None))


def _red(name, default_axis=None):
    def f(a, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=True, **kw):
        return reduce_ufunc(name, a if isinstance(a, ND) else SArr(a), axis=axis, keepdims=keepdims, initial=initial, where=where)

    return f


def broadcast_to(a, shape, **kw):
    return wrap(np.broadcast_to(_obj(a), shape).copy(), getattr(a, "kind", None))


def append(a, v, axis=None):
    if axis is None:
        return _concat([ravel(a), ravel(v)])
    return _concat([a, v], axis)


def take(a, i, axis=None, **kw):
    a = a if isinstance(a, SArr) else SArr(a)
    return a.reshape(-1)[i] if axis is None else np.moveaxis(np.moveaxis(a, axis, 0)[i], 0, axis)


def allclose(a, b, rtol=1e-5, atol=1e-8, **kw):
    r = True
    for x, y in zip(*[v.reshape(-1) for v in np.broadcast_arrays(_obj(a), _obj(b))]):
        r = C.land(r, C.le(C.absolute(C.sub(x, y)), C.add(atol, C.mul(rtol, C.absolute(y)))))
    return r


def clip(a, lo=None, hi=None, **kw):
    lo = kw.get("a_min", kw.get("min", lo))
    hi = kw.get("a_max", kw.get("max", hi))
    if lo is not None:
        a = elementwise(C.maximum, a, lo)
    if hi is not None:
        a = elementwise(C.minimum, a, hi)
    return a


def outer(a, b):
    a, b = _obj(a).reshape(-1, 1), _obj(b).reshape(1, -1)
    return elementwise(C.mul, wrap(a), wrap(b))


def count_nonzero(a, axis=None, **kw):
    def f(xs):
        r = 0
        for x in xs:
            r = C.add(r, C.ite(C.mkb(C.zb(x)) if is_sym(x) else bool(x), 1, 0))
        return r

    return _reduced(a, axis, f)


IMPL = dict(
    vstack=vstack, hstack=hstack, concatenate=lambda xs, axis=0, **k: _concat(xs, axis), row_stack=vstack,
    column_stack=lambda xs: _concat([x.reshape(-1, 1) if x.ndim == 1 else x for x in map(_atleast(1), xs)], 1),
    stack=lambda xs, axis=0, **k: _concat([expand_dims(x, axis) for x in xs], axis), append=append,
    atleast_1d=_atleast(1), atleast_2d=_atleast(2), array=array, asarray=lambda x, dtype=None, **k: array(x, dtype, copy=False),
    asanyarray=lambda x, dtype=None, **k: array(x, dtype, copy=False), asfarray=lambda x, **k: array(x, copy=False),
    ascontiguousarray=lambda x, dtype=None, **k: array(x, dtype, copy=False),
    copy=copy_, ravel=ravel, reshape=reshape, transpose=transpose, expand_dims=expand_dims, squeeze=squeeze,
    tile=tile, repeat=repeat, broadcast_to=broadcast_to, take=take,
    sum=_red("add"), prod=_red("multiply"), min=_red("minimum"), max=_red("maximum"), amin=_red("minimum"), amax=_red("maximum"),
    nanmin=_nan_red("min"), nanmax=_nan_red("max"), nansum=_nan_red("sum"), nanmean=_nan_red("mean"), nanmedian=_nan_red("median"), nanstd=_nan_red("std"), nanvar=_nan_red("var"),
    nanargmin=_nan_arg(False), nanargmax=_nan_arg(True), quantile=_quantile(1.0), percentile=_quantile(100.0), nanquantile=_quantile(1.0, True), nanpercentile=_quantile(100.0, True),
    partition=lambda a, kth, axis=-1, **k: sort(a, axis), argpartition=lambda a, kth, axis=-1, **k: argsort(a, axis), compress=_compress, extract=lambda c, a: _compress(ravel(c), ravel(a)),
    take_along_axis=_take_along, searchsorted=_searchsorted, setdiff1d=_setdiff, roll=_roll, apply_along_axis=_apply, select=_select, hypot=_hypot, ediff1d=lambda a, **k: _diff(ravel(a)),
    cumprod=_cum("multiply"), dstack=lambda xs: _concat([wrap(_obj(_atleast(2)(x))[..., None] if _obj(x).ndim < 3 else _obj(x)) for x in xs], 2),
    fmin=lambda a, b, **k: IMPL["minimum"](a, b), fmax=lambda a, b, **k: IMPL["maximum"](a, b), diagonal=lambda a, offset=0, **k: wrap(np.diagonal(_obj(a), offset).copy(), "f"),
    diag=lambda v, k=0: wrap(np.diagonal(_obj(v), k).copy(), "f") if _obj(v).ndim == 2 else _diag(v, k), trace=lambda a, **k: _flat_sum(list(np.diagonal(_obj(a)))),
    array_split=lambda a, n, axis=0: [wrap(x, getattr(a, "kind", None)) for x in np.array_split(_obj(a), n, axis)],
    einsum=lambda sub, *xs, **k: wrap(np.asarray(np.einsum(sub, *[_obj(x) for x in xs]), dtype=object), "f"),
    fliplr=lambda a: wrap(np.fliplr(_obj(a)), getattr(a, "kind", None)), flipud=lambda a: wrap(np.flipud(_obj(a)), getattr(a, "kind", None)),
    all=_red("logical_and"), any=_red("logical_or"), mean=lambda a, axis=None, **k: (a if isinstance(a, SArr) else SArr(a)).mean(axis=axis, **k),
    average=_average,
    std=std, var=var, median=median, sort=sort, argsort=argsort, lexsort=lexsort, unique=unique, intersect1d=intersect1d,
    union1d=union1d, isin=isin, in1d=isin, argmin=argmin, argmax=lambda a, axis=None, keepdims=False, **k: argmin(map1(lambda x: -x, a), axis, keepdims=keepdims),
    where=where, nonzero=lambda a: where(a), flatnonzero=lambda a: where(ravel(a))[0], argwhere=_argwhere,
    dot=dot, matmul=dot, inner=lambda a, b: dot(a, transpose(b)), vdot=dot, outer=outer, delete=delete, array_equal=array_equal, allclose=allclose,
    round=round_, around=round_, round_=round_, rint=round_, clip=clip, array_str=array_str, array2string=array_str, array_repr=array_str,
    diff=_diff, tril=_tri(False), triu=_tri(True), fill_diagonal=fill_diagonal, count_nonzero=count_nonzero,
    isclose=lambda a, b, rtol=1e-5, atol=1e-8, **k: elementwise(
        lambda x, y: C.le(C.absolute(C.sub(x, y)), C.add(atol, C.mul(rtol, C.absolute(y)))), a, b),
    shape=lambda a: _obj(a).shape, ndim=lambda a: _obj(a).ndim, size=lambda a, axis=None: _obj(a).size if axis is None else _obj(a).shape[axis],
    cumsum=_cum("add"),
    isscalar=lambda a: not isinstance(a, ND), flip=lambda a, axis=None: wrap(np.flip(_obj(a), axis), getattr(a, "kind", None)),
    ptp=_ptp,
    zeros_like=lambda a, dtype=None, **k: full(_obj(a).shape, 0.0), ones_like=lambda a, dtype=None, **k: full(_obj(a).shape, 1.0),
    empty_like=lambda a, dtype=None, **k: full(_obj(a).shape, 0.0), full_like=lambda a, v, **k: full(_obj(a).shape, v),
    moveaxis=lambda a, s, d: wrap(np.moveaxis(_obj(a), s, d), getattr(a, "kind", None)),
    swapaxes=lambda a, s, d: wrap(np.swapaxes(_obj(a), s, d), getattr(a, "kind", None)),
    insert=lambda a, i, v, axis=None: wrap(np.insert(_obj(a), i, _obj(v), axis)),
    split=lambda a, n, axis=0: [wrap(x, getattr(a, "kind", None)) for x in np.split(_obj(a), n, axis)],
    putmask=lambda a, m, v: a.__setitem__(m, v), copyto=lambda a, v, **k: a.__setitem__(Ellipsis, v),
    cdist=cdist, euclidean=euclidean, norm=norm, solve_triangular=solve_triangular,
    absolute=lambda a: map1(C.absolute, a),
    cbrt=lambda a: map1(lambda x: C.uf("cbrt", x), a),
    nan_to_num=_nan_num, iscomplexobj=lambda a: False, isrealobj=lambda a: True,
)
for _n, _f in _BIN.items():
    IMPL.setdefault(_n, (lambda f, n: lambda a, b, **k: _shape_back(elementwise(f, a, b), n))(_f, _n))
for _n, _f in _UN.items():
    IMPL.setdefault(_n, (lambda f, n: lambda a, **k: _shape_back(map1(f, a), n))(_f, _n))


def _diag(v, k=0):
    n = _obj(v).size + abs(k)
    a = full((n, n), 0.0)
    for i, x in enumerate(_flat(v)):
        a[i - min(k, 0), i + max(k, 0)] = x
    return a


def full(shape, v, **kw):
    a = np.empty(shape, dtype=object)
    f = a.reshape(-1)
    v = _num(v)
    for i in range(f.size):
        f[i] = v
    return wrap(a, "f")


ALWAYS = {"array_str", "array2string"}


def call_np(func, args, kwargs, name=None):
    """Call a numpy function with arguments that may contain SArr."""
    name = name or func.__name__
    sym = has_sym(list(args)) or has_sym(list(kwargs.values()))
    if sym and name in IMPL:
        out = kwargs.pop("out", None)
        r = IMPL[name](*args, **kwargs)
        if out is not None:
            out[...] = r
            return out
        return r
    if not sym:
        out = kwargs.get("out")
        if isinstance(out, SArr):
            kwargs = dict(kwargs)
            kwargs.pop("out")
            out[...] = call_np(func, args, kwargs, name)
            return out
        if name in ("fill_diagonal", "putmask", "copyto"):
            return IMPL[name](*args, **kwargs)
        alias = name in ("asarray", "atleast_1d", "atleast_2d", "ravel", "reshape", "transpose", "squeeze", "expand_dims", "asanyarray", "ascontiguousarray", "broadcast_to", "split", "moveaxis", "swapaxes", "flip")
        if alias and any(isinstance(a, SArr) for a in args) and name in IMPL:  # keep views
            return IMPL[name](*args, **kwargs)
        r = func(*[to_float(a) for a in args], **{k: to_float(v) for k, v in kwargs.items()})
        if isinstance(r, tuple):
            return tuple(to_sarr(x) for x in r)
        if isinstance(r, list):
            return [to_sarr(x) for x in r]
        return to_sarr(r)
    C.ctx().stats["concretized"] += 1
    C.ctx().incomplete.append("numpy function %s concretized" % name)
    r = func(*[concretize(a) for a in args], **{k: concretize(v) for k, v in kwargs.items()})
    return to_sarr(r)
