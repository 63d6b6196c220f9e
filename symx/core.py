"""Symbolic values and path exploration.

The code under test is executed by the ordinary CPython interpreter; inputs are `Num`/`SymBool` objects that wrap z3
terms.  Every truth test of a symbolic value is a branch: the solver is asked which sides are feasible and the
explorer re-executes the harness once per feasible path.
"""
import math
import sys
import time
from fractions import Fraction

sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import numpy as np  # noqa: E402
import z3  # noqa: E402

z3.set_param("smt.random_seed", 1)
z3.set_param("sat.random_seed", 1)
z3.set_param("nlsat.seed", 1)

CTX = None  # the current path
INF = float("inf")


class PathAbort(BaseException):
    """The current path is over (infeasible assumption or a violation was found)."""


class EngineLimit(BaseException):
    """Something that cannot be encoded; the path is abandoned and counted."""


def ctx():
    if CTX is None:
        raise EngineLimit("symbolic value used outside a path")
    if CTX.aborted:
        raise PathAbort()
    return CTX


# ---------------------------------------------------------------------------------------------------- conversions

_REPR_CACHE = {}


def frac(x):
    """The rational number a float constant stands for.  Short decimals denote the decimal number; a float within one
    ulp of a rational with a small denominator denotes that rational; everything else is its exact binary value."""
    x = float(x)
    f = _REPR_CACHE.get(x)
    if f is None:
        r = repr(x)
        if len(r) <= 10:
            f = Fraction(r)
        else:
            f = Fraction(x).limit_denominator(10 ** 6)
            if abs(float(f) - x) > 2.3e-16 * abs(x):
                f = Fraction(x)
        _REPR_CACHE[x] = f
    return f


def is_sym(x):
    t = type(x)
    return t is Num or t is SqrtNum or t is SymBool


def isnum(x):
    t = type(x)
    return t is Num or t is SqrtNum


def nonfinite(x):
    return isinstance(x, (float, np.floating)) and not is_sym(x) and not math.isfinite(x)


def z(x):
    """z3 term of a finite scalar."""
    t = type(x)
    if t is Num or t is SqrtNum:
        return x.e
    if t is SymBool:
        return z3.If(x.b, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, (bool, np.bool_)):
        return z3.IntVal(int(x))
    if isinstance(x, (int, np.integer)):
        return z3.IntVal(int(x))
    if isinstance(x, (float, np.floating)):
        f = frac(x)
        return z3.Q(f.numerator, f.denominator) if f.denominator != 1 else z3.RealVal(f.numerator)
    if isinstance(x, Fraction):
        return z3.Q(x.numerator, x.denominator)
    if isinstance(x, np.ndarray) and x.size == 1:
        return z(x.reshape(-1)[0])
    raise EngineLimit("no term for %r" % type(x))


def zr(x):
    e = z(x)
    return z3.ToReal(e) if e.is_int() else e


def zb(x):
    if type(x) is SymBool:
        return x.b
    if isinstance(x, (bool, np.bool_)):
        return z3.BoolVal(bool(x))
    if isnum(x):
        return x.e != 0
    if isinstance(x, (int, float, np.number)):
        return z3.BoolVal(bool(x))
    if isinstance(x, np.ndarray) and x.size == 1:
        return zb(x.reshape(-1)[0])
    if z3.is_expr(x):
        return x
    raise EngineLimit("no condition for %r" % type(x))


def mk(e):
    """Wrap a term, folding constants to python numbers."""
    if z3.is_int_value(e):
        return int(e.as_long())
    if z3.is_rational_value(e):
        return np.float64(Fraction(e.numerator_as_long(), e.denominator_as_long()))
    return Num(e)


def mkb(b):
    if z3.is_true(b):
        return True
    if z3.is_false(b):
        return False
    return SymBool(b)


def _cmp_consts(a, b):
    return a, b


# ---------------------------------------------------------------------------------------------------- booleans


class SymBool:
    __slots__ = ("b",)
    __array_ufunc__ = None

    def __init__(self, b):
        self.b = b

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        return ctx().branch(self.b)

    def __and__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        return mkb(z3.simplify(z3.And(self.b, zb(o))))

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        return mkb(z3.simplify(z3.Or(self.b, zb(o))))

    __ror__ = __or__

    def __xor__(self, o):
        return mkb(z3.simplify(z3.Xor(self.b, zb(o))))

    __rxor__ = __xor__

    def __invert__(self):
        return mkb(z3.Not(self.b))

    def __eq__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        if type(o) is SymBool or isinstance(o, (bool, np.bool_)):
            return mkb(z3.simplify(self.b == zb(o)))
        return self._num() == o

    def __ne__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        if type(o) is SymBool or isinstance(o, (bool, np.bool_)):
            return mkb(z3.simplify(self.b != zb(o)))
        return self._num() != o

    def __hash__(self):
        return hash(self.b)

    def _num(self):
        return Num(z3.If(self.b, z3.IntVal(1), z3.IntVal(0)))

    def __add__(self, o):
        return self._num() + o

    def __radd__(self, o):
        return o + self._num()

    def __sub__(self, o):
        return self._num() - o

    def __rsub__(self, o):
        return o - self._num()

    def __mul__(self, o):
        if nonfinite(o):
            return o if bool(self) else (o * 0)
        if isinstance(o, np.ndarray):
            return NotImplemented
        if isnum(o) or isinstance(o, (float, np.floating)):
            return mk(z3.If(self.b, zr(o), z3.RealVal(0)))
        return self._num() * o

    __rmul__ = __mul__

    def __lt__(self, o):
        return self._num() < o

    def __le__(self, o):
        return self._num() <= o

    def __gt__(self, o):
        return self._num() > o

    def __ge__(self, o):
        return self._num() >= o

    def __index__(self):
        return int(bool(self))

    __int__ = __index__

    def __float__(self):
        return float(bool(self))

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        raise EngineLimit("pickling a symbolic value")

    def all(self, *a, **k):
        return self

    def any(self, *a, **k):
        return self

    def __repr__(self):
        return "<sym bool>"


# ---------------------------------------------------------------------------------------------------- numbers


class Num:
    __slots__ = ("_e",)
    __array_ufunc__ = None

    def __init__(self, e):
        self._e = e

    @property
    def e(self):
        return self._e

    @property
    def __class__(self):
        return int if self._e.is_int() else float

    # numpy-scalar like attributes
    shape = ()
    ndim = 0
    size = 1

    @property
    def T(self):
        return self

    def min(self, *a, **k):
        return self

    max = copy = item = ravel = squeeze = sum = min

    def all(self, *a, **k):
        return mkb(self.e != 0)

    any = all

    def astype(self, *a, **k):
        return self

    # arithmetic
    def _bin(self, o, op, refl=False):
        if isinstance(o, np.ndarray) and not is_sym(o):
            from . import arr

            return arr.elementwise(op, o, self) if refl else arr.elementwise(op, self, o)
        return NotImplemented if not _scalar(o) else (op(o, self) if refl else op(self, o))

    def __add__(self, o):
        return self._bin(o, add)

    def __radd__(self, o):
        return self._bin(o, add, True)

    def __sub__(self, o):
        return self._bin(o, sub)

    def __rsub__(self, o):
        return self._bin(o, sub, True)

    def __mul__(self, o):
        return self._bin(o, mul)

    def __rmul__(self, o):
        return self._bin(o, mul, True)

    def __truediv__(self, o):
        return self._bin(o, pydiv)

    def __rtruediv__(self, o):
        return self._bin(o, pydiv, True)

    def __floordiv__(self, o):
        return self._bin(o, floordiv)

    def __rfloordiv__(self, o):
        return self._bin(o, floordiv, True)

    def __mod__(self, o):
        return self._bin(o, mod)

    def __rmod__(self, o):
        return self._bin(o, mod, True)

    def __divmod__(self, o):
        return self // o, self % o

    def __pow__(self, o):
        return self._bin(o, power)

    def __rpow__(self, o):
        return self._bin(o, power, True)

    def __neg__(self):
        return Num(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return absolute(self)

    def __lt__(self, o):
        return self._bin(o, lt)

    def __le__(self, o):
        return self._bin(o, le)

    def __gt__(self, o):
        return self._bin(o, gt)

    def __ge__(self, o):
        return self._bin(o, ge)

    def __eq__(self, o):
        return self._bin(o, eq)

    def __ne__(self, o):
        return self._bin(o, ne)

    def __hash__(self):
        return hash(self.e)

    def __bool__(self):
        return ctx().branch(self.e != 0)

    def __float__(self):
        return float(ctx().concretize(self.e))

    def __index__(self):
        return ctx().enumerate_int(self.e)

    def __int__(self):
        if self.e.is_int():
            return ctx().enumerate_int(self.e)
        return trunc(self).__index__()

    def __round__(self, nd=None):
        r = rint(self)
        return r if nd is not None else r

    def __floor__(self):
        return floor(self)

    def __ceil__(self):
        return ceil(self)

    def __trunc__(self):
        return trunc(self)

    def is_integer(self):
        e = z(self)
        return True if _integral(e, 400) else mkb(z3.IsInt(zr(self)))

    def __array__(self, dtype=None, copy=None):
        a = np.empty((), dtype=object)
        a[()] = self
        if dtype is not None and np.dtype(dtype) != object:
            return a.astype(dtype)
        return a

    def __format__(self, spec):
        return "<sym>"

    def __repr__(self):
        return "<sym>"

    __str__ = __repr__

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        raise EngineLimit("pickling a symbolic value")


class SqrtNum(Num):
    """sqrt(rad) with rad >= 0 known; the square root is only introduced when it is really needed."""

    __slots__ = ("rad",)

    def __init__(self, rad):
        self.rad = rad
        self._e = None

    @property
    def e(self):
        if self._e is None:
            self._e = ctx().sqrt_const(self.rad)
        return self._e

    @property
    def __class__(self):
        return float


def _scalar(o):
    return is_sym(o) or isinstance(o, (int, float, np.number, np.bool_, Fraction))


def mksqrt(rad):
    if z3.is_rational_value(rad) or z3.is_int_value(rad):
        v = mk(rad)
        return np.float64(math.sqrt(v))
    return SqrtNum(rad)


def concrete(*xs):
    return not any(is_sym(x) for x in xs)


def sgn(x):
    """-1, 0, 1; forks."""
    if not is_sym(x):
        return (x > 0) - (x < 0)
    if type(x) is SymBool:
        return int(bool(x))
    if ctx().branch(x.e > 0):
        return 1
    if ctx().branch(x.e < 0):
        return -1
    return 0


def unify(a, b):
    ea, eb = z(a), z(b)
    if ea.is_int() and not eb.is_int():
        ea = z3.ToReal(ea)
    elif eb.is_int() and not ea.is_int():
        eb = z3.ToReal(eb)
    return ea, eb


def add(a, b):
    if concrete(a, b):
        return a + b
    if nonfinite(a):
        return a
    if nonfinite(b):
        return b
    if not is_sym(a) and a == 0:
        return _real(b, a)
    if not is_sym(b) and b == 0:
        return _real(a, b)
    ea, eb = unify(a, b)
    return mk(ea + eb)


def _real(x, other):
    """x unchanged, as a real when other is a float."""
    if isinstance(other, (float, np.floating)) and z(x).is_int():
        return mk(z3.ToReal(z(x)))
    return x


def sub(a, b):
    if concrete(a, b):
        return a - b
    if nonfinite(a):
        return a
    if nonfinite(b):
        return -b
    if not is_sym(b) and b == 0:
        return _real(a, b)
    ea, eb = unify(a, b)
    if ea.eq(eb):
        return 0 if ea.is_int() else np.float64(0.0)
    return mk(ea - eb)


def mul(a, b):
    if concrete(a, b):
        return a * b
    if nonfinite(a):
        s = sgn(b) if not math.isnan(a) else 0
        return math.nan if s == 0 else s * a
    if nonfinite(b):
        return mul(b, a)
    for x, y in ((a, b), (b, a)):
        if not is_sym(x):
            if x == 0:
                return np.float64(0.0) if isinstance(x, (float, np.floating)) or not z(y).is_int() else 0
            if x == 1:
                return _real(y, x)
    if type(a) is SqrtNum and type(b) is SqrtNum and a.rad.eq(b.rad):
        return mk(a.rad)
    if type(a) is SymBool or type(b) is SymBool:
        s, o = (a, b) if type(a) is SymBool else (b, a)
        eo = z(o)
        return mk(z3.If(s.b, eo, z3.IntVal(0) if eo.is_int() else z3.RealVal(0)))
    ea, eb = unify(a, b)
    for x, y in ((ea, eb), (eb, ea)):
        r = _cancel(x, y)
        if r is not None:
            return mk(r)
    return mk(ea * eb)


def _cancel(x, y):
    """(p / y) * y and (c * (p / y)) * y; y is not zero, as division has forked on that."""
    k = x.decl().kind() if z3.is_app(x) else None
    if k == z3.Z3_OP_DIV and x.arg(1).eq(y):
        return x.arg(0)
    if k == z3.Z3_OP_MUL and x.num_args() == 2 and z3.is_rational_value(x.arg(0)):
        r = _cancel(x.arg(1), y)
        return None if r is None else x.arg(0) * r
    return None


def div(a, b, py=False):
    """numpy division (py: python division, which raises)."""
    if concrete(a, b):
        if py and not isinstance(a, np.generic) and not isinstance(b, np.generic):
            return a / b
        with np.errstate(all="ignore"):
            return np.float64(a) / np.float64(b)
    if nonfinite(b):
        return math.nan if math.isnan(b) else np.float64(0.0)
    if not is_sym(b):
        if b == 0:
            if py and not isinstance(b, np.generic):
                raise ZeroDivisionError("division by zero")
            s = sgn(a)
            return math.nan if s == 0 else s * INF
        if nonfinite(a):
            return a / b
        f = 1 / (frac(b) if isinstance(b, (float, np.floating)) else Fraction(int(b)))
        if f == 1:
            return mk(zr(a))
        return mk(zr(a) * z3.Q(f.numerator, f.denominator))
    eb = z(b)
    if type(b) is SqrtNum:
        zero = ctx().branch(b.rad == 0)
    else:
        zero = ctx().branch(eb == 0)
    if zero:
        if py and type(a) is not np.float64:
            if not is_sym(a) or not ctx().np_scalars:
                raise ZeroDivisionError("division by zero")
        s = sgn(a)
        return math.nan if s == 0 else s * INF
    if nonfinite(a):
        s = sgn(b)
        return a * s
    if not is_sym(a) and a == 0:
        return np.float64(0.0)
    if type(a) is SqrtNum and type(b) is SqrtNum and a.rad.eq(b.rad):
        return np.float64(1.0)
    ea, eb = zr(a), zr(b)
    if ea.eq(eb):
        return np.float64(1.0)
    return mk(ea / eb)


def pydiv(a, b):
    return div(a, b, py=True)


def floordiv(a, b):
    if concrete(a, b):
        return a // b
    if nonfinite(a) or nonfinite(b):
        raise EngineLimit("floor division by infinity")
    ea, eb = unify(a, b)
    if ctx().branch(eb == 0):
        raise ZeroDivisionError("division by zero")
    if ea.is_int():
        if not is_sym(b) and b > 0:
            return mk(ea / eb)
        if ctx().branch(eb > 0):
            return mk(ea / eb)
        return mk((-ea) / (-eb))
    return mk(z3.ToReal(z3.ToInt(ea / eb)))


def mod(a, b):
    if concrete(a, b):
        return a % b
    q = floordiv(a, b)
    return sub(a, mul(q, b))


def power(a, b):
    if concrete(a, b):
        with np.errstate(all="ignore"):
            return np.power(np.float64(a), b) if not isinstance(a, (int, np.integer)) else a ** b
    if not is_sym(b):
        if type(a) is SqrtNum:
            if b == 2:
                return mk(a.rad)
            if b == 4:
                return mk(a.rad * a.rad)
        if float(b) == int(b) and abs(b) <= 12:
            n = int(b)
            if n == 0:
                return np.float64(1.0)
            r = a
            for _ in range(abs(n) - 1):
                r = mul(r, a)
            return r if n > 0 else div(np.float64(1.0), r)
        if b == 0.5:
            return sqrt(a)
    return uf("pow", a, b)


def absolute(a):
    if concrete(a):
        return abs(a)
    if type(a) is SqrtNum:
        return a
    return mk(z3.If(a.e >= 0, a.e, -a.e))


def neg(a):
    return -a


def _cmp(a, b, name, op):
    if concrete(a, b):
        return bool(op(a, b))
    if nonfinite(a) or nonfinite(b):
        x = a if nonfinite(a) else 0.0
        y = b if nonfinite(b) else 0.0
        return bool(op(x, y))
    if type(a) is SqrtNum or type(b) is SqrtNum:
        if type(a) is SqrtNum and type(b) is SqrtNum:
            return mkb(z3.simplify(op(a.rad, b.rad)))
        s, o, flip = (a, b, False) if type(a) is SqrtNum else (b, a, True)
        if not is_sym(o):
            if o < 0:
                return bool(op(o - 1, 0) if False else op(*((1, 0) if not flip else (0, 1))))
            f = frac(o) if isinstance(o, (float, np.floating)) else Fraction(int(o))
            f = f * f
            q = z3.Q(f.numerator, f.denominator)
            return mkb(z3.simplify(op(q, s.rad) if flip else op(s.rad, q)))
    ea, eb = unify(a, b)
    if ea.eq(eb):
        return name in ("le", "ge", "eq")
    return mkb(z3.simplify(op(ea, eb)))


def _integral(e, fuel):
    """Integral by its form."""
    if e.is_int():
        return True
    if z3.is_rational_value(e):
        return e.denominator_as_long() == 1
    if fuel <= 0 or not z3.is_app(e):
        return False
    k = e.decl().kind()
    if k == z3.Z3_OP_TO_REAL:
        return True
    if k == z3.Z3_OP_ITE:
        return _integral(e.arg(1), fuel // 2) and _integral(e.arg(2), fuel // 2)
    if k in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS):
        return all(_integral(c, fuel // 2) for c in e.children())
    return False


def lt(a, b):
    return _cmp(a, b, "lt", lambda x, y: x < y)


def le(a, b):
    return _cmp(a, b, "le", lambda x, y: x <= y)


def gt(a, b):
    return _cmp(a, b, "gt", lambda x, y: x > y)


def ge(a, b):
    return _cmp(a, b, "ge", lambda x, y: x >= y)


def eq(a, b):
    if (type(a) is SymBool) != (type(b) is SymBool) and isinstance(a if type(b) is SymBool else b, (bool, np.bool_)):
        return mkb(z3.simplify(zb(a) == zb(b)))
    return _cmp(a, b, "eq", lambda x, y: x == y)


def ne(a, b):
    return _cmp(a, b, "ne", lambda x, y: x != y)


def land(a, b):
    if concrete(a, b):
        return bool(a) and bool(b)
    return mkb(z3.simplify(z3.And(zb(a), zb(b))))


def lor(a, b):
    if concrete(a, b):
        return bool(a) or bool(b)
    return mkb(z3.simplify(z3.Or(zb(a), zb(b))))


def lnot(a):
    if concrete(a):
        return not a
    return mkb(z3.simplify(z3.Not(zb(a))))


def ite(c, a, b):
    """Merged choice; forks when the sides cannot be merged."""
    if type(c) is not SymBool:
        if isnum(c):
            c = mkb(c.e != 0)
            if type(c) is not SymBool:
                return a if c else b
        else:
            return a if c else b
    if a is b:
        return a
    if type(a) is SymBool or type(b) is SymBool or isinstance(a, (bool, np.bool_)) and isinstance(b, (bool, np.bool_)):
        if not isnum(a) and not isnum(b):
            return mkb(z3.simplify(z3.If(c.b, zb(a), zb(b))))
    if nonfinite(a) or nonfinite(b) or not _scalar(a) or not _scalar(b):
        return a if bool(c) else b
    if type(a) is SqrtNum and type(b) is SqrtNum:
        return SqrtNum(z3.If(c.b, a.rad, b.rad))
    ea, eb = unify(a, b)
    if ea.eq(eb):
        return a
    return mk(z3.If(c.b, ea, eb))


def minimum(a, b):
    if concrete(a, b):
        return np.minimum(a, b)
    for x, y in ((a, b), (b, a)):
        if nonfinite(x):
            return y if x == INF else x
    return ite(le(a, b), a, b)


def maximum(a, b):
    if concrete(a, b):
        return np.maximum(a, b)
    for x, y in ((a, b), (b, a)):
        if nonfinite(x):
            return y if x == -INF else x
    return ite(ge(a, b), a, b)


def floor(a):
    if concrete(a):
        return np.floor(a)
    e = z(a)
    return a if e.is_int() else mk(z3.ToReal(z3.ToInt(e)))


def ceil(a):
    if concrete(a):
        return np.ceil(a)
    e = z(a)
    return a if e.is_int() else mk(z3.ToReal(-z3.ToInt(-e)))


def trunc(a):
    if concrete(a):
        return int(a)
    e = z(a)
    return a if e.is_int() else mk(z3.If(e >= 0, z3.ToInt(e), -z3.ToInt(-e)))


def rint(a):
    if concrete(a):
        return np.round(np.float64(a)) if not isinstance(a, (int, np.integer)) else a
    e = z(a)
    if e.is_int():
        return a
    f = z3.ToInt(e)
    d = e - z3.ToReal(f)
    h = z3.Q(1, 2)
    return mk(z3.ToReal(z3.If(d < h, f, z3.If(d > h, f + 1, z3.If(f % 2 == 0, f, f + 1)))))


def sqrt(a):
    if concrete(a):
        return math.nan if a < 0 else np.float64(math.sqrt(a))
    e = z3.simplify(zr(a))
    if z3.is_rational_value(e):
        return sqrt(mk(e))
    if ctx().branch(e < 0):
        return math.nan
    return SqrtNum(e)


_UF = {}
R = z3.RealSort()


def ufdecl(name, n):
    k = (name, n)
    if k not in _UF:
        _UF[k] = z3.Function(name, *([R] * (n + 1)))
    return _UF[k]


def uf(name, *args):
    """Uninterpreted real function with a few sound axioms per application."""
    ts = [z3.simplify(zr(a)) for a in args]
    e = ufdecl(name, len(ts))(*ts)
    c = ctx()
    if e.get_id() not in c.uf_seen:
        c.uf_seen[e.get_id()] = e
        if name in ("cos", "sin"):
            c.define(z3.And(e >= -1, e <= 1))
        elif name == "exp":
            c.define(z3.And(e > 0, z3.Implies(ts[0] <= 0, e <= 1), z3.Implies(ts[0] >= 0, e >= 1), z3.Implies(ts[0] == 0, e == 1)))
        elif name == "log":
            c.define(z3.And(z3.Implies(ts[0] >= 1, e >= 0), z3.Implies(z3.And(ts[0] > 0, ts[0] < 1), e < 0),
                            z3.Implies(ts[0] > 1, e > 0), z3.Implies(ts[0] > 0, e <= ts[0] - 1)))
            for o, (n2, t2) in list(c.uf_terms.items()):  # monotone
                if n2 == "log":
                    c.define(z3.Implies(z3.And(t2[0] > 0, t2[0] < ts[0]), c.uf_seen[o] < e))
                    c.define(z3.Implies(z3.And(ts[0] > 0, ts[0] < t2[0]), e < c.uf_seen[o]))
        elif name == "cdf":
            c.define(z3.And(e > 0, e < 1))
            c.define(z3.If(ts[0] >= 0, e >= z3.Q(1, 2), e < z3.Q(1, 2)))
            for o, (n2, t2) in list(c.uf_terms.items()):
                if n2 == "cdf":
                    c.define(z3.And(z3.Implies(t2[0] < ts[0], c.uf_seen[o] < e), z3.Implies(ts[0] < t2[0], e < c.uf_seen[o])))
        elif name == "pdf":
            c.define(z3.And(e > 0, e < z3.Q(2, 5)))
        c.uf_terms[e.get_id()] = (name, ts)
    return Num(e)


def _unary(name, f):
    def op(a):
        if concrete(a):
            with np.errstate(all="ignore"):
                return np.float64(f(np.float64(a)))
        return uf(name, a)

    return op


exp = _unary("exp", np.exp)
cos = _unary("cos", np.cos)
sin = _unary("sin", np.sin)
tanh = _unary("tanh", np.tanh)


def log(a):
    if concrete(a):
        with np.errstate(all="ignore"):
            return np.log(np.float64(a))
    e = z3.simplify(zr(a))
    if ctx().branch(e == 0):
        return -INF
    if ctx().branch(e < 0):
        return math.nan
    return uf("log", a)


# ---------------------------------------------------------------------------------------------------- one path


GUARD = {"until": None}  # a query that runs longer ends its worker


class Stats(dict):
    def __missing__(self, k):
        return 0


class Path:
    """State of one symbolic execution of a harness."""

    def __init__(self, prefix=(), query_ms=5000, logic=None):
        self.prefix = prefix
        self.trail = []
        self.pending = []
        self.solver = z3.SolverFor(logic) if logic else z3.Solver()
        self.query_ms = query_ms
        self.solver.set("timeout", query_ms)
        self.model = None
        self.decided = {}
        self.keep = []
        self.uf_seen = {}
        self.uf_terms = {}
        self.sqrts = {}
        self.sqrt_rads = {}  # name of the constant -> radicand
        self.symbols = {}  # name -> (z3 const, kind)
        self.order = []
        self.aborted = False
        self.np_scalars = False
        self.stats = Stats()
        self.incomplete = []
        self.asserted = []

    # -- solver
    def add(self, c):
        self.solver.add(c)
        self.asserted.append(c)
        if self.model is not None and not z3.is_true(self.model.eval(c, model_completion=True)):
            self.model = None

    define = add

    def check(self, *extra):
        t = time.time()
        GUARD["until"] = t + 3 * self.query_ms / 1000.0 + 10  # the solver does not always honour its time limit
        r = self.solver.check(*extra)
        GUARD["until"] = None
        dt = time.time() - t
        self.stats["queries"] += 1
        self.stats["solver_s"] += dt
        if r == z3.unknown:
            self.stats["unknown"] += 1
        return r

    def get_model(self):
        """A model of the path condition, or None when unknown; aborts the path when there is none."""
        if self.model is None:
            r = self.check()
            if r == z3.unsat:
                self.aborted = True
                self.stats["infeasible"] += 1
                raise PathAbort()
            if r == z3.sat:
                self.model = self.solver.model()
        return self.model

    def branch(self, c):
        """Truth of a condition on this path; forks when both are possible.

        Every call takes one slot of the trail (the truth of the condition as given), so that a prefix means the same in
        every process, whatever form the simplifier gives to the condition."""
        if self.aborted:
            raise PathAbort()
        i = len(self.trail)
        want = self.prefix[i] if i < len(self.prefix) else None
        v = self._branch(c, want)
        if want is not None and v is not want:
            raise EngineLimit("diverged from its prefix")
        self.trail.append(v)
        return v

    def _branch(self, c, want):
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        neg = False
        if z3.is_not(c):
            c, neg = c.arg(0), True
        k = c.get_id()
        if k in self.decided:
            return self.decided[k] != neg
        self.keep.append(c)
        self.stats["branches"] += 1
        if want is not None:
            v = want != neg
        else:
            m = self.get_model()
            if m is not None:
                v = z3.is_true(m.eval(c, model_completion=True))
                r = self.check(z3.Not(c) if v else c)
            else:
                r = self.check(c)
                if r == z3.unsat:
                    v = False
                else:
                    v = True
                    r = self.check(z3.Not(c))
            if r != z3.unsat:
                self.pending.append(tuple(self.trail) + ((not v) != neg,))
        self.decided[k] = v
        self.add(c if v else z3.Not(c))
        return v != neg

    def enumerate_int(self, e):
        """Concrete value of an integer term: forks over its feasible values."""
        e = z3.simplify(e)
        if z3.is_int_value(e):
            return e.as_long()
        if not e.is_int():
            raise EngineLimit("real number used as an index")
        for _ in range(200):
            i = len(self.trail)
            if i < len(self.prefix) and isinstance(self.prefix[i], tuple):
                v, take = self.prefix[i]
            else:
                m = self.get_model()
                if m is None:
                    raise EngineLimit("no model for an index")
                v = m.eval(e, model_completion=True).as_long()
                r = self.check(e != v)
                if r != z3.unsat:
                    self.pending.append(tuple(self.trail) + ((v, False),))
                take = True
            self.trail.append((v, take))
            self.stats["branches"] += 1
            self.add(e == v if take else e != v)
            if take:
                return v
        raise EngineLimit("too many values for an index")

    def concretize(self, e):
        """Fallback: fix a term to the value it has in some model (the path is then only partially covered)."""
        e = z3.simplify(e)
        v = mk(e)
        if not is_sym(v):
            return v
        if e.is_int():
            return self.enumerate_int(e)
        m = self.get_model()
        if m is None:
            raise EngineLimit("no model for a concretization")
        v = model_value(m, e)
        self.stats["concretized"] += 1
        import traceback

        fr = [f for f in traceback.extract_stack() if "/symx/" not in f.filename]
        self.incomplete.append("concretized at %s:%d" % (fr[-1].filename, fr[-1].lineno) if fr else "?")
        self.add(e == z3.Q(v.numerator, v.denominator))
        return float(v)

    def sqrt_const(self, rad):
        k = rad.get_id()
        if k not in self.sqrts:
            y = z3.Real("sqrt!%d" % len(self.sqrts))
            self.keep.append(rad)
            self.define(z3.And(y >= 0, y * y == rad))
            self.sqrts[k] = y
            self.sqrt_rads[str(y)] = rad
        return self.sqrts[k]

    # -- symbols
    def fresh(self, name, kind):
        n = name
        i = 1
        while n in self.symbols:
            i += 1
            n = "%s#%d" % (name, i)
        c = {"real": z3.Real, "int": z3.Int, "bool": z3.Bool}[kind](n)
        self.symbols[n] = (c, kind)
        self.order.append(n)
        return c

    def values(self, model):
        out = {}
        for n, (c, kind) in self.symbols.items():
            v = model.eval(c, model_completion=True)
            if kind == "bool":
                out[n] = z3.is_true(v)
            elif kind == "int":
                out[n] = v.as_long()
            else:
                out[n] = model_value(model, c)
        return out


def model_value(m, e):
    v = m.eval(e, model_completion=True)
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(20)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    return Fraction(0)


def _choose(self, name, n):
    """A choice among n alternatives made by the environment (schedule, random index): forks, no constraint needed."""
    if self.aborted:
        raise PathAbort()
    if n <= 0:
        raise EngineLimit("choice among nothing")
    if n == 1:
        return 0
    i = len(self.trail)
    if i < len(self.prefix):
        v = self.prefix[i]
    else:
        v = 0
        for k in range(n - 1, 0, -1):
            self.pending.append(tuple(self.trail) + (k,))
    self.trail.append(v)
    self.choices.append(v)
    self.stats["branches"] += 1
    return v


Path.choose = _choose
Path.choices = None
Path.merge_index = False
_old_init = Path.__init__


def _init(self, *a, **k):
    _old_init(self, *a, **k)
    self.choices = []


Path.__init__ = _init
