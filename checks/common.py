"""Helpers shared by the harnesses; they work on symbolic and on concrete values."""
import math

import numpy as np

from symx import arr as A
from symx import core as C

REALS = "floating point is modelled by real arithmetic; comparisons carry a tolerance (1e-6 unless stated)"


def flat(a):
    return [x for x in A._flat(a)] if isinstance(a, np.ndarray) else list(a)


def same(env, a, b, msg):
    """Entrywise identical arrays."""
    if np.shape(a) != np.shape(b):
        env.check(False, msg)
        return
    env.check(env.all([C.eq(x, y) if not (C.nonfinite(x) and C.nonfinite(y)) else bool(x == y) or (math.isnan(x) and math.isnan(y)) for x, y in zip(flat(a), flat(b))]), msg)


def shape(env, a, s, what):
    env.check(isinstance(a, np.ndarray) and tuple(a.shape) == tuple(s), "%s: shape %s instead of %s" % (what, getattr(a, "shape", None), tuple(s)))


def is_integral(x):
    if C.isnum(x):
        return x.is_integer()
    return abs(float(x) - round(float(x))) < 1e-9


def rows_equal(env, a, b):
    return env.all([C.eq(x, y) for x, y in zip(flat(a), flat(b))])
