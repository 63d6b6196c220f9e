"""C15: box mapping, rescaling and rounding (pySOT/utils.py)."""
import numpy as np
from symx.runner import Claim
from checks.common import *


def box(env, cfg):
    from pySOT import utils

    n, d = cfg
    lb = env.array("lb", d, -100, 100)
    w = env.array("w", d, 0.001, 100)
    ub = lb + w
    x = env.array("x", (n, d), -300, 300)
    x0 = x.copy()
    u = utils.to_unit_box(x, lb, ub)
    back = utils.from_unit_box(u, lb, ub)
    same(env, x, x0, "to_unit_box modified its input")
    shape(env, u, (n, d), "to_unit_box")
    shape(env, back, (n, d), "from_unit_box")
    for i in range(n):
        for j in range(d):
            env.eq(back[i, j], x0[i, j], "mapping to the unit box and back changes the point")
            env.eq(u[i, j] * w[j], x0[i, j] - lb[j], "to_unit_box is not (x - lb) / (ub - lb)", 1e-5)
    e = utils.to_unit_box(np.vstack((lb, ub)), lb, ub) if not env.symbolic else utils.to_unit_box(env.arr([list(lb), list(ub)]), lb, ub)
    f = utils.from_unit_box(env.arr([[0.0] * d, [1.0] * d]), lb, ub)
    for j in range(d):
        env.eq(e[0, j], 0, "lower bound does not map to 0")
        env.eq(e[1, j], 1, "upper bound does not map to 1")
        env.eq(f[0, j], lb[j], "0 does not map to the lower bound")
        env.eq(f[1, j], ub[j], "1 does not map to the upper bound")


def rescale(env, cfg):
    from pySOT import utils

    n, m = cfg
    x = env.array("x", (n, m) if m else (n,), -100, 100)
    x0 = x.copy()
    y = utils.unit_rescale(x)
    same(env, x, x0, "unit_rescale modified its input")
    shape(env, y, x0.shape, "unit_rescale")
    xs, ys = list(flat(x0)), list(flat(y))
    const = all(bool(v == xs[0]) for v in xs)
    if const:
        env.reach("constant")
        for v in ys:
            env.eq(v, 1, "a constant vector is not mapped to ones")
        return
    env.reach("spread")
    lo, hi = env.minimum(xs), env.maximum(xs)
    for a, v in zip(xs, ys):
        env.le(0, v, "rescaled below 0")
        env.le(v, 1, "rescaled above 1")
        env.eq(v * (hi - lo), a - lo, "rescaling is not (x - min) / (max - min)", 1e-5)
        env.check(env.implies(C.eq(a, lo), env.close(v, 0)), "the smallest value is not mapped to 0")  # however small the spread is
        env.check(env.implies(C.eq(a, hi), env.close(v, 1)), "the largest value is not mapped to 1")


def rounding(env, cfg):
    from pySOT import utils

    n, d, iv = cfg
    lb = env.array("lb", d, -20, 20, "int")
    ub = lb + env.array("w", d, 1, 20, "int")
    x = env.array("x", (n, d), -100, 100)
    x0 = x.copy()
    r = utils.round_vars(x.copy(), np.array(iv, dtype=int), lb, ub)
    shape(env, r, (n, d), "round_vars")
    for i in range(n):
        for j in range(d):
            if j not in iv:
                env.check(r[i, j] == x0[i, j], "round_vars changed a continuous variable")
                continue
            env.check(is_integral(r[i, j]), "round_vars leaves a fractional integer variable")
            env.le(lb[j], r[i, j], "round_vars goes below the lower bound")
            env.le(r[i, j], ub[j], "round_vars goes above the upper bound")
            # nearest feasible integer: within 1/2 of the point clipped to the bounds
            c = env.minimum([env.maximum([x0[i, j], lb[j]]), ub[j]])
            env.le(env.abs(r[i, j] - c), 0.5, "round_vars does not give the nearest integer in the domain")


def integers(env, cfg):
    """Arrays of integers among the arguments."""
    from pySOT import utils

    what = cfg
    lb, ub, x = np.array([-3, 2]), np.array([5, 9]), np.array([[1, 4], [5, 2], [-7, 3]])
    if what == "bounds":  # integral bounds, any points
        x = env.array("x", (2, 2), -30, 30)
    elif what == "points":  # integral points, any bounds
        lb = env.array("lb", 2, -100, 100)
        ub = lb + env.array("w", 2, 0.001, 100)
    u = utils.to_unit_box(x, lb, ub)
    back = utils.from_unit_box(u, lb, ub)
    v = env.array("u", (2, 2), 0, 1)
    y = utils.from_unit_box(v, lb, ub)
    for i in range(len(x)):
        for j in range(2):
            env.eq(u[i, j] * (ub[j] - lb[j]), x[i, j] - lb[j], "to_unit_box is not (x - lb) / (ub - lb)", 1e-5)
            env.eq(back[i, j], x[i, j], "mapping to the unit box and back changes the point")
    for i in range(2):
        for j in range(2):
            env.eq(y[i, j], C.add(C.mul(v[i, j], ub[j] - lb[j]), lb[j]), "from_unit_box is not lb + (ub - lb) * x", 1e-5)
    if what == "bounds":
        w = env.array("r", (2, 2), -30, 30)
        r = utils.round_vars(w.copy(), np.array([1]), lb, ub)
        for i in range(2):
            env.eq(r[i, 0], w[i, 0], "round_vars changed a continuous variable", 0)
            env.check(is_integral(r[i, 1]), "round_vars leaves a fractional integer variable")
            env.le(env.abs(r[i, 1] - env.minimum([env.maximum([w[i, 1], 2.0]), 9.0])), 0.5, "round_vars does not give the nearest integer in the domain")
    elif what == "both":
        r = utils.round_vars(x.copy(), np.array([0]), lb, ub)
        same(env, r, np.array([[1, 4], [5, 2], [-3, 3]]), "round_vars does not move integers into the domain")
        s = utils.unit_rescale(np.array([[2], [7], [4]]))
        for a, b in zip(flat(s), (0.0, 1.0, 0.4)):
            env.eq(a, b, "integers are not rescaled")
        same(env, utils.unit_rescale(np.array([4, 4])), np.ones(2), "a constant vector is not mapped to ones")
    env.reach("end")


CLAIMS = [
    Claim("unit-box", box, [(1, 1), (2, 2)], [(1, 1), (2, 2), (3, 3)], covers="to_unit_box, from_unit_box", bounds="n x d points, any bounds with width in [0.001, 100]"),
    Claim("rescale", rescale, [(1, 0), (2, 0), (3, 0), (3, 1), (2, 2)], [(1, 0), (2, 0), (4, 0), (4, 1), (2, 2), (3, 2)], covers="unit_rescale", bounds="n or n x m entries in [-100, 100]", reach=["constant", "spread"]),
    Claim("round", rounding, [(1, 1, (0,)), (2, 2, (1,)), (2, 2, (0, 1)), (2, 2, ())], [(2, 3, (0, 2)), (3, 2, (0, 1)), (2, 3, ()), (1, 3, (2, 1, 0))], covers="round_vars", bounds="n x d points, integral bounds in [-20, 40]"),
    Claim("integers", integers, ["bounds", "points", "both"], None, covers="to_unit_box, from_unit_box, unit_rescale, round_vars on arrays of integers", bounds="2-3 points in two variables", reach=["end"]),
]
ASSUMPTIONS = ["floating point is modelled by real arithmetic; comparisons have a tolerance of 1e-6"]
