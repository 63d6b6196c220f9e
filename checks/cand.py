"""Set-up shared by the checks of the candidate searches."""
import numpy as np

from checks.common import *
from checks.sim import *


class Box:
    """A problem with arbitrary bounds (integral ones for integer variables) and arbitrary feasible evaluated and pending points."""

    def __init__(self, env, dim, int_var, nX, npend=0, widths=(0.01, 50), fixed=False):
        self.ints = fixed == "int"  # arrays of integers, as a user may write them
        if fixed:
            self.lb = np.array([-2.0, 1.0, -7.0, 0.0][:dim])
            self.ub = np.array([3.0, 4.0, -5.0, 1.0][:dim])
            if self.ints:
                self.lb, self.ub = self.lb.astype(int), self.ub.astype(int)
        else:
            lb, ub = [], []
            for j in range(dim):
                if j in int_var:
                    l = env.int("lb[%d]" % j, -20, 20)
                    w = env.int("w[%d]" % j, 1, 20)
                else:
                    l = env.real("lb[%d]" % j, -50, 50)
                    w = env.real("w[%d]" % j, *widths)
                lb.append(l * np.float64(1.0) if not C.is_sym(l) else C._real(l, 1.0))
                ub.append(lb[-1] + w)
            self.lb, self.ub = env.arr(lb), env.arr(ub)
        self.dim, self.int_var = dim, int_var
        self.prob = problem(dim, self.lb, self.ub, int_var)
        self.X = self.points(env, "X", nX)
        self.fX = env.array("fX", (nX, 1), -100, 100)
        self.P = self.points(env, "P", npend) if npend else None

    def points(self, env, name, n):
        if self.ints:
            k = {"X": 1, "P": 2}.get(name, 0)
            return np.array([[self.lb[j] + (i + j + k) % (self.ub[j] - self.lb[j] + 1) for j in range(self.dim)] for i in range(n)], dtype=int)
        out = np.empty((n, self.dim), dtype=object)
        for i in range(n):
            for j in range(self.dim):
                nm = "%s[%d][%d]" % (name, i, j)
                if j in self.int_var:
                    v = env.int(nm, self.lb[j], self.ub[j])
                    out[i, j] = C._real(v, 1.0) if C.is_sym(v) else np.float64(v)
                else:
                    out[i, j] = env.real(nm, self.lb[j], self.ub[j])
        return env.arr(out)

    def feasible(self, env, pts, what):
        for i in range(len(pts)):
            for j in range(self.dim):
                env.le(self.lb[j], pts[i, j], "%s is below the lower bound" % what, 1e-9)
                env.le(pts[i, j], self.ub[j], "%s is above the upper bound" % what, 1e-9)
                if j in self.int_var:
                    env.check(is_integral(pts[i, j]), "%s has a fractional integer variable" % what)


def search(name):
    from pySOT import auxiliary_problems as AP

    return getattr(AP, name)


def pick(env, n):
    """Predictions that single out any candidate (then any other, ...): the selection is an arbitrary order of the candidates."""

    def predict(xx):
        left = list(range(len(xx)))
        out = np.zeros((len(xx), 1))
        for i in range(len(xx)):
            j = left.pop(env.choice("order", len(left)) if i < n else 0)
            out[j, 0] = float(i)
        return out

    return predict
