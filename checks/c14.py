"""C14: experimental designs have the promised structure."""
import itertools

from checks.common import *
from symx.runner import Claim


class Tape:
    """Records the random draws of one call, or repeats recorded ones."""

    def __init__(self, env):
        self.env, self.rec, self.play, self.lost = env, [], None, False

    def run(self, f, draws=None):
        env = self.env
        self.rec, self.play, self.lost = [], None if draws is None else list(draws), False
        old = {k: getattr(env, k) for k in ("real", "int", "choice")}

        def hook(kind):
            def g(name, *a, **k):
                if self.play is not None:
                    if self.play and self.play[0][:2] == (kind, name):
                        return self.play.pop(0)[2]
                    self.lost = True
                v = old[kind](name, *a, **k)
                self.rec.append((kind, name, v))
                return v

            return g

        for k in old:
            setattr(env, k, hook(k))
        try:
            return f()
        except ValueError:
            return None
        finally:
            for k in old:
                delattr(env, k)


def designs(kind, dim, n, iterations):
    from pySOT import experimental_design as ED

    if kind == "LatinHypercube":
        return ED.LatinHypercube(dim, n, iterations=iterations)
    if kind == "SymmetricLatinHypercube":
        return ED.SymmetricLatinHypercube(dim, n, iterations=iterations)
    return ED.TwoFactorial(dim)


def slices(env, col, lo, w, n, slack, msg):
    """One entry in each of the n equal slices of [lo, lo+w], up to the slack."""
    for k in range(n):
        below = sum([C.ite(C.le(x, C.add(lo, C.add(C.mul(w, (k + 1) / n), slack))), 1, 0) for x in col], 0)
        above = sum([C.ite(C.ge(x, C.add(lo, C.sub(C.mul(w, k / n), slack))), 1, 0) for x in col], 0)
        env.check(env.all([C.ge(below, k + 1), C.ge(above, n - k)]), msg)


def box(env, dim, iv, ints=False):
    lb = np.array([-3.0, 2.0, -10.0, 0.0][:dim])
    ub = np.array([5.0, 9.0, 10.0, 1.0][:dim])
    if ints:
        lb, ub = lb.astype(int), ub.astype(int)
    return lb, ub, np.array(iv, dtype=int)


def mapped(env, unit, box_, lb, ub, iv, msg):
    for i in range(len(unit)):
        for j in range(len(lb)):
            t = C.add(C.mul(unit[i, j], ub[j] - lb[j]), lb[j])
            if j in iv:
                env.check(is_integral(box_[i, j]), "an integer variable is not rounded")
                env.le(C.absolute(C.sub(box_[i, j], t)), 0.5, msg)
            else:
                env.eq(box_[i, j], t, msg)
            env.le(lb[j], box_[i, j], "a design point is below the bounds", 1e-9)
            env.le(box_[i, j], ub[j], "a design point is above the bounds", 1e-9)


def structure(env, cfg):
    kind, dim, n, iv, ints = cfg + (False,) * (5 - len(cfg))
    env.cdist = lambda a, b: np.ones((len(a), len(b)))  # any design is accepted
    env.matrix_rank = lambda M: M.shape[1]
    lb, ub, ivar = box(env, dim, iv, ints)
    d = designs(kind, dim, n, 1)
    t = Tape(env)
    X = t.run(lambda: d.generate_points())
    draws = list(t.rec)
    lb0, ub0 = lb.copy(), ub.copy()
    Y = t.run(lambda: d.generate_points(lb=lb, ub=ub, int_var=ivar), draws)
    env.check(np.array_equal(lb, lb0) and np.array_equal(ub, ub0), "the bounds are modified")
    env.check(d.dim == dim and d.num_pts == n, "the design's size attributes are wrong")
    if X is not None:
        shape(env, X, (n, dim), "the design")
        for j in range(dim):
            col = [X[i, j] for i in range(n)]
            if kind == "LatinHypercube":
                slices(env, col, 0.0, 1.0, n, 1e-9, "not one point in each slice of a coordinate")
            else:
                for k in range(n):
                    env.check(env.any([env.close(x, k / (n - 1), 1e-9) for x in col]), "a level is not used in a coordinate")
            for x in col:
                env.le(0.0, x, "a point is outside the unit box", 1e-9)
                env.le(x, 1.0, "a point is outside the unit box", 1e-9)
        if kind != "LatinHypercube":
            for i in range(n):
                env.check(env.any([env.all([env.close(C.add(X[i, j], X[k, j]), 1.0, 1e-9) for j in range(dim)]) for k in range(n)]), "a point's mirror image is missing")
        env.reach("unit")
    if Y is not None:
        shape(env, Y, (n, dim), "the mapped design")
        if kind == "LatinHypercube":
            for j in range(dim):
                slices(env, [Y[i, j] for i in range(n)], lb[j], ub[j] - lb[j], n, 0.5 if j in iv else 1e-6, "not one point in each slice of a mapped coordinate")
        env.reach("box")
        if X is not None and not t.lost:
            mapped(env, X, Y, lb, ub, iv, "the design is not mapped onto the box")
            env.reach("mapped")
        else:
            for i in range(n):
                for j in range(dim):
                    env.le(lb[j], Y[i, j], "a design point is below the bounds", 1e-9)
                    env.le(Y[i, j], ub[j], "a design point is above the bounds", 1e-9)
                    if j in iv:
                        env.check(is_integral(Y[i, j]), "an integer variable is not rounded")


def minors(env, X):
    n, d = X.shape
    if d == 1:
        return [X[i, 0] for i in range(n)]
    return [C.sub(C.mul(X[i, 0], X[k, 1]), C.mul(X[i, 1], X[k, 0])) for i in range(n) for k in range(i)]


def distance2(env, X):
    n, d = X.shape
    return env.minimum([sum([C.mul(C.sub(X[i, j], X[k, j]), C.sub(X[i, j], X[k, j])) for j in range(1, d)], C.mul(C.sub(X[i, 0], X[k, 0]), C.sub(X[i, 0], X[k, 0]))) if d > 1 else C.absolute(C.sub(X[i, 0], X[k, 0])) for i in range(n) for k in range(i)])


def selection(env, cfg):
    """With k iterations, the result is the best of the designs that the same draws give one at a time."""
    kind, dim, n, iters, bounds = cfg
    kw = {}
    if bounds:
        lb, ub = np.array([0.0, -1.0][:dim]), np.array(list(bounds)[:dim], dtype=float)
        kw = dict(lb=lb, ub=ub, int_var=np.arange(dim) if bounds[-1] != 0.5 else np.array([]))
    t = Tape(env)
    singles, draws = [], []
    for _ in range(iters):
        singles.append(t.run(lambda: designs(kind, dim, n, 1).generate_points(**kw)))
        draws += t.rec
    for X in singles:
        if X is not None:
            shape(env, X, (n, dim), "the design")
            m = minors(env, X)
            for v in m:
                env.assume(C.lor(C.eq(v, 0), C.gt(C.absolute(v), 1e-4)))
            env.check(env.any([C.gt(C.absolute(v), 1e-6) for v in m]), "the design does not have full rank")
    valid = [X for X in singles if X is not None]
    score = [distance2(env, X) for X in valid]
    for i in range(len(score)):
        env.assume(C.gt(score[i], 1e-4))
        for j in range(i):  # no near ties, so that rounding does not matter
            env.assume(C.lor(C.eq(score[i], score[j]), C.gt(C.absolute(C.sub(score[i], score[j])), 1e-4)))
    R = t.run(lambda: designs(kind, dim, n, iters).generate_points(**kw), draws)
    if t.lost:
        return
    if not valid:
        env.check(R is None, "a design is returned although none is valid")
        env.reach("invalid")
        return
    env.check(R is not None, "no design is found although a valid one was generated")
    shape(env, R, (n, dim), "the design")
    env.check(not t.play, "fewer designs are generated than requested")
    env.check(env.any([env.all([env.close(a, b, 1e-9) for a, b in zip(flat(R), flat(X))]) for X in valid]), "the design is not one of those generated")
    env.le(env.maximum(score), distance2(env, R), "the design does not have the largest minimum distance")
    env.reach("selected")


def levels(env, X, scale, top):
    """The design as integers (forks on the entries that are still open)."""
    def one(v):
        if not C.is_sym(v):
            return round(float(v) * scale)
        for k in range(top):
            if bool(C.lt(C.mul(v, float(scale)), k + 0.5)):
                return k
        return top

    return [[one(v) for v in r] for r in (A._obj(X) if env.symbolic else X)]


def full_rank(env, cfg):
    """A single design is returned exactly when it has full rank and no duplicates."""
    kind, dim, n, ub = cfg
    kw = {} if ub is None else dict(lb=np.zeros(dim), ub=np.array(ub, dtype=float), int_var=np.arange(dim))

    def gen():
        return designs(kind, dim, n, 1).generate_points(**kw)

    t = Tape(env)
    X = t.run(gen)
    draws = list(t.rec)
    if n < dim:
        env.check(X is None, "a design with fewer points than variables is accepted")
        env.reach("end")
        return
    env.cdist, env.matrix_rank = lambda a, b: np.ones((len(a), len(b))), lambda M: dim
    old = env.rank_always
    env.rank_always = True
    Y = t.run(gen, draws)  # the design that these draws give, whatever its rank
    env.rank_always, env.cdist = old, None
    del env.matrix_rank
    if Y is not None and not t.lost:
        M = levels(env, Y, n - 1 if ub is None else 1, n - 1 if ub is None else max(ub))
        ok = np.linalg.matrix_rank(np.array(M, dtype=float)) == dim and len(set(map(tuple, M))) == n
        env.check(X is not None or not ok, "a design is refused although it has full rank and no duplicate points")
        env.reach("refused" if X is None else "accepted")
    if X is not None:
        M = levels(env, X, n - 1 if ub is None else 1, n - 1 if ub is None else max(ub))
        env.check(np.linalg.matrix_rank(np.array(M, dtype=float)) == dim, "the design does not have full rank")
        env.check(len(set(map(tuple, M))) == n, "the design has a duplicate point")
    env.reach("end")


def exists(env, cfg):
    """In one variable every design with distinct points is valid, so one must be found."""
    kind, n, iters = cfg
    t = Tape(env)
    X = t.run(lambda: designs(kind, 1, n, iters).generate_points())
    if X is None:
        # only for draws that put two points on top of each other
        v = [x for k, name, x in t.rec if k == "real"]
        apart = env.all([C.land(C.gt(x, 1e-6), C.lt(x, 1 - 1e-6)) for x in v])
        env.check(C.lnot(apart), "no design is found although every design is valid")
        env.reach("none")
    else:
        shape(env, X, (n, 1), "the design")
        env.reach("found")


def corners(env, cfg):
    dim, iv, given = cfg
    ints = given == "int"
    d = designs("TwoFactorial", dim, None, None)
    env.check(d.dim == dim and d.num_pts == 2 ** dim, "the design's size attributes are wrong")
    if given:
        lb = env.array("lb", dim, -5, 5, "int") if iv else env.array("lb", dim, -5, 5)
        w = env.array("w", dim, 1, 9, "int") if iv else env.array("w", dim, 0.125, 9)
        ub = lb + w
        lb, ub = lb + 0.0, ub + 0.0
        if ints:
            lb, ub = np.array([-3, 0, 2][:dim]), np.array([4, 1, 9][:dim])
        X = d.generate_points(lb=lb, ub=ub, int_var=np.array(iv, dtype=int))
    else:
        lb, ub = np.zeros(dim), np.ones(dim)
        X = d.generate_points()
    shape(env, X, (2 ** dim, dim), "the design")
    for c in itertools.product((0, 1), repeat=dim):
        env.check(env.any([env.all([env.close(X[i, j], (lb, ub)[c[j]][j]) for j in range(dim)]) for i in range(2 ** dim)]), "a corner is missing")
    for i in range(2 ** dim):
        env.check(env.all([C.lor(env.close(X[i, j], lb[j]), env.close(X[i, j], ub[j])) for j in range(dim)]), "a point is not a corner")
    env.reach("end")


def refuse(env, cfg):
    from pySOT.experimental_design import TwoFactorial

    n = env.choice("n", 20) + 10
    try:
        TwoFactorial(n)
        ok = True
    except ValueError:
        ok = False
    env.check(ok == (n < 15), "two-factorial designs are refused exactly from 15 variables")
    env.reach("end")


L, SL = "LatinHypercube", "SymmetricLatinHypercube"
STRUCT = [(L, 1, 1, ()), (L, 1, 3, (0,)), (L, 2, 3, ()), (L, 2, 3, (1,)), (L, 1, 4, ()), (L, 3, 2, (0, 2)), (SL, 1, 2, ()), (SL, 1, 5, (0,)), (SL, 2, 4, ()), (SL, 2, 5, (1,)), (SL, 3, 4, (0, 1)), (SL, 2, 6, ()), (SL, 3, 5, ()), (L, 2, 2, (), True), (SL, 2, 4, (0,), True)]
SEL = [(L, 1, 2, 2, None), (L, 1, 3, 2, None), (L, 2, 2, 2, (4.0, 0.5)), (SL, 2, 3, 2, None), (SL, 2, 4, 2, None), (SL, 2, 4, 2, (7.0, 0.5)), (SL, 2, 3, 3, None), (SL, 2, 5, 2, (4.0, 3.0)), (SL, 2, 4, 2, (3.0, 1.0))]
CLAIMS = [
    Claim("structure", structure, STRUCT, STRUCT + [(L, 2, 4, (0,)), (L, 3, 3, ()), (L, 1, 5, ()), (SL, 3, 6, ()), (SL, 2, 8, ()), (SL, 4, 4, (0, 3)), (SL, 3, 7, (1,))], covers="LatinHypercube, SymmetricLatinHypercube, pyDOE2.lhs", bounds="1-3 (4) variables, 1-6 (8) points", reach=["unit", "box"]),
    Claim("selection", selection, SEL, SEL + [(L, 1, 2, 3, None), (SL, 2, 4, 3, None), (SL, 2, 6, 2, None), (SL, 2, 5, 2, None), (L, 1, 3, 3, None)], covers="_expdes_dist", bounds="1-2 variables, 2-5 (6) points, 2-3 generated designs", reach=["invalid", "selected"]),
    Claim("rank", full_rank, [(SL, 2, 4, (3, 3)), (SL, 3, 2, (3, 3, 3)), (L, 2, 1, (2, 2)), (SL, 2, 3, (2, 8)), (SL, 3, 4, (3, 3, 3)), (SL, 2, 2, None), (SL, 2, 2, (3, 5)), (SL, 3, 3, None), (SL, 3, 4, None)], [(SL, 2, 2, None), (SL, 2, 3, None), (SL, 3, 5, None), (SL, 3, 3, (2, 4, 6)), (SL, 2, 4, (3, 3)), (SL, 3, 2, (3, 3, 3)), (L, 3, 2, (2, 2, 2)), (SL, 2, 6, (5, 5)), (SL, 3, 6, (5, 5, 5))], covers="_expdes_dist", bounds="2-3 variables, 1-4 (6) points", reach=["end", "accepted", "refused"]),
    Claim("exists", exists, [(SL, n, 1) for n in (2, 3, 4, 5, 6, 7)] + [(L, 1, 1), (L, 2, 1), (L, 3, 1), (SL, 5, 3)], [(SL, n, 1) for n in range(2, 12)] + [(L, 2, 2), (L, 4, 1)], covers="_expdes_dist", bounds="one variable, 2-7 (11) points", reach=["found"]),
    Claim("corners", corners, [(1, (), False), (2, (), True), (3, (), False), (3, (0, 2), True), (2, (0, 1), True), (2, (), "int"), (3, (1,), "int")], [(4, (), False), (4, (), True), (5, (), False), (4, (0, 1, 2, 3), True)], covers="TwoFactorial", bounds="1-3 (5) variables, any bounds", reach=["end"]),
    Claim("refuse", refuse, [()], covers="TwoFactorial", bounds="10 to 29 variables", reach=["end"]),
]
ASSUMPTIONS = [REALS, "random draws are arbitrary values of their range", "numpy's matrix rank is exact; designs within 1e-4 of a rank deficiency or of a tie are left out"]
