"""C11: the genetic algorithm returns the best individual it ever evaluated."""
from checks.cand import *
from symx.runner import Claim


class Objective:
    """An arbitrary function: equal points have equal values."""

    def __init__(self, env, dim, column, lo=-10, hi=10):
        self.env, self.dim, self.column, self.lo, self.hi = env, dim, column, lo, hi
        self.calls, self.rows = [], []

    def __call__(self, x):
        env = self.env
        x = np.atleast_2d(x)
        self.calls.append(len(x))
        vals = []
        for i in range(len(x)):
            r = [x[i, j] for j in range(self.dim)]
            v = env.real("f", self.lo, self.hi)
            for r0, v0 in self.rows:
                env.assume(env.implies(env.all([C.eq(a, b) for a, b in zip(r, r0)]), C.eq(v, v0)))
            self.rows.append((r, v))
            vals.append(v)
        return env.arr([[v] for v in vals] if self.column else vals)


def verdict(env, b, f, g, pop, gen, x, v):
    n = pop + pop % 2
    env.check(f.calls == [n] * (gen + 1), "not exactly one (rounded) population is evaluated per generation")
    for r, _ in f.rows:
        b.feasible(env, [r] if False else env.arr([r]), "an individual")
    x = flat(x)
    env.check(len(x) == b.dim, "the returned point has the wrong length")
    vs = flat(v) if isinstance(v, np.ndarray) else [v]
    env.check(len(vs) == 1, "the returned value is not one value")
    v = vs[0]
    env.check(env.any([env.all([C.eq(a, c) for a, c in zip(x, r)] + [C.eq(v, w)]) for r, w in f.rows]), "the returned value is not the objective at the returned point")
    for r, w in f.rows:
        env.check(C.le(v, w), "an evaluated individual is better than the returned one")
    env.reach("end")


def ga(env, b, f, pop, gen, start, tournament, extreme):
    from pySOT.utils import GeneticAlgorithm

    g = GeneticAlgorithm(f, b.dim, b.lb, b.ub, int_var=np.array(b.int_var, dtype=int), pop_size=pop, num_gen=gen, start=start)
    g.tournament_size = tournament
    env.randn_range = (-4, 4)
    env.extreme = extreme
    return g


def run(env, cfg):
    dim, iv, pop, gen, start, tournament, extreme, column, ints = cfg + (False,) * (9 - len(cfg))
    b = Box(env, dim, iv, 1, fixed="int" if ints else True)
    f = Objective(env, dim, column)
    if start in ("SLHD", "LHD"):
        from pySOT import experimental_design as D

        class Stub:
            def __init__(self, dim_, num_pts, iterations=1000):
                self.dim, self.num_pts = dim_, num_pts

            def generate_points(self, lb=None, ub=None, int_var=None):
                lo = np.zeros(self.dim) if lb is None else lb
                hi = np.ones(self.dim) if lb is None else ub
                return env.array("design", (self.num_pts, self.dim), list(lo), list(hi))

        patch_everywhere(env, {"SLHD": D.SymmetricLatinHypercube, "LHD": D.LatinHypercube}[start], Stub)
    g = ga(env, b, f, pop, gen, start, tournament, extreme)
    x, v = g.optimize()
    env.extreme = None
    verdict(env, b, f, g, pop, gen, x, v)


def given(env, cfg):
    """An initial population is accepted exactly when it has the right size and lies in the box; it is not modified."""
    dim, iv, pop, rows, cols, inside, extreme = cfg
    b = Box(env, dim, iv, 1, fixed=True)
    f = Objective(env, dim, False)
    n = pop + pop % 2
    k = min(cols, dim)
    lo, hi = list(b.lb[:k]) + [0.0] * (cols - k), list(b.ub[:k]) + [1.0] * (cols - k)
    P = np.array([[int(l) + i % 2 for l in lo] for i in range(rows)]) if inside == "int" else env.array("P", (rows, cols), lo, hi) if inside else env.array("P", (rows, cols), -10, 10)
    P0 = P.copy()
    g = ga(env, b, f, pop, 1, P, 1, extreme)
    try:
        x, v = g.optimize()
        env.extreme = None
        ok = True
    except (ValueError, IndexError):
        env.extreme = None
        ok = False
        env.check(not f.calls, "an initial population is refused only after the search has begun")
    same(env, P, P0, "the initial population is modified")
    if (rows, cols) != (n, dim):
        env.check(not ok, "an initial population of the wrong size is accepted")
        env.reach("size")
        return
    valid = env.all([C.land(C.le(b.lb[j], P0[i, j]), C.le(P0[i, j], b.ub[j])) for i in range(rows) for j in range(cols)])
    if not ok:
        env.check(C.lnot(valid), "a valid initial population is rejected")
        env.reach("rejected")
        return
    env.check(valid, "an initial population outside the bounds is accepted")
    if not iv:  # it is the first population
        for i in range(rows):
            env.check(env.any([env.all([C.eq(P0[i, j], f.rows[k][0][j]) for j in range(dim)]) for k in range(rows)]), "an individual of the initial population is not evaluated")
    verdict(env, b, f, g, pop, 1, x, v)
    env.reach("accepted")


def unknown(env, cfg):
    b = Box(env, 1, (), 1, fixed=True)
    f = Objective(env, 1, False)
    for start in cfg:
        try:
            ga(env, b, f, 2, 1, start, 1, "low").optimize()
            env.check(False, "an unknown kind of initial population is accepted")
        except ValueError:
            env.reach("refused")
    env.check(True, "refused")


RUN = [(1, (), 2, 1, "Random", 2, None, False), (1, (0,), 2, 2, "Random", 1, None, True), (2, (1,), 2, 1, "SLHD", 2, "low", True), (2, (), 3, 1, "LHD", 1, "high", False), (1, (), 1, 2, "Random", 2, "low", False), (1, (0,), 2, 1, "SLHD", 2, None, False),
       (2, (0, 1), 2, 1, "Random", 1, None, False), (1, (), 2, 3, "Random", 1, "high", True), (1, (), 4, 1, "Random", 2, "low", True), (2, (1,), 2, 1, "Random", 1, "low", True, True), (2, (), 2, 1, "SLHD", 1, None, False, True)]
GIV = [(1, (), 2, 2, 1, False, "low"), (2, (), 2, 2, 2, True, None), (1, (0,), 2, 2, 1, False, "high"), (2, (), 3, 4, 2, True, "low"), (2, (), 2, 3, 2, True, None), (2, (), 2, 2, 3, True, None), (2, (1,), 3, 3, 2, True, None), (2, (), 2, 2, 1, True, None), (2, (0, 1), 2, 2, 2, False, "low"), (2, (), 2, 2, 2, "int", None), (2, (1,), 2, 2, 2, "int", "low")]
CLAIMS = [
    Claim("best", run, RUN, RUN + [(2, (1,), 2, 2, "Random", 2, None, False), (1, (), 4, 2, "LHD", 1, "low", False), (2, (), 2, 3, "SLHD", 1, None, False), (1, (0,), 2, 3, "Random", 2, None, True)], covers="GeneticAlgorithm.optimize", bounds="1-2 variables, populations of 2-4, 1-3 generations, any objective, any draws (normal ones within 4 deviations)", reach=["end"]),
    Claim("initial", given, GIV, GIV + [(1, (), 4, 4, 1, False, "low"), (2, (), 4, 4, 2, True, "high"), (2, (0,), 2, 2, 2, False, "low"), (1, (), 5, 5, 1, True, None), (1, (), 5, 6, 1, True, "low")], covers="initial populations given by the caller", bounds="1-2 variables, 2-4 (6) individuals", reach=["size", "rejected", "accepted"]),
    Claim("unknown", unknown, [("Foo", "slhd")], [("Foo", "slhd")], covers="unknown start", bounds="two names", reach=["refused"]),
]
ASSUMPTIONS = [REALS, "the experimental designs used for the first population are arbitrary (C14)"]
