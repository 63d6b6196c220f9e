"""C21: test problems compute their documented functions."""
from fractions import Fraction

from checks.common import *
from symx import calc
from symx.runner import Claim

PI, E = math.pi, math.e
cos, sin, exp, sqrt = C.cos, C.sin, C.exp, C.sqrt


def prod(v):
    r = v[0]
    for x in v[1:]:
        r = r * x
    return r


def at(x, n):
    return list(enumerate(x, 1))[:n]


def wmean(x):
    return sum(2.0 ** -k * cos(2 * PI * 3 ** k * (v + 0.5)) for k in range(12) for v in x) / len(x) - sum(2.0 ** -k * math.cos(PI * 3 ** k) for k in range(12))


def weier(x):
    return 10 * wmean(x) ** 3


def levy(x):
    w = [1 + (v - 1) / 4 for v in x]
    return sin(PI * w[0]) ** 2 + sum([(v - 1) ** 2 * (1 + 10 * sin(PI * v + 1) ** 2) for v in w[:-1]]) + (w[-1] - 1) ** 2 * (1 + sin(2 * PI * w[-1]) ** 2)


H3 = ([1, 1.2, 3, 3.2], [[3, 10, 30], [0.1, 10, 35], [3, 10, 30], [0.1, 10, 35]],
      [[3689, 1170, 2673], [4699, 4387, 7470], [1091, 8732, 5547], [381, 5743, 8828]])
H6 = ([1, 1.2, 3, 3.2], [[10, 3, 17, 3.5, 1.7, 8], [0.05, 10, 17, 0.1, 8, 14], [3, 3.5, 1.7, 10, 17, 8], [17, 8, 0.05, 10, 0.1, 14]],
      [[1312, 1696, 5569, 124, 8283, 5886], [2329, 4135, 8307, 3736, 1004, 9991], [2348, 1451, 3522, 2883, 3047, 6650], [4047, 8828, 8732, 5743, 1091, 381]])


def hartmann(x, t):
    return -sum(a * exp(-sum(c * (v - p * 1e-4) ** 2 for c, p, v in zip(A_, P, x))) for a, A_, P in zip(*t))


def goldstein(x):
    a, b = x
    return (1 + (a + b + 1) ** 2 * (19 - 14 * a + 3 * a ** 2 - 14 * b + 6 * a * b + 3 * b ** 2)) * (30 + (2 * a - 3 * b) ** 2 * (18 - 32 * a + 12 * a ** 2 + 48 * b - 36 * a * b + 27 * b ** 2))


REF = {
    "Ackley": lambda x: -20 * exp(-0.2 * sqrt(sum(v ** 2 for v in x) / len(x))) - exp(sum(cos(2 * PI * v) for v in x) / len(x)) + 20 + E,
    "Branin": lambda x: (x[1] - 5.1 / (4 * PI ** 2) * x[0] ** 2 + 5 / PI * x[0] - 6) ** 2 + 10 * (1 - 1 / (8 * PI)) * cos(x[0]) + 10,
    "Exponential": lambda x: sum(exp(j * v) - math.exp(-5.12 * j) for j, v in at(x, 99)),
    "GoldsteinPrice": goldstein,
    "Griewank": lambda x: 1 + sum(v ** 2 for v in x) / 4000 - prod([cos(v / math.sqrt(i)) for i, v in at(x, 99)]),
    "Hartmann3": lambda x: hartmann(x, H3),
    "Hartmann6": lambda x: hartmann(x, H6),
    "Himmelblau": lambda x: sum(v ** 4 - 16 * v ** 2 + 5 * v for v in x) / (2 * len(x)),
    "Levy": levy,
    "Michalewicz": lambda x: -sum(sin(v) * sin(i * v ** 2 / PI) ** 20 for i, v in at(x, 99)),
    "Perm": lambda x: sum(sum((j + 10) * (v ** i - (1.0 / j) ** i) for j, v in at(x, 99)) ** 2 for i in range(1, len(x) + 1)),
    "Rastrigin": lambda x: 10 * len(x) + sum(v ** 2 - 10 * cos(2 * PI * v) for v in x),
    "Rosenbrock": lambda x: sum([100 * (x[j] ** 2 - x[j + 1]) ** 2 + (1 - x[j]) ** 2 for j in range(len(x) - 1)]) + 0.0,
    "Schwefel": lambda x: 418.9829 * len(x) - sum(v * sin(sqrt(C.absolute(v))) for v in x),
    "SixHumpCamel": lambda x: (4 - 2.1 * x[0] ** 2 + x[0] ** 4 / 3) * x[0] ** 2 + x[0] * x[1] + (4 * x[1] ** 2 - 4) * x[1] ** 2,
    "Sphere": lambda x: sum(v ** 2 for v in x),
    "SumOfSquares": lambda x: sum(i * v ** 2 for i, v in at(x, 99)),
    "Weierstrass": weier,
    "Zakharov": lambda x: sum(v ** 2 for v in x) + sum(0.5 * i * v for i, v in at(x, 99)) ** 2 + sum(0.5 * i * v for i, v in at(x, 99)) ** 4,
}
FIXED = {"Branin": 2, "GoldsteinPrice": 2, "Hartmann3": 3, "Hartmann6": 6, "SixHumpCamel": 2}
# documented domains
BOX = {"Ackley": (-15, 20), "Exponential": (-5.12, 5.12), "Griewank": (-512, 512), "Michalewicz": (0, PI), "Rastrigin": (-5.12, 5.12), "Rosenbrock": (-2.048, 2.048),
       "Schwefel": (-512, 512), "Sphere": (-5.12, 5.12), "Branin": ((-5, 0), (10, 15)), "Hartmann3": (0, 1), "Hartmann6": (0, 1)}
# documented minimum and minimizer
MIN = {"Ackley": (0, 0), "Branin": (0.397887, (-PI, 12.275)), "Exponential": (0, -5.12), "GoldsteinPrice": (3, (0, -1)), "Griewank": (0, 0),
       "Hartmann3": (-3.86278, (0.114614, 0.555649, 0.852547)), "Hartmann6": (-3.32237, (0.20169, 0.150011, 0.476874, 0.275332, 0.311652, 0.6573)),
       "Himmelblau": (-39.166166, -2.903534), "Levy": (0, 1), "Perm": (0, None), "Rastrigin": (0, 0), "Rosenbrock": (0, 1), "Schwefel": (0, 420.968746),
       "SixHumpCamel": (-1.0316, (0.0898, -0.7126)), "Sphere": (0, 0), "SumOfSquares": (0, 0), "Weierstrass": (0, 0), "Zakharov": (0, 0)}


def problem(kind, dim):
    from pySOT import optimization_problems as P

    return getattr(P, kind)(*([] if kind in FIXED else [dim]))


class Rounded(calc.Field):
    """Coefficients inside the arguments of functions are compared up to rounding errors."""

    def key(self, kind, p):
        top = max([abs(c) for c in p.values()] or [0])
        if kind == "cos" and sum(p.values()) < 0:  # even
            p = {m: -c for m, c in p.items()}
        k = "%s(%s)" % (kind, sorted((repr(m), "%.9e" % float(c)) for m, c in p.items() if abs(c) > top * Fraction(1, 10 ** 13)))
        self.args[k] = (kind, p)
        return k


def tiny(p, parts):
    """Only coefficients that rounding explains."""
    scale = {}
    for q in parts:
        for m, c in q.items():
            scale[m] = max(scale.get(m, 1), abs(c))
    return {m: c for m, c in p.items() if abs(c) > scale[m] * Fraction(1, 10 ** 9)}


def spread(v):
    return 1e-6 * max(1.0, abs(v))


def formula(env, cfg):
    kind, dim = cfg
    p = problem(kind, dim)
    lb, ub = p.lb, p.ub
    x = [env.real("x", float(lb[j]), float(ub[j])) for j in range(dim)]
    a = env.arr(x)
    v = p.eval(a)
    same(env, a, env.arr(x), "the evaluation modifies its argument")
    env.check(np.shape(v) == (), "the value is not a number")
    want = REF[kind](x)
    msg = "%s does not compute its documented formula" % kind
    if not env.symbolic:
        env.check(abs(float(v) - float(want)) <= spread(float(want)), msg + " (%r instead of %r)" % (float(v), float(want)))
        return
    F = Rounded(env.path)
    try:
        pv, pw = F.poly(v), F.poly(want)
        d = F.add(pv, pw, -1)
    except calc.Unsupported as e:
        raise C.EngineLimit("formula: %s" % e)
    d = tiny(d, [pv, pw])
    # what remains of the difference: the solver looks for a value of the functions (within their ranges) and a point where it is not zero
    gens, total = {}, C.z3.RealVal(0)
    names = {str(t.e): t.e for t in x}
    for m, c in d.items():
        t = C.z3.Q(c.numerator, c.denominator)
        for g, k in m:
            if g not in gens:
                gens[g] = names[g] if g in names else C.z3.FreshReal("g")
                kd = F.args.get(g, ("",))[0]
                if kd in ("cos", "sin"):
                    env.path.define(C.z3.And(gens[g] >= -1, gens[g] <= 1))
                elif kd in ("exp", "sqrt", "inv"):
                    env.path.define(gens[g] > 0)
            for _ in range(abs(k)):
                t = t * gens[g] if k > 0 else t / gens[g]
        total = total + t
    if d:
        # a generic point shows the difference unless it is confined to a part of the box
        k = env.choice("where", 5)
        for j in range(dim):
            if k:
                env.assume(C.eq(x[j], C.frac(float(lb[j])) + C.frac(float(ub[j] - lb[j])) * Fraction((37 * k + 23 * j * k + 11) % 97, 97)))
    env.check(C.land(C.le(C.mk(total), 1e-6), C.ge(C.mk(total), -1e-6)), msg)
    env.reach("end")


def lengths(env, cfg):
    kind, dim = cfg
    p = problem(kind, dim)
    n = env.choice("length", dim + 3)
    if n == dim:
        return
    a = env.arr([env.real("x", -5, 5) for _ in range(n)])
    try:
        p.eval(a)
    except ValueError:
        env.check(True, "")
        env.reach("rejected")
        return
    env.check(False, "%s accepts a point of the wrong length" % kind)


def valid(env, cfg):
    """Concrete attributes, for every dimension in the bound."""
    from pySOT.utils import check_opt_prob

    (kind,) = cfg
    dim = FIXED.get(kind) or 1 + env.choice("dim", 12)
    p = problem(kind, dim)
    env.check(p.dim == dim, "the dimension is wrong")
    check_opt_prob(p)
    env.check(len(p.int_var) == 0 and list(p.cont_var) == list(range(dim)), "the variables are not all continuous")
    if kind in BOX:
        lo, hi = BOX[kind]
        env.check(np.allclose(p.lb, lo, rtol=1e-9) and np.allclose(p.ub, hi, rtol=1e-9), "the bounds are not the documented ones")
    if kind in MIN:
        f, x = MIN[kind]
        x = 1.0 / np.arange(1, dim + 1) if x is None else x
        m = np.array(p.minimum, dtype=float)
        env.check(m.shape == (dim,) and np.allclose(m, x, atol=1e-3) and abs(p.min - f) <= 1e-4 * max(1, abs(f)), "the minimizer or minimum is not the documented one")
        env.check(bool(np.all(m >= np.array(p.lb) - 1e-9) and np.all(m <= np.array(p.ub) + 1e-9)), "the minimizer lies outside the bounds")
        w = float(p.eval(m.copy()))
        env.check(abs(w - p.min) <= 1e-4 * max(1, abs(p.min)) * dim, "the value at the minimizer is %r, not the stated minimum %r" % (w, p.min))
    env.reach("end")


def golden(x):
    s, t = x[0] + x[1], 2 * x[0] - 3 * x[1]
    return [(1 + (s + 1) ** 2 * (3 * s ** 2 - 14 * s + 19), 1), (30 + t ** 2 * (3 * t ** 2 - 16 * t + 18), 3)], prod


SPLIT = {
    "Weierstrass": lambda x: ([(wmean(x), -1e-6)], lambda t: 10 * t[0] ** 3),
    "GoldsteinPrice": golden,
    "Perm": lambda x: ([(sum((j + 10) * (v ** i - (1.0 / j) ** i) for j, v in at(x, 99)) ** 2, 0) for i in range(1, len(x) + 1)], sum),
    "Schwefel": lambda x: ([(0 - v * sin(sqrt(C.absolute(v))), -418.98291) for v in x], lambda t: sum(t) + 418.9829 * len(t)),
}


def below(env, cfg):
    """No point of the box has a smaller value than the stated minimum."""
    kind, dim = cfg
    p = problem(kind, dim)
    x = [env.real("x", float(p.lb[j]), float(p.ub[j])) for j in range(dim)]
    v = p.eval(env.arr(x))
    tol = 1e-4 * max(1, abs(p.min)) * dim
    msg = "%s has a value below its stated minimum" % kind
    if not env.symbolic:
        env.check(float(v) >= float(p.min) - tol, msg + " (%r)" % float(v))
        return
    z3 = C.z3
    add = env.path.define
    terms = [(n, ts[0], env.path.uf_seen[o]) for o, (n, ts) in env.path.uf_terms.items()]
    # facts about the functions that hold for every argument
    for n, t, e in terms:
        if n == "exp":
            for c in [1] + [-5.12 * j for j in range(1, dim + 1)]:
                c = C.frac(float(c))
                y = C.frac(float(np.exp(float(c))))
                slack = Fraction(1, 10 ** 12)
                q = lambda f: z3.Q(f.numerator, f.denominator)
                add(z3.Implies(t <= q(c), e <= q(y * (1 + slack))))
                add(z3.Implies(t >= q(c), e >= q(y * (1 - slack))))
        if n == "sin" and kind == "Schwefel":
            w = t - C.zr(13 * PI / 2)  # sin(t) = cos(w) up to 1e-14; Taylor bounds of the cosine
            s = w * w
            add(z3.And(e <= 1 - s / 2 + s * s / 24 + z3.Q(1, 10 ** 9), e >= 1 - s / 2 + s * s / 24 - s * s * s / 720 - z3.Q(1, 10 ** 9)))
    if kind in SPLIT:  # the same value as a combination of simpler parts, each with a bound of its own
        parts, join = SPLIT[kind](x)
        try:
            F = Rounded(env.path)
            pv, pj = F.poly(v), F.poly(join([t for t, b in parts]))
            same_ = not tiny(F.add(pv, pj, -1), [pv, pj])
        except calc.Unsupported:
            same_ = False
        if same_:
            new = []
            for t, b in parts:
                y = C.mk(z3.FreshReal("part"))
                env.check(C.ge(t, b), msg)
                add(y.e >= C.zr(b))
                new.append(y)
            v = join(new)
    env.le(float(p.min) - tol, v, msg, tol=0)
    env.reach("end")


VAR = [k for k in REF if k not in FIXED]
FORM = [(k, FIXED[k]) for k in FIXED] + [(k, d) for k in VAR for d in (1, 2, 3, 4)]
FORMT = FORM + [(k, d) for k in VAR for d in (5, 6, 10) if (k, d) != ("Perm", 10)]
BELOW = [(k, FIXED.get(k) or d) for k in MIN if not k.startswith('Hart') for d in ((1,2,3) if k not in FIXED else (2,))]
BELOWT = BELOW + [(k, d) for k in MIN if k not in FIXED for d in (4, 5)]
CLAIMS = [
    Claim("formula", formula, FORM, FORMT, covers="eval of every problem", bounds="any point of the box, 1-4 (10) variables", query_ms=5000, reach=["end"]),
    Claim("lengths", lengths, FORM, FORM + [(k, 6) for k in VAR], covers="__check_input__", bounds="any point with another number of variables, up to two more", reach=["rejected"]),
    Claim("attributes", valid, [(k,) for k in REF], covers="problem attributes", bounds="1-12 variables", reach=["end"]),
    Claim("minimum", below, BELOW, BELOWT, covers="eval, min, lb, ub", bounds="any point of the box, 1-3 (5) variables; not for the Hartmann functions", query_ms=40000, path_s=120, reach=["end"]),
]
ASSUMPTIONS = [REALS, "cosine, sine and exponential are uninterpreted in the formulas: arguments are compared as polynomials, coefficients up to rounding (1e-9)"]
