"""C16: surrogates always answer from all the data added since the last reset."""
from checks.common import *
from checks.models import *
from symx.runner import Claim

GRID = [[-2.5, 1.25, 3.0], [4.0, 2.0, 7.5], [0.5, 1.0, 0.0], [1.75, 2.25, 9.0], [-1.0, 1.5, 5.0], [3.25, 1.75, 1.0], [2.5, 2.5, 6.0], [-3.0, 2.125, 8.0], [5.0, 1.375, 4.0], [0.125, 1.875, 2.0], [1.0, 1.0625, 7.0], [-0.5, 2.375, 6.5]]


def spaced(lb, ub, X):
    return [[C.div(C.sub(r[j], lb[j]), ub[j] - lb[j]) for j in range(len(lb))] for r in X]


def history(env, cfg):
    kind, dim, n, ints = cfg + (False,) * (4 - len(cfg))
    lib = Lib(env)
    calls = []

    def transformation(y):
        calls.append(y.copy())
        for i in np.ndindex(*y.shape):  # in place: only a copy of the data may be given to it
            y[i] = C.add(C.mul(y[i], 2.0), 1.0)
        return y

    s = lib.make(kind, dim, transformation, ints)
    lb, ub = bounds(dim, ints)
    X, F, stale, k = [], [], True, 0
    rbf = kind == "RBFInterpolant"
    need = dim + 1 if rbf else 1
    used = 0

    def point():
        nonlocal used
        used += 1
        if ints and used % 2:  # every other point has integral coordinates
            return [int(lb[j]) + (used // 2 * (3 + j)) % 5 for j in range(dim)]
        if rbf:
            return GRID[(used - 1) % len(GRID)][:dim]
        return [env.real("x", lb[j], ub[j]) for j in range(dim)]

    def value():
        return env.real("f", -10, 10)

    def add(k):
        nonlocal stale
        before = len(calls), len(lib.fits), len(lib.queries)
        if k == 0:  # one point, one number
            x, f = point(), value()
            ax, af = (env.arr(x), f) if not env.symbolic else (env.arr(x), f)
            s.add_points(ax, np.float64(f) if not C.is_sym(f) else f)
            new, vals = [x], [f]
        elif k == 1:  # several points, a vector of values
            new = [point() for _ in range(2)]
            vals = [value() for _ in range(2)]
            ax, af = env.arr(new), env.arr(vals)
            s.add_points(ax, af)
        elif k == 2:  # one point as a row, a column of values
            new, vals = [point()], [value()]
            ax, af = env.arr(new), env.arr([vals])
            s.add_points(ax, af)
        elif k == 3:  # several points, a column of values
            new = [point() for _ in range(3)]
            vals = [value() for _ in range(3)]
            ax, af = env.arr(new), env.arr([[v] for v in vals])
            s.add_points(ax, af)
        elif k == 5:  # arrays of integers
            new, vals = [point()], [3 + used]
            if not all(isinstance(v, int) for v in new[0]):
                new = [point()]
            ax, af = np.array(new, dtype=int), np.array(vals, dtype=int)
            s.add_points(ax, af)
        else:  # a zero-dimensional array
            new, vals = [point()], [value()]
            ax = env.arr(new)
            af = env.arr(vals).reshape(())
            s.add_points(ax, af)
        X.extend([list(r) for r in new])
        F.extend(vals)
        for i in np.ndindex(*ax.shape):  # the caller goes on using its arrays
            ax[i] = 77.0
        if k in (1, 2, 3, 5):
            for i in np.ndindex(*af.shape):
                af[i] = 77.0
        env.check((len(calls), len(lib.fits), len(lib.queries)) == before, "adding points refits the model")
        env.check(not s.updated, "the model is taken for up-to-date after points were added")
        stale = True

    def ask(k):
        nonlocal stale
        if len(X) < need:
            return
        q = [[env.real("q", lb[j], ub[j]) for j in range(dim)] for _ in range(1 if k == 0 else 2)] if not rbf else [[0.25 * (i + 1) + lb[j] for j in range(dim)] for i in range(1 if k == 0 else 2)]
        aq = env.arr(q[0]) if k == 0 else env.arr(q)
        qs = aq.copy()
        before = len(calls), len(lib.fits), len(lib.queries)
        if k == 2:
            p = s.predict_std(aq)
        else:
            p = s.predict(aq)
        same(env, aq, qs, "the query is modified")
        shape(env, p, (len(q), 1), "the prediction")
        env.check(len(calls) - before[0] == int(stale), "the values are not transformed exactly once per refit")
        if stale:
            c = calls[-1]
            env.check(np.shape(c) == (len(F), 1), "the transformation does not get a column with one value per point")
            env.check(env.all([C.eq(a, b) for a, b in zip(flat(c), F)]), "the transformation does not get the values in order")
        if not rbf:
            env.check(len(lib.fits) - before[1] == int(stale), "the model is not refitted exactly when points were added")
            _, fx, fy = lib.fits[-1]
            want = spaced(lb, ub, X)
            env.check(np.shape(fx) == (len(X), dim), "the model is not fitted to all points")
            for i in range(len(X)):
                for j in range(dim):
                    env.eq(fx[i, j], want[i][j], "the model is not fitted to the points scaled to the unit box")
            env.check(len(flat(fy)) == len(F), "the model is not fitted to all values")
            if kind != "GPRegressor":
                for a, b in zip(flat(fy), F):
                    env.eq(a, C.add(C.mul(b, 2.0), 1.0), "the model is not fitted to the transformed values")
            env.check(len(lib.queries) - before[2] == 1, "the model is not asked once")
            qx, m, sd = lib.queries[-1]
            wq = spaced(lb, ub, q)
            env.check(np.shape(qx) == (len(q), dim), "the model is not asked at all queries")
            for i in range(len(q)):
                for j in range(dim):
                    env.eq(qx[i, j], wq[i][j], "the model is not asked at the queries scaled to the unit box")
            if kind != "GPRegressor":
                for a, b in zip(flat(p), flat(m)):
                    env.eq(a, b, "the prediction is not the model's")
        else:
            fresh = lib.make(kind, dim, lambda y: y * 2.0 + 1.0, ints)
            fresh.add_points(env.arr(X), env.arr([[f] for f in F]))
            w = fresh.predict(env.arr(q))
            for a, b in zip(flat(p), flat(w)):
                env.eq(a, b, "the prediction is not that of a new model with the same data", 1e-5)
        env.check(s.updated, "the model is not up-to-date after a prediction")
        env.reach("refit" if stale else "reuse")
        stale = False

    adds = asks = 0
    for i in range(n):
        op = env.choice("op", 3)
        if op == 0:
            forms = 6 if ints else 5
            add((adds + env.choice("first", forms) if adds == 0 and i == 0 else adds) % forms)
            adds += 1
        elif op == 1:
            forms = 3 if kind == "GPRegressor" else 2
            if asks == 0:
                start = env.choice("form", forms)
            ask((start + asks) % forms)
            asks += 1
        else:
            s.reset()
            X, F, stale = [], [], True
            env.check(not s.updated, "the model is taken for up-to-date after a reset")
            env.reach("reset")
        env.check(s.num_pts == len(X), "the number of points is wrong")
        env.check(np.shape(s.X) == (len(X), dim) and np.shape(s.fX) == (len(X), 1), "the stored data have the wrong shape")
        env.check(env.all([C.eq(a, b) for a, b in zip(flat(s.X), [v for r in X for v in r])]), "the stored points are not those added, in order")
        env.check(env.all([C.eq(a, b) for a, b in zip(flat(s.fX), F)]), "the stored values are not those added, in order")
    if len(X) >= need:
        ask(1)
    elif not X and adds and asks:
        before = len(lib.fits)
        if rbf:
            try:
                lib.make(kind, dim).predict(env.arr([[lb[j] for j in range(dim)]]))
                return  # a new model answers, too
            except (ValueError, AssertionError, IndexError, TypeError, ZeroDivisionError):
                pass
        try:
            s.predict(env.arr([[lb[j] for j in range(dim)]]))
        except (ValueError, AssertionError, IndexError, TypeError, ZeroDivisionError):
            return
        env.check(not rbf and len(lib.fits) > before and len(lib.fits[-1][1]) == 0, "a model without data answers from what was there before the reset")
        env.reach("empty")


KINDS = ["GPRegressor", "PolyRegressor", "MARSInterpolant", "RBFInterpolant"]
CLAIMS = [Claim("history", history, [(k, d, n) for k, n in zip(KINDS, (4, 5, 5, 5)) for d in (1, 2)] + [(k, 2, 4, True) for k in KINDS], [(k, d, n) for k, n in zip(KINDS, (5, 7, 7, 7)) for d in (1, 2, 3)] + [(k, 3, 6, True) for k in KINDS],
                covers="Surrogate, GPRegressor, PolyRegressor, MARSInterpolant, RBFInterpolant", bounds="up to 5 (7) additions, predictions and resets in any order, 1-2 (3) variables", reach=["refit", "reuse", "reset"])]
ASSUMPTIONS = [REALS, "scikit-learn and pyearth are arbitrary models (their fit and predict are replaced); RBF points are taken from a fixed set, with arbitrary values"]
