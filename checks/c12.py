"""C12: non-dominated fronts and ranks are exact."""
from checks.common import *
from symx.runner import Claim


def dominates(env, F, a, b):
    return env.all([C.lt(F[i, a], F[i, b]) for i in range(F.shape[0])])


def peel(env, F, idx):
    """Indices of idx that no other of them strictly beats in all objectives."""
    return [j for j in idx if not bool(env.any([dominates(env, F, k, j) for k in idx if k != j]))]


def ints(xs):
    return [int(x) for x in (flat(xs) if isinstance(xs, np.ndarray) else xs)]


def points(env, M, N, free):
    """All points arbitrary, or (for larger sets) only those at the given positions, among given ones with ties."""
    if free is None:
        return env.array("F", (M, N), -10, 10)
    F = np.array([[float((7 * j * j + 5 * j * (i + 1) + 3 * i) % (N + 3) - N // 2) / 2 if i else float((5 * j) % (N + 2)) / 2 for j in range(N)] for i in range(M)], dtype=object)
    for j in free:
        F[:, j] = list(env.array("p", M, -10, 10))
    return env.arr(F)


def front(env, cfg):
    from pySOT.utils import nd_front

    M, N = cfg[:2]
    F = points(env, M, N, *cfg[2:] or (None,))
    F0 = F.copy()
    nd, df = nd_front(F)
    same(env, F, F0, "nd_front modifies its input")
    nd, df = ints(nd), ints(df)
    env.check(sorted(nd + df) == list(range(N)), "a point is missing or reported twice")
    env.check(sorted(nd) == peel(env, F0, range(N)), "the front is not the set of points that no other point beats in all objectives")
    env.reach("front %d" % min(len(df), 1))


def sorting(env, cfg):
    from pySOT.utils import nd_sorting

    M, N, nmax = cfg[:3]
    F = points(env, M, N, *cfg[3:] or (None,))
    F0 = F.copy()
    r = nd_sorting(F, nmax)
    same(env, F, F0, "nd_sorting modifies its input")
    r = flat(np.asarray(r, dtype=object) if isinstance(r, list) else r)
    env.check(len(r) == N, "not one rank per point")
    left, k, count, want = list(range(N)), 1, 0, {}
    while left:
        f = peel(env, F0, left)
        for j in f:
            want[j] = k if count < nmax else np.inf
        count += len(f)
        left = [j for j in left if j not in f]
        k += 1
    for j in range(N):
        env.check(bool(r[j] == want[j]), "a rank is wrong")
    env.reach("rank %s" % max(v for v in want.values()))


def dominance(env, cfg):
    from pySOT.utils import domination

    a, b = env.array("a", cfg, -10, 10), env.array("b", cfg, -10, 10)
    env.check(C.eq(C.ite(domination(a, b), 1, 0), C.ite(env.all([C.lt(x, y) for x, y in zip(flat(a), flat(b))]), 1, 0)), "domination is not being smaller in all objectives")
    env.reach("end")


FR = [(1, 1), (2, 1), (1, 3), (2, 2), (2, 3), (2, 4), (3, 3), (1, 4)]
SO = [(2, 1, 5), (2, 2, 1), (2, 3, 10), (2, 3, 1), (2, 3, 2), (1, 3, 2), (2, 4, 10), (2, 4, 2), (3, 3, 5), (2, 4, 1), (2, 2, 0), (1, 4, 3)]
FL = [(2, 9, (0,)), (2, 9, (4,)), (2, 12, (11,)), (3, 10, (5,)), (1, 8, (2,)), (2, 7, (3, 6))]
SL = [(2, 9, 20, (8,)), (2, 10, 4, (0,)), (2, 12, 7, (6,)), (3, 9, 3, (2,)), (2, 7, 10, (1, 6))]
CLAIMS = [
    Claim("front", front, FR + FL + [(3, 4), (2, 5)], FR + FL + [(3, 4), (2, 5), (3, 5), (2, 6), (2, 25, (12,)), (3, 20, (19,)), (2, 10, (2, 9)), (2, 8, (0, 3, 7))], covers="nd_front, nd_add, domination", bounds="up to 5 (thorough 6) points with any values, or up to 12 (25) points of which 1-2 (3) have any values, 1-3 objectives", reach=["front 0", "front 1"]),
    Claim("sorting", sorting, SO + SL + [(3, 4, 3), (2, 5, 10), (2, 5, 3)], SO + SL + [(3, 4, 3), (2, 5, 10), (2, 5, 3), (3, 5, 10), (2, 6, 10), (2, 6, 4), (2, 25, 30, (24,)), (2, 25, 12, (3,)), (2, 10, 5, (4, 9))], covers="nd_sorting", bounds="up to 5 (thorough 6) points with any values, or up to 12 (25) points of which 1-2 have any values, 1-3 objectives, any cut-off", reach=["rank 1", "rank 2", "rank 3", "rank inf"]),
    Claim("domination", dominance, [1, 2, 3], [1, 2, 3, 4], covers="domination", bounds="1-3 (4) objectives", reach=["end"]),
]
ASSUMPTIONS = ["real arithmetic (only comparisons are used)"]
