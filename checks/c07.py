"""C07: candidates are chosen by weighted merit, never too close to known points."""
from checks.cand import *
from symx.runner import Claim


def oracle(env, cand, pred, known, weights, dtol, new, dist, picked=()):
    """new must be, one after the other, minimizers of w*s + (1-w)*(1-d) over the admissible candidates."""
    n = len(cand)
    lo, hi = env.minimum(pred), env.maximum(pred)
    flat_pred = bool(C.eq(lo, hi))
    s = [np.float64(1.0)] * n if flat_pred else [(p - lo) / (hi - lo) for p in pred]
    chosen = []
    for i in range(len(new)):
        d = []
        for j in range(n):
            v = env.minimum([dist(cand[j], k) for k in known] + [dist(cand[j], cand[c]) for c in chosen])
            d.append(v)
        dlo, dhi = env.minimum(d), env.maximum(d)
        flat_d = bool(C.eq(dlo, dhi))
        r = [np.float64(1.0)] * n if flat_d else [(v - dlo) / (dhi - dlo) for v in d]
        adm = [j for j in range(n) if j not in chosen and bool(C.ge(d[j], dtol))]
        if not adm:
            env.reach("none admissible")
            env.check(env.any([rows_equal(env, new[i], c) for c in cand]), "a returned point is not a candidate")
            return
        w = weights[i]
        m = [w * s[j] + (1.0 - w) * (1.0 - r[j]) for j in range(n)]
        is_j = [rows_equal(env, new[i], cand[j]) for j in range(n)]
        if not bool(env.any([is_j[j] for j in adm])):
            env.check(False, "a returned point is closer than the minimum distance, already chosen, or no candidate, although an admissible one remains")
        env.check(env.any([env.all([is_j[j]] + [env.leq(m[j], m[k], 1e-6) for k in adm]) for j in adm]), "a returned point does not minimize the weighted merit")
        nxt = [j for j in adm if bool(is_j[j])]
        chosen.append(nxt[0])
        env.reach("chosen %d" % min(i, 1))


def direct(env, cfg):
    """weighted_distance_merit on given candidates (concrete positions, arbitrary predictions, weights, tolerance)."""
    from pySOT.auxiliary_problems.candidate_srbf import weighted_distance_merit

    dim, pos, X, P, num, wts, vary = cfg
    cand = np.array(pos, dtype=float).reshape(-1, dim)
    Xa = np.array(X, dtype=float).reshape(-1, dim)
    Pa = None if P is None else np.array(P, dtype=float).reshape(-1, dim)
    n = len(cand)
    pred = env.array("pred", (n, 1), -4, 4)
    p0 = pred.copy()
    s = Surr(env, dim, lambda xx: pred.copy())
    w = [env.real("w%d" % i, 0, 1) if x is None else x for i, x in enumerate(wts)]
    dtol = env.real("dtol", 0, 1.5) if vary else 0.25
    cand_in = cand.copy()
    fX = np.zeros((len(Xa), 1))
    new = weighted_distance_merit(num_pts=num, surrogate=s, X=Xa, fX=fX, cand=cand_in, weights=w, Xpend=Pa, dtol=dtol)
    shape(env, new, (num, dim), "weighted_distance_merit")
    known = [list(r) for r in Xa] + ([list(r) for r in Pa] if Pa is not None else [])
    dist = lambda a, b: np.float64(np.sqrt(sum((float(x) - float(y)) ** 2 for x, y in zip(a, b))))
    oracle(env, [list(r) for r in cand], flat(p0), known, w, dtol, [list(new[i, :]) for i in range(num)], dist)


def moving(env, cfg):
    """Arbitrary candidate and data positions (one variable), concrete predictions and weights."""
    from pySOT.auxiliary_problems.candidate_srbf import weighted_distance_merit

    n, nX, npend, num, preds, wts = cfg
    cand = env.array("cand", (n, 1), 0, 1)
    X = env.array("X", (nX, 1), 0, 1)
    P = env.array("P", (npend, 1), 0, 1) if npend else None
    s = Surr(env, 1, lambda xx: np.array(preds, dtype=float).reshape(-1, 1))
    dtol = 0.125
    env.cdist = lambda a, b: A.wrap(np.array([[C.absolute(C.sub(x[0], y[0])) for y in A._obj(b)] for x in A._obj(a)], dtype=object), "f")
    c0 = cand.copy()
    new = weighted_distance_merit(num_pts=num, surrogate=s, X=X, fX=np.zeros((nX, 1)), cand=cand, weights=list(wts), Xpend=P, dtol=dtol)
    known = [[X[i, 0]] for i in range(nX)] + [[P[i, 0]] for i in range(npend)]
    for k in known:  # away from exact ties with the tolerance
        for j in range(n):
            env.assume(C.gt(C.absolute(C.absolute(c0[j, 0] - k[0]) - dtol), 1e-6))
    for i in range(n):
        for j in range(i):
            env.assume(C.gt(C.absolute(C.absolute(c0[j, 0] - c0[i, 0]) - dtol), 1e-6))
            env.assume(C.gt(C.absolute(c0[j, 0] - c0[i, 0]), 1e-6))
    oracle(env, [[c0[j, 0]] for j in range(n)], [np.float64(p) for p in preds], known, [np.float64(w) for w in wts], dtol, [list(new[i, :]) for i in range(num)],
           lambda a, b: C.absolute(a[0] - b[0]))


def through(env, cfg):
    """The candidate searches pass their data, pending points, weights and tolerance on to the selection."""
    name, dim, nX, npend, ncand, num, wts = cfg
    b = Box(env, dim, (), nX, npend, fixed=True)
    preds = [float((i * 7) % 5) for i in range(ncand)]
    s = Surr(env, dim, lambda xx: np.array(preds).reshape(-1, 1))
    env.cdist = lambda a, c: A.wrap(np.array([[C.absolute(C.sub(x[0], y[0])) for y in A._obj(c)] for x in A._obj(a)], dtype=object), "f") if dim == 1 else None
    kw = dict(num_pts=num, opt_prob=b.prob, surrogate=s, X=b.X, fX=b.fX, weights=list(wts), Xpend=b.P, num_cand=ncand, dtol=0.125)
    if name == "candidate_dycors":
        kw["prob_perturb"] = 1.0
    new = search(name)(**kw)
    cand = s.asked[0]
    known = [[b.X[i, 0]] for i in range(nX)] + [[b.P[i, 0]] for i in range(npend)]
    for k in known:
        for j in range(ncand):
            env.assume(C.gt(C.absolute(C.absolute(cand[j, 0] - k[0]) - 0.125), 1e-6))
    for i in range(ncand):
        for j in range(i):
            env.assume(C.gt(C.absolute(C.absolute(cand[j, 0] - cand[i, 0]) - 0.125), 1e-6))
            env.assume(C.gt(C.absolute(cand[j, 0] - cand[i, 0]), 1e-6))
    oracle(env, [[cand[j, 0]] for j in range(ncand)], [np.float64(p) for p in preds], known, [np.float64(w) for w in wts], 0.125, [list(new[i, :]) for i in range(num)],
           lambda a, b: C.absolute(a[0] - b[0]))


SEL = [(1, (0, 1, 2.5), (0.5,), None, 1, (None,), 0), (1, (0, 1, 2.5), (0.5,), (3.0,), 2, (0.3, 0.95), 0), (2, (0, 0, 1, 1, 0, 2), (0, 1), (3, 3), 2, (0.5, 0.0), 1), (1, (0, 1, 2), (0.125,), None, 3, (1.0, 0.5, 0.0), 0),
       (1, (0, 0, 3), (1,), None, 2, (0.0, 1.0), 0), (1, (0, 2, 3), (1,), None, 1, (None,), 1),
       (1, (0, 1, 2.5, 4), (0.5,), (6,), 1, (None,), 0), (1, (0, 1, 2.5), (0.5,), (3.0,), 2, (None, None), 0), (2, (0, 0, 1, 1, 0, 2, 2, 2), (0, 1, 3, 0), (3, 3), 2, (0.5, 0.0), 1), (1, (0, 1, 2, 5), (0.125, 7), None, 4, (1.0, 0.5, 0.0, 0.3), 0),
       (1, (0, 0, 3), (1,), None, 2, (0.0, 1.0), 1), (2, (0, 0, 3, 1, 1, 4), (1, 1), (0.1, 0), 3, (0.3, 0.8, 0.95), 1)]
POS = [(2, 1, 1, 1, (0, 1), (0.5,)), (2, 1, 0, 2, (1, 0), (0.3, 0.8)), (3, 1, 0, 1, (0, 1, 2), (1.0,)), (2, 2, 0, 1, (0, 0), (0.0,)), (2, 1, 2, 1, (0, 1), (0.5,)),
       (2, 1, 1, 2, (0, 1), (0.5, 0.95)), (3, 1, 0, 2, (1, 0, 3), (0.3, 1.0)), (3, 1, 1, 1, (0, 1, 2), (0.95,)), (2, 2, 1, 2, (0, 0), (0.0, 1.0))]
THR = [("candidate_srbf", 1, 1, 1, 2, 1, (0.5,)), ("candidate_dycors", 1, 1, 1, 2, 1, (0.95,)), ("candidate_uniform", 1, 1, 1, 2, 1, (0.95,)), ("candidate_srbf", 1, 1, 0, 2, 2, (1.0, 0.0)), ("candidate_dycors", 1, 1, 2, 2, 1, (0.95,)),
       ("candidate_srbf", 1, 2, 1, 2, 2, (0.5, 1.0)), ("candidate_dycors", 1, 1, 1, 3, 1, (0.95,)), ("candidate_uniform", 1, 2, 1, 2, 2, (0.95, 0.3)), ("candidate_srbf", 1, 1, 0, 3, 2, (1.0, 0.0))]
CLAIMS = [
    Claim("selection", direct, SEL,
          SEL + [(2, (0, 0, 3, 1, 1, 4, 5, 5, 0.2, 0), (1, 1, 4, 4), (0.1, 0), 3, (None, 0.8, None), 1), (1, (0, 1, 2, 3, 4, 5), (0.5, 9), (3.4,), 4, (0.3, 0.5, 0.8, 0.95), 1), (3, (0, 0, 0, 1, 0, 1, 2, 2, 1, 0, 1, 0), (1, 1, 1), (3, 0, 0), 3, (None, 1.0, 0.0), 1)],
          covers="weighted_distance_merit with arbitrary predictions", bounds="3-4 (thorough 6) candidates in 1-2 (3) variables at given positions, 1-4 picks, arbitrary predictions, weights and tolerances", reach=["chosen 0", "chosen 1", "none admissible"]),
    Claim("positions", moving, POS, POS + [(3, 2, 1, 2, (1, 0, 3), (0.3, 1.0)), (3, 1, 1, 3, (1, 2, 0), (0.95, 0.5, 0.3)), (4, 1, 1, 2, (0, 1, 2, 0.5), (0.8, 0.0))],
          covers="weighted_distance_merit with arbitrary positions", bounds="2-3 (4) candidates, 1-2 evaluated and 0-2 pending points at arbitrary positions in one variable, 1-3 picks", reach=["chosen 0"]),
    Claim("searches", through, THR, THR + [("candidate_srbf", 1, 2, 2, 3, 2, (0.5, 0.95)), ("candidate_dycors", 1, 2, 1, 3, 2, (0.3, 1.0)), ("candidate_uniform", 1, 2, 2, 3, 3, (0.3, 0.0, 0.5))],
          covers="candidate_srbf, candidate_dycors, candidate_uniform", bounds="2-3 candidates, 1-2 evaluated and 0-2 pending points in one variable, arbitrary draws", reach=["chosen 0"]),
]
ASSUMPTIONS = [REALS, "candidates whose distance differs from the tolerance by less than 1e-6 are left out"]
