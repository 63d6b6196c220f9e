"""C08: candidates perturb the right coordinates around the right center."""
import itertools
import math

from checks.cand import *
from checks.strat import *
from symx.runner import Claim


def generate(env, name, b, s, ncand, subset, center, radius, prob):
    kw = dict(num_pts=1, opt_prob=b.prob, surrogate=s, X=b.X, fX=b.fX, weights=[1.0], dtol=0.0, num_cand=ncand, subset=None if subset is None else np.array(subset, dtype=int))
    if name != "candidate_uniform":
        kw["sampling_radius"] = radius
    if name == "candidate_dycors":
        kw["prob_perturb"] = prob
        if center is not None:
            kw["xbest"] = center
    env.cdist = lambda a, c: np.ones((len(a), len(c)))
    for what in ("draw", "rand", "uniform", "truncnorm"):
        env.take_logs(what)
    search(name)(**kw)
    return s.asked[0]


def perturbation(env, cfg):
    name, dim, iv, nX, ncand, subset, given, fixed = cfg
    b = Box(env, dim, iv, nX, fixed=fixed)
    s = Surr(env, dim, lambda xx: np.arange(float(len(xx))).reshape(-1, 1))
    for i in range(nX):
        for j in range(i):
            env.assume(C.ne(b.fX[i, 0], b.fX[j, 0]))
    center = b.points(env, "center", 1)[0, :] if given else None
    c_in = None if center is None else center.copy()
    radius = env.real("radius", 0.003, 0.2) if not fixed else 0.05
    prob = env.real("prob", 0, 1)
    cand = generate(env, name, b, s, ncand, subset, center, radius, prob)
    shape(env, cand, (ncand, dim), "the candidates")
    if given:
        same(env, center, c_in, "the given center was modified")
        best = [([center[j] for j in range(dim)], True)]
    else:
        best = [([b.X[i, j] for j in range(dim)], env.all([C.le(b.fX[i, 0], b.fX[k, 0]) for k in range(nX)])) for i in range(nX)]
        best = [(c, True) for c, m in best if bool(m)][:1]
    xb = best[0][0]
    sub = list(range(dim)) if subset is None else list(subset)
    draws = env.take_logs("draw")
    rand = env.take_logs("rand")
    # the draws are all away from the center, so that the perturbed coordinates can be told apart
    if name == "candidate_uniform":
        for k in range(ncand):
            for j in range(dim):
                if j not in sub:
                    env.check(C.eq(cand[k, j], xb[j]), "a coordinate outside the requested ones differs from the best point")
        env.reach("end")
        return
    for v, loc, scale, lo, hi in draws:
        for j in range(dim):
            env.assume(C.ge(C.absolute(C.sub(v, xb[j])), 0.75 if j in iv else 1e-3))
    moved = [[C.lnot(C.eq(cand[k, j], xb[j])) for j in range(dim)] for k in range(ncand)]
    for k in range(ncand):
        for j in range(dim):
            if j not in sub:
                env.check(C.eq(cand[k, j], xb[j]), "a coordinate outside the requested ones is perturbed")
                continue
            w = b.ub[j] - b.lb[j]
            want = radius * w
            if j in iv:
                want = env.maximum([want, np.float64(1.0)])
            ok = [env.all([env.close(loc, xb[j]), env.close(scale, want), env.close(lo, b.lb[j]), env.close(hi, b.ub[j]),
                           C.le(C.absolute(C.sub(cand[k, j], v)), 0.5 if j in iv else 1e-9)]) for v, loc, scale, lo, hi in draws]
            env.check(env.any([C.lnot(moved[k][j])] + ok), "a perturbed coordinate is not a draw around the center with the right spread and bounds")
            if name == "candidate_srbf":
                env.check(moved[k][j], "a requested coordinate is not perturbed")
        if name == "candidate_dycors":
            env.check(env.any([moved[k][j] for j in sub]), "a candidate equals the center")
    if name == "candidate_dycors" and len(sub) > 1 and len(rand) == ncand * len(sub):
        low = [C.lt(r, prob) for r in rand]
        env.check(env.implies(env.all(low), env.all([moved[k][j] for k in range(ncand) for j in sub])), "a coordinate is not perturbed although every draw is below the probability")
        if ncand == 1:
            n = sum([C.ite(m, 1, 0) for m in moved[0]], 0)
            m = sum([C.ite(l, 1, 0) for l in low], 0)
            env.check(C.eq(n, env.maximum([m, 1])), "the number of perturbed coordinates is not that of the draws below the probability (at least one)")
    env.reach("end")


def fallback(env, cfg):
    """Each requested coordinate can be the one that is perturbed when no draw is below the probability."""
    dim, subset = cfg
    b = Box(env, dim, (), 1, fixed=True)
    got = []
    for e in ("low", "high"):
        s = Surr(env, dim, lambda xx: np.zeros((len(xx), 1)))
        env.extreme = e
        cand = generate(env, "candidate_dycors", b, s, 1, subset, None, 0.125, 0.0)
        env.extreme = None
        for v, loc, scale, lo, hi in env.take_logs("draw"):
            for j in range(dim):
                env.assume(C.ge(C.absolute(C.sub(v, b.X[0, j])), 1e-3))
        got.append([C.lnot(C.eq(cand[0, j], b.X[0, j])) for j in range(dim)])
    sub = list(range(dim)) if subset is None else list(subset)
    env.check(env.any([env.all([got[0][sub[0]], got[1][sub[-1]]]), env.all([got[1][sub[0]], got[0][sub[-1]]])]), "the first or the last requested coordinate can not be perturbed alone")
    env.reach("end")


def whole(env, cfg):
    """With every draw at the same (arbitrary) place of its range, every requested coordinate of every uniform candidate is at that place of its range."""
    dim, iv, ncand, subset, ints = cfg
    b = Box(env, dim, iv, 1, fixed="int" if ints else True)
    s = Surr(env, dim, lambda xx: np.zeros((len(xx), 1)))
    u = env.real("u", 0, 1)
    env.assume(C.lt(u, 1))
    env.draw = lambda: u
    cand = generate(env, "candidate_uniform", b, s, ncand, subset, None, None, None)
    env.draw = None
    shape(env, cand, (ncand, dim), "the candidates")
    for k in range(ncand):
        for j in range(dim):
            if subset is not None and j not in subset:
                env.eq(cand[k, j], b.X[0, j], "a coordinate outside the requested ones differs from the best point")
                continue
            w = b.ub[j] - b.lb[j]
            tol = 0.5 + 1e-9 if j in iv else 1e-9
            env.check(env.any([env.close(cand[k, j], C.add(b.lb[j], C.mul(v, w)), tol) for v in (u, C.sub(1.0, u))]), "a requested coordinate of a uniform candidate is not drawn from its range")
    env.reach("end")


def schedule(env, cfg):
    """Perturbation probability, center and radius handed to the dynamic coordinate search."""
    from pySOT import strategy as S

    kind, dim, n0, asyn, batch, nadapt, extra, restart = cfg
    M = env.int("M", n0 + 1, 1000)
    pts = Points(env, dim, False)
    d = Design(env, n0, dim, pts)
    s = Surr(env, dim)
    kw = dict(ncenters=4) if kind == "SOPStrategy" else {}
    ep = None
    if extra:
        ep = np.array([[float(v) for v in pts()] for _ in range(extra)])
        kw.update(extra_points=ep, extra_vals=np.full((extra, 1), 5.0))
    st = getattr(S, kind)(max_evals=M, opt_prob=problem(dim), exp_design=d, surrogate=s, asynchronous=asyn, batch_size=batch, num_cand=2, **kw)
    st.design = d
    seen = []
    stub_search(env, st, seen)
    vals = (v + 8.0 * k for k in itertools.count() for v in (3.0, 1.0, 2.0, 0.5, 4.0, 0.25, 2.5, 6.0, 0.125, 1.5, 7.0, 1.75))
    sim = Sim(env, st, 2 if asyn else batch, reject=False, fail=False, value=lambda x: np.float64(next(vals)))
    for _ in range(60):
        if len(seen) >= nadapt:
            break
        k = len(seen)
        if restart and k >= restart and (asyn or not sim.out):
            restart = 0
            st.sample_restart()
            env.reach("restart")
        count = len(sim.done) + len(sim.out) + extra
        if len(sim.out) == sim.workers or sim.ask(decide=False) is None:
            if not sim.out:
                break
            sim.complete(0)
        if sim.terminated:
            break
        for name, a in seen[k:]:
            if name != "candidate_dycors":
                continue
            p = a["prob_perturb"]
            n = count - n0 + 1
            base = min(20.0 / dim, 1.0)
            budget = C.maximum(C.sub(M, n0), 2)
            want = env.maximum([base * (1.0 - np.log(float(n)) / C.log(C._real(budget, 1.0) if C.is_sym(budget) else np.float64(budget))), np.float64(1.0 / dim)])
            env.check(env.close(p, want), "the perturbation probability is not the documented one")
            env.le(1.0 / dim, p, "the perturbation probability is below 1/dim", 1e-9)
            env.le(p, 1.0, "the perturbation probability is above 1", 1e-9)
            env.reach("prob")


SR, DY, UN = "candidate_srbf", "candidate_dycors", "candidate_uniform"
PERT = [(SR, 1, (), 2, 2, None, False, False), (SR, 2, (1,), 1, 1, None, False, False), (SR, 3, (0,), 2, 1, (0, 2), False, False), (SR, 2, (), 1, 2, (1,), False, True), (SR, 2, (0, 1), 1, 1, None, False, False), (DY, 2, (0, 1), 1, 1, None, False, False),
        (DY, 1, (0,), 2, 1, None, False, False), (DY, 2, (1,), 1, 1, None, False, False), (DY, 3, (0, 2), 1, 1, (0, 2), False, False), (DY, 2, (), 1, 2, None, False, True), (DY, 3, (), 2, 1, None, False, True),
        (DY, 2, (0,), 1, 1, None, True, False), (DY, 3, (1,), 1, 1, (2,), True, False), (UN, 3, (1,), 2, 2, (0, 1), False, True), (UN, 2, (), 2, 1, (1,), False, False),
        (SR, 2, (1,), 2, 1, None, False, "int"), (DY, 2, (), 1, 1, None, False, "int"), (DY, 2, (0,), 1, 1, (1,), True, "int")]
CLAIMS = [
    Claim("perturbation", perturbation, PERT,
          PERT + [(SR, 3, (2,), 3, 2, None, False, False), (DY, 3, (1,), 2, 2, None, False, True), (DY, 4, (0, 3), 1, 1, None, True, True), (DY, 4, (), 2, 1, (1, 2, 3), False, True)],
          covers="candidate_srbf, candidate_dycors, candidate_uniform", bounds="1-3 (4) variables, 1-2 candidates, 1-2 (3) evaluated points", reach=["end"]),
    Claim("fallback", fallback, [(2, None), (3, None), (3, (0, 2)), (4, (1, 3))], [(2, None), (3, None), (3, (0, 2)), (4, (1, 3)), (4, None), (4, (3, 0, 2))], covers="candidate_dycors: the coordinate perturbed when none is drawn", bounds="2-4 (5) variables", reach=["end"]),
    Claim("uniform", whole, [(1, (), 2, None, False), (2, (1,), 2, None, False), (3, (), 2, (0, 2), False), (3, (0,), 1, (1, 2), False), (2, (), 1, None, True), (2, (0,), 1, (1,), True)], [(1, (), 4, None, False), (2, (1,), 3, None, False), (3, (), 4, (0, 2), False), (3, (0,), 2, (1, 2), False), (4, (0, 3), 3, None, False), (3, (1,), 2, (2, 0), True)],
          covers="candidate_uniform: the requested coordinates range over the whole box", bounds="1-3 (4) variables, 1-2 (4) candidates", reach=["end"]),
    Claim("schedule", schedule,
          [(k, dim, n0, asyn, batch, n, e, 0) for k in ("DYCORSStrategy", "SOPStrategy") for dim, n0, asyn, batch, n, e in
           ((1, 2, True, None, 5, 0), (2, 3, True, None, 4, 0), (20, 2, True, None, 3, 0), (30, 3, False, 2, 4, 0), (100, 2, True, None, 4, 0), (25, 3, True, None, 3, 2))] + [("DYCORSStrategy", 25, 2, True, None, 4, 0, 2), ("DYCORSStrategy", 30, 2, False, 2, 3, 0, 1)],
          [(k, dim, n0, asyn, batch, n, e, 0) for k in ("DYCORSStrategy", "SOPStrategy") for dim in (1, 2, 3, 20, 21, 30, 100, 300) for n0, asyn, batch, n, e in
           ((2, True, None, 6, 0), (3, False, 3, 6, 0), (4, True, None, 5, 3))] + [("DYCORSStrategy", 25, 2, True, None, 8, 0, 4), ("DYCORSStrategy", 30, 2, False, 2, 6, 0, 3)],
          covers="DYCORSStrategy.generate_evals, SOPStrategy.generate_evals", bounds="up to 6 searches, any budget, 1 to 100 (300) variables", reach=["prob", "restart"]),
]
ASSUMPTIONS = [REALS, "the logarithm is an increasing function that is exact at the evaluation counts", "draws equal to the center's coordinate (a null set) are left out"]
