"""C06: every proposed evaluation is feasible."""
from checks.cand import *
from checks.strat import Points, stub_search
from symx.runner import Claim


def candidates(env, cfg):
    name, dim, iv, nX, num, ncand, subset = cfg
    b = Box(env, dim, iv, nX)
    s = Surr(env, dim, pick(env, num))
    env.cdist = lambda a, c: np.ones((len(a), len(c)))
    kw = dict(num_pts=num, opt_prob=b.prob, surrogate=s, X=b.X, fX=b.fX, weights=[1.0] * num, dtol=0.0, num_cand=ncand,
              subset=None if subset is None else np.array(subset, dtype=int))
    if name != "candidate_uniform":
        kw["sampling_radius"] = env.real("radius", 0.003, 0.2)
    if name == "candidate_dycors":
        kw["prob_perturb"] = env.real("prob", 0, 1)
    new = search(name)(**kw)
    shape(env, new, (num, dim), name)
    b.feasible(env, new, "a returned point")
    for c in s.asked:
        b.feasible(env, c, "a candidate")
    env.reach("end")


def given_center(env, cfg):
    """Search around a center that is given (SOP)."""
    dim, iv, ncand = cfg
    b = Box(env, dim, iv, 1)
    s = Surr(env, dim, pick(env, 1))
    env.cdist = lambda a, c: np.ones((len(a), len(c)))
    xc = b.points(env, "center", 1)[0, :]
    new = search("candidate_dycors")(num_pts=1, opt_prob=b.prob, surrogate=s, X=b.X, fX=b.fX, weights=[1.0], dtol=0.0, num_cand=ncand, prob_perturb=env.real("prob", 0, 1),
                                     sampling_radius=env.real("radius", 0.003, 0.2), xbest=xc)
    b.feasible(env, new, "a returned point")
    env.reach("end")


def random_search(env, cfg):
    from pySOT.strategy import RandomStrategy

    dim, iv, M = cfg
    b = Box(env, dim, iv, 1)
    st = RandomStrategy(max_evals=M, opt_prob=b.prob)
    sim = Sim(env, st, M, reject=False, fail=False)
    for _ in range(M):
        sim.ask(decide=False)
    for x in sim.proposed:
        b.feasible(env, np.atleast_2d(x), "a random point")
    env.reach("end")


def ga(env, cfg):
    from pySOT.utils import GeneticAlgorithm

    dim, iv, pop, gen = cfg
    b = Box(env, dim, iv, 1, fixed=True)
    seen = []

    def f(x):
        x = np.atleast_2d(x)
        seen.append(x.copy())
        return env.array("val", (len(x),), -10, 10)

    g = GeneticAlgorithm(f, dim, b.lb, b.ub, int_var=np.array(iv, dtype=int), pop_size=pop, num_gen=gen, start="Random")
    g.tournament_size = 2
    env.randn_range = (-4, 4)
    x, v = g.optimize()
    for c in seen:
        b.feasible(env, c, "an individual")
    b.feasible(env, np.atleast_2d(x), "the returned point")
    env.reach("end")


def designs(env, cfg):
    from pySOT import experimental_design as D

    kind, dim, n, iv = cfg
    b = Box(env, dim, iv, 1, fixed=kind != "two" and dim > 1)
    d = D.TwoFactorial(dim=dim) if kind == "two" else getattr(D, kind)(dim=dim, num_pts=n, iterations=1)
    try:
        x = d.generate_points(lb=b.lb, ub=b.ub, int_var=np.array(iv, dtype=int))
    except ValueError:
        return  # no full-rank design was drawn (decided in C14)
    shape(env, x, (d.num_pts, dim), kind)
    b.feasible(env, x, "a design point")
    env.reach("end")


def proposals(env, cfg):
    """Strategies propose what the search returned, unchanged."""
    from pySOT import strategy as S

    kind, asyn, batch, n = cfg
    pts = Points(env, 2, True)
    d = Design(env, 2, 2, pts)
    s = Surr(env, 2)
    st = getattr(S, kind)(max_evals=20, opt_prob=problem(2), exp_design=d, surrogate=s, asynchronous=asyn, batch_size=batch, num_cand=2)
    st.design = d
    seen = []
    stub_search(env, st, seen)
    sim = Sim(env, st, 2, reject=True, fail=False, value=lambda x: 1.0)
    for _ in range(n):
        if len(sim.out) == 2:
            sim.complete(0)
        sim.ask(decide=False if len(sim.proposed) < 2 else None)
    for x in sim.proposed:
        for j in range(2):
            env.le(0, x[j], "a proposed point is below the lower bound", 1e-9)
            env.le(x[j], 1, "a proposed point is above the upper bound", 1e-9)
    env.reach("end")


SR, DY, UN = "candidate_srbf", "candidate_dycors", "candidate_uniform"
CLAIMS = [
    Claim("candidates", candidates,
          [(SR, 1, (), 2, 1, 2, None), (SR, 2, (1,), 1, 1, 2, None), (SR, 2, (0,), 1, 2, 2, (0,)), (DY, 1, (0,), 2, 1, 1, None), (DY, 2, (1,), 1, 1, 2, None), (DY, 3, (0, 2), 1, 1, 1, (0, 2)), (UN, 2, (1,), 1, 1, 2, None), (UN, 2, (0, 1), 2, 1, 1, (1,)), (UN, 2, (0, 1), 1, 1, 1, None), (SR, 2, (0, 1), 1, 1, 1, None), (DY, 2, (1, 0), 1, 1, 1, None), (DY, 2, (0,), 1, 1, 1, (1,)), (DY, 3, (0,), 1, 1, 1, (2, 1)), (SR, 2, (), 1, 1, 1, (1,)), (UN, 3, (), 1, 1, 1, (2, 0))],
          [(SR, 1, (), 3, 2, 3, None), (SR, 3, (1, 2), 2, 1, 2, None), (SR, 2, (0,), 2, 2, 3, (0,)), (DY, 1, (0,), 2, 2, 2, None), (DY, 2, (1,), 2, 1, 2, None), (DY, 3, (0, 2), 1, 1, 2, (0, 2)), (DY, 3, (1,), 1, 2, 2, None), (UN, 3, (1,), 2, 2, 2, None), (UN, 2, (0, 1), 2, 1, 2, (1,)), (SR, 3, (1,), 1, 1, 2, (2, 0)), (DY, 3, (), 1, 1, 2, (2, 0)), (UN, 3, (1,), 2, 1, 1, (2, 0))],
          covers="candidate_srbf, candidate_dycors, candidate_uniform, round_vars", bounds="1-3 variables, 1-2 (3) candidates, any bounds, data, radius, probability, draws, predictions and distances", reach=["end"]),
    Claim("given-center", given_center, [(2, (), 1), (2, (0,), 1)], [(2, (0,), 2), (3, (1,), 1)], covers="candidate_dycors around a given center", bounds="1-2 candidates", reach=["end"]),
    Claim("random-search", random_search, [(2, (), 2), (2, (0,), 2)], [(3, (0, 2), 3)], covers="RandomStrategy", bounds="2-3 points", reach=["end"]),
    Claim("genetic-algorithm", ga, [(1, (0,), 2, 1), (2, (1,), 2, 1)], [(2, (1,), 2, 2), (2, (), 2, 2)], covers="GeneticAlgorithm.optimize", bounds="population 2, 1 (2) generations, normal draws within 4 deviations", reach=["end"]),
    Claim("designs", designs, [("two", 2, 4, (1,)), ("SymmetricLatinHypercube", 1, 3, (0,)), ("LatinHypercube", 1, 2, (0,)), ("SymmetricLatinHypercube", 2, 4, (1,))], [("two", 3, 8, (1,)), ("SymmetricLatinHypercube", 2, 4, (0, 1)), ("LatinHypercube", 2, 3, (0,))],
          covers="experimental designs mapped onto the box", bounds="1-2 (3) variables, 2-4 (8) points", reach=["end"]),
    Claim("proposals", proposals, [("SRBFStrategy", True, None, 4), ("DYCORSStrategy", False, 2, 4)], [("SRBFStrategy", False, 2, 7), ("DYCORSStrategy", True, None, 6)],
          covers="from generate_evals to the proposal", bounds="4 (6-7) proposals", reach=["end"]),
]
ASSUMPTIONS = [REALS, "evaluated points and centers are feasible (by induction over the proposals)", "the choice among the candidates is arbitrary here (C07 decides it)", "the truncated normal sampler stays within its truncation bounds"]
