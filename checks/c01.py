"""C01: the evaluation budget is never exceeded."""
from checks.strat import *
from symx.runner import Claim


def schedule(env, cfg):
    kind, asyn, batch, ninit, conv, workers, n = cfg[:7]
    faults = len(cfg) == 7  # longer runs without rejections and failures
    M = env.int("max_evals", ninit, ninit + 4)
    st = make(env, M, asyn, batch, ninit, converge=conv, kind=kind)
    sim = Sim(env, st, workers, full=asyn and faults, reject=faults, fail=faults)
    sim.monitors.append(Budget(env, M))
    sim.run(n)
    env.reach("end")


def induct(env, cfg):
    """From any number of completed evaluations within the budget, no event leads beyond it."""
    asyn, batch, ninit, conv, workers, pre, n, resume = cfg
    M = env.int("max_evals", ninit, 1000000)
    st = make(env, M, asyn, batch, ninit, converge=conv)
    sim = Sim(env, st, workers)
    sim.run(pre)
    more = jump(env, st, sim, M)
    if resume:  # what was outstanding is lost
        st.resume()
        sim.lose()
    sim.monitors.append(Budget(env, M, more))
    sim.run(n)
    env.reach("end")


A_, S_ = True, False
CLAIMS = [
    Claim("schedules", schedule,
          [("base", A_, None, 2, None, 2, 6), ("base", A_, None, 1, "complete", 2, 6), ("base", A_, None, 1, "generate", 2, 5), ("base", S_, 2, 1, None, 2, 6), ("base", S_, 2, 1, "complete", 2, 6),
           ("base", S_, 1, 1, "generate", 1, 7), ("srbf", A_, None, 1, None, 2, 5), ("srbf", S_, 2, 1, None, 2, 5), ("base", A_, None, 1, "complete", 2, 9, 0), ("base", A_, None, 2, "complete", 3, 8, 0), ("base", S_, 2, 1, "complete", 2, 9, 0)],
          [("base", A_, None, 2, None, 3, 8), ("base", A_, None, 1, "complete", 3, 8), ("base", A_, None, 1, "generate", 2, 8), ("base", S_, 2, 2, None, 2, 9), ("base", S_, 3, 1, "complete", 3, 8),
           ("base", S_, 2, 1, "generate", 2, 8), ("srbf", A_, None, 1, None, 2, 8), ("dycors", S_, 2, 1, None, 2, 8), ("base", A_, None, 1, "complete", 2, 11, 0), ("base", A_, None, 2, "complete", 3, 10, 0), ("base", S_, 2, 1, "complete", 2, 12, 0)],
          covers="SurrogateBaseStrategy, SRBFStrategy: all event orders from the start",
          bounds="up to 7 (thorough 8-9) events with rejections and failures, up to 9 (12) without, 2-3 workers, any budget up to design + 4, any convergence moments, any function values", reach=["end"]),
    Claim("any-counts", induct,
          [(A_, None, 1, None, 2, 3, 3, 0), (A_, None, 1, "complete", 2, 2, 3, 0), (S_, 2, 1, None, 2, 3, 3, 0), (S_, 2, 1, "complete", 2, 3, 2, 0), (A_, None, 2, None, 2, 3, 3, 1), (S_, 2, 1, None, 2, 3, 3, 1)],
          [(A_, None, 1, None, 2, 5, 3, 0), (A_, None, 1, "complete", 2, 4, 3, 0), (S_, 2, 1, None, 2, 4, 4, 0), (S_, 2, 1, "complete", 2, 4, 3, 0), (A_, None, 2, None, 2, 4, 4, 1), (S_, 2, 1, None, 2, 4, 4, 1)],
          covers="one or more events from arbitrary counters, with and without an interruption", bounds="2-3 (thorough 4-5) events before and 2-3 after a jump to any completed count up to 10^6", reach=["end"]),
]
ASSUMPTIONS = ["the controller accepts or rejects a proposal before the next event (as all POAP controllers do)", "the points chosen by the search are arbitrary but distinct (equal points: C03)"]
