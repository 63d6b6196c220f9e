"""C02: progress and termination."""
from checks.strat import *
from symx.runner import Claim


def schedule(env, cfg):
    kind, asyn, batch, ninit, conv, restarts, workers, n = cfg
    M = env.int("max_evals", ninit, ninit + 4)
    st = make(env, M, asyn, batch, ninit, converge=conv, kind=kind, restarts=restarts)
    sim = Sim(env, st, workers, full=False)
    sim.monitors.append(Progress(env, M, restarts))
    sim.run(n)
    if sim.terminated:
        env.reach("terminated")


def finish(env, cfg):
    """Without failures and with restarts, exactly the budget is completed, wherever the schedule has led."""
    kind, asyn, batch, ninit, conv, workers, n, extra = cfg
    M = env.int("max_evals", ninit, ninit + extra)
    st = make(env, M, asyn, batch, ninit, converge=conv, kind=kind)
    sim = Sim(env, st, workers, fail=False)
    sim.monitors.append(Progress(env, M))
    sim.run(n)
    sim.drain()
    env.eq(len(sim.done), M, "the run did not complete exactly its budget", 0)
    env.reach("terminated")


def failing(env, cfg):
    """After failures the run still ends, with nothing outstanding and the budget assigned."""
    kind, asyn, batch, ninit, conv, restarts, workers, n = cfg
    M = env.int("max_evals", ninit, ninit + 3)
    st = make(env, M, asyn, batch, ninit, converge=conv, kind=kind, restarts=restarts)
    sim = Sim(env, st, workers)
    sim.monitors.append(Progress(env, M, restarts))
    sim.run(n)
    sim.drain()
    env.check(not sim.out and sim.terminated, "the run does not end")
    env.reach("terminated")


def far(env, cfg):
    """From any number of completed evaluations: an action is proposed, and termination exactly at the budget."""
    asyn, batch, ninit, conv, restarts, workers, pre, n = cfg
    M = env.int("max_evals", ninit, 1000000)
    st = make(env, M, asyn, batch, ninit, converge=conv, restarts=restarts)
    sim = Sim(env, st, workers, reject=False)
    mon = Progress(env, M, restarts)
    sim.monitors.append(mon)
    sim.run(pre)
    mon.base = more = jump(env, st, sim, M)
    mon.full = env.any([C.ge(mon.used(sim), M), mon.full])
    sim.run(n)
    if not sim.out and not sim.terminated:
        p = sim.ask(decide=False)
        env.check(p is not None, "nothing is outstanding, but no action is proposed")
        due = env.any([C.ge(mon.base + len(sim.done), M), mon.full, (not restarts) and bool(st.converged)])
        if p.action == "eval":
            env.check(C.le(mon.used(sim), M), "an evaluation is proposed beyond the budget")
        else:
            env.check(due, "termination proposed although budget remains")
    env.reach("end")


A_, S_ = True, False
CLAIMS = [
    Claim("schedules", schedule,
          [("base", A_, None, 1, "complete", True, 2, 6), ("base", A_, None, 1, "complete", False, 2, 6), ("base", A_, None, 1, "generate", False, 2, 6), ("base", S_, 2, 1, None, True, 2, 6),
           ("base", S_, 2, 1, "complete", False, 2, 6), ("base", S_, 2, 1, "generate", False, 2, 6), ("base", S_, 2, 1, "complete", True, 2, 6), ("srbf", S_, 2, 1, None, True, 2, 5)],
          [("base", A_, None, 1, "complete", True, 3, 8), ("base", A_, None, 1, "complete", False, 2, 8), ("base", A_, None, 1, "generate", False, 2, 8), ("base", S_, 2, 2, None, True, 2, 8),
           ("base", S_, 2, 1, "complete", False, 2, 8), ("base", S_, 2, 1, "generate", True, 2, 8), ("base", S_, 3, 1, "complete", True, 3, 8), ("srbf", S_, 2, 1, None, True, 2, 8)],
          covers="propose_action in every reachable state", bounds="up to 6 (thorough 8) events, 2-3 workers, any budget up to design + 4, restarts on and off"),
    Claim("no-failures", finish,
          [("base", A_, None, 1, None, 2, 4, 3), ("base", A_, None, 1, "complete", 2, 3, 3), ("base", S_, 2, 1, "complete", 2, 3, 4), ("base", S_, 1, 2, "generate", 1, 3, 3), ("base", S_, 2, 1, None, 2, 4, 4), ("srbf", A_, None, 1, None, 2, 3, 3)],
          [("base", A_, None, 1, None, 3, 6, 5), ("base", A_, None, 1, "complete", 2, 5, 4), ("base", S_, 2, 1, "complete", 2, 5, 5), ("base", S_, 1, 2, "generate", 1, 4, 4), ("base", S_, 3, 1, None, 3, 6, 6), ("srbf", A_, None, 1, None, 2, 4, 5)],
          covers="whole runs without failed evaluations", bounds="any first 3-4 (thorough 4-6) events with rejections, then to the end; budget up to design + 4 (6)", reach=["terminated"]),
    Claim("failures", failing,
          [("base", A_, None, 1, None, True, 2, 4), ("base", S_, 2, 1, None, True, 2, 5), ("base", S_, 2, 1, "complete", False, 2, 4), ("base", A_, None, 1, "complete", False, 2, 4), ("base", A_, None, 1, "generate", False, 2, 4)],
          [("base", A_, None, 1, None, True, 2, 6), ("base", S_, 2, 1, None, True, 2, 7), ("base", S_, 2, 1, "complete", False, 2, 6), ("base", A_, None, 1, "complete", False, 2, 6), ("base", A_, None, 1, "generate", True, 2, 5)],
          covers="whole runs whose first part has rejected and failed evaluations", bounds="any first 4-5 (thorough 5-7) events, then to the end", reach=["terminated"]),
    Claim("any-count", far,
          [(A_, None, 1, None, True, 2, 3, 3), (A_, None, 1, "complete", False, 2, 2, 3), (S_, 2, 1, "complete", True, 2, 3, 3)],
          [(A_, None, 1, None, True, 2, 4, 4), (A_, None, 1, "complete", False, 2, 3, 4), (S_, 2, 1, "complete", True, 2, 4, 4), (S_, 2, 1, "generate", False, 2, 4, 4)],
          covers="decisions from any number of completed evaluations", bounds="3 (4) events before and after a jump to any completed count up to 10^6", reach=["end"]),
]
ASSUMPTIONS = ["the controller accepts or rejects a proposal before the next event (as all POAP controllers do)", "the points chosen by the search are arbitrary but distinct",
               "an evaluation that was assigned when the budget was full and then failed need not be replaced"]
