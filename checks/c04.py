"""C04: initial designs and batches are evaluated in full."""
from checks.strat import *
from symx.runner import Claim


def build(env, cfg):
    kind, asyn, batch, ninit, conv, workers, n, nextra, room = cfg
    M = env.int("max_evals", ninit, ninit + room)
    extra = np.array([[1 - (i + 1) / 128.0] for i in range(nextra)]) if nextra else None
    st = make(env, M, asyn, batch, ninit, converge=conv, kind=kind, extra=extra)
    sim = Sim(env, st, workers, full=False)
    bud = Progress(env, M)
    plan = Plan(env, st, asyn, batch, bud, extra if nextra else ())
    sim.monitors += [plan, bud]
    return M, st, sim, plan


def schedule(env, cfg):
    M, st, sim, plan = build(env, cfg)
    sim.run(cfg[6])
    env.reach("end")


def finish(env, cfg):
    """The run is taken to its end after an arbitrary first part; every design point completes if the budget allows."""
    M, st, sim, plan = build(env, cfg)
    sim.run(cfg[6])
    sim.drain()
    done = [key(x) for x, _, _ in sim.done]
    if plan.designs == 1:
        for k in plan.design:
            env.check(env.any([done.count(k) == 1, plan.sim is None, C.ge(len(sim.done) + len(sim.aborted), M)]), "a design point was not evaluated although the budget sufficed")
            env.check(done.count(k) <= 1, "a design point was evaluated twice")
    env.reach("end")


A_, S_ = True, False
CLAIMS = [
    Claim("schedules", schedule,
          [("base", A_, None, 2, None, 3, 6, 0, 4), ("base", A_, None, 2, "complete", 2, 6, 0, 4), ("base", A_, None, 1, "generate", 2, 6, 1, 4), ("base", S_, 2, 2, None, 2, 7, 0, 4), ("base", S_, 2, 1, "batch", 2, 7, 0, 5),
           ("base", S_, 3, 1, None, 2, 7, 0, 6), ("base", S_, 2, 1, "generate", 2, 6, 1, 4), ("srbf", S_, 2, 1, None, 2, 6, 0, 4)],
          [("base", A_, None, 2, None, 3, 8, 0, 4), ("base", A_, None, 2, "complete", 2, 8, 0, 4), ("base", A_, None, 1, "generate", 2, 8, 1, 4), ("base", S_, 2, 2, None, 2, 9, 0, 6), ("base", S_, 2, 1, "batch", 2, 9, 0, 6),
           ("base", S_, 3, 1, None, 3, 8, 0, 6), ("base", S_, 2, 1, "generate", 2, 8, 1, 4), ("srbf", S_, 2, 1, None, 2, 8, 0, 4)],
          covers="batch queue, requeueing, phase switches", bounds="up to 6-7 (thorough 8-9) events, 1-2 design points, 0-1 extra points, 2-3 workers, batches of 2-3", reach=["end"]),
    Claim("to-the-end", finish,
          [("base", A_, None, 2, None, 2, 5, 0, 3), ("base", S_, 2, 2, None, 2, 5, 0, 3), ("base", A_, None, 3, None, 3, 5, 0, 3), ("base", S_, 2, 1, "batch", 2, 5, 1, 3)],
          [("base", A_, None, 2, None, 3, 7, 1, 4), ("base", S_, 2, 3, None, 3, 7, 0, 4), ("base", A_, None, 3, None, 3, 7, 0, 4), ("base", S_, 2, 1, "batch", 2, 7, 1, 5)],
          covers="whole runs whose first part has rejections and failures", bounds="any first 5 (7) events, then to the end", reach=["end"]),
]
ASSUMPTIONS = ["points are distinct (they only have to be told apart)", "the controller accepts or rejects a proposal before the next event", "once the budget has been assigned in full, failed evaluations need not be repeated"]
