"""C20: resuming continues the interrupted run."""
from checks import fs as F
from checks.c19 import checkpointed, controller
from checks.strat import *
from symx.runner import Claim

NAME = F.ROOT + "/d/run.ck"


class Keeper:
    """What was known when the last checkpoint was due."""

    def __init__(self, contents):
        self.contents = contents
        self.keep()

    def keep(self, sim=None, *a):
        self.expect, self.run = list(self.contents.expect), self.contents.run

    completed = abort = keep


class Resumed(Plan):
    """After a resume: every design point that has not completed comes first; then points chosen before or now."""

    def __init__(self, env, st, asyn, batch, budget, done, extra=()):
        self.env, self.st, self.asyn, self.batch, self.budget = env, st, asyn, batch, budget
        d = st.design
        self.designs = self.first = len(d.calls)
        self.fresh = []
        pts = [key(r) for r in d.history] + [key(x) for x in extra]
        self.design = set(pts)
        self.todo = [k for k in pts if k not in done]
        self.start = list(self.todo)
        self.old = [key(x) for x in st.world["generated"]] if hasattr(st, "world") else []
        self.ngen = len(self.old)
        self.adapt_todo = []
        if hasattr(st, "world"):
            st.world["monitor"] = self.on_generate

    def proposal(self, sim, x, p):
        k = key(x)
        if not self.todo and k in self.old and k not in self.design:
            self.sync_state()
            self.adapt_todo += [key(g) for g in self.st.world["generated"]][self.ngen:]
            self.ngen = len(self.st.world["generated"])
            if k not in self.adapt_todo:
                self.adapt_todo.append(k)
        super().proposal(sim, x, p)


def compare(env, c, st, done, finished, keeper):
    """Nothing completed is lost and nothing is outstanding."""
    env.check(len(st.X) == len(done) and len(st.fX) == len(done) and bool(C.eq(st.num_evals, len(done))), "completed evaluations are not known after the resume")
    env.check(len(c.fevals) == len(finished), "the controller does not know the finished evaluations after the resume")
    known = [key(x) for x in st.X]
    ok = []
    for x, f, _ in done:
        ok.append(C.eq(flat(st.fX)[known.index(key(x))], f) if key(x) in known else False)
    for r, q in zip(c.fevals, finished):
        ok += [r.status == q.status, key(r.params[0]) == key(q.params[0])]
        if q.status == "completed":
            ok.append(C.eq(r.value, q.value) if r.value is not None else False)
    env.check(env.all(ok), "completed evaluations or their values are not known after the resume")
    env.check(bool(C.eq(st.pending_evals, 0)), "evaluations are counted as outstanding after the resume")
    env.check(len(st.Xpend) == 0, "points are outstanding after the resume")
    if keeper:
        k = Contents(env, st, keeper.expect)
        d = st.surr.data if hasattr(st, "surr") else []
        k.match([x for x, _ in d], [f for _, f in d], "the surrogate after the resume")


def interrupt(env, cfg):
    kind, asyn, batch, ninit, conv, restarts, room, workers, n, again, extra, m = cfg
    fs = F.FS(env)
    M = env.int("max_evals", ninit + extra, ninit + room)
    ex = np.array([[1 - (i + 1) / 128.0] for i in range(extra)]) if extra else None
    st = make(env, M, asyn, batch, ninit, converge=conv, restarts=restarts, kind=kind, extra=ex)
    c, ck = checkpointed(env, st, NAME)
    sim = Sim(env, st, workers, reject=asyn)
    sim.how = 0
    sim.record = c.new_feval
    con = Contents(env, st)
    keeper = Keeper(con)
    sim.monitors += [con, keeper]
    done, finished, saved = [], [], False
    for leg in range(2 if again else 1):
        k = 0
        while k < n[leg] and not sim.terminated:
            k += 1
            if env.flag("stop") or not sim.step():
                break
            if sim.finished:
                saved = True
        if sim.terminated:
            c.call_term_callbacks()
            saved = True
        done += sim.done
        finished += sim.finished
        # the process stops here; a new one resumes
        c, ck = checkpointed(env, None, NAME)
        try:
            r = ck.resume()
        except OSError:
            env.check(not saved, "resuming fails although there is a checkpoint")
            env.check(c.ran == 0, "a run was started although there is no checkpoint")
            env.reach("no checkpoint")
            return
        env.check(saved, "resuming without a checkpoint does not fail")
        env.check(c.ran == 1 and r == "ran", "the resumed run is not started")
        st = c.strategy
        compare(env, c, st, done, finished, keeper)
        env.reach("resumed")
        if not restarts and bool(st.converged):
            return
        sim = Sim(env, st, workers, reject=asyn)
        sim.how = 1
        sim.record = c.new_feval
        bud = Progress(env, M, restarts, base=len(done))
        bud.full = C.ge(len(done), M)
        hard = Budget(env, M, base=len(done))
        st.world["calls"].clear()
        plan = Resumed(env, st, asyn, batch, bud, [key(x) for x, _, _ in done], [] if ex is None else ex)
        con = Contents(env, st, keeper.expect)
        keeper = Keeper(con)
        sim.monitors += [plan, hard, bud, con, keeper]
    sim.fail = False
    sim.run(m)
    sim.drain()
    env.eq(len(done) + len(sim.done), M, "the resumed run does not complete the budget", 0) if restarts else None
    now = [key(x) for x, _, _ in sim.done]
    fits = C.le(len(plan.start) + len(done) + (plan.designs - plan.first) * ninit, M)  # the designs of restarted runs share the rest of the budget
    for k in plan.start:
        env.check(now.count(k) == 1 if now.count(k) else C.lnot(fits), "a design point that had not completed is not evaluated (once) after the resume")
    if plan.start:
        env.reach("design points repeated")
    env.reach("end")


def sop(env, cfg):
    """The real Pareto-center strategy with an arbitrary candidate search."""
    nc, batch, n0, M, workers, n = cfg
    from pySOT import strategy as S

    fs = F.FS(env)
    pts = Points(env, 1, False)
    d = Design(env, n0, 1, pts)
    s = Surr(env, 1)
    st = S.SOPStrategy(max_evals=M, opt_prob=problem(1), exp_design=d, surrogate=s, ncenters=nc, asynchronous=batch is None, batch_size=batch, num_cand=2)
    st.design, st.surr = d, s
    seen = []
    stub_search(env, st, seen)
    c, ck = checkpointed(env, st, NAME)
    sim = Sim(env, st, workers, reject=False, value=lambda x: env.real("f", 0, 1))
    sim.record = c.new_feval
    while len(sim.done) < n0 - 1:
        sim.ask(decide=False)
        sim.complete(0)
    for _ in range(n):
        if env.flag("stop") or not sim.step():
            break
    c, ck = checkpointed(env, None, NAME)
    ck.resume()
    st2 = c.strategy
    compare(env, c, st2, sim.done, sim.finished, None)
    sim2 = Sim(env, st2, workers, reject=False, fail=False, value=lambda x: len(sim.done) + len(sim2.done) + 1.0)
    sim2.record = c.new_feval
    start = [key(r) for r in st2.exp_design.history if key(r) not in [key(x) for x, _, _ in sim.done]]
    bud = Progress(env, M, True, base=len(sim.done))
    bud.full = len(sim.done) >= M
    sim2.monitors += [bud]
    sim2.drain()
    env.check(len(sim.done) + len(sim2.done) == M, "the resumed run does not complete the budget")
    now = [key(x) for x, _, _ in sim2.done]
    env.check(all(now.count(k) == 1 for k in start), "a design point that had not completed is not evaluated (once) after the resume")
    env.reach("end")


def serial(env, cfg):
    """POAP's serial controller: the objective fails at any evaluation and the run is resumed."""
    kind, M, ninit, times = cfg
    from poap.controller import SerialController
    from pySOT.controller import CheckpointController

    fs = F.FS(env)
    st = make(env, M, True, None, ninit, kind=kind)
    vals, calls, fail = {}, [0], [0]

    class Failure(Exception):
        pass

    def objective(x):
        calls[0] += 1
        if fail[0] and env.flag("fails"):
            fail[0] -= 1
            raise Failure()
        vals[key(x)] = env.real("f", -10, 10)
        return vals[key(x)]

    fail[0] = times
    first = True
    for _ in range(times + 1):
        c = SerialController(objective)
        c.strategy = st if first else None
        ck = CheckpointController(c, fname=NAME)
        try:
            r = ck.run() if first else ck.resume()
            break
        except Failure:
            env.reach("failed")
        first = False
    else:
        return
    env.check(len(vals) == M and calls[0] == M + times - fail[0], "the runs together do not complete exactly the budget")
    env.check(len(c.strategy.X) == M, "the strategy does not know all evaluations at the end")
    env.check(env.all([C.le(r.value, v) for v in vals.values()]), "the best record is not the one returned")
    env.check(key(r.params[0]) in vals and bool(C.eq(vals[key(r.params[0])], r.value)), "the returned value is not the one of the returned point")
    env.reach("end")


A_, S_ = True, False
Q = [("base", A_, None, 2, None, True, 3, 2, (5,), 0, 0, 0), ("base", S_, 2, 1, None, True, 4, 2, (5,), 0, 0, 0), ("base", A_, None, 1, "complete", True, 3, 2, (5,), 0, 0, 1), ("base", S_, 2, 2, "generate", True, 4, 2, (5,), 0, 0, 0),
     ("base", A_, None, 1, "generate", False, 3, 2, (5,), 0, 0, 1), ("base", S_, 2, 1, "batch", True, 4, 2, (6,), 0, 0, 1), ("base", A_, None, 2, None, True, 4, 3, (4,), 0, 1, 1), ("base", A_, None, 2, None, True, 3, 2, (3, 2), 1, 0, 0), ("base", S_, 2, 1, None, True, 4, 2, (4, 2), 1, 0, 0),
     ("srbf", A_, None, 1, None, True, 3, 2, (5,), 0, 0, 0), ("srbf", S_, 2, 1, None, True, 4, 2, (5,), 0, 0, 0), ("dycors", A_, None, 2, None, True, 3, 2, (4,), 0, 0, 0), ("ei", S_, 2, 2, "generate", True, 4, 2, (4,), 0, 0, 0), ("lcb", A_, None, 2, "generate", True, 3, 2, (4,), 0, 0, 0),
     ("sop", A_, None, 2, None, True, 3, 2, (4,), 0, 0, 0)]
CLAIMS = [
    Claim("interrupt", interrupt, Q, [(k, a, b, i, c, r, ro, w, tuple(x + 1 for x in n), ag, ex, m + 1) for k, a, b, i, c, r, ro, w, n, ag, ex, m in Q],
          covers="save/resume of every surrogate strategy, CheckpointController.resume", bounds="a stop after any of up to 4-6 (thorough 5-7) events, once or twice, then to the end; 1-2 design points, 0-1 extra points, 2-3 workers, any budget up to design + 3-4",
          reach=["resumed", "no checkpoint", "end", "design points repeated"]),
    Claim("sop", sop, [(2, None, 2, 7, 2, 4), (3, 2, 2, 7, 2, 5), (1, None, 2, 6, 2, 4), (2, None, 3, 8, 3, 4)], [(2, None, 2, 7, 2, 7), (3, 2, 2, 7, 2, 7), (1, None, 2, 6, 1, 7), (1, None, 2, 6, 2, 6), (2, None, 3, 8, 3, 6), (4, None, 3, 8, 3, 6)],
          covers="SOPStrategy.resume with its own centers", bounds="a stop after any of up to 4-5 (6-7) events after the design, any values, 1-4 centers", reach=["end"]),
    Claim("serial", serial, [("base", 4, 2, 1), ("base", 4, 2, 2), ("srbf", 4, 2, 1)], [("base", 6, 2, 2), ("srbf", 6, 2, 2), ("dycors", 5, 2, 3)],
          covers="CheckpointController with POAP's SerialController", bounds="the objective fails at any 1-2 (3) evaluations; budgets of 4 (6)", reach=["failed", "end"]),
]
ASSUMPTIONS = ["the process stops between events (inside a save: C19); what was not saved is lost", "dill is modelled as an exact image of the object (deep copy), the file system as in C19",
               "points are distinct (they only have to be told apart)"]
