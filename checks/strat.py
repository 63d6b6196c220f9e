"""Strategies under test for the schedule properties, and the monitors shared by them."""
import numpy as np

from checks.common import *
from checks.sim import *


class Points:
    """Source of evaluation points: symbolic, or concrete and all different."""

    def __init__(self, env, dim, symbolic):
        self.env, self.dim, self.symbolic, self.k = env, dim, symbolic, 0

    def __deepcopy__(self, memo):
        return self

    def __call__(self):
        self.k += 1
        if self.symbolic:
            return list(self.env.array("x", self.dim, 0, 1))
        return [np.float64(self.k / 64.0)] + [np.float64(0.5)] * (self.dim - 1)


def make(env, M, asyn, batch=None, ninit=2, dim=1, restarts=True, converge=None, symbolic=False, extra=None, vals=None, kind="base", **kw):
    """A strategy whose search is an arbitrary function: it may choose any points, and may converge at any time.

    converge: None, "generate" (while points are generated), "complete" (when an evaluation has completed) or "batch" (when a whole batch has)."""
    from pySOT import strategy as S

    pts = Points(env, dim, symbolic)

    class Search:
        def generate_evals(self, num_pts):
            w = self.world
            w["calls"].append(num_pts)
            if w["monitor"]:
                w["monitor"](num_pts)
            if converge == "generate" and env.flag("converge"):
                self.converged = True
                return
            for _ in range(num_pts):
                x = env.arr(pts())
                w["generated"].append(x)
                self.batch_queue.append(x.copy())

    if kind == "base":
        base = S.SurrogateBaseStrategy

        class T(Search, base):
            def on_adapt_completed(self, record):
                super().on_adapt_completed(record)
                if converge == "complete" or converge == "batch" and not self.batch_queue and self.pending_evals == 0:
                    self.converged = self.converged or env.flag("converge")
    else:
        base = {"srbf": S.SRBFStrategy, "dycors": S.DYCORSStrategy, "ei": S.EIStrategy, "lcb": S.LCBStrategy, "sop": S.SOPStrategy}[kind]
        if kind == "sop":
            kw.setdefault("ncenters", 4)

        class T(Search, base):
            def check_input(self):  # any surrogate will do
                S.SurrogateBaseStrategy.check_input(self)

    T.world = dict(calls=[], generated=[], monitor=None)
    d = Design(env, ninit, dim, pts)
    s = Surr(env, dim)
    st = T(max_evals=M, opt_prob=problem(dim), exp_design=d, surrogate=s, asynchronous=asyn, batch_size=batch, extra_points=extra, extra_vals=vals,
           use_restarts=restarts, **kw)
    st.design, st.surr = d, s
    return st


class Budget:
    """Budget accounting: M is never exceeded; remembers whether it has been assigned in full."""

    def __init__(self, env, M, base=0):
        self.env, self.M, self.base, self.full = env, M, base, False

    def used(self, sim, extra=0):
        return self.base + (len(sim.done) + len(sim.out) + extra)

    def proposal(self, sim, x, p):
        u = self.used(sim, 1)
        self.env.check(C.le(u, self.M), "more evaluations completed and outstanding than the budget")
        self.full = self.env.any([self.full, C.ge(u, self.M)])

    def accepted(self, sim, x, r):
        self.env.check(C.le(self.used(sim), self.M), "more evaluations completed and outstanding than the budget")


class Progress(Budget):
    """Whenever nothing is outstanding there is an action; termination only when due."""

    def __init__(self, env, M, restarts=True, base=0, others=False):
        super().__init__(env, M, base)
        self.restarts, self.others = restarts, others
        self.conv = False

    def proposal(self, sim, x, p):
        self.full = self.env.any([self.full, C.ge(self.used(sim, 1), self.M)])

    def accepted(self, sim, x, r):
        pass

    def idle(self, sim):
        self.env.check(len(sim.out) > 0 or self.others, "nothing is outstanding, but no action is proposed")

    def terminate(self, sim):
        env = self.env
        env.check(len(sim.out) == 0, "termination proposed while evaluations are outstanding")
        conv = (not self.restarts) and bool(sim.s.converged)
        env.check(env.any([self.full, conv]), "termination proposed although budget remains")


def jump(env, st, sim, M):
    """Any number of further evaluations has completed in the meantime (their data does not matter for the counters)."""
    more = env.int("completed", 0, 1000000)
    env.assume(C.le(more + len(sim.done) + len(sim.out), M))
    try:
        st.num_evals = st.num_evals + more
    except AttributeError:
        env.assume(C.eq(more, 0))
        return 0
    return more


def key(x):
    return tuple(float(v) for v in flat(x))


class Plan:
    """The initial design (and unknown extra points) is evaluated in full, and batches are complete; points are concrete and distinct."""

    def __init__(self, env, st, asyn, batch, budget, extra=()):
        self.env, self.st, self.asyn, self.batch, self.budget = env, st, asyn, batch, budget
        self.designs = 0
        self.todo = []  # design points neither outstanding nor completed
        self.design = set()
        self.adapt_todo = []  # generated points that have to be proposed (again)
        self.ngen = 0
        self.fresh = [key(x) for x in extra]
        self.sync_state()
        st.world["monitor"] = self.on_generate

    def sync_state(self):
        d = self.st.design
        if len(d.calls) > self.designs:
            self.designs += 1
            self.env.check(len(d.calls) == self.designs, "two initial designs were generated at once")
            pts = [key(r) for r in d.given] + (self.fresh if self.designs == 1 else [])
            self.todo += pts
            self.design |= set(pts)

    def on_generate(self, n):
        env = self.env
        env.check(n == (1 if self.asyn else self.batch), "the number of generated points is not the configured one")
        env.check(not self.todo, "points are chosen by the surrogate although design points are not assigned")
        env.check(not self.adapt_todo, "a new batch is generated although points of the last one were not proposed again")
        if not self.asyn:
            env.check(not self.sim.out, "a new batch is generated although evaluations are outstanding")
        self.sim.generated_now = True

    def before_ask(self, sim):
        self.sim = sim
        self.ready = bool(self.budget.full is True or (C.is_sym(self.budget.full) and bool(self.budget.full)))

    def proposal(self, sim, x, p):
        env = self.env
        self.sync_state()
        gen = [key(g) for g in self.st.world["generated"]]
        self.adapt_todo += gen[self.ngen:]
        self.ngen = len(gen)
        k = key(x)
        if self.todo:
            env.check(k in self.todo, "a point is proposed although design points are not assigned")
            self.todo.remove(k)
            return
        env.check(k in self.adapt_todo, "a point is proposed that is neither a design point to be evaluated nor a newly chosen one")
        self.adapt_todo.remove(k)
        if not self.asyn:
            env.check(all(key(o) not in self.design for _, o in sim.out), "a point chosen by the surrogate is proposed although the design is not completed")

    def idle(self, sim):
        self.sync_state()
        if self.todo and not self.ready and not (self.st.converged):
            self.env.check(False, "a worker is left idle although design points have to be evaluated")

    def back(self, k):
        if k in self.design:
            self.todo.append(k)
        elif not self.asyn:
            self.adapt_todo.append(k)

    def rejected(self, sim, x):
        self.back(key(x))

    def abort(self, sim, x, r):
        if key(x) in self.design:
            self.todo.append(key(x))

    def terminate(self, sim):
        self.sync_state()
        full = self.budget.full
        self.env.check(self.env.any([full, not self.todo]), "the run ends although design points have not completed and budget remains")


class Contents:
    """The surrogate holds exactly the evaluations proposed since the last restart that have completed (and known extra points of the first run)."""

    def __init__(self, env, st, known=()):
        self.env, self.st = env, st
        self.resets = st.surr.resets
        self.expect = list(known)
        self.current = []
        self.run = 0
        self.tag = {}

    def sync(self):
        if self.st.surr.resets > self.resets:
            self.resets = self.st.surr.resets
            self.expect = []
            self.run += 1

    def accepted(self, sim, x, r):
        self.sync()
        self.tag[id(r)] = self.run

    def completed(self, sim, x, f, r):
        if self.tag[id(r)] == self.run:
            self.expect.append((x, f))
        self.sync()

    def match(self, X, f, what):
        env = self.env
        env.check(len(X) == len(self.expect), "%s does not hold as many points as completed in this run" % what)
        left = list(range(len(X)))
        for x, v in self.expect:
            for j in left:
                if all(C.is_sym(a) is False and C.is_sym(b) is False and float(a) == float(b) for a, b in zip(flat(x), X[j])):
                    left.remove(j)
                    env.check(C.eq(f[j], v), "%s has a wrong value" % what)
                    break
            else:
                env.check(False, "a completed evaluation of this run is missing in %s" % what)

    def after(self, sim):
        self.sync()
        d = self.st.surr.data
        self.match([x for x, _ in d], [f for _, f in d], "the surrogate")

    idle = after


def stub_search(env, st, seen):
    """Replace the candidate searches by arbitrary ones that record their arguments."""
    from pySOT import auxiliary_problems as AP

    pts = st.design.point

    def stub(func):
        def f(*a, **k):
            b = bind(func, a, k)
            seen.append((func.__name__, b))
            n = b["num_pts"]
            return env.arr([pts() for _ in range(n)])

        f.__name__ = func.__name__
        f.__signature__ = inspect.signature(func)
        return f

    for name in ("candidate_srbf", "candidate_dycors", "candidate_uniform"):
        f = getattr(AP, name)
        real = getattr(f, "__symx_real__", f)
        patch_everywhere(env, real, stub(real))
