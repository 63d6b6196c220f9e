"""A controller, problem, design and surrogate under the harness' control, used with the real strategies.

The controller does what POAP's controllers do (propose_action, accept/reject, running, complete/kill/cancel with the
real Proposal and EvalRecord classes), one event at a time, in an order that is chosen by the environment."""
import inspect
import sys

import numpy as np

from checks.common import *


def problem(dim, lb=None, ub=None, int_var=(), base=None):
    from pySOT.optimization_problems import OptimizationProblem

    class Prob(OptimizationProblem):
        def __init__(self):
            self.dim = dim
            self.lb = np.zeros(dim) if lb is None else lb
            self.ub = np.ones(dim) if ub is None else ub
            self.int_var = np.array(int_var, dtype=int)
            self.cont_var = np.array([j for j in range(dim) if j not in int_var], dtype=int)

        def eval(self, x):
            raise NotImplementedError

    return Prob()


class Design:
    """Factory of experimental designs with given (arbitrary) points."""

    def __new__(cls, env, n, dim, point):
        from pySOT.experimental_design import ExperimentalDesign

        class D(ExperimentalDesign):
            def __init__(self):
                self.dim = dim
                self.num_pts = n
                self.calls = []
                self.history = []
                self.point = point

            def generate_points(self, lb=None, ub=None, int_var=None):
                self.calls.append((lb, ub, int_var))
                if n == 0:
                    return np.zeros((0, dim))
                self.last = env.arr([[c for c in point()] for _ in range(n)])
                self.given = self.last.copy()
                self.history += [r.copy() for r in self.given]
                return self.last

        return D()


class Surr:
    """Factory of surrogates that record what they are told."""

    def __new__(cls, env, dim, predict=None):
        from pySOT.surrogate import Surrogate

        class S(Surrogate):
            def __init__(self):
                self.data = []
                self.resets = 0
                self.asked = []
                super().__init__(dim, np.zeros(dim), np.ones(dim))

            def reset(self):
                self.data = []
                self.resets += 1
                super().reset()

            def add_points(self, xx, fx):
                xs = [list(r) for r in np.atleast_2d(xx)]
                fs = flat(fx) if isinstance(fx, np.ndarray) else [fx]
                assert len(xs) == len(fs)
                self.data += list(zip(xs, fs))
                self.num_pts = len(self.data)

            def predict(self, xx):
                xx = np.atleast_2d(xx)
                self.asked.append(xx)
                if predict is not None:
                    return predict(xx)
                return env.array("pred", (xx.shape[0], 1), -10, 10)

            def predict_std(self, xx):
                return env.array("std", (np.atleast_2d(xx).shape[0], 1), 0.01, 10)

            def predict_deriv(self, xx):
                raise NotImplementedError

            eval = predict

        return S()


def patch_everywhere(env, func, repl):
    """Replace a module-level function of the package wherever it is bound."""
    for n, m in list(sys.modules.items()):
        if m is not None and n.split(".")[0] == "pySOT":
            for k, v in list(m.__dict__.items()):
                if v is func or getattr(v, "__symx_real__", None) is func:
                    env.patch(m, k, repl)


def bind(func, a, k):
    b = inspect.signature(func).bind(*a, **k)
    b.apply_defaults()
    return dict(b.arguments)


class Stop(Exception):
    pass


class Sim:
    """One run: events are chosen one by one; `out` holds the outstanding evaluations as (record, point)."""

    def __init__(self, env, strat, workers, reject=True, fail=True, value=None, full=False):
        """reject/fail: proposals may be rejected, evaluations may be killed; full: asked (and rejected) with all workers busy, too."""
        self.full = full
        self.env, self.s, self.workers = env, strat, workers
        self.reject, self.fail = reject, fail
        self.value = value or (lambda x: env.real("f", -100, 100))
        self.out, self.done, self.aborted, self.finished = [], [], [], []
        self.proposed = []
        self.terminated = False
        self.monitors = []
        self.nprop = 0

    how = None  # 0: the next abort is a kill, 1: a cancel
    record = None  # how the controller makes the record of an accepted evaluation

    def emit(self, what, *a):
        for m in self.monitors:
            f = getattr(m, what, None)
            if f:
                f(self, *a)

    # -- events
    def ask(self, decide=None):
        """A worker is free: ask for the next action.  Returns the proposal (or None)."""
        from poap.strategy import EvalRecord

        env = self.env
        self.emit("before_ask")
        p = self.s.propose_action()
        if p is None:
            self.emit("idle")
            return None
        if p.action == "terminate":
            self.emit("terminate")
            self.terminated = True
            p.accept()
            return p
        env.check(p.action == "eval", "unknown action proposed")
        x = p.args[0]
        self.nprop += 1
        self.proposed.append(x)
        self.emit("proposal", x, p)
        rej = (self.reject and env.flag("reject")) if decide is None else decide
        if rej:
            p.reject()
            self.emit("rejected", x)
        else:
            xx = x.copy()
            r = self.record(tuple(p.args)) if self.record else EvalRecord(tuple(p.args))
            p.record = r
            p.accept()
            self.out.append((r, xx))
            self.emit("accepted", xx, r)
            r.running()
        return p

    def complete(self, i, f=None):
        r, x = self.out.pop(i)
        f = self.value(x) if f is None else f
        self.done.append((x, f, r))
        self.finished.append(r)
        self.emit("before_complete", x, f, r)
        r.complete(f)
        self.emit("completed", x, f, r)

    def abort(self, i, how=0):
        r, x = self.out.pop(i)
        self.aborted.append((x, r))
        self.finished.append(r)
        (r.kill if how == 0 else r.cancel)()
        self.emit("abort", x, r)

    def lose(self):
        """The process dies: what was running is lost."""
        self.out = []

    def step(self):
        """One event chosen by the environment."""
        opts = []
        if not self.terminated and (len(self.out) < self.workers or self.full):
            opts.append(("ask", 0))
        for i in range(len(self.out)):
            opts.append(("complete", i))
        if self.fail:
            for i in range(len(self.out)):
                opts.append(("abort", i))
        if not opts:
            return False
        w, i = opts[self.env.choice("event", len(opts))]
        if w == "ask":
            self.ask(decide=None if len(self.out) < self.workers else True)
        elif w == "complete":
            self.complete(i)
        else:
            if self.how is None:  # killed first or cancelled first, then alternating
                self.how = self.env.choice("cancelled", 2)
            self.abort(i, self.how)
            self.how = 1 - self.how
        self.emit("after")
        return True

    def run(self, n):
        for _ in range(n):
            if not self.step():
                return

    def drain(self, limit=60):
        """Finish the run without further failures, serially oldest first."""
        n = 0
        while not self.terminated:
            n += 1
            if n > limit:
                self.env.check(False, "the run does not terminate")
                return
            before = len(self.out)
            if before < self.workers:
                p = self.ask(decide=False)
                self.emit("after")
                if self.terminated:
                    return
                if p is not None:
                    continue
            if not self.out:
                self.env.check(False, "nothing outstanding, but no action is proposed")
                return
            self.complete(0)
            self.emit("after")
