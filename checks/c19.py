"""C19: checkpoints are atomic and complete."""
import os

from checks import fs as F
from checks.strat import *
from symx.runner import Claim

NAMES = {"plain": "run.ck", "dot": "./run.ck", "sub": F.ROOT + "/d/run.ck", "dots": F.ROOT + "/d/e.f/run", "abs": F.ROOT + "/temp_run.ck", "up": F.ROOT + "/d/../run.ck"}


def controller(st=None):
    from poap.controller import Controller

    class Ctl(Controller):
        ran = 0

        def run(self, *a, **k):
            self.ran += 1
            return "ran"

    c = Ctl()
    c.strategy = st
    return c


def checkpointed(env, st, fname):
    from pySOT.controller import CheckpointController

    c = controller(st)
    ck = CheckpointController(c, fname=fname)
    return c, ck


def load(env, fname):
    """What a resumed run starts from: (strategy, None) or (None, exception)."""
    c, ck = checkpointed(env, None, fname)
    try:
        ck.resume()
    except Exception as e:
        return None, e
    return c.strategy, None


def evaluate(env, sim, n):
    for _ in range(n):
        sim.ask(decide=False)
        sim.complete(0)


def crash(env, cfg):
    """The process stops at any point of a save; there may be an earlier checkpoint, and another save may follow in a new process."""
    name, kind, old, again = cfg
    fname = NAMES[name]
    fs = F.FS(env, kind)
    st = make(env, 10, True, None, 2)
    sim = Sim(env, st, 1)
    before = []
    if old:
        evaluate(env, sim, 1)
        st.save(fname)
        before = [1]
    evaluate(env, sim, 1)
    now = len(sim.done)
    fs.arm()
    done = False
    try:
        st.save(fname)
        done = True
    except F.Crash:
        env.reach("stopped")
    except OSError:
        env.reach("error")
    if done:
        env.check(not fs.failed or kind == "error", "internal")
        before = []
    fs.stop() if not fs.dead else None
    look(env, fs, fname, before + [now], bool(before) or done)
    if again:  # a new process, which takes another checkpoint and is stopped as well
        left = [d for c, d in fs.variants(fname)]
        if len(left) != 1:
            return
        have = [] if left[0] is None else [load_n(env, fs, fname, left[0])]
        fs.revive()
        evaluate(env, sim, 1)
        fs.failed = False
        fs.arm()
        done = False
        try:
            st.save(fname)
            done = True
        except (F.Crash, OSError):
            env.reach("stopped twice")
        if done:
            have = []
        fs.stop() if not fs.dead else None
        look(env, fs, fname, have + [now + 1], bool(have) or done)


def load_n(env, fs, fname, data):
    n = fs.files.get(fs.canon(fname))
    fs.revive()
    fs.put(fname, data)
    st, e = load(env, fname)
    fs.files[fs.canon(fname)] = n
    return None if st is None else len(st.X)


def look(env, fs, fname, allowed, must):
    bad, why = [], "the checkpoint is neither the complete previous nor the complete new one"
    for cond, data in fs.variants(fname):
        if data is None:
            if must:
                env.check(False, "there is no checkpoint although there was one before")
            continue
        if load_n(env, fs, fname, data) not in allowed:
            bad.append(C.lnot(cond) if C.is_sym(cond) else not cond)
    env.check(env.all(bad), why)


class Saved:
    """After every finished evaluation, and at the end, the checkpoint knows everything that has finished."""

    def __init__(self, env, fs, fname, ctl):
        self.env, self.fs, self.fname, self.ctl = env, fs, fname, ctl

    def look(self, sim, what):
        env = self.env
        st, e = load(env, self.fname)
        if st is None:
            env.check(False, "no checkpoint can be loaded after " + what)
            return
        ok = [len(st.X) == len(sim.done), len(st.fX) == len(sim.done), C.eq(st.num_evals, len(sim.done)), len(st.fevals) == len(sim.finished)]
        env.check(env.all(ok), "the checkpoint does not include everything that has finished after " + what)
        if len(st.X) != len(sim.done) or len(st.fevals) != len(sim.finished):
            return
        ok = []
        for i, (x, f, r) in enumerate(sim.done):
            j = [key(y) for y in st.X].index(key(x)) if key(x) in [key(y) for y in st.X] else None
            ok.append(False if j is None else C.eq(flat(st.fX)[j], f))
        for r, q in zip(st.fevals, sim.finished):
            ok += [r.status == q.status, key(r.params[0]) == key(q.params[0])]
            if q.status == "completed":
                ok.append(C.eq(r.value, q.value))
        env.check(env.all(ok), "the checkpoint does not include everything that has finished after " + what)

    def after(self, sim):
        if len(sim.finished) > self.n:
            self.env.reach("finished")
            self.look(sim, "an evaluation has finished")

    n = 0

    def before_ask(self, sim):
        self.n = len(sim.finished)

    def before_complete(self, sim, *a):
        self.n = len(sim.finished) - 1

    def abort(self, sim, *a):
        self.n = len(sim.finished) - 1

    def terminate(self, sim):
        self.fs.files.clear()
        self.ctl.call_term_callbacks()
        self.env.reach("terminated")
        self.look(sim, "termination")


def schedule(env, cfg):
    kind, asyn, batch, ninit, M, workers, n, name = cfg
    fs = F.FS(env)
    st = make(env, M, asyn, batch, ninit, kind=kind)
    c, ck = checkpointed(env, st, NAMES[name])
    env.check(ck.run() == "ran" and c.ran == 1, "a new run does not start although there is no checkpoint")
    sim = Sim(env, st, workers, reject=False)
    sim.record = c.new_feval
    sim.monitors.append(Saved(env, fs, NAMES[name], c))
    sim.run(n)
    if sim.terminated and n > 20:
        env.reach("end")


def to_end(env, cfg):
    kind, asyn, batch, ninit, M, workers, n, name = cfg
    fs = F.FS(env)
    st = make(env, M, asyn, batch, ninit, kind=kind)
    c, ck = checkpointed(env, st, NAMES[name])
    sim = Sim(env, st, workers, reject=False)
    sim.record = c.new_feval
    sim.monitors.append(Saved(env, fs, NAMES[name], c))
    sim.run(n)
    sim.drain()


def refuse(env, cfg):
    """A new run starts exactly if there is no checkpoint, and an existing one is not touched."""
    name, = cfg
    fname = NAMES[name]
    fs = F.FS(env)
    st = make(env, 10, True, None, 1)
    exists = env.flag("exists")
    sim = Sim(env, st, 1)
    if exists:
        evaluate(env, sim, 1)
        st.save(fname)
        evaluate(env, sim, 1)
        data = [d for c, d in fs.variants(fname)]
    c, ck = checkpointed(env, st, fname)
    try:
        r = ck.run()
        env.check(not exists, "a new run overwrites an existing checkpoint")
        env.check(r == "ran" and c.ran == 1, "a new run does not start although there is no checkpoint")
        env.reach("started")
    except OSError:
        env.check(exists, "a new run is refused although there is no checkpoint")
        env.check(c.ran == 0, "a refused run was started")
        env.check([d for _, d in fs.variants(fname)] == data, "the existing checkpoint was changed")
        env.reach("refused")


A_, S_ = True, False
ALL = list(NAMES)
CLAIMS = [
    Claim("crash", crash, [(n, "stop", o, False) for n in ALL for o in (0, 1)] + [("plain", "stop", 1, True), ("sub", "error", 1, True), ("abs", "error", 0, False)],
          [(n, k, o, a) for n in ALL for o in (0, 1) for k in ("stop", "error") for a in (False, True)],
          covers="SurrogateBaseStrategy.save, CheckpointController.resume", bounds="any stop before any file operation or inside any write (any number of the bytes), one or two saves in a row, with and without a previous checkpoint", reach=["stopped"]),
    Claim("every-evaluation", schedule,
          [("base", A_, None, 2, 6, 2, 7, "plain"), ("base", S_, 2, 1, 6, 2, 8, "sub"), ("srbf", A_, None, 1, 5, 2, 7, "dots"), ("srbf", S_, 2, 1, 5, 2, 7, "abs")],
          [("base", A_, None, 2, 6, 3, 9, "plain"), ("base", S_, 2, 1, 6, 2, 10, "sub"), ("srbf", A_, None, 1, 5, 2, 9, "dots"), ("dycors", S_, 2, 1, 5, 2, 9, "abs")],
          covers="CheckpointController callbacks", bounds="up to 7-8 (thorough 7-10) events of 2-3 workers, any values", reach=["finished"]),
    Claim("at-termination", to_end,
          [("base", A_, None, 2, 3, 2, 3, "plain"), ("base", S_, 2, 1, 4, 2, 3, "sub")],
          [("base", A_, None, 2, 4, 3, 5, "plain"), ("base", S_, 2, 1, 5, 2, 5, "sub")],
          covers="on_terminate", bounds="any first 3 (5) events, then to the end", reach=["terminated"]),
    Claim("new-run", refuse, [(n,) for n in ALL], None, covers="CheckpointController.run", bounds="six kinds of file name", reach=["refused", "started"]),
]
ASSUMPTIONS = ["the file system is modelled: rename within a file system is atomic, written data may reach the file in any part until it is flushed",
               "dill is modelled as an exact image of the object at the time of the call (deep copy)", "the process stops; the operating system does not (no power failure)"]
