"""C23: extra points are used once, with their known values."""
from checks.strat import *
from symx.runner import Claim

UNKNOWN = [float("nan"), float("inf"), float("-inf")]


def extras(env, n, form):
    """Points and values: every mix of known and unknown ones; the values are arbitrary."""
    X = np.array([[1 - (i + 1) / 128.0] for i in range(n)])
    if form == "integers":  # arrays of integers, as a user may write them
        X = np.array([[i] for i in range(n)])
        known = [3 - 4 * i for i in range(n)] if env.flag("known") else [None] * n
        return X, None if known[0] is None else np.array(known), known
    if form == "none":
        return X, None, [None] * n
    v = []
    for i in range(n):
        if env.flag("known"):
            v.append(env.real("value", -100, 100))
        else:
            v.append(UNKNOWN[i % 3])
    a = env.arr(v)
    known = [x if not C.nonfinite(x) else None for x in v]
    return X, (a.reshape(n, 1) if form == "column" else a), known


class Extra:
    def __init__(self, env, st, X, known):
        self.env, self.st = env, st
        self.known = {key(x): v for x, v in zip(X, known) if v is not None}
        self.todo = {key(x) for x, v in zip(X, known) if v is None}
        self.unknown = set(self.todo)
        self.design = {key(r) for r in st.design.given}
        self.completed_ = []

    def proposal(self, sim, x, p):
        env, k = self.env, key(x)
        env.check(k not in self.known, "a point whose value is known is evaluated")
        if k in self.unknown:
            env.check(k in self.todo, "an extra point is proposed although it is outstanding, completed or belongs to an earlier run")
            self.todo.discard(k)
        elif len(self.st.design.calls) == 1 and k not in self.design:
            env.check(not self.todo, "a point is chosen by the surrogate although extra points of unknown value are not assigned")
            if not self.st.asynchronous:
                env.check(not any(key(o) in self.unknown for _, o in sim.out[:-1]), "a point is chosen by the surrogate although extra points of unknown value have not completed")

    def rejected(self, sim, x):
        if key(x) in self.unknown:
            self.todo.add(key(x))

    def abort(self, sim, x, r):
        if key(x) in self.unknown:
            self.todo.add(key(x))

    def completed(self, sim, x, f, r):
        self.completed_.append((x, f))
        if key(x) in self.unknown:
            self.env.check(key(x) not in self.todo, "internal")
            self.env.reach("unknown evaluated")

    def records(self, sim, st):
        """X and fX hold the known points and what has completed, and nothing else."""
        env = self.env
        want = [(k, v) for k, v in self.known.items()] + [(key(x), f) for x, f in self.completed_]
        have = [key(x) for x in st.X]
        fx = flat(st.fX)
        env.check(len(have) == len(want) == len(fx), "the record does not hold the known extra points and the completed evaluations")
        ok = []
        for k, v in want:
            env.check(have.count(k) == 1, "a known extra point or a completed evaluation is not recorded once")
            ok.append(C.eq(fx[have.index(k)], v))
        env.check(env.all(ok), "a value in the record is wrong")
        env.check(C.eq(st.num_evals, len(self.completed_)), "extra points with a known value are counted as evaluations")


def build(env, cfg):
    kind, asyn, batch, ninit, conv, n, form, room = cfg
    X, vals, known = extras(env, n, form)
    X0, v0 = X.copy(), None if vals is None else vals.copy()
    M = env.int("max_evals", max(ninit, 1), ninit + room)
    st = make(env, M, asyn, batch, ninit, converge=conv, kind=kind, extra=X, vals=vals)
    w = Extra(env, st, X0, known)
    return M, st, w, (X, X0, vals, v0), known


def untouched(env, arrays):
    X, X0, vals, v0 = arrays
    same(env, X, X0, "the array of extra points was modified")
    if vals is not None:
        same(env, vals, v0, "the array of values was modified")


def run(env, cfg):
    kind, asyn, batch, ninit, conv, n, form, room, workers, events, drain = cfg
    M, st, w, arrays, known = build(env, cfg[:8])
    con = Contents(env, st, [(np.array(k), v) for k, v in w.known.items()])
    con.after(None)
    w.records(None, st)
    env.reach("known" if w.known else "all unknown")
    sim = Sim(env, st, workers)
    bud = Budget(env, M)
    sim.monitors += [w, con, bud, Progress(env, M)]
    k = 0
    while k < events and not sim.terminated and not env.flag("stop"):
        sim.step()
        k += 1
    w.records(sim, st)
    if drain:
        sim.fail = False
        sim.drain()
        w.records(sim, st)
        if not sim.aborted:
            env.eq(len(sim.done), M, "the budget is not completed (known values count against it)", 0)
            env.check(env.any([not w.todo, C.lt(M, ninit + len(w.unknown))]), "an extra point of unknown value was not evaluated although the budget allows")
    untouched(env, arrays)
    env.reach("end")


def search(env, cfg):
    """The search sees the known points among the data of the first run, and only there."""
    kind, asyn, batch, ninit, n, form = cfg
    from pySOT import strategy as S

    X, vals, known = extras(env, n, form)
    X0, v0 = X.copy(), None if vals is None else vals.copy()
    base = {"srbf": S.SRBFStrategy, "dycors": S.DYCORSStrategy}[kind]
    pts = Points(env, 1, False)
    d, s = Design(env, ninit, 1, pts), Surr(env, 1)
    st = base(max_evals=40, opt_prob=problem(1), exp_design=d, surrogate=s, asynchronous=asyn, batch_size=batch, extra_points=X, extra_vals=vals, num_cand=2)
    st.design, st.surr = d, s
    seen = []
    stub_search(env, st, seen)
    sim = Sim(env, st, 1, reject=False, fail=False)
    kn = {key(x): v for x, v in zip(X0, known) if v is not None}
    done, run, fails, count = [], 1, False, 0
    while len(seen) < 3:
        sim.ask(decide=False)
        if sim.out:
            done.append((key(sim.out[0][1]), f := env.real("f", 0, 1)))
            sim.complete(0, f)
        count += 1
        if count > 20:
            env.check(False, "the search is not reached")
    for b, m in ((seen[0][1], 0), (seen[-1][1], 1)):
        have = [key(x) for x in b["X"]]
        fx = flat(b["fX"])
        for k, v in kn.items():
            env.check(have.count(k) == 1 and bool(C.eq(fx[have.index(k)], v)), "the search does not see a known extra point with its value")
        env.check(len(have) == len(fx) and len(have) >= len(kn) + ninit, "the search does not see all data of the run")
    env.reach("first run")
    # a new run
    st.sample_restart()
    seen.clear()
    count = 0
    while not seen:
        sim.ask(decide=False)
        for x in sim.proposed[-1:]:
            env.check(key(x) not in {key(q) for q in X0}, "an extra point is proposed again after a restart")
        sim.complete(0)
        count += 1
        if count > 20:
            env.check(False, "the search is not reached")
    have = [key(x) for x in seen[0][1]["X"]]
    env.check(not any(k in have for k in {key(q) for q in X0}), "the data of a new run contain extra points")
    untouched(env, (X, X0, vals, v0))
    env.reach("second run")


A_, S_ = True, False
Q = [("base", A_, None, 1, None, 2, "column", 3, 2, 4, 1), ("base", A_, None, 1, "complete", 2, "column", 4, 2, 4, 0), ("base", S_, 2, 1, "batch", 2, "column", 5, 2, 5, 0), ("base", S_, 2, 1, None, 3, "column", 4, 2, 3, 1), ("base", A_, None, 1, "generate", 2, "none", 4, 2, 5, 0),
     ("srbf", A_, None, 1, None, 2, "column", 4, 2, 3, 1), ("dycors", S_, 2, 1, None, 2, "column", 4, 2, 4, 1), ("ei", S_, 2, 2, "generate", 2, "column", 4, 2, 4, 0), ("lcb", A_, None, 2, "generate", 2, "column", 4, 2, 4, 0), ("sop", A_, None, 2, None, 2, "column", 4, 2, 3, 0), ("base", A_, None, 1, None, 2, "integers", 4, 2, 3, 1), ("srbf", S_, 2, 1, None, 2, "integers", 4, 2, 3, 1)]
CLAIMS = [
    Claim("use", run, Q, [(k, a, b, i, c, n, f, r, w, e + 2, d) for k, a, b, i, c, n, f, r, w, e, d in Q] + [("base", A_, None, 2, None, 4, "column", 5, 3, 4, 1)],
          covers="sample_initial and the initial phase of all surrogate strategies", bounds="2-3 (4) extra points in every mix of known, NaN, inf and -inf, any values, any first 3-5 (5-7) events, then to the end", reach=["end", "known", "all unknown", "unknown evaluated"]),
    Claim("search", search, [("srbf", A_, None, 2, 2, "column"), ("dycors", A_, None, 1, 3, "column"), ("srbf", S_, 1, 2, 2, "column"), ("dycors", A_, None, 1, 2, "none"), ("srbf", A_, None, 1, 2, "integers")], None, covers="data of the search in SRBF and DYCORS", bounds="2-3 extra points, two runs", reach=["first run", "second run"]),
]
ASSUMPTIONS = ["extra points are distinct from the design points and the points chosen by the search"]
