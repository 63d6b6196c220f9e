"""Records the random draws (and other values the environment provides) of one run, and repeats them in another."""
import contextlib

KINDS = ("real", "int", "choice")


class Tape:
    """lost: the run asked for draws that were not made in the recorded one."""

    def __init__(self, env):
        self.env, self.rec, self.pos, self.lost = env, [], None, False

    @contextlib.contextmanager
    def recording(self):
        with self._hook(lambda kind, name, make: self._new(kind, name, make)):
            yield

    @contextlib.contextmanager
    def playing(self):
        if self.pos is None:
            self.pos = 0
        with self._hook(self._old):
            yield

    @property
    def left(self):
        return len(self.rec) - (self.pos or 0)

    def _new(self, kind, name, make):
        v = make()
        self.rec.append((kind, name, v))
        return v

    def _old(self, kind, name, make):
        if self.pos < len(self.rec) and self.rec[self.pos][:2] == (kind, name):
            self.pos += 1
            return self.rec[self.pos - 1][2]
        self.lost = True
        return make()

    @contextlib.contextmanager
    def _hook(self, f):
        env = self.env
        old = {k: getattr(env, k) for k in KINDS}
        had = {k: env.__dict__.get(k) for k in KINDS}

        def hook(kind):
            def g(name, *a, **k):
                make = lambda: old[kind](name, *a, **k)
                return make() if env.fresh else f(kind, name, make)

            return g

        for k in KINDS:
            setattr(env, k, hook(k))
        try:
            yield
        finally:
            for k in KINDS:
                if had[k] is None:
                    delattr(env, k)
                else:
                    setattr(env, k, had[k])


@contextlib.contextmanager
def outside(env):
    """Values that are not part of the recorded run."""
    env.fresh += 1
    try:
        yield
    finally:
        env.fresh -= 1
