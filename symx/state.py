"""Puts the state that the code under test keeps between calls (module globals, class attributes, default arguments, caches) back to what it was after the import."""
import types

import numpy as np

PLAIN = (list, dict, set, np.ndarray)
SKIP = (types.ModuleType, types.BuiltinFunctionType, types.MethodType, staticmethod, classmethod, property)
_kept = None


class _Keep:
    """An object and how it was."""

    def __init__(self, o):
        self.o = o
        self.was = list(o) if isinstance(o, list) else dict(o) if isinstance(o, dict) else set(o) if isinstance(o, set) else o.copy()

    def restore(self):
        o = self.o
        if isinstance(o, list):
            o[:] = self.was
        elif isinstance(o, dict):
            if o.keys() != self.was.keys() or any(o[k] is not v for k, v in self.was.items()):
                o.clear()
                o.update(self.was)
        elif isinstance(o, set):
            o.clear()
            o.update(self.was)
        else:
            try:
                o[...] = self.was
            except Exception:
                pass


def _visit(o, objs, ids, pkg, depth=0):
    """Containers, functions and instances reachable from o."""
    if id(o) in ids or depth > 6 or o is None or isinstance(o, (int, float, str, bytes)) or isinstance(o, SKIP):
        return
    if isinstance(o, PLAIN):
        ids.add(id(o))
        objs.append(_Keep(o))
        for v in list(o.values()) if isinstance(o, dict) else list(o) if isinstance(o, (list, set)) else ():
            _visit(v, objs, ids, pkg, depth + 1)
        return
    if isinstance(o, types.FunctionType):
        if not (o.__module__ or "").startswith(pkg):
            return
        ids.add(id(o))
        for v in list(o.__defaults__ or ()) + list((o.__kwdefaults__ or {}).values()):
            _visit(v, objs, ids, pkg, depth + 1)
        for c in o.__closure__ or ():
            try:
                _visit(c.cell_contents, objs, ids, pkg, depth + 1)
            except ValueError:
                pass
        objs.append(_Keep(o.__dict__))
        return
    if hasattr(o, "cache_clear") and callable(o.cache_clear):
        ids.add(id(o))
        objs.append(o)
        return
    if isinstance(o, type):
        if o.__module__.split(".")[0] == pkg:
            ids.add(id(o))
            objs.append((o, {n: v for n, v in o.__dict__.items() if not n.startswith("__") or n == "__init__"}))
            for n, v in list(o.__dict__.items()):
                v = v.__func__ if isinstance(v, (staticmethod, classmethod)) else v.fget if isinstance(v, property) else v
                if n not in ("__dict__", "__weakref__", "__doc__", "__module__"):
                    _visit(v, objs, ids, pkg, depth + 1)
        return
    if type(o).__module__.split(".")[0] == pkg and hasattr(o, "__dict__"):
        ids.add(id(o))
        objs.append(_Keep(o.__dict__))
        for v in list(o.__dict__.values()):
            _visit(v, objs, ids, pkg, depth + 1)


def keep(modules, pkg="pySOT"):
    global _kept
    if _kept is not None:
        return
    objs, ids, globs = [], set(), []
    for m in modules:
        if m.__name__.split(".")[0] != pkg:
            continue
        globs.append((m.__dict__, {n: v for n, v in m.__dict__.items() if not n.startswith("__")}))
        for n, v in list(m.__dict__.items()):
            if not n.startswith("__"):
                _visit(v, objs, ids, pkg)
    _kept = (globs, objs)


def restore():
    if _kept is None:
        return
    globs, objs = _kept
    for d, was in globs:
        for n in [n for n in d if not n.startswith("__") and n not in was]:
            del d[n]
        for n, v in was.items():
            if d.get(n, d) is not v:
                d[n] = v
    for o in objs:
        if isinstance(o, _Keep):
            o.restore()
        elif isinstance(o, tuple):
            cls, was = o
            for n in [n for n in cls.__dict__ if not n.startswith("__") and n not in was]:
                try:
                    delattr(cls, n)
                except (AttributeError, TypeError):
                    pass
            for n, v in was.items():
                if cls.__dict__.get(n, cls) is not v:
                    try:
                        setattr(cls, n, v)
                    except (AttributeError, TypeError):
                        pass
        else:
            o.cache_clear()
