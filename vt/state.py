"""Every path starts with the package as it is after its import.

The package may keep state between calls (caches, counters).  In one process many paths are explored one
after another, and what one path leaves behind (symbolic values of that path, above all) means nothing in the
next one.  So the state is remembered after the import and put back before every path and every validation run.
What happens within one path is not touched: there, earlier calls may influence later ones, as in a program.
"""

import sys
import types

import numpy as np

from vt.npstubs import PACKAGE

CONTAINERS = (dict, list, set)


class State:
    def __init__(self):
        self.spaces, self.contents, self.caches, self.seen = [], [], [], set()
        for name, mod in list(sys.modules.items()):
            if mod is not None and (name == PACKAGE or name.startswith(PACKAGE + ".")):
                self.space(mod, vars(mod))

    def space(self, owner, names):
        """The names of a module, a class or an object."""
        if id(owner) in self.seen:
            return
        self.seen.add(id(owner))
        self.spaces.append((owner, dict(names)))
        for k, v in list(names.items()):
            if not (k.startswith("__") and k.endswith("__")):
                self.value(v)

    def value(self, v):
        if isinstance(v, (staticmethod, classmethod)):
            v = v.__func__
        if isinstance(v, property):
            for f in (v.fget, v.fset):
                self.value(f)
            return
        if callable(getattr(v, "cache_clear", None)):
            self.caches.append(v)
            v = getattr(v, "__wrapped__", v)
        if isinstance(v, types.FunctionType):
            if id(v) not in self.seen and self.ours(v):
                self.space(v, vars(v))
                for d in (*(v.__defaults__ or ()), *(v.__kwdefaults__ or {}).values()):
                    self.value(d)
                for cell in v.__closure__ or ():
                    try:
                        self.value(cell.cell_contents)
                    except ValueError:
                        pass
        elif isinstance(v, type):
            if self.ours(v):
                self.space(v, vars(v))
        elif isinstance(v, CONTAINERS):
            if id(v) not in self.seen:
                self.seen.add(id(v))
                self.contents.append((v, v.copy()))
                for x in v.values() if isinstance(v, dict) else v:
                    self.value(x)
        elif type(v) is np.ndarray:
            if id(v) not in self.seen and v.flags.writeable:
                self.seen.add(id(v))
                self.contents.append((v, v.copy()))
        elif self.ours(type(v)) and hasattr(v, "__dict__"):
            self.space(v, vars(v))

    @staticmethod
    def ours(x):
        m = getattr(x, "__module__", None)
        return isinstance(m, str) and (m == PACKAGE or m.startswith(PACKAGE + "."))

    def restore(self):
        for cache in self.caches:
            cache.cache_clear()
        for owner, names in self.spaces:
            now = vars(owner)
            for k in [k for k in now if k not in names]:
                _try(delattr, owner, k)
            for k, v in names.items():
                if now.get(k, self) is not v:
                    _try(setattr, owner, k, v)
        for v, was in self.contents:
            if isinstance(v, np.ndarray):
                v[...] = was
            elif isinstance(v, list):
                v[:] = was
            else:
                v.clear()
                v.update(was)


def _try(f, *args):
    try:
        f(*args)
    except (AttributeError, TypeError):
        pass
