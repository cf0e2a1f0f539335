"""Puts the modules of xigt back into the state they have right after they are
imported: their globals, class attributes, default arguments, closures and
function attributes, and the contents of all dictionaries, lists, sets and
objects of xigt classes reachable from there.  Every execution thereby starts as
in a new process (e.g. with empty caches)."""
import sys
import types
from collections import deque
from collections.abc import MutableMapping

SKIP = ('__builtins__', '__cached__', '__doc__', '__file__', '__loader__', '__name__',
        '__package__', '__path__', '__spec__')


def own(x):
    return str(getattr(x, '__module__', '') or '').split('.')[0] == 'xigt'


class Fresh:
    def __init__(self):
        self.seen = {}
        self.boxes = []         # (object, kind, contents)
        self.cached = []        # functions with a cache
        for name, mod in sorted(sys.modules.items()):
            if name.split('.')[0] == 'xigt' and mod is not None:
                self.box(mod, 'module', {k: v for k, v in vars(mod).items() if k not in SKIP})
                for v in list(vars(mod).values()):
                    self.visit(v)

    def box(self, x, kind, contents):
        self.seen[id(x)] = x
        self.boxes.append((x, kind, contents))

    def visit(self, x):
        if id(x) in self.seen or isinstance(x, (types.ModuleType, str, bytes, int, float)):
            return
        if isinstance(x, MutableMapping):
            self.box(x, 'dict', list(x.items()))
            for v in list(x.values()):
                self.visit(v)
        elif isinstance(x, (list, deque)):
            self.box(x, 'list', list(x))
            for v in list(x):
                self.visit(v)
        elif isinstance(x, set):
            self.box(x, 'set', set(x))
        elif isinstance(x, (tuple, frozenset)):
            for v in x:
                self.visit(v)
        elif hasattr(x, 'cache_clear') and callable(x.cache_clear):
            self.seen[id(x)] = x
            self.cached.append(x)
        elif isinstance(x, types.FunctionType):
            if own(x):
                self.box(x, 'vars', dict(vars(x)))
                for v in (x.__defaults__ or ()) + tuple((x.__kwdefaults__ or {}).values()):
                    self.visit(v)
                for c in x.__closure__ or ():
                    try:
                        v = c.cell_contents
                    except ValueError:
                        continue
                    self.box(c, 'cell', v)
                    self.visit(v)
                for v in list(vars(x).values()):
                    self.visit(v)
        elif isinstance(x, (staticmethod, classmethod)):
            self.visit(x.__func__)
        elif isinstance(x, property):
            for f in (x.fget, x.fset, x.fdel):
                if f is not None:
                    self.visit(f)
        elif isinstance(x, type):
            if own(x):
                self.box(x, 'class', {k: v for k, v in vars(x).items()
                                      if k not in ('__dict__', '__weakref__', '__doc__')})
                for v in list(vars(x).values()):
                    self.visit(v)
        elif own(type(x)) and hasattr(x, '__dict__'):
            self.box(x, 'vars', dict(vars(x)))
            for v in list(vars(x).values()):
                self.visit(v)

    def reset(self):
        for f in self.cached:
            f.cache_clear()
        for x, kind, c in self.boxes:
            if kind == 'module':
                d = vars(x)
                for k in [k for k in d if k not in c and k not in SKIP
                          and not isinstance(d[k], types.ModuleType)]:
                    del d[k]
                for k, v in c.items():
                    if d.get(k) is not v:
                        d[k] = v
            elif kind == 'class':
                d = vars(x)
                for k in [k for k in d if k not in c and k not in (
                        '__dict__', '__weakref__', '__doc__')]:
                    delattr(x, k)
                for k, v in c.items():
                    if d.get(k) is not v:
                        setattr(x, k, v)
            elif kind == 'vars':
                d = vars(x)
                if d != c:
                    d.clear()
                    d.update(c)
            elif kind == 'dict':
                if len(x) != len(c) or any(k not in x or x[k] is not v for k, v in c):
                    x.clear()
                    x.update(c)
            elif kind == 'list':
                if len(x) != len(c) or any(a is not b for a, b in zip(x, c)):
                    x.clear()
                    x.extend(c)
            elif kind == 'set':
                if x != c:
                    x.clear()
                    x.update(c)
            elif kind == 'cell':
                x.cell_contents = c
