"""Binding to the code under test: /repo's plasTeX, and per-case isolation."""
import os
import sys
import types

import plasTeX
from plasTeX.TeX import TeX
from plasTeX import TeXDocument
import plasTeX.Base
import plasTeX.Context
import plasTeX.Tokenizer

REPO = os.path.realpath(os.environ.get('MC_REPO', '/repo'))
assert os.path.realpath(plasTeX.__file__).startswith(REPO + os.sep), plasTeX.__file__

SIMPLE = (int, float, str, bytes, bool, type(None), tuple)
CONT = (list, dict, set)


def _classes():
    seen = set()
    out = []

    def visit(c):
        if c in seen:
            return
        seen.add(c)
        out.append(c)
        for v in list(vars(c).values()):
            if isinstance(v, type) and getattr(v, '__module__', '').startswith('plasTeX'):
                visit(v)
    for name, mod in sorted(sys.modules.items()):
        if mod is None or not (name == 'plasTeX' or name.startswith('plasTeX.')):
            continue
        out.append(mod)
        for v in list(vars(mod).values()):
            if isinstance(v, type) and getattr(v, '__module__', '').startswith('plasTeX'):
                visit(v)
    return out


MISSING = object()


class Globals(object):
    """Snapshot of every simple-valued class / module attribute of plasTeX.

    restore() puts changed values back, so that one case cannot influence the
    next one inside a worker (leaks themselves are the subject of C17).
    """
    SKIP = {'__doc__', '__module__', '__qualname__', '__name__', '__file__', '__package__', '__path__',
            '__cached__', '__slots__', '__annotations__', '__firstlineno__', '__static_attributes__'}

    def __init__(self):
        self.items = []
        self.hot = []
        for c in _classes():
            for k, v in list(vars(c).items()):
                if k in self.SKIP or k.startswith('@'):
                    continue
                if isinstance(v, CONT):
                    self.items.append((c, k, v, type(v)(v) if type(v) in CONT else v.copy()))
                elif isinstance(v, SIMPLE):
                    self.items.append((c, k, v, None))
        names = {'inEnv', 'depth', 'disableMath', 'enabled', '_enablelevel', 'value', 'columnTypes', 'state'}
        self.hot = [it for it in self.items if it[1] in names]
        self.n = 0

    @staticmethod
    def _changed(it):
        c, k, v, copy = it
        cur = c.__dict__.get(k, MISSING)
        if cur is not v:
            return True
        if copy is not None:
            if len(cur) != len(copy):
                return True
            try:
                return bool(cur != copy)
            except Exception:
                return True
        return False

    @staticmethod
    def _put(it):
        c, k, v, copy = it
        try:
            if copy is not None:
                if isinstance(v, list):
                    v[:] = copy
                else:
                    v.clear()
                    v.update(copy)
            if c.__dict__.get(k, MISSING) is not v:
                setattr(c, k, v)
        except Exception:
            pass

    def changed(self):
        return [it for it in self.items if self._changed(it)]

    def restore(self):
        for it in self.hot:
            if self._changed(it):
                self._put(it)
        self.n += 1
        if self.n % 64 == 1:
            for it in self.items:
                if self._changed(it):
                    self._put(it)
                    if it not in self.hot:
                        self.hot.append(it)


_globals = None


def fresh():
    """Bring interpreter-wide state back to its initial value."""
    global _globals
    if _globals is None:
        _globals = Globals()
    else:
        _globals.restore()


def preload(*names):
    import importlib
    for n in names:
        importlib.import_module(n)


def newtex(config=None):
    fresh()
    if config is not None:
        return TeX(TeXDocument(config=config))
    return TeX()


def parse(src, config=None):
    tex = newtex(config)
    tex.input(src)
    return tex.parse()
