"""State kept by the modules under test (globals, class attributes, default
arguments, closures, caches): every path starts from the state found right
after import."""
import types
from collections import deque
from functools import partial, update_wrapper
from operator import is_
from random import Random

ROOTS = ('fog', 'cfog', 'phylactery', 'ebbe')
LIMIT = 5000
_seen = {}
_items = []         # (is unchanged, restore)
_memos = []
_MISS = object()


def ours(name):
    return isinstance(name, str) and name.split('.')[0] in ROOTS


def _namespace(get, set_, delete, keep):
    """Rebinds the names of a namespace."""
    saved = {k: v for k, v in get().items() if keep(k, v)}
    vals = list(saved.values())

    def same():
        now = [v for k, v in get().items() if keep(k, v)]
        return len(now) == len(vals) and all(map(is_, now, vals))

    def restore():
        now = get()
        for k in [k for k, v in now.items() if keep(k, v) and k not in saved]:
            delete(k)
        for k, v in saved.items():
            if get().get(k, _MISS) is not v:
                set_(k, v)
    _items.append((same, restore))
    return vals


def _sequence(o, clear, fill):
    saved = list(o)

    def same():
        return len(o) == len(saved) and all(map(is_, o, saved))

    def restore():
        clear(o)
        fill(o, saved)
    _items.append((same, restore))
    return saved


def _mapping(o):
    base = getattr(o, '_B', None) or dict
    base = base if issubclass(base, dict) else dict
    keys, vals = list(dict.keys(o)), list(dict.values(o))

    def same():
        return len(o) == len(keys) and all(map(is_, dict.keys(o), keys)) and all(map(is_, dict.values(o), vals))

    def restore():
        base.clear(o)
        for k, v in zip(keys, vals):
            base.__setitem__(o, k, v)
        if hasattr(o, '_hs'):
            o._hs = False
    _items.append((same, restore))
    return keys + vals


def _random(o):
    saved = o.getstate()

    def restore():
        o.setstate(saved)
    _items.append((lambda: False, restore))


def visit(root):
    todo = [root]
    while todo:
        o = todo.pop()
        if id(o) in _seen or o is None or isinstance(o, (str, int, float, bytes, types.ModuleType, types.BuiltinFunctionType)):
            continue
        _seen[id(o)] = o
        t = type(o)
        if isinstance(o, list):
            if len(o) <= LIMIT:
                todo += _sequence(o, lambda x: x.__delitem__(slice(None)), lambda x, s: x.extend(s))
        elif isinstance(o, dict):
            if len(o) <= LIMIT:
                todo += _mapping(o)
        elif isinstance(o, set):
            if len(o) <= LIMIT:
                todo += _sequence(o, set.clear, lambda x, s: set.update(x, s))
        elif isinstance(o, deque):
            todo += _sequence(o, deque.clear, lambda x, s: x.extend(s))
        elif isinstance(o, (tuple, frozenset)):
            if len(o) <= LIMIT:
                todo += list(o)
        elif isinstance(o, Random):
            _random(o)
        elif t is Memo:
            todo.append(o.fn)
        elif t is types.FunctionType:
            if not ours(o.__module__):
                continue
            todo += list(o.__defaults__ or ()) + list((o.__kwdefaults__ or {}).values())
            if o.__dict__ or True:
                todo += _namespace(lambda o=o: o.__dict__, lambda k, v, o=o: setattr(o, k, v), lambda k, o=o: delattr(o, k), lambda k, v: True)
            for c in o.__closure__ or ():
                try:
                    todo.append(c.cell_contents)
                except ValueError:
                    pass
        elif t is partial:
            todo += [o.func, o.args, o.keywords]
        elif isinstance(o, (staticmethod, classmethod)):
            todo.append(o.__func__)
        elif isinstance(o, property):
            todo += [o.fget, o.fset]
        elif isinstance(o, type):
            if ours(o.__module__):
                todo += _namespace(lambda o=o: vars(o), lambda k, v, o=o: setattr(o, k, v), lambda k, o=o: delattr(o, k),
                                   lambda k, v: not (k.startswith('__') and k not in ('__init__', '__call__', '__iter__')))
        elif ours(getattr(t, '__module__', None)):
            if hasattr(o, '__dict__'):
                todo += _namespace(lambda o=o: o.__dict__, lambda k, v, o=o: setattr(o, k, v), lambda k, o=o: delattr(o, k), lambda k, v: True)
            for c in t.__mro__:
                s = c.__dict__.get('__slots__', ())
                for k in (s,) if isinstance(s, str) else s:
                    todo.append(getattr(o, k, None))


def snapshot(module):
    d = module.__dict__
    for v in _namespace(lambda: d, d.__setitem__, d.__delitem__,
                        lambda k, v: not (k.startswith('__') or k.startswith('_sx_') or isinstance(v, types.ModuleType))):
        visit(v)


def restore():
    for m in _memos:
        m.clear()
    for same, back in _items:
        if not same():
            back()


class Memo(object):
    """functools.lru_cache, for symbolic arguments too."""

    def __init__(self, fn, maxsize):
        from .containers import SDict
        self.fn, self.maxsize, self.d = fn, maxsize, SDict()
        self.hits = self.misses = 0
        update_wrapper(self, fn)
        self.__wrapped__ = fn
        _memos.append(self)

    def clear(self):
        from .containers import SDict
        self.d = SDict()
        self.hits = self.misses = 0

    cache_clear = clear

    def cache_info(self):
        from functools import _CacheInfo
        return _CacheInfo(self.hits, self.misses, self.maxsize, len(self.d))

    def __call__(self, *a, **k):
        for x in a + tuple(k.values()):
            if isinstance(x, (list, dict, set)):
                raise TypeError("unhashable type: '%s'" % type(x).__name__)
        key = (a, tuple(k.items()))
        r = self.d.get(key, _MISS)
        if r is not _MISS:
            self.hits += 1
            if self.maxsize is not None:
                self.d.pop(key)
                self.d[key] = r
            return r
        self.misses += 1
        r = self.fn(*a, **k)
        if self.maxsize == 0:
            return r
        if self.maxsize is not None and len(self.d) >= self.maxsize:
            del self.d[next(iter(self.d))]
        self.d[key] = r
        return r

    def __get__(self, o, cls=None):
        return self if o is None else types.MethodType(self, o)


def lru_cache(maxsize=128, typed=False):
    if callable(maxsize):
        return Memo(maxsize, 128)
    return lambda fn: Memo(fn, maxsize)


def cache(fn):
    return Memo(fn, None)
