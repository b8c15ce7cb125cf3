"""Hash containers whose membership is decided by (symbolic) equality.

They subclass the builtin types, and fall back on the native operations when
no symbolic key is involved."""
from collections import defaultdict, Counter, OrderedDict
from .values import (Sym, SymStr, SymInt, is_sym, sym_eq, z_or, mkbool, isstr)

_MISS = object()


def find_eq(keys, x):
    """The element of `keys` equal to x, or _MISS (forks)."""
    for e in keys:
        if e is x:
            return e
    for e in keys:
        r = sym_eq(e, x)
        if r is False:
            continue
        if r is True or bool(mkbool(r)):
            return e
    return _MISS


def z_member(keys, x):
    """x in keys as a z3 condition or a bool (single fork)."""
    parts = []
    for e in keys:
        r = sym_eq(e, x)
        if r is True:
            return True
        if r is not False:
            parts.append(r)
    return z_or(parts)


_ATOM = (str, int, float, bool, bytes, type(None))


def find_value(items, k, default=_MISS):
    """The value at a symbolic key among concrete keys: forks once per
    distinct value rather than once per key (_MISS when the key is absent,
    NotImplemented when values are not atomic)."""
    groups = {}
    for key, v in items:
        if not isinstance(v, _ATOM):
            return NotImplemented
        groups.setdefault((type(v), v), []).append(key)
    for (t, v), keys in groups.items():
        if default is not _MISS and v is default:
            continue
        r = z_member(keys, k)
        if r is False:
            continue
        if r is True or bool(mkbool(r)):
            return v
    return default


def _needs(c, x):
    return c._hs or is_sym(x)


class SSet(set):
    def __init__(self, it=()):
        set.__init__(self)
        self._hs = False
        for x in it:
            self.add(x)

    def z_contains(self, x):
        if not _needs(self, x):
            return set.__contains__(self, x)
        return z_member(self, x)

    def __contains__(self, x):
        return bool(mkbool(self.z_contains(x)))

    def add(self, x):
        if not _needs(self, x):
            set.add(self, x)
            return
        if x in self:
            return
        if is_sym(x):
            self._hs = True
        set.add(self, x)

    def discard(self, x):
        if not _needs(self, x):
            set.discard(self, x)
            return
        e = find_eq(list(self), x)
        if e is not _MISS:
            self._del(e)

    def _del(self, e):
        set.discard(self, e)

    def remove(self, x):
        if not _needs(self, x):
            set.remove(self, x)
            return
        e = find_eq(list(self), x)
        if e is _MISS:
            raise KeyError(x)
        self._del(e)

    def update(self, *its):
        for it in its:
            for x in it:
                self.add(x)

    def __ior__(self, o):
        if not isinstance(o, (set, frozenset)):
            return NotImplemented
        self.update(o)
        return self

    def copy(self):
        r = SSet()
        set.update(r, self)
        r._hs = self._hs
        return r

    __copy__ = copy

    def union(self, *its):
        r = self.copy()
        r.update(*its)
        return r

    def intersection(self, *its):
        r = self
        for it in its:
            it = it if isinstance(it, (set, frozenset)) else SSet(it)
            # same orientation rule as CPython: iterate over the smallest
            a, b = (r, it) if len(r) <= len(it) else (it, r)
            r = SSet(x for x in list(a) if member(x, b))
        return r if r is not self else self.copy()

    def difference(self, *its):
        r = self.copy()
        for it in its:
            it = it if isinstance(it, (set, frozenset)) else SSet(it)
            r = SSet(x for x in list(r) if not member(x, it))
        return r

    def symmetric_difference(self, it):
        it = it if isinstance(it, (set, frozenset)) else SSet(it)
        return SSet([x for x in self if not member(x, it)] + [x for x in it if not member(x, self)])

    def intersection_update(self, *its):
        r = self.intersection(*its)
        set.clear(self)
        set.update(self, r)

    def difference_update(self, *its):
        r = self.difference(*its)
        set.clear(self)
        set.update(self, r)

    def symmetric_difference_update(self, it):
        r = self.symmetric_difference(it)
        set.clear(self)
        set.update(self, r)

    def isdisjoint(self, it):
        for x in it:
            if x in self:
                return False
        return True

    def issubset(self, it):
        it = it if isinstance(it, (set, frozenset)) else SSet(it)
        if len(self) > len(it):
            return False
        return all(member(x, it) for x in self)

    def issuperset(self, it):
        return all(x in self for x in it)

    def _chk(f):
        def g(self, o):
            if not isinstance(o, (set, frozenset)):
                return NotImplemented
            return f(self, o)
        return g

    __or__ = _chk(lambda s, o: s.union(o))
    __ror__ = _chk(lambda s, o: SSet(o).union(s))
    __and__ = _chk(lambda s, o: s.intersection(o))
    __rand__ = _chk(lambda s, o: s.intersection(o))
    __sub__ = _chk(lambda s, o: s.difference(o))
    __rsub__ = _chk(lambda s, o: SSet(o).difference(s))
    __xor__ = _chk(lambda s, o: s.symmetric_difference(o))
    __rxor__ = _chk(lambda s, o: s.symmetric_difference(o))
    __le__ = _chk(lambda s, o: s.issubset(o))
    __ge__ = _chk(lambda s, o: s.issuperset(o))
    __lt__ = _chk(lambda s, o: len(s) < len(o) and s.issubset(o))
    __gt__ = _chk(lambda s, o: len(s) > len(o) and s.issuperset(o))

    def __iand__(self, o):
        self.intersection_update(o)
        return self

    def __isub__(self, o):
        self.difference_update(o)
        return self

    def __ixor__(self, o):
        self.symmetric_difference_update(o)
        return self

    def __eq__(self, o):
        if not isinstance(o, (set, frozenset)):
            return False
        return len(self) == len(o) and self.issubset(o)

    def __ne__(self, o):
        return not self.__eq__(o)

    __hash__ = None


class SFrozenSet(frozenset):
    def __new__(cls, it=()):
        s = it if isinstance(it, SSet) else SSet(it)
        r = frozenset.__new__(cls, set(s))
        r._hs = s._hs
        return r

    def __hash__(self):
        if self._hs:
            return 999331
        return frozenset.__hash__(self)

    z_contains = SSet.z_contains
    __contains__ = SSet.__contains__

    def _w(name):
        def f(self, *a):
            r = getattr(SSet(self), name)(*a)
            if r is NotImplemented:
                return r
            return SFrozenSet(r) if isinstance(r, set) else r
        return f

    for _n in ('union', 'intersection', 'difference', 'symmetric_difference',
               '__or__', '__and__', '__sub__', '__xor__', '__le__', '__ge__',
               '__lt__', '__gt__', '__eq__', '__ne__', 'issubset', 'issuperset',
               'isdisjoint', '__ror__', '__rand__', '__rsub__', '__rxor__'):
        locals()[_n] = _w(_n)

    def copy(self):
        return self


def member(x, c):
    """x in c for any container, with symbolic equality (forks)."""
    if isinstance(c, (SSet, SFrozenSet, SDictMixin)):
        return x in c
    if isinstance(c, (set, frozenset, dict)):
        if is_sym(x) or any(is_sym(e) for e in c):
            return bool(mkbool(z_member(c, x)))
        return x in c
    return x in c


class SDictMixin(object):
    """Key canonicalisation over a builtin mapping base."""

    def _init(self):
        self._hs = False

    def _key(self, k):
        """The stored key equal to k, or k itself when absent."""
        if not self._hs and not is_sym(k):
            return k
        e = find_eq(list(self), k)
        return k if e is _MISS else e

    def z_contains(self, x):
        if not _needs(self, x):
            return self._B.__contains__(self, x)
        return z_member(self, x)

    def __contains__(self, x):
        return bool(mkbool(self.z_contains(x)))

    def __getitem__(self, k):
        if not self._hs and is_sym(k):
            v = find_value(self.items(), k)
            if v is _MISS:
                raise KeyError(k)
            if v is not NotImplemented:
                return v
        return self._B.__getitem__(self, self._key(k))

    def __setitem__(self, k, v):
        if is_sym(k) or self._hs:
            k = self._key(k)
            if is_sym(k):
                self._hs = True
        self._B.__setitem__(self, k, v)

    def __delitem__(self, k):
        self._B.__delitem__(self, self._key(k))

    def get(self, k, d=None):
        if not self._hs and not is_sym(k):
            return self._B.get(self, k, d)
        if not self._hs:
            v = find_value(self.items(), k, d)
            if v is not NotImplemented:
                return v
        e = find_eq(list(self), k)
        return d if e is _MISS else self._B.__getitem__(self, e)

    def pop(self, k, *d):
        return self._B.pop(self, self._key(k), *d)

    def setdefault(self, k, d=None):
        k2 = self._key(k)
        if self._B.__contains__(self, k2):
            return self._B.__getitem__(self, k2)
        self[k2] = d
        return d

    def update(self, *a, **kw):
        if a:
            o = a[0]
            if hasattr(o, 'keys'):
                for k in o.keys():
                    self[k] = o[k]
            else:
                for k, v in o:
                    self[k] = v
        for k, v in kw.items():
            self[k] = v

    def __eq__(self, o):
        if not isinstance(o, dict):
            return False
        if len(self) != len(o):
            return False
        for k, v in self.items():
            e = find_eq(list(o), k) if (self._hs or is_sym(k) or getattr(o, '_hs', True)) else (k if k in o else _MISS)
            if e is _MISS:
                return False
            if not bool(mkbool(sym_eq(v, dict.__getitem__(o, e)))):
                return False
        return True

    def __ne__(self, o):
        return not self.__eq__(o)

    def __or__(self, o):
        r = SDict(self)
        r.update(o)
        return r

    def __ior__(self, o):
        self.update(o)
        return self

    __hash__ = None

    def keys(self):
        return SKeys(self)


class SKeys(object):
    """Set-like key view."""

    def __init__(self, d):
        self.d = d

    def __iter__(self):
        return iter(self.d)

    def __len__(self):
        return len(self.d)

    def __contains__(self, x):
        return x in self.d

    def z_contains(self, x):
        return self.d.z_contains(x)

    def __reversed__(self):
        return reversed(list(self.d))

    def _s(self):
        return SSet(self.d)

    def __and__(self, o):
        return self._s() & SSet(o)
    __rand__ = __and__

    def __or__(self, o):
        return self._s() | SSet(o)
    __ror__ = __or__

    def __sub__(self, o):
        return self._s() - SSet(o)

    def __rsub__(self, o):
        return SSet(o) - self._s()

    def __xor__(self, o):
        return self._s() ^ SSet(o)

    def __eq__(self, o):
        return self._s() == SSet(o)

    def __le__(self, o):
        return self._s() <= SSet(o)

    def isdisjoint(self, o):
        return self._s().isdisjoint(o)

    __hash__ = None


class SDict(SDictMixin, dict):
    _B = dict

    def __init__(self, *a, **kw):
        dict.__init__(self)
        self._init()
        self.update(*a, **kw)

    def copy(self):
        r = SDict()
        dict.update(r, self)
        r._hs = self._hs
        return r
    __copy__ = copy

    @classmethod
    def fromkeys(cls, it, v=None):
        r = cls()
        for k in it:
            r[k] = v
        return r


class SOrderedDict(SDictMixin, OrderedDict):
    _B = OrderedDict

    def __init__(self, *a, **kw):
        self._hs = False
        OrderedDict.__init__(self)
        self.update(*a, **kw)

    def move_to_end(self, k, last=True):
        OrderedDict.move_to_end(self, self._key(k), last)


class SDefaultDict(SDictMixin, defaultdict):
    _B = defaultdict

    def __init__(self, factory=None, *a, **kw):
        defaultdict.__init__(self, factory)
        self._init()
        self.update(*a, **kw)

    def __getitem__(self, k):
        k = self._key(k)
        if dict.__contains__(self, k):
            return dict.__getitem__(self, k)
        return self.__missing__(k)

    def __missing__(self, k):
        if self.default_factory is None:
            raise KeyError(k)
        v = self.default_factory()
        self[k] = v
        return v

    def copy(self):
        return SDefaultDict(self.default_factory, self)
    __copy__ = copy


class SCounter(SDictMixin, Counter):
    _B = Counter

    def __init__(self, it=None, **kw):
        self._hs = False
        dict.__init__(self)
        self.update(it, **kw)

    def __getitem__(self, k):
        k = self._key(k)
        if dict.__contains__(self, k):
            return dict.__getitem__(self, k)
        return 0

    def __delitem__(self, k):
        k = self._key(k)
        if dict.__contains__(self, k):
            dict.__delitem__(self, k)

    def update(self, it=None, **kw):
        if it is not None:
            if isinstance(it, dict):
                for k, v in it.items():
                    self[k] = self[k] + v
            else:
                for k in it:
                    self[k] = self[k] + 1
        for k, v in kw.items():
            self[k] = self[k] + v

    def subtract(self, it=None):
        if isinstance(it, dict):
            for k, v in it.items():
                self[k] = self[k] - v
        else:
            for k in it or ():
                self[k] = self[k] - 1

    def copy(self):
        return SCounter(self)
    __copy__ = copy

    def most_common(self, n=None):
        items = sorted(self.items(), key=lambda t: t[1], reverse=True)
        return items if n is None else items[:n]

    def __add__(self, o):
        r = SCounter(self)
        r.update(o)
        return SCounter({k: v for k, v in r.items() if v > 0})

    def __sub__(self, o):
        r = SCounter(self)
        r.subtract(o)
        return SCounter({k: v for k, v in r.items() if v > 0})

    def __and__(self, o):
        r = SCounter()
        for k, v in self.items():
            w = o[k]
            m = v if v < w else w
            if m > 0:
                r[k] = m
        return r

    def __or__(self, o):
        r = SCounter(self)
        for k, v in o.items():
            if r[k] < v:
                r[k] = v
        return r

    def __eq__(self, o):
        return SDictMixin.__eq__(self, o)
    __hash__ = None
