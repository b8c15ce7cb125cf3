"""Run-time support for instrumented code: the functions the AST
transformation inserts, and the models of builtins / C library functions."""
import builtins
import collections
import copy
import statistics
import functools
import itertools
import math
import operator
import random
import re
import types
import zlib
import z3
from . import engine as _eng
from . import regex
from .values import *
from .values import _PREDS, _bad
from .values import E
from .containers import (SSet, SFrozenSet, SDict, SDefaultDict, SCounter, SOrderedDict,
                         SDictMixin, SKeys, member, z_member, find_eq, find_value, _MISS)

DIGITS = Dom(((48, 57),))
REG = {}          # callable -> handler(*args, **kwargs)
TYPE_REG = {}     # (type, method name) -> handler(self, *args, **kwargs)
ALWAYS = set()    # handlers used even without symbolic arguments
HOOKS = {}        # per-harness overrides: callable -> handler


def reg(*fs, always=False):
    def deco(h):
        for f in fs:
            REG[f] = h
            if always:
                ALWAYS.add(f)
        return h
    return deco


def enter(name):
    E_ = _eng.ACTIVE
    if E_ is not None:
        E_.stats.functions.add(name)


def tick():
    E_ = _eng.ACTIVE
    if E_ is not None:
        E_.tick()


BUILTIN_TYPES = (types.BuiltinFunctionType, types.MethodDescriptorType,
                 types.WrapperDescriptorType, types.MethodWrapperType,
                 types.ClassMethodDescriptorType)
PY_TYPES = (types.FunctionType, types.MethodType)
NOG = {'__name__': 'symx'}
OWN = ('props', 'symx')
STR_METHODS = set(n for n in dir(str) if not n.startswith('__'))


def has_sym(args, kwargs):
    for a in args:
        if is_sym(a):
            return True
    for a in kwargs.values():
        if is_sym(a):
            return True
    return False


def wrapfn(f):
    """A C callable about to be called by C code: route it through `call`."""
    t = type(f)
    try:
        if f in HOOKS:
            return lambda *a, **k: call(f, *a, **k)
    except TypeError:
        return f
    if t in BUILTIN_TYPES or f in (str, int, float, set, frozenset, dict, tuple, list, bool):
        if t is types.BuiltinFunctionType and getattr(f, '__self__', None) is not None \
                and not isinstance(f.__self__, (str, re.Pattern, types.ModuleType)):
            return f
        return lambda *a, **k: call(f, *a, **k)
    if t is functools.partial and type(f.func) not in PY_TYPES:
        return lambda *a, **k: call(f, *a, **k)
    return f


def _wrapargs(args, kwargs):
    a = [wrapfn(x) if callable(x) and not isinstance(x, Sym) else x for x in args]
    k = {n: (wrapfn(x) if n in ('key', 'default_factory', 'func') and callable(x) else x) for n, x in kwargs.items()}
    return a, k


def call(f, *args, **kwargs):
    t = type(f)
    if HOOKS:
        try:
            h = HOOKS.get(f)
        except TypeError:
            h = None
        if h is not None:
            return h(*args, **kwargs)
    if t is types.FunctionType or t is types.MethodType:
        g = f.__globals__ if t is types.FunctionType else getattr(f.__func__, '__globals__', NOG)
        if '_sx_call' in g or g.get('__name__', '').startswith(OWN) or not has_sym(args, kwargs):
            return f(*args, **kwargs)
        # Python code outside the instrumented packages
        h = REG.get(f) if t is types.FunctionType else None
        if h is not None:
            return h(*args, **kwargs)
        return native(f, args, kwargs)
    if t is types.BuiltinFunctionType:
        s = f.__self__
        if s is not None and type(s) is not types.ModuleType:
            return mcall(s, f.__name__, *args, **kwargs)
    elif t is types.MethodDescriptorType or t is types.WrapperDescriptorType:
        if args:
            o = f.__objclass__
            if o is str or isinstance(args[0], (Sym, SSet, SFrozenSet, SDictMixin)):
                return mcall(args[0], f.__name__, *args[1:], **kwargs)
    elif t is functools.partial:
        kw = dict(f.keywords)
        kw.update(kwargs)
        return call(f.func, *(f.args + args), **kw)
    try:
        h = REG.get(f)
    except TypeError:
        h = None
    if h is not None and (f in ALWAYS or has_sym(args, kwargs)):
        return h(*args, **kwargs)
    if t is type:
        if getattr(f, '__sx__', False) or f.__module__.split('.')[0] in ('fog', 'cfog', 'phylactery', 'ebbe'):
            return f(*args, **kwargs)
        args, kwargs = _wrapargs(args, kwargs)
        return native(f, args, kwargs)
    if t is types.BuiltinFunctionType or t is types.MethodDescriptorType:
        args, kwargs = _wrapargs(args, kwargs)
        return native(f, args, kwargs)
    return f(*args, **kwargs)


def native(f, args, kwargs):
    """Call C code with symbolic arguments: let the value's protocol methods
    do the job, concretise (by forking) when the C code rejects them."""
    try:
        return f(*args, **kwargs)
    except (Unsupported,) as e:
        pass
    except TypeError as e:
        if not (has_sym(args, kwargs) or _deep(args)):
            raise
        if not _proxy_error(e):
            raise
    a = [concretise(x) for x in args]
    k = {n: concretise(x) for n, x in kwargs.items()}
    return f(*a, **k)


def _deep(args):
    for a in args:
        if isinstance(a, dict) and any(is_sym(k) or is_sym(v) for k, v in a.items()):
            return True
    return False


def _proxy_error(e):
    s = str(e)
    return 'Sym' in s or 'must be' in s or 'expected' in s or 'argument' in s or 'required' in s


LISTM = (list, dict, set, tuple)


def mcall(o, name, *args, **kwargs):
    t = type(o)
    if t is str:
        if name == 'join':
            it = list(args[0])
            for x in it:
                if type(x) is SymStr:
                    return SymStr(chars_of(o)).join(it)
            return o.join(it)
        if has_sym(args, kwargs):
            if name == 'format':
                return str_format(o, args, kwargs)
            return smethod(SymStr(chars_of(o)), name, args, kwargs)
        return getattr(o, name)(*args, **kwargs)
    if t is SymStr:
        return smethod(o, name, args, kwargs)
    if t is list or t is dict or t is set:
        if name == 'sort' and kwargs.get('key') is not None:
            kwargs['key'] = wrapfn(kwargs['key'])
        if t is not list and has_sym(args, kwargs):
            return call_native_container(o, name, args, kwargs)
        return getattr(o, name)(*args, **kwargs)
    if t is re.Pattern:
        if has_sym(args, kwargs):
            return regex.pattern_method(o, name, args, kwargs, call)
        if name in ('sub', 'subn') and args and callable(args[0]):
            f = args[0]
            return getattr(o, name)(lambda m: call(f, m), *args[1:], **kwargs)
        return getattr(o, name)(*args, **kwargs)
    h = TYPE_REG.get((t, name))
    if h is not None:
        return h(o, *args, **kwargs)
    f = getattr(o, name)
    if type(f) is types.BuiltinFunctionType and type(getattr(f, '__self__', None)) is not types.ModuleType:
        h = REG.get(f) if t is type else None
        if h is not None and (f in ALWAYS or has_sym(args, kwargs)):
            return h(*args, **kwargs)
        # method of some C type (deque, Random, file...)
        args, kwargs = _wrapargs(args, kwargs)
        return native(f, args, kwargs)
    return call(f, *args, **kwargs)


def smethod(o, name, args, kwargs):
    try:
        return getattr(o, name)(*args, **kwargs)
    except (Unsupported, AttributeError) as e:
        if isinstance(e, AttributeError) and name not in STR_METHODS:
            raise
    return getattr(concretise_str(o) if isinstance(o, SymStr) else o, name)(
        *[concretise(a) for a in args], **{k: concretise(v) for k, v in kwargs.items()})


def call_native_container(o, name, args, kwargs):
    """Native set/dict built outside instrumented code, symbolic argument."""
    if isinstance(o, dict):
        if name == 'get':
            v = find_value(o.items(), *args) if len(args) > 1 else find_value(o.items(), args[0], None)
            if v is not NotImplemented:
                return v
        if name in ('get', 'pop', 'setdefault'):
            e = find_eq(list(o), args[0])
            if e is not _MISS:
                return getattr(o, name)(e, *args[1:])
            return getattr(o, name)(*args)
        return getattr(o, name)(*args, **kwargs)
    if name in ('add', 'discard', 'remove'):
        e = find_eq(list(o), args[0])
        if e is not _MISS:
            return getattr(o, name)(e)
        return getattr(o, name)(*args)
    r = getattr(SSet(o), name)(*args, **kwargs)
    return r


def getitem(o, k):
    t = type(o)
    if t is dict:
        if is_sym(k):
            v = find_value(o.items(), k)
            if v is not NotImplemented and v is not _MISS:
                return v
            e = find_eq(list(o), k)
            return o[k if e is _MISS else e]
    elif type(k) is SymBits and (t is list or t is tuple):
        v = k.select(o)
        if v is not NotImplemented:
            return v
    return o[k]


def contains(x, c):
    t = type(c)
    if t is str:
        if type(x) is SymStr:
            if len(x) == 1:
                return mkbool(ch_in(x.c[0], map(ord, c)))
            return mkbool(SymStr(chars_of(c)).z_contains(x))
        return x in c
    z = getattr(c, 'z_contains', None)
    if z is not None:
        return mkbool(z(x))
    if t in (set, frozenset, dict):
        if is_sym(x) or any(is_sym(e) for e in c):
            return mkbool(z_member(c, x))
        return x in c
    if t in (list, tuple) and (is_sym(x) or any(is_sym(e) for e in c)):
        if len(c) <= 64:
            return mkbool(z_member(c, x))
    if t is range and isinstance(x, SymInt):
        if c.step == 1:
            return mkbool(z_and([zb(x >= c.start), zb(x < c.stop)]))
        return x in list(c)
    if isinstance(x, Sym) and t not in (list, tuple) and not hasattr(t, '__contains__'):
        return x in c
    return x in c


def not_contains(x, c):
    r = contains(x, c)
    if isinstance(r, SymBool):
        return mkbool(z3.Not(r.e))
    return not r


def mkset(*xs):
    return SSet(xs)


def mkset_it(it):
    return SSet(it)


def mkdict_it(it):
    d = SDict()
    for k, v in it:
        d[k] = v
    return d


def mkdict(pairs):
    d = SDict()
    for k, v in pairs:
        if k is _UNPACK:
            d.update(v)
        else:
            d[k] = v
    return d


_UNPACK = object()


def tostr(x):
    if isinstance(x, (str, SymStr)):
        return x
    if isinstance(x, SymInt):
        return int_str(x)
    if isinstance(x, SymBool):
        return str(bool(x))
    if isinstance(x, SymReal):
        raise Unsupported('str of a real')
    if isinstance(x, (list, tuple, dict, set)) and is_sym(x):
        return str(concretise(x))
    if hasattr(type(x), '__str__') and type(type(x).__str__) is types.FunctionType:
        return type(x).__str__(x)
    return str(x)


def interval(e):
    if z3.is_int_value(e):
        return e.as_long(), e.as_long()
    k = e.decl().kind()
    if k == z3.Z3_OP_UNINTERPRETED and e.num_args() == 0:
        return E().ranges.get(e.get_id(), (None, None))
    if k == z3.Z3_OP_ADD:
        bs = [interval(c) for c in e.children()]
        return (None if any(b[0] is None for b in bs) else sum(b[0] for b in bs),
                None if any(b[1] is None for b in bs) else sum(b[1] for b in bs))
    if k == z3.Z3_OP_ITE:
        a, b = interval(e.arg(1)), interval(e.arg(2))
        return (None if a[0] is None or b[0] is None else min(a[0], b[0]),
                None if a[1] is None or b[1] is None else max(a[1], b[1]))
    return None, None


def int_str(x):
    # a single digit remains symbolic (a bound holding on every path: what is
    # decided here must not depend on the path)
    lo, hi = interval(x.e)
    if lo is not None and hi is not None and 0 <= lo and hi <= 9:
        return mkstr((Ch(z3.simplify(x.e + ival(48)), DIGITS),))
    return str(concretise_int(x))


def fstr(*parts):
    out = ''
    for p in parts:
        if isinstance(p, tuple):
            v, conv, spec = p
            if conv == ord('r') or conv == ord('a'):
                v = repr(concretise(v))
            elif conv == ord('s'):
                v = tostr(v)
            if spec:
                v = format(concretise(v), spec if isinstance(spec, str) else concretise(spec))
            else:
                v = tostr(v)
            p = v
        out = out + p
    return out


_PCT = re.compile(r'%(?:\((\w+)\))?([-#0 +]*)(\d+)?(?:\.(\d+))?([a-zA-Z%])')


def percent(fmt, args):
    if isinstance(fmt, SymStr):
        fmt = concretise_str(fmt)
    if not (is_sym(args) or (isinstance(args, dict) and any(is_sym(v) for v in args.values()))):
        return fmt % args
    out = ''
    last = 0
    it = iter(args if isinstance(args, tuple) else (args,))
    for m in _PCT.finditer(fmt):
        out = out + fmt[last:m.start()]
        last = m.end()
        if m.group(5) == '%':
            out = out + '%'
            continue
        v = args[m.group(1)] if m.group(1) else next(it)
        if (m.group(5) == 's' or m.group(5) in 'id' and isinstance(v, SymInt)) and not m.group(2) and not m.group(3) and not m.group(4):
            out = out + tostr(v)
        else:
            out = out + (m.group(0) if not m.group(1) else m.group(0).replace('(%s)' % m.group(1), '')) % (concretise(v),)
    return out + fmt[last:]


def mod(a, b):
    if isinstance(a, (str, SymStr)):
        return percent(a, b)
    return a % b


_FMT = re.compile(r'\{(\w*)\}')


def str_format(o, args, kwargs):
    out = ''
    last = 0
    n = 0
    if '{{' in o or '}}' in o or ':' in o or '!' in o:
        return o.format(*[concretise(a) for a in args], **{k: concretise(v) for k, v in kwargs.items()})
    for m in _FMT.finditer(o):
        out = out + o[last:m.start()]
        last = m.end()
        k = m.group(1)
        if k == '':
            v = args[n]
            n += 1
        elif k.isdigit():
            v = args[int(k)]
        else:
            v = kwargs[k]
        out = out + tostr(v)
    return out + o[last:]


# --------------------------------------------------------------------------
# Builtins
# --------------------------------------------------------------------------
_EQUIV = {str: SymStr, int: SymInt, float: SymReal, bool: SymBool, bytes: SymBytes}


@reg(isinstance, always=True)
def _isinstance(x, t):
    ts = t if isinstance(t, tuple) else (t,)
    for q in ts:
        if isinstance(q, tuple):
            if _isinstance(x, q):
                return True
            continue
        if isinstance(q, types.UnionType):
            if _isinstance(x, q.__args__):
                return True
            continue
        if isinstance(x, q):
            return True
        if isinstance(x, SymStr):
            if isinstance('', q):
                return True
        elif isinstance(x, SymBool):
            if isinstance(True, q):
                return True
        elif isinstance(x, SymInt):
            if isinstance(0, q):
                return True
        elif isinstance(x, SymReal):
            if isinstance(0.0, q):
                return True
    return False


@reg(type, always=True)
def _type(x, *rest, **kw):
    if rest:
        return type(x, *rest, **kw)
    if isinstance(x, SymStr):
        return str
    if isinstance(x, SymBool):
        return bool
    if isinstance(x, SymInt):
        return int
    if isinstance(x, SymReal):
        return float
    if isinstance(x, SSet):
        return set
    if isinstance(x, SFrozenSet):
        return frozenset
    if isinstance(x, SDict):
        return dict
    if isinstance(x, SDefaultDict):
        return collections.defaultdict
    if isinstance(x, SCounter):
        return collections.Counter
    if isinstance(x, SOrderedDict):
        return collections.OrderedDict
    return type(x)


@reg(str)
def _str(x='', *a):
    if a:
        return str(concretise(x), *a)
    return tostr(x)


@reg(repr)
def _repr(x):
    return repr(concretise(x))


@reg(format)
def _format(x, spec=''):
    if not spec:
        return tostr(x)
    return format(concretise(x), concretise(spec))


@reg(int)
def _int(x=0, *a):
    if isinstance(x, (SymInt,)):
        return x
    if isinstance(x, SymBool):
        return x._i()
    if isinstance(x, SymReal):
        return real_trunc(x)
    if isinstance(x, SymStr) and not a:
        return int(concretise_str(x, 300))
    if isinstance(x, SymStr) and a == (16,):
        r = hex_value(x)
        if r is not None:
            return r
    return int(concretise(x), *[concretise(b) for b in a])


def hex_value(s):
    bits = []
    for c in reversed(chars_of(s)):
        if isinstance(c, int):
            try:
                v = int(chr(c), 16)
            except ValueError:
                return None
            bits.append(z3.BitVecVal(v, 4))
            continue
        if any(chr(x) not in '0123456789abcdefABCDEF' for x in c.dom):
            return None
        for i in range(4):
            t = ch_test(c, lambda x, i=i: int(chr(x), 16) >> i & 1, ('hexbit', i))
            bits.append(z3.BitVecVal(int(t), 1) if isinstance(t, bool) else z3.If(t, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)))
    return mkbits(z3.Concat(*reversed(bits)) if len(bits) > 1 else bits[0])


class BinStr(object):
    """bin(x) of symbolic bits: only its digits can be counted"""

    def __init__(self, x, prefix='0b'):
        self.x = x
        self.prefix = prefix

    def count(self, c, *a):
        if c == '1' and not a:
            return self.x.bit_count()
        return bin(concretise_int(self.x)).count(c, *a)

    def __getitem__(self, i):
        if i == slice(2, None, None):
            return BinStr(self.x, '')
        return bin(concretise_int(self.x))[i]

    def __getattr__(self, n):
        return getattr(bin(concretise_int(self.x)), n)


@reg(print, always=True)
def _print(*args, sep=' ', end='\n', file=None, flush=False):
    if not has_sym(args, {}) and not isinstance(file, list):
        return print(*args, sep=sep, end=end, file=file, flush=flush)
    if file is None:
        return
    out = ''
    for i, a in enumerate(args):
        out = out + (sep or ' ' if i else '') + tostr(a)
    out = out + ('\n' if end is None else end)
    file.write(out)


@reg(bin)
def _bin(x):
    if isinstance(x, SymBits):
        return BinStr(x)
    return bin(concretise(x))


@reg(float)
def _float(x=0.0):
    if isinstance(x, (SymInt, SymBool)):
        return mkreal(zreal(x))
    if isinstance(x, SymReal):
        return x
    return float(concretise(x))


@reg(bool)
def _bool(x=False):
    if isinstance(x, SymBool):
        return x
    if isinstance(x, SymInt):
        return mkbool(x.e != 0)
    return bool(x)


@reg(ord)
def _ord(x):
    if isinstance(x, SymStr):
        if len(x) != 1:
            raise TypeError('ord() expected a character, but string of length %d found' % len(x))
        return SymInt(x.c[0].e)
    return ord(x)


@reg(chr)
def _chr(x):
    if isinstance(x, SymInt):
        return SymStr((Ch(x.e, UNICODE),))
    return chr(x)


@reg(hash)
def _hash(x):
    """Uninterpreted: equal values have equal hashes."""
    return uf('hash', x, lambda v: hash(v), lambda n: z3.Int(n))


@reg(sum, always=True)
def _sum(it, start=0):
    r = start
    for x in it:
        r = r + x
    return r


@reg(abs)
def _abs(x):
    return abs(x)


@reg(round)
def _round(x, nd=None):
    if nd is None:
        return x.__round__()
    return x.__round__(nd)


@reg(pow)
def _pow(a, b, m=None):
    if m is not None:
        return pow(concretise(a), concretise(b), concretise(m))
    return a ** b


@reg(math.floor)
def _floor(x):
    return real_floor(x)


@reg(math.ceil)
def _ceil(x):
    return real_ceil(x)


@reg(math.trunc)
def _trunc(x):
    return real_trunc(x)


@reg(math.sqrt)
def _sqrt(x):
    return real_sqrt(x)


@reg(math.isnan, math.isinf)
def _isnan(x):
    return False


@reg(math.fabs)
def _fabs(x):
    return _float(abs(x))


@reg(math.pow)
def _mpow(a, b):
    return a ** b


@reg(math.fsum)
def _fsum(it):
    return _sum(it)


@reg(math.hypot)
def _hypot(*xs):
    return real_sqrt(_sum([x * x for x in xs]))


@reg(set, always=True)
def _set(it=()):
    return SSet(it)


@reg(frozenset, always=True)
def _frozenset(it=()):
    return SFrozenSet(it)


@reg(dict, always=True)
def _dict(*a, **k):
    return SDict(*a, **k)


@reg(dict.fromkeys, always=True)
def _fromkeys(it, v=None):
    return SDict.fromkeys(it, v)


@reg(collections.defaultdict, always=True)
def _defaultdict(factory=None, *a, **k):
    return SDefaultDict(wrapfn(factory) if factory is not None else None, *a, **k)


@reg(collections.Counter, always=True)
def _counter(*a, **k):
    return SCounter(*a, **k)


@reg(collections.OrderedDict, always=True)
def _odict(*a, **k):
    return SOrderedDict(*a, **k)


@reg(operator.eq)
def _eq(a, b):
    return a == b


@reg(operator.contains, always=True)
def _contains(c, x):
    return contains(x, c)


@reg(getattr, always=True)
def _getattr(o, n, *d):
    return getattr(o, n if isinstance(n, str) else concretise_str(n), *d)


@reg(callable, always=True)
def _callable(x):
    return callable(x)


# --------------------------------------------------------------------------
# re
# --------------------------------------------------------------------------
def _re(name):
    f = getattr(re, name)

    @reg(f, always=True)
    def h(pattern, *args, **kwargs):
        flags = kwargs.pop('flags', 0)
        limit = {'sub': 3, 'subn': 3, 'split': 2}.get(name, 1)
        if len(args) > limit:
            flags = args[limit]
            args = args[:limit]
        pat = pattern if isinstance(pattern, re.Pattern) else re.compile(pattern, flags)
        return mcall(pat, name, *args, **kwargs)


for _n in ('sub', 'subn', 'split', 'findall', 'finditer', 'search', 'match', 'fullmatch'):
    _re(_n)


@reg(re.escape)
def _escape(s):
    return re.escape(concretise_str(s))


# --------------------------------------------------------------------------
# Uninterpreted functions of arbitrary (hashable) values
# --------------------------------------------------------------------------
def uf(name, x, concrete, mk, constrain=None):
    """Value of an uninterpreted function on x: one fresh variable per
    distinct argument; arguments proven (or assumed, by forking) equal share
    it."""
    en = E()
    tab = en.tables.setdefault(('uf', name), [])
    for k, v in tab:
        r = sym_eq(k, x)
        if r is False:
            continue
        if r is True or bool(mkbool(r)):
            return v
    n = '%s#%d' % (name, len(tab))
    v = mk(n)
    if constrain is not None:
        en.assume(constrain(v))
    v = mkint(v) if v.sort() == z3.IntSort() else v
    tab.append((x, v))
    return v


# --------------------------------------------------------------------------
# Third-party C or table-driven functions
# --------------------------------------------------------------------------
def install_thirdparty():
    import unidecode

    def h(s, *a, **k):
        if isinstance(s, SymStr):
            return s._map(lambda ch: _real_unidecode(ch), 'unidecode')
        return _real_unidecode(s)
    _real_unidecode = unidecode.unidecode
    REG[unidecode.unidecode] = h
    for n in ('unidecode_expect_ascii', 'unidecode_expect_nonascii'):
        if hasattr(unidecode, n):
            REG[getattr(unidecode, n)] = h
            HOOKS_PY[getattr(unidecode, n)] = h
    HOOKS_PY[unidecode.unidecode] = h
    import unicodedata

    @reg(unicodedata.normalize)
    def norm(form, s):
        if isinstance(s, SymStr):
            # compositional only outside combining sequences; per character
            return s._map(lambda ch: unicodedata.normalize(form, ch), ('norm', form))
        return unicodedata.normalize(form, s)

    import html
    _real_unescape = html.unescape

    def unescape(s):
        # entities among concrete characters only: when a symbolic character
        # may belong to one, its value is enumerated
        if not isinstance(s, SymStr):
            return _real_unescape(s)
        cs = list(chars_of(s))
        out, i = [], 0
        while i < len(cs):
            c = cs[i]
            if not isinstance(c, int):
                if 38 in c.dom:
                    return _real_unescape(concretise_str(s))
                out.append(c)
                i += 1
                continue
            j = i + 1
            if c == 38:
                while j < len(cs) and isinstance(cs[j], int) and cs[j] != 59 and cs[j] != 38 and j - i < 40:
                    j += 1
                if j >= len(cs) or cs[j] != 59:
                    return _real_unescape(concretise_str(s))
                j += 1
            out.extend(ord(x) for x in _real_unescape(''.join(map(chr, cs[i:j]))))
            i = j
        return mkstr(tuple(out))
    REG[unescape] = REG[html.unescape] = unescape

    # copy.copy / deepcopy natively work on proxies
    @reg(copy.copy, copy.deepcopy)
    def cp(x, *a):
        if isinstance(x, Sym):
            return x
        return copy.copy(x) if not isinstance(x, (list, tuple)) else type(x)(x)


HOOKS_PY = {}


def _pvariance(data, mu=None):
    data = list(data)
    if not has_sym((data,), {}):
        return statistics.pvariance(data, mu)
    n = len(data)
    if n == 1:
        return 0
    m = sum(data) / n if mu is None else mu
    return sum([(x - m) * (x - m) for x in data]) / n


HOOKS_PY[statistics.pvariance] = _pvariance


def setup_hooks():
    HOOKS.clear()
    HOOKS.update(HOOKS_PY)
