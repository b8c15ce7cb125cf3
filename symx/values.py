"""Symbolic values: booleans, integers, reals and strings."""
import math
from fractions import Fraction
import z3
from . import engine as _eng

BoolRef = z3.BoolRef
MAXCP = 0x10FFFF
INF = float('inf')


class Unsupported(Exception):
    """An operation the symbolic domain does not model; callers fall back to
    concretisation."""


def E():
    return _eng.ACTIVE


# --------------------------------------------------------------------------
# Memoised constructors
# --------------------------------------------------------------------------
_int_consts = {}


def ival(n):
    r = _int_consts.get(n)
    if r is None:
        r = _int_consts[n] = z3.IntVal(n)
    return r


def rval(x):
    if isinstance(x, float):
        f = Fraction(x)
    else:
        f = Fraction(x)
    return z3.Q(f.numerator, f.denominator)


_eq_memo = {}


def z_eq(a, b):
    ia, ib = a.get_id(), b.get_id()
    if ia == ib:
        return True
    if ia > ib:
        a, b, ia, ib = b, a, ib, ia
    k = (ia, ib)
    r = _eq_memo.get(k)
    if r is None:
        r = (a == b)
        _eq_memo[k] = r
        _pins.append(a)
        _pins.append(b)
    return r


_pins = []

_and_memo = {}


def z_and(parts):
    """parts: list of z3 Bool or python bool"""
    out = []
    for p in parts:
        if p is True:
            continue
        if p is False:
            return False
        out.append(p)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    k = tuple(p.get_id() for p in out)
    r = _and_memo.get(k)
    if r is None:
        r = z3.And(*out)
        _and_memo[k] = r
        _pins.extend(out)
    return r


_or_memo = {}


def z_or(parts):
    out = []
    for p in parts:
        if p is False:
            continue
        if p is True:
            return True
        out.append(p)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    k = tuple(p.get_id() for p in out)
    r = _or_memo.get(k)
    if r is None:
        r = z3.Or(*out)
        _or_memo[k] = r
        _pins.extend(out)
    return r


def z_not(p):
    if p is True:
        return False
    if p is False:
        return True
    return z3.Not(p)


def mkbool(e):
    if e is True or e is False:
        return e
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def zb(x):
    """z3 (or python bool) view of a boolean-ish value."""
    if isinstance(x, SymBool):
        return x.e
    if isinstance(x, z3.BoolRef):
        return x
    return bool(x)


class Sym(object):
    __slots__ = ()


class SymBool(Sym):
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return E().branch(self.e)

    def __hash__(self):
        return hash(bool(self))

    def __index__(self):
        return int(bool(self))

    def __int__(self):
        return int(bool(self))

    def __and__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mkbool(z_and([self.e, zb(o)]))
        return int(self) & o
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mkbool(z_or([self.e, zb(o)]))
        return int(self) | o
    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, (bool, SymBool)):
            return bool(self) ^ bool(o)
        return int(self) ^ o
    __rxor__ = __xor__

    def __eq__(self, o):
        if isinstance(o, SymBool):
            return mkbool(self.e == o.e)
        if isinstance(o, bool):
            return mkbool(self.e if o else z3.Not(self.e))
        return int(self) == o

    def __ne__(self, o):
        r = self.__eq__(o)
        if isinstance(r, SymBool):
            return mkbool(z3.Not(r.e))
        return not r

    def _i(self):
        return mkint(z3.If(self.e, ival(1), ival(0)))

    def __add__(self, o):
        return self._i() + o
    __radd__ = __add__

    def __sub__(self, o):
        return self._i() - o

    def __rsub__(self, o):
        return o - self._i()

    def __mul__(self, o):
        return (o if bool(self) else o * 0)
    __rmul__ = __mul__

    def __lt__(self, o):
        return int(self) < o

    def __gt__(self, o):
        return int(self) > o

    def __le__(self, o):
        return int(self) <= o

    def __ge__(self, o):
        return int(self) >= o

    def __float__(self):
        return float(int(self))

    def __repr__(self):
        return 'SymBool(%s)' % self.e


# --------------------------------------------------------------------------
# Numbers
# --------------------------------------------------------------------------
def mkint(e):
    if z3.is_int_value(e):
        return e.as_long()
    return SymInt(e)


def mkreal(e):
    return SymReal(e)


def is_num(x):
    return isinstance(x, (int, float, Fraction)) and not isinstance(x, bool) or isinstance(x, bool)


class SymNum(Sym):
    __slots__ = ()


def zint(x):
    if isinstance(x, SymInt):
        return x.e
    if isinstance(x, SymBool):
        return z3.If(x.e, ival(1), ival(0))
    return ival(int(x))


def zreal(x):
    if isinstance(x, SymReal):
        return x.e
    if isinstance(x, SymInt):
        return z3.ToReal(x.e)
    if isinstance(x, SymBool):
        return z3.If(x.e, z3.RealVal(1), z3.RealVal(0))
    if isinstance(x, float) and (math.isinf(x) or math.isnan(x)):
        raise Unsupported('infinite real')
    return rval(x)


def _isint(x):
    return isinstance(x, (int, SymInt, SymBool))


def _bad(o):
    return not isinstance(o, (int, float, Fraction, SymInt, SymReal, SymBool))


def _infcmp(o):
    if isinstance(o, float):
        if math.isnan(o):
            return 'nan'
        if o == INF:
            return 1
        if o == -INF:
            return -1
    return 0


def num_cmp(a, o, op):
    s = _infcmp(o)
    if s == 'nan':
        return op == 'ne'
    if s:
        # a is finite
        return {'lt': s > 0, 'le': s > 0, 'gt': s < 0, 'ge': s < 0, 'eq': False, 'ne': True}[op]
    if isinstance(a, SymInt) and _isint(o):
        x, y = a.e, zint(o)
    elif isinstance(a, SymInt) and isinstance(o, float):
        # integer against a float constant: stay in integer arithmetic
        if o == math.floor(o):
            return num_cmp(a, int(o), op)
        if op == 'eq':
            return False
        if op == 'ne':
            return True
        x = a.e
        if op in ('lt', 'le'):
            return mkbool(x <= ival(math.floor(o)))
        return mkbool(x >= ival(math.ceil(o)))
    else:
        x, y = zreal(a), zreal(o)
    if op == 'lt':
        r = x < y
    elif op == 'le':
        r = x <= y
    elif op == 'gt':
        r = x > y
    elif op == 'ge':
        r = x >= y
    elif op == 'eq':
        return mkbool(z_eq(x, y))
    else:
        return mkbool(z_not(z_eq(x, y)))
    r = z3.simplify(r) if not (z3.is_const(x) and z3.is_const(y)) else r
    return mkbool(r)


class SymInt(SymNum):
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __hash__(self):
        return 1234567

    def __bool__(self):
        return bool(mkbool(self.e != ival(0)))

    def __index__(self):
        return concretise_int(self)

    def __int__(self):
        return concretise_int(self)

    def __float__(self):
        return float(concretise_int(self))

    def __lt__(self, o):
        return NotImplemented if _bad(o) else num_cmp(self, o, 'lt')

    def __le__(self, o):
        return NotImplemented if _bad(o) else num_cmp(self, o, 'le')

    def __gt__(self, o):
        return NotImplemented if _bad(o) else num_cmp(self, o, 'gt')

    def __ge__(self, o):
        return NotImplemented if _bad(o) else num_cmp(self, o, 'ge')

    def __eq__(self, o):
        return False if _bad(o) else num_cmp(self, o, 'eq')

    def __ne__(self, o):
        return True if _bad(o) else num_cmp(self, o, 'ne')

    def _arith(self, o, f, swap=False):
        if _bad(o):
            return NotImplemented
        if _isint(o):
            a, b = self.e, zint(o)
            if swap:
                a, b = b, a
            return mkint(z3.simplify(f(a, b)))
        s = _infcmp(o)
        if s:
            raise Unsupported('inf arithmetic')
        a, b = zreal(self), zreal(o)
        if swap:
            a, b = b, a
        return mkreal(z3.simplify(f(a, b)))

    def __add__(self, o):
        if isinstance(o, int) and o == 0:
            return self
        return self._arith(o, lambda a, b: a + b)
    __radd__ = __add__

    def __sub__(self, o):
        return self._arith(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._arith(o, lambda a, b: a - b, True)

    def __mul__(self, o):
        if isinstance(o, (str, list, tuple, SymStr)):
            return o * concretise_int(self)
        return self._arith(o, lambda a, b: a * b)
    __rmul__ = __mul__

    def __neg__(self):
        return mkint(z3.simplify(-self.e))

    def __pos__(self):
        return self

    def __abs__(self):
        return mkint(z3.If(self.e >= 0, self.e, -self.e))

    def __truediv__(self, o):
        return num_div(self, o)

    def __rtruediv__(self, o):
        return num_div(o, self)

    def __floordiv__(self, o):
        if isinstance(o, int):
            if o == 0:
                raise ZeroDivisionError('integer division or modulo by zero')
            if o > 0:
                return mkint(z3.simplify(self.e / ival(o)))
            return mkint(z3.simplify((-self.e) / ival(-o)))
        if isinstance(o, SymInt):
            return self // concretise_int(o)
        return real_floor(num_div(self, o))

    def __rfloordiv__(self, o):
        return o // concretise_int(self)

    def __mod__(self, o):
        if isinstance(o, int):
            if o == 0:
                raise ZeroDivisionError('integer division or modulo by zero')
            if o > 0:
                return mkint(z3.simplify(self.e % ival(o)))
        if isinstance(o, (int, SymInt)):
            o = o if isinstance(o, int) else concretise_int(o)
            if o > 0:
                return self % o
            return concretise_int(self) % o
        return NotImplemented

    def __rmod__(self, o):
        if isinstance(o, (str, SymStr)):
            return NotImplemented
        return o % concretise_int(self)

    def __divmod__(self, o):
        return (self // o, self % o)

    def __pow__(self, o):
        if isinstance(o, int) and 0 <= o <= 4:
            r = 1
            for _ in range(o):
                r = self * r
            return r
        if isinstance(o, float) and o == 0.5:
            return real_sqrt(self)
        return concretise_int(self) ** o

    def __rpow__(self, o):
        return o ** concretise_int(self)

    def _bits(self, o, f):
        return f(concretise_int(self), o if not isinstance(o, SymInt) else concretise_int(o))

    def __and__(self, o):
        return self._bits(o, lambda a, b: a & b)

    def __rand__(self, o):
        return self._bits(o, lambda a, b: b & a)

    def __or__(self, o):
        return self._bits(o, lambda a, b: a | b)

    def __ror__(self, o):
        return self._bits(o, lambda a, b: b | a)

    def __xor__(self, o):
        return self._bits(o, lambda a, b: a ^ b)
    __rxor__ = __xor__

    def __lshift__(self, o):
        if isinstance(o, int):
            return self * (1 << o)
        return concretise_int(self) << concretise_int(o)

    def __rlshift__(self, o):
        return o << concretise_int(self)

    def __rshift__(self, o):
        if isinstance(o, int):
            return self // (1 << o)
        return concretise_int(self) >> concretise_int(o)

    def __rrshift__(self, o):
        return o >> concretise_int(self)

    def __round__(self, nd=None):
        return self

    def __floor__(self):
        return self

    def __ceil__(self):
        return self

    def __trunc__(self):
        return self

    def bit_length(self):
        return concretise_int(self).bit_length()

    def is_integer(self):
        return True

    def __repr__(self):
        return 'SymInt(%s)' % self.e


class SymBits(SymInt):
    """A non-negative integer given by a bit vector; the width always is
    enough for the exact (unbounded) result of the operations."""
    __slots__ = ('b', '_e')

    def __init__(self, b):
        self.b = b
        self._e = None

    @property
    def w(self):
        return self.b.size()

    @property
    def e(self):
        if self._e is None:
            self._e = z3.Sum(*[z3.If(z3.Extract(i, i, self.b) == 1, ival(1 << i), ival(0)) for i in range(self.w)]) if self.w > 1 else z3.If(self.b == 1, ival(1), ival(0))
        return self._e

    @staticmethod
    def of(x):
        """(bit vector) of a value, or None"""
        if isinstance(x, SymBits):
            return x.b
        if isinstance(x, bool):
            x = int(x)
        if isinstance(x, int) and x >= 0:
            return z3.BitVecVal(x, max(1, x.bit_length()))
        if isinstance(x, SymBool):
            return z3.If(x.e, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
        return None

    def _two(self, o):
        b = SymBits.of(o)
        if b is None:
            return None
        w = max(self.w, b.size())
        return bv_ext(self.b, w), bv_ext(b, w)

    def __hash__(self):
        return 1234567

    def __bool__(self):
        return bool(mkbool(self.b != 0))

    def _cmp(self, o, f, g):
        t = self._two(o)
        if t is None:
            if isinstance(o, int):
                return g(0, o)
            return g(SymInt(self.e), o)
        return mkbool(z3.simplify(f(*t)))

    def __lt__(self, o):
        return self._cmp(o, z3.ULT, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, z3.ULE, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, z3.UGT, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, z3.UGE, lambda a, b: a >= b)

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b, lambda a, b: a == b)

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b, lambda a, b: a != b)

    def __add__(self, o):
        t = self._two(o)
        if t is None:
            return SymInt(self.e) + o
        w = t[0].size() + 1
        return mkbits(bv_ext(t[0], w) + bv_ext(t[1], w))
    __radd__ = __add__

    def __sub__(self, o):
        t = self._two(o)
        if t is None:
            return SymInt(self.e) - o
        if t[0].size() == 1:
            return SymInt(self.e) - o
        if bool(mkbool(z3.simplify(z3.UGE(*t)))):
            return mkbits(t[0] - t[1])
        return SymInt(self.e) - (SymInt(o.e) if isinstance(o, SymBits) else o)

    def __rsub__(self, o):
        b = SymBits.of(o)
        if b is None or isinstance(o, SymBool):
            return o - SymInt(self.e)
        return SymBits(b) - self

    def __mul__(self, o):
        if isinstance(o, int) and o >= 0:
            w = self.w + max(1, o.bit_length())
            return mkbits(bv_ext(self.b, w) * z3.BitVecVal(o, w))
        return SymInt(self.e) * (SymInt(o.e) if isinstance(o, SymBits) else o)
    __rmul__ = __mul__

    def __mod__(self, o):
        if isinstance(o, int) and o > 0 and o & (o - 1) == 0:
            return self & (o - 1)
        return SymInt(self.e) % o

    def __floordiv__(self, o):
        if isinstance(o, int) and o > 0 and o & (o - 1) == 0:
            return self >> (o.bit_length() - 1)
        return SymInt(self.e) // o

    def _bitop(self, o, f):
        if isinstance(o, int) and not isinstance(o, bool) and o < 0:
            if f is _bvand:
                return self & (o & ((1 << self.w) - 1))
            return concretise_int(self) ^ o if f is _bvxor else concretise_int(self) | o
        t = self._two(o)
        if t is None:
            return NotImplemented
        return mkbits(f(*t))

    def __and__(self, o):
        return self._bitop(o, _bvand)
    __rand__ = __and__

    def __or__(self, o):
        return self._bitop(o, _bvor)
    __ror__ = __or__

    def __xor__(self, o):
        return self._bitop(o, _bvxor)
    __rxor__ = __xor__

    def __lshift__(self, o):
        if not isinstance(o, int):
            o = concretise_int(o)
        return self if o == 0 else mkbits(z3.Concat(self.b, z3.BitVecVal(0, o)))

    def __rshift__(self, o):
        if not isinstance(o, int):
            o = concretise_int(o)
        if o >= self.w:
            return 0
        return mkbits(z3.Extract(self.w - 1, o, self.b))

    def bit_count(self):
        if self.w == 1:
            return self
        # adjacent bits first, then pairs, and so on
        ts = [z3.Extract(i, i, self.b) for i in range(self.w)]
        while len(ts) > 1:
            nxt = []
            for i in range(0, len(ts) - 1, 2):
                w = max(ts[i].size(), ts[i + 1].size()) + 1
                nxt.append(bv_ext(ts[i], w) + bv_ext(ts[i + 1], w))
            if len(ts) % 2:
                nxt.append(ts[-1])
            ts = nxt
        t = ts[0]
        return mkbits(t)

    def select(self, table):
        """table[self] as a multiplexer, or NotImplemented"""
        n = self.w
        if n > 20 or not all(type(x) is int and x >= 0 for x in table):
            return NotImplemented
        if len(table) < 1 << n:
            if not bool(self < len(table)):
                raise IndexError('list index out of range')
            table = list(table) + [table[-1]] * ((1 << n) - len(table))
        else:
            table = table[:1 << n]
        out = max(1, max(table).bit_length())
        level = [z3.BitVecVal(x, out) for x in sorted(set(table))]
        pos = {x: i for i, x in enumerate(sorted(set(table)))}
        ids = [pos[x] for x in table]
        for i in range(n):
            bit = z3.Extract(i, i, self.b) == 1
            memo, nxt, nids = {}, [], []
            for k in range(0, len(ids), 2):
                key = (ids[k], ids[k + 1])
                if key not in memo:
                    memo[key] = len(nxt)
                    nxt.append(level[key[0]] if key[0] == key[1] else z3.If(bit, level[key[1]], level[key[0]]))
                nids.append(memo[key])
            level, ids = nxt, nids
        return mkbits(level[ids[0]])

    def __repr__(self):
        return 'SymBits(%s)' % self.b


def _bvand(a, b):
    return a & b


def _bvor(a, b):
    return a | b


def _bvxor(a, b):
    return a ^ b


def bv_ext(b, w):
    return b if b.size() == w else z3.ZeroExt(w - b.size(), b)


def mkbits(b):
    b = z3.simplify(b)
    if z3.is_bv_value(b):
        return b.as_long()
    # drop the leading zeroes
    while z3.is_app(b) and b.decl().kind() == z3.Z3_OP_CONCAT and z3.is_bv_value(b.arg(0)) and b.arg(0).as_long() == 0:
        rest = [b.arg(i) for i in range(1, b.num_args())]
        b = rest[0] if len(rest) == 1 else z3.Concat(*rest)
    return SymBits(b)



def num_div(a, b):
    if _bad(a) or _bad(b):
        return NotImplemented
    if isinstance(b, float) and math.isinf(b):
        return 0.0
    if isinstance(b, (int, float, Fraction)):
        if b == 0:
            raise ZeroDivisionError('division by zero')
    else:
        if bool(b == 0):
            raise ZeroDivisionError('division by zero')
    return mkreal(z3.simplify(zreal(a) / zreal(b)))


def real_floor(x):
    if isinstance(x, SymInt):
        return x
    if isinstance(x, SymReal):
        return mkint(z3.simplify(z3.ToInt(x.e)))
    return math.floor(x)


def real_ceil(x):
    if isinstance(x, SymInt):
        return x
    if isinstance(x, SymReal):
        return mkint(z3.simplify(-z3.ToInt(-x.e)))
    return math.ceil(x)


def real_trunc(x):
    if isinstance(x, SymReal):
        return mkint(z3.simplify(z3.If(x.e >= 0, z3.ToInt(x.e), -z3.ToInt(-x.e))))
    return x


def real_sqrt(x):
    """sqrt over the reals: a fresh non negative y with y*y == x."""
    en = E()
    e = z3.simplify(zreal(x))
    if z3.is_rational_value(e):
        f = Fraction(e.numerator_as_long(), e.denominator_as_long())
        if f < 0:
            raise ValueError('math domain error')
        return math.sqrt(f)
    if bool(mkbool(e < 0)):
        raise ValueError('math domain error')
    tab = en.tables.setdefault('sqrt', {})
    k = e.get_id()
    if k in tab:
        return SymReal(tab[k][1])
    y = z3.Real(en.new_name('sqrt'))
    tab[k] = (e, y)
    en.assume(z3.And(y >= 0, y * y == e))
    return SymReal(y)


class SymReal(SymNum):
    """Real-valued stand-in for a Python float (rounding is outside the
    model, stated in the evidence)."""
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __hash__(self):
        return 1234567

    def __bool__(self):
        return bool(mkbool(self.e != 0))

    def __lt__(self, o):
        return NotImplemented if _bad(o) else num_cmp(self, o, 'lt')

    def __le__(self, o):
        return NotImplemented if _bad(o) else num_cmp(self, o, 'le')

    def __gt__(self, o):
        return NotImplemented if _bad(o) else num_cmp(self, o, 'gt')

    def __ge__(self, o):
        return NotImplemented if _bad(o) else num_cmp(self, o, 'ge')

    def __eq__(self, o):
        return False if _bad(o) else num_cmp(self, o, 'eq')

    def __ne__(self, o):
        return True if _bad(o) else num_cmp(self, o, 'ne')

    def _arith(self, o, f, swap=False):
        if _bad(o):
            return NotImplemented
        if _infcmp(o):
            raise Unsupported('inf arithmetic')
        a, b = self.e, zreal(o)
        if swap:
            a, b = b, a
        return mkreal(z3.simplify(f(a, b)))

    def __add__(self, o):
        if isinstance(o, (int, float)) and o == 0:
            return self
        return self._arith(o, lambda a, b: a + b)
    __radd__ = __add__

    def __sub__(self, o):
        return self._arith(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._arith(o, lambda a, b: a - b, True)

    def __mul__(self, o):
        return self._arith(o, lambda a, b: a * b)
    __rmul__ = __mul__

    def __neg__(self):
        return mkreal(z3.simplify(-self.e))

    def __pos__(self):
        return self

    def __abs__(self):
        return mkreal(z3.If(self.e >= 0, self.e, -self.e))

    def __truediv__(self, o):
        return num_div(self, o)

    def __rtruediv__(self, o):
        return num_div(o, self)

    def __floordiv__(self, o):
        return real_floor(num_div(self, o))

    def __pow__(self, o):
        if isinstance(o, (float, Fraction)) and o == int(o):
            o = int(o)
        if isinstance(o, int) and 0 <= o <= 8:
            r = 1.0 if o == 0 else self
            for _ in range(o - 1):
                r = r * self
            return r
        if isinstance(o, float) and o == 0.5:
            return real_sqrt(self)
        raise Unsupported('real power')

    def __floor__(self):
        return real_floor(self)

    def __ceil__(self):
        return real_ceil(self)

    def __trunc__(self):
        return real_trunc(self)

    def __round__(self, nd=None):
        if nd is not None:
            if type(nd) is not int:
                raise Unsupported('round digits')
            m = Fraction(10) ** nd
            return (self * m).__round__() / m
        f = real_floor(self + Fraction(1, 2))
        # ties go to the even neighbour
        tie = (self + Fraction(1, 2)) == f
        odd = (f % 2) == 1
        if bool(tie) and bool(odd):
            return f - 1
        return f

    def is_integer(self):
        return mkbool(z3.IsInt(self.e))

    def __float__(self):
        raise Unsupported('float() of a symbolic real')

    def __repr__(self):
        return 'SymReal(%s)' % self.e


CONC_CAP = 64


def concretise_int(x, cap=None):
    if isinstance(x, int):
        return x
    en = E()
    e = z3.simplify(x.e)
    if z3.is_int_value(e):
        return e.as_long()
    tab = en.tables.setdefault('cint', {})
    k = e.get_id()
    if k in tab:
        return tab[k][1]
    cap = cap or CONC_CAP
    n = 0
    while True:
        # NOTE: while replaying, the recorded node tells the value tried
        v = _next_value(en, e, n)
        if en.branch(z_eq(e, ival(v))):
            tab[k] = (e, v)
            return v
        n += 1
        if n > cap:
            en.stats.concretised += 1
            raise _eng.PathCut('value concretised beyond %d values' % cap)


def _next_value(en, e, n):
    d = en.depth
    if d < len(en.nodes):
        ex = en.nodes[d].expr
        # expression is e == const
        for i in (0, 1):
            if ex.num_args() == 2 and z3.is_int_value(ex.arg(i)) and ex.arg(1 - i).eq(e):
                return ex.arg(i).as_long()
        raise RuntimeError('concretisation replay mismatch')
    if d < len(en.prefix):
        # deterministic ascending enumeration is needed below a prefix
        pass
    return _smallest(en, e, n)


def _smallest(en, e, n):
    """Deterministic value choice: the smallest feasible value (found with
    the solver), so that re-execution from a prefix tries the same order."""
    tabk = en.tables.setdefault('cvals', {}).setdefault(e.get_id(), [])
    # find any feasible value first
    if en._check() != z3.sat:
        raise _eng.PathEnd()
    m = en.solver.model()
    v = m.eval(e, model_completion=True).as_long()
    # descend to the minimum
    while True:
        en.solver.push()
        en.solver.add(e < ival(v))
        r = en._check()
        if r != z3.sat:
            en.solver.pop()
            break
        v2 = en.solver.model().eval(e, model_completion=True).as_long()
        en.solver.pop()
        # try to jump
        lo = None
        v = v2
        if v < -100000:
            break
    return v


# --------------------------------------------------------------------------
# Characters and strings
# --------------------------------------------------------------------------
class Dom(object):
    """Finite set of code points as sorted disjoint ranges (immutable)."""
    __slots__ = ('r', 'size', '_set', 'h')
    _memo = {}

    def __new__(cls, ranges):
        key = tuple(ranges)
        d = cls._memo.get(key)
        if d is None:
            given, key = key, []
            for a, b in sorted(given):
                if key and a <= key[-1][1] + 1:
                    key[-1] = (key[-1][0], max(b, key[-1][1]))
                else:
                    key.append((a, b))
            key = tuple(key)
            if key != given:
                d = cls._memo[given] = cls(key)
                return d
            d = object.__new__(cls)
            d.r = key
            d.size = sum(b - a + 1 for a, b in key)
            d._set = None
            d.h = hash(key)
            cls._memo[key] = d
        return d

    def __contains__(self, c):
        for a, b in self.r:
            if a <= c <= b:
                return True
        return False

    def __iter__(self):
        for a, b in self.r:
            yield from range(a, b + 1)

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self is o

    @staticmethod
    def of(cps):
        return Dom(compress(sorted(set(cps))))

    def disjoint(self, o):
        for a, b in self.r:
            for c, d in o.r:
                if a <= d and c <= b:
                    return False
        return True


def compress(xs):
    out = []
    for x in xs:
        if out and out[-1][1] == x - 1:
            out[-1][1] = x
        else:
            out.append([x, x])
    return tuple((a, b) for a, b in out)


UNICODE = Dom([(0, MAXCP)])
ASCII = Dom([(0, 127)])


class Ch(object):
    """A symbolic character: integer expression + finite domain."""
    __slots__ = ('e', 'dom', 'id')

    def __init__(self, e, dom):
        self.e = e
        self.dom = dom
        self.id = e.get_id()


_pred_cache = {}


def pred_ranges(pred, key, dom):
    """Ranges of the code points of dom satisfying pred."""
    k = (key, dom)
    r = _pred_cache.get(k)
    if r is None:
        if dom.size > 5000:
            kk = (key, 'all')
            al = _pred_cache.get(kk)
            if al is None:
                al = compress([c for c in range(MAXCP + 1) if pred(c)])
                _pred_cache[kk] = al
            out = []
            for a, b in al:
                for c, d in dom.r:
                    lo, hi = max(a, c), min(b, d)
                    if lo <= hi:
                        out.append((lo, hi))
            r = tuple(sorted(out))
        else:
            r = compress([c for c in dom if pred(c)])
        _pred_cache[k] = r
    return r


_rng_memo = {}


def in_ranges(ch, ranges):
    """z3 condition: ch within ranges (subset of its domain)."""
    n = sum(b - a + 1 for a, b in ranges)
    if n == 0:
        return False
    if n == ch.dom.size:
        return True
    k = (ch.id, ranges)
    r = _rng_memo.get(k)
    if r is not None:
        return r
    # express the smaller side w.r.t. the domain
    ps = []
    for a, b in ranges:
        lo, hi = ch.dom.r[0][0], ch.dom.r[-1][1]
        if a == b:
            ps.append(ch.e == ival(a))
        elif a <= lo:
            ps.append(ch.e <= ival(b))
        elif b >= hi:
            ps.append(ch.e >= ival(a))
        else:
            ps.append(z3.And(ch.e >= ival(a), ch.e <= ival(b)))
    r = ps[0] if len(ps) == 1 else z3.Or(*ps)
    _rng_memo[k] = r
    _pins.append(ch.e)
    return r


def ch_test(c, pred, key):
    """Truth of pred on a character (int or Ch): bool or z3 Bool."""
    if isinstance(c, int):
        return bool(pred(c))
    return in_ranges(c, pred_ranges(pred, key, c.dom))


def ch_in(c, cps):
    """c in a concrete set of code points"""
    if isinstance(c, int):
        return c in cps
    cps = frozenset(cps)
    return ch_test(c, cps.__contains__, ('set', cps))


def ch_eq(a, b):
    if isinstance(a, int):
        if isinstance(b, int):
            return a == b
        a, b = b, a
    if isinstance(b, int):
        if b not in a.dom:
            return False
        if a.dom.size == 1:
            return True
        return z_eq(a.e, ival(b))
    if a.id == b.id:
        return True
    if a.dom is not b.dom and a.dom.disjoint(b.dom):
        return False
    return z_eq(a.e, b.e)


def ch_z(c):
    return ival(c) if isinstance(c, int) else c.e


_map_cache = {}


def ch_map(c, f, key):
    """Apply a str->str per character function to a character, returning the
    list of resulting characters (forks when the result length varies)."""
    if isinstance(c, int):
        return [ord(x) for x in f(chr(c))]
    k = (key, c.dom)
    plan = _map_cache.get(k)
    if plan is None:
        if c.dom.size > 5000:
            raise Unsupported('character map over a huge domain')
        single = {}
        multi = {}
        for cp in c.dom:
            out = f(chr(cp))
            if len(out) == 1:
                o = ord(out)
                single.setdefault(o - cp, []).append(cp)
            else:
                multi.setdefault(out, []).append(cp)
        plan = ([(off, compress(cps)) for off, cps in sorted(single.items(), key=lambda t: -len(t[1]))],
                [(out, compress(cps)) for out, cps in sorted(multi.items())])
        _map_cache[k] = plan
    single, multi = plan
    if multi and not single and len(multi) == 1:
        return [ord(x) for x in multi[0][0]]
    for out, ranges in multi:
        if bool(mkbool(in_ranges(c, ranges))):
            return [ord(x) for x in out]
    if multi:
        rest = []
        for off, rg in single:
            rest.extend(rg)
        dom = Dom(tuple(sorted(rest)))
    else:
        dom = c.dom
    cc = Ch(c.e, dom)
    newdom = Dom.of(cp + off for off, rg in single for a, b in rg for cp in range(a, b + 1))
    if newdom.size == 1:
        return [newdom.r[0][0]]
    if len(single) == 1 and single[0][0] == 0:
        return [cc]
    e = None
    for off, rg in reversed(single):
        val = c.e if off == 0 else c.e + ival(off)
        if len(rg) == 1 and rg[0][0] == rg[0][1]:
            val = ival(rg[0][0] + off)
        if e is None:
            e = val
        else:
            e = z3.If(in_ranges(cc, rg), val, e)
    _pins.append(e)
    return [Ch(e, newdom)]


def mkstr(chars):
    for c in chars:
        if not isinstance(c, int):
            return SymStr(chars)
    return ''.join(map(chr, chars))


def chars_of(s):
    if isinstance(s, SymStr):
        return s.c
    if isinstance(s, str):
        return tuple(map(ord, s))
    raise TypeError('expected str, got %s' % type(s).__name__)


def isstr(x):
    return isinstance(x, (str, SymStr))


def str_eq(a, b):
    """bool or z3 Bool"""
    ca, cb = chars_of(a), chars_of(b)
    if len(ca) != len(cb):
        return False
    return seq_eq(ca, cb)


def seq_eq(ca, cb):
    parts = []
    for x, y in zip(ca, cb):
        if x is y:
            continue
        p = ch_eq(x, y)
        if p is False:
            return False
        if p is not True:
            parts.append(p)
    return z_and(parts)


def str_lt(a, b, orequal):
    ca, cb = chars_of(a), chars_of(b)
    n = min(len(ca), len(cb))
    r = (len(ca) < len(cb)) or (orequal and len(ca) == len(cb))
    for i in range(n - 1, -1, -1):
        x, y = ca[i], cb[i]
        if isinstance(x, int) and isinstance(y, int):
            if x < y:
                r = True
            elif x > y:
                r = False
            continue
        if x is y or (not isinstance(x, int) and not isinstance(y, int) and x.id == y.id):
            continue
        lt = ch_z(x) < ch_z(y)
        eq = ch_eq(x, y)
        r = z_or([lt, z_and([eq, r])])
    return r


_WS = frozenset(c for c in range(MAXCP + 1) if chr(c).isspace())


def _p(name):
    m = getattr(str, name)
    return lambda c: m(chr(c))


_PREDS = {n: _p(n) for n in ('isalpha', 'isdigit', 'isalnum', 'isspace', 'isupper',
                             'islower', 'isdecimal', 'isnumeric', 'isprintable',
                             'isidentifier', 'isascii', 'istitle')}


def _norm_slice_args(n, start, end):
    s, e, _ = slice(start, end).indices(n)
    return s, e


class SymStr(Sym):
    __slots__ = ('c',)

    def __init__(self, chars):
        self.c = tuple(chars)

    # -- basics
    def __len__(self):
        return len(self.c)

    def __bool__(self):
        return len(self.c) > 0

    def __hash__(self):
        return 7654321

    def __iter__(self):
        for x in self.c:
            yield chr(x) if isinstance(x, int) else SymStr((x,))

    def __getitem__(self, k):
        if isinstance(k, slice):
            return mkstr(self.c[k])
        r = self.c[k]
        return chr(r) if isinstance(r, int) else SymStr((r,))

    def __add__(self, o):
        if not isstr(o):
            return NotImplemented
        return mkstr(self.c + chars_of(o))

    def __radd__(self, o):
        if not isstr(o):
            return NotImplemented
        return mkstr(chars_of(o) + self.c)

    def __mul__(self, n):
        return mkstr(self.c * int(n))
    __rmul__ = __mul__

    def __eq__(self, o):
        if not isstr(o):
            return False
        return mkbool(str_eq(self, o))

    def __ne__(self, o):
        if not isstr(o):
            return True
        return mkbool(z_not(str_eq(self, o)))

    def __lt__(self, o):
        return mkbool(str_lt(self, o, False)) if isstr(o) else NotImplemented

    def __le__(self, o):
        return mkbool(str_lt(self, o, True)) if isstr(o) else NotImplemented

    def __gt__(self, o):
        return mkbool(str_lt(o, self, False)) if isstr(o) else NotImplemented

    def __ge__(self, o):
        return mkbool(str_lt(o, self, True)) if isstr(o) else NotImplemented

    def __contains__(self, o):
        return bool(mkbool(self.z_contains(o)))

    def z_contains(self, o):
        if not isstr(o):
            raise TypeError("'in <string>' requires string as left operand, not %s" % type(o).__name__)
        co = chars_of(o)
        m = len(co)
        return z_or([seq_eq(self.c[i:i + m], co) for i in range(len(self.c) - m + 1)])

    def __repr__(self):
        return 'SymStr(%s)' % ','.join(repr(chr(x)) if isinstance(x, int) else str(x.e) for x in self.c)

    def __str__(self):
        raise Unsupported('native str() of a symbolic string')

    def __format__(self, spec):
        raise Unsupported('native format() of a symbolic string')

    def __mod__(self, args):
        from . import rt
        return rt.percent(self, args)

    # -- mapping
    def _map(self, f, key):
        out = []
        for x in self.c:
            out.extend(ch_map(x, f, key))
        return mkstr(out)

    def upper(self):
        return self._map(str.upper, 'upper')

    def lower(self):
        # NOTE: context sensitive only for final sigma
        return self._map(str.lower, 'lower')

    def casefold(self):
        return self._map(str.casefold, 'casefold')

    def swapcase(self):
        return self._map(str.swapcase, 'swapcase')

    def capitalize(self):
        if not self.c:
            return ''
        return mkstr(tuple(ch_map(self.c[0], str.title, 'title')) + chars_of(mkstr(self.c[1:]).lower()))

    def title(self):
        out = []
        prev = False
        for x in self.c:
            out.extend(ch_map(x, str.lower, 'lower') if prev else ch_map(x, str.title, 'title'))
            prev = bool(mkbool(ch_test(x, lambda c: chr(c).lower() != chr(c) or chr(c).upper() != chr(c), 'cased')))
        return mkstr(out)

    def translate(self, table):
        def f(ch):
            return ch.translate(table)
        try:
            key = ('tr', tuple(sorted((k, v) for k, v in table.items())))
        except TypeError:
            key = ('tr', id(table))
            _pins.append(table)
        return self._map(f, key)

    def expandtabs(self, n=8):
        raise Unsupported('expandtabs')

    # -- predicates
    def _all(self, name):
        if not self.c:
            return name in ('isascii', 'isprintable')
        return mkbool(z_and([ch_test(x, _PREDS[name], name) for x in self.c]))

    def isalpha(self):
        return self._all('isalpha')

    def isdigit(self):
        return self._all('isdigit')

    def isalnum(self):
        return self._all('isalnum')

    def isspace(self):
        return self._all('isspace')

    def isdecimal(self):
        return self._all('isdecimal')

    def isnumeric(self):
        return self._all('isnumeric')

    def isprintable(self):
        return self._all('isprintable')

    def isascii(self):
        return self._all('isascii')

    def _case(self, name, anti):
        if not self.c:
            return False
        some = z_or([ch_test(x, _PREDS[name], name) for x in self.c])
        none = z_and([z_not(ch_test(x, anti, 'anti' + name)) for x in self.c])
        return mkbool(z_and([some, none]))

    def isupper(self):
        return self._case('isupper', lambda c: chr(c).islower() or chr(c).istitle() and not chr(c).isupper())

    def islower(self):
        return self._case('islower', lambda c: chr(c).isupper() or chr(c).istitle() and not chr(c).islower())

    # -- searching
    def startswith(self, p, start=None, end=None):
        if isinstance(p, tuple):
            return mkbool(z_or([zb(self.startswith(x, start, end)) for x in p]))
        s, e = _norm_slice_args(len(self.c), start, end)
        cp = chars_of(p)
        if s + len(cp) > e:
            return False
        return mkbool(seq_eq(self.c[s:s + len(cp)], cp))

    def endswith(self, p, start=None, end=None):
        if isinstance(p, tuple):
            return mkbool(z_or([zb(self.endswith(x, start, end)) for x in p]))
        s, e = _norm_slice_args(len(self.c), start, end)
        cp = chars_of(p)
        if e - len(cp) < s:
            return False
        return mkbool(seq_eq(self.c[e - len(cp):e], cp))

    def find(self, sub, start=None, end=None):
        s, e = _norm_slice_args(len(self.c), start, end)
        cs = chars_of(sub)
        m = len(cs)
        for i in range(s, e - m + 1):
            if bool(mkbool(seq_eq(self.c[i:i + m], cs))):
                return i
        return -1

    def rfind(self, sub, start=None, end=None):
        s, e = _norm_slice_args(len(self.c), start, end)
        cs = chars_of(sub)
        m = len(cs)
        for i in range(e - m, s - 1, -1):
            if bool(mkbool(seq_eq(self.c[i:i + m], cs))):
                return i
        return -1

    def index(self, sub, *a):
        r = self.find(sub, *a)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def rindex(self, sub, *a):
        r = self.rfind(sub, *a)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def count(self, sub, start=None, end=None):
        s, e = _norm_slice_args(len(self.c), start, end)
        m = len(sub)
        if m == 0:
            return e - s + 1
        n = 0
        while True:
            i = self.find(sub, s, e)
            if i < 0:
                return n
            n += 1
            s = i + m

    def replace(self, old, new, count=-1):
        co, cn = chars_of(old), chars_of(new)
        m = len(co)
        out = []
        i = 0
        n = len(self.c)
        done = 0
        if m == 0:
            for k, x in enumerate(self.c):
                if count < 0 or done < count:
                    out.extend(cn)
                    done += 1
                out.append(x)
            if count < 0 or done < count:
                out.extend(cn)
            return mkstr(out)
        if m == 1 and len(cn) == 1 and count < 0 and isinstance(cn[0], int) and isinstance(co[0], int):
            o, w = chr(co[0]), chr(cn[0])
            return self._map(lambda ch: w if ch == o else ch, ('repl', co[0], cn[0]))
        while i < n:
            if i + m <= n and (count < 0 or done < count) and bool(mkbool(seq_eq(self.c[i:i + m], co))):
                out.extend(cn)
                i += m
                done += 1
            else:
                out.append(self.c[i])
                i += 1
        return mkstr(out)

    # -- splitting
    def _isws(self, x):
        return bool(mkbool(ch_test(x, lambda c: c in _WS, 'isspace')))

    def split(self, sep=None, maxsplit=-1):
        out = []
        n = len(self.c)
        if sep is None:
            i = 0
            while True:
                while i < n and self._isws(self.c[i]):
                    i += 1
                if i >= n:
                    break
                if maxsplit >= 0 and len(out) >= maxsplit:
                    j = n
                    while j > i and self._isws(self.c[j - 1]):
                        j -= 1
                    out.append(mkstr(self.c[i:j]))
                    break
                j = i
                while j < n and not self._isws(self.c[j]):
                    j += 1
                out.append(mkstr(self.c[i:j]))
                i = j
            return out
        if len(sep) == 0:
            raise ValueError('empty separator')
        i = 0
        while True:
            j = self.find(sep, i) if (maxsplit < 0 or len(out) < maxsplit) else -1
            if j < 0:
                out.append(mkstr(self.c[i:]))
                return out
            out.append(mkstr(self.c[i:j]))
            i = j + len(sep)

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit < 0:
            return self.split(sep)
        if sep is None:
            raise Unsupported('rsplit')
        out = []
        e = len(self.c)
        while True:
            j = self.rfind(sep, 0, e) if len(out) < maxsplit else -1
            if j < 0:
                out.append(mkstr(self.c[:e]))
                out.reverse()
                return out
            out.append(mkstr(self.c[j + len(sep):e]))
            e = j

    def splitlines(self, keepends=False):
        breaks = frozenset(c for c in range(0x3000) if len(('a' + chr(c) + 'b').splitlines()) == 2)
        out = []
        cur = []
        i = 0
        n = len(self.c)
        while i < n:
            x = self.c[i]
            if bool(mkbool(ch_in(x, breaks))):
                end = [x]
                if i + 1 < n and bool(mkbool(ch_eq(x, 13))) and bool(mkbool(ch_eq(self.c[i + 1], 10))):
                    end.append(self.c[i + 1])
                    i += 1
                out.append(mkstr(cur + (end if keepends else [])))
                cur = []
            else:
                cur.append(x)
            i += 1
        if cur:
            out.append(mkstr(cur))
        return out

    def partition(self, sep):
        j = self.find(sep)
        if j < 0:
            return (self, '', '')
        return (mkstr(self.c[:j]), sep, mkstr(self.c[j + len(sep):]))

    def rpartition(self, sep):
        j = self.rfind(sep)
        if j < 0:
            return ('', '', self)
        return (mkstr(self.c[:j]), sep, mkstr(self.c[j + len(sep):]))

    def _strip(self, chars, left, right):
        if chars is None:
            test = self._isws
        else:
            cs = chars_of(chars)

            def test(x):
                return bool(mkbool(z_or([ch_eq(x, y) for y in cs])))
        i, j = 0, len(self.c)
        if left:
            while i < j and test(self.c[i]):
                i += 1
        if right:
            while j > i and test(self.c[j - 1]):
                j -= 1
        return mkstr(self.c[i:j])

    def strip(self, chars=None):
        return self._strip(chars, True, True)

    def lstrip(self, chars=None):
        return self._strip(chars, True, False)

    def rstrip(self, chars=None):
        return self._strip(chars, False, True)

    def removeprefix(self, p):
        return mkstr(self.c[len(p):]) if bool(self.startswith(p)) else self

    def removesuffix(self, p):
        return mkstr(self.c[:len(self.c) - len(p)]) if len(p) and bool(self.endswith(p)) else self

    # -- building
    def join(self, it):
        out = []
        first = True
        for x in it:
            if not isstr(x):
                raise TypeError('sequence item: expected str instance, %s found' % type(x).__name__)
            if not first:
                out.extend(self.c)
            first = False
            out.extend(chars_of(x))
        return mkstr(out)

    def ljust(self, n, fill=' '):
        return self + fill * max(0, n - len(self))

    def rjust(self, n, fill=' '):
        return fill * max(0, n - len(self)) + self

    def encode(self, encoding='utf-8', errors='strict'):
        return SymBytes(self)

    def format(self, *a, **k):
        raise Unsupported('format')


class SymBytes(Sym):
    """Opaque encoding of a (symbolic) string: injective."""
    __slots__ = ('s',)

    def __init__(self, s):
        self.s = s

    def __hash__(self):
        return 24680

    def __eq__(self, o):
        if isinstance(o, SymBytes):
            return mkbool(str_eq(self.s, o.s))
        if isinstance(o, bytes):
            try:
                return mkbool(str_eq(self.s, o.decode('utf-8')))
            except UnicodeDecodeError:
                return False
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return mkbool(z_not(zb(r)))

    def decode(self, *a, **k):
        return self.s

    def __len__(self):
        for x in chars_of(self.s):
            if not isinstance(x, int) and not x.dom.r[-1][1] < 128:
                raise Unsupported('byte length')
        return len(self.s)


# --------------------------------------------------------------------------
def is_sym(x, depth=3):
    """Whether x is, or contains, a symbolic value."""
    if isinstance(x, Sym):
        return True
    if depth and isinstance(x, (tuple, list, frozenset, set)):
        for y in x:
            if is_sym(y, depth - 1):
                return True
    return False


def concretise_str(s, cap=4):
    if isinstance(s, str):
        return s
    en = E()
    out = []
    for x in s.c:
        if isinstance(x, int):
            out.append(x)
        else:
            out.append(concretise_int(SymInt(x.e), cap))
    en.stats.concretised += 1
    return ''.join(map(chr, out))


def concretise(x, depth=4, cap=8):
    if isinstance(x, SymStr):
        return concretise_str(x, cap)
    if isinstance(x, SymInt):
        E().stats.concretised += 1
        return concretise_int(x, cap)
    if isinstance(x, SymBool):
        return bool(x)
    if isinstance(x, SymBytes):
        return concretise_str(x.s, cap).encode()
    if isinstance(x, SymReal):
        raise Unsupported('cannot concretise a real')
    if depth <= 0:
        return x
    t = type(x)
    if isinstance(x, (list, set, frozenset, tuple)) and is_sym(x):
        if isinstance(x, tuple) and t is not tuple:
            return t(*(concretise(y, depth - 1, cap) for y in x))
        base = list if isinstance(x, list) else tuple if isinstance(x, tuple) else \
            frozenset if isinstance(x, frozenset) else set
        return base(concretise(y, depth - 1, cap) for y in x)
    if isinstance(x, dict):
        if any(is_sym(k) or is_sym(v) for k, v in x.items()):
            return {concretise(k, depth - 1, cap): concretise(v, depth - 1, cap) for k, v in x.items()}
    return x


def sym_eq(a, b):
    """Structural equality: bool or z3 Bool (no fork where possible)."""
    if isstr(a) and isstr(b):
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        return str_eq(a, b)
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        if isinstance(a, tuple) != isinstance(b, tuple):
            return False
        if len(a) != len(b):
            return False
        return z_and([sym_eq(x, y) for x, y in zip(a, b)])
    if isinstance(a, (Sym,)) or isinstance(b, (Sym,)):
        return zb(a == b)
    return bool(a == b)
