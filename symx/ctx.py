"""What a harness sees: the same harness code runs symbolically (instrumented
modules, z3 values) and concretely (the real modules, plain values)."""
import importlib
import sys
from fractions import Fraction



class AssumeFailed(BaseException):
    pass


class CheckFailed(BaseException):
    def __init__(self, msg):
        self.msg = msg


# --------------------------------------------------------------------------
class ConcreteCtx(object):
    symbolic = False

    def __init__(self, values, tier='quick'):
        self.values = values
        self.observed = []
        self.checks = 0
        self.undo = []

    def shared(self, key, make):
        """the object made for this key by an earlier call on the same path"""
        d = self.__dict__.setdefault('_shared', {})
        k = repr(key)
        if k not in d:
            d[k] = make()
        return d[k]

    inter = None

    def drain(self, make):
        """All that a generator yields; in interleaved histories another one
        is consumed after it started ('suspended'), or before the end of an
        earlier one ('nested')."""
        if self.inter is None:
            return list(make())
        g = iter(make())
        out = []
        for x in g:
            out.append(x)
            break
        second = list(make())
        if self.inter == 'nested':
            return second
        out.extend(g)
        return out

    # inputs
    def string(self, name, n, dom=None):
        v = self.values.get(name)
        if v is None:
            d = dom or ((97, 122),)
            v = chr(d[0][0]) * n
        return v

    def int(self, name, lo=None, hi=None):
        v = self.values.get(name)
        if v is None:
            v = lo if lo is not None else 0
        return v

    def real(self, name, lo=None, hi=None, exact=False):
        v = self.values.get(name)
        if exact:
            return Fraction(v[0], v[1]) if isinstance(v, list) else Fraction(v if v is not None else lo or 0)
        if v is None:
            return float(lo if lo is not None else 0)
        if isinstance(v, list):
            f = Fraction(v[0], v[1])
            return float(f) if Fraction(float(f)) == f else f
        return v

    def bits(self, name, n):
        return int(self.values.get(name) or 0)

    def popcount(self, x):
        return bin(x).count('1')

    def bit(self, x, i):
        return bool(x >> i & 1)

    def mapping(self, pairs):
        return dict(pairs)

    def bool(self, name):
        return bool(self.values.get(name, False))

    def choice(self, name, options):
        return options[self.values.get(name, 0)]

    # logic
    def assume(self, c):
        if not c:
            raise AssumeFailed()

    def check(self, c, msg):
        self.checks += 1
        if not c:
            raise CheckFailed(msg)

    def all(self, xs):
        return all(list(xs))

    def any(self, xs):
        return any(list(xs))

    def no(self, x):
        return not x

    def iff(self, a, b):
        return bool(a) == bool(b)

    def implies(self, a, b):
        return (not a) or bool(b)

    def ite(self, c, a, b):
        return a if c else b

    def min(self, xs):
        return min(xs)

    def eq(self, a, b):
        return a == b

    def close(self, a, b, tol=1e-9):
        if a == b:
            return True
        return abs(float(a) - float(b)) <= tol * max(1.0, abs(float(a)), abs(float(b)))

    def le(self, a, b, tol=1e-9):
        return float(a) <= float(b) + tol * max(1.0, abs(float(b)))

    def observe(self, v):
        self.observed.append(normalise(v))

    def imp(self, module):
        return importlib.import_module(module)

    def steps(self, n):
        pass

    def cut(self, why):
        raise AssumeFailed()

    def patch(self, module, attr, value, optional=False):
        m = importlib.import_module(module) if isinstance(module, str) else module
        if optional and not hasattr(m, attr):
            return
        old = getattr(m, attr)
        setattr(m, attr, value)
        self.undo.append((m, attr, old))

    def close_ctx(self):
        for m, a, o in reversed(self.undo):
            setattr(m, a, o)
        self.undo = []


# --------------------------------------------------------------------------
def normalise(v):
    if isinstance(v, (set, frozenset)):
        return ['set'] + sorted((normalise(x) for x in v), key=repr)
    if isinstance(v, dict):
        return ['dict'] + sorted(([normalise(k), normalise(x)] for k, x in v.items()), key=repr)
    if isinstance(v, (list, tuple)):
        return [normalise(x) for x in v]
    if isinstance(v, Fraction):
        return float(v)
    if isinstance(v, bool) or v is None or isinstance(v, (int, float, str)):
        return v
    return repr(type(v).__name__)


def same_obs(a, b):
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same_obs(x, y) for x, y in zip(a, b))
    if isinstance(a, bool) or isinstance(b, bool) or isinstance(a, str) or isinstance(b, str):
        return a == b
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        if a == b:
            return True
        return abs(a - b) <= 1e-6 * max(1, abs(a), abs(b))
    return a == b


class SymCtx(object):
    symbolic = True

    def __init__(self, eng):
        from . import values as V
        from . import engine
        import z3
        self.V = V
        self.z3 = z3
        self.e = eng
        self.undo = []

    def string(self, name, n, dom=None):
        V, z3 = self.V, self.z3
        dom = V.Dom(tuple(dom)) if dom is not None else V.UNICODE
        cs = []
        for i in range(n):
            v = z3.Int('%s[%d]' % (name, i))
            ch = V.Ch(v, dom)
            self.e.assume(z3.Or(*[z3.And(v >= a, v <= b) if a != b else v == a for a, b in dom.r]))
            cs.append(ch)
        s = V.SymStr(cs) if cs else ''
        self.e.inputs[name] = s
        return s

    def int(self, name, lo=None, hi=None):
        V, z3 = self.V, self.z3
        if lo is not None and lo == hi:
            self.e.inputs[name] = lo
            return lo
        v = z3.Int(name)
        if lo is not None:
            self.e.assume(v >= lo)
        if hi is not None:
            self.e.assume(v <= hi)
        self.e.ranges[v.get_id()] = (lo, hi)
        r = V.SymInt(v)
        self.e.inputs[name] = r
        return r

    def real(self, name, lo=None, hi=None, exact=False):
        V, z3 = self.V, self.z3
        v = z3.Real(name)
        if lo is not None:
            self.e.assume(v >= V.rval(lo))
        if hi is not None:
            self.e.assume(v <= V.rval(hi))
        r = V.SymReal(v)
        self.e.inputs[name] = r
        return r

    def bits(self, name, n):
        """an integer of n free bits"""
        r = self.V.SymBits(self.z3.BitVec(name, n))
        self.e.bits = True
        self.e.inputs[name] = r
        return r

    def popcount(self, x):
        return x.bit_count()

    def bit(self, x, i):
        if isinstance(x, int):
            return bool(x >> i & 1)
        x = (x >> i) & 1
        return self.V.mkbool(self.V.zb(x == 1))

    def mapping(self, pairs):
        from symx import rt
        return rt.mkdict(pairs)

    def bool(self, name):
        r = self.V.SymBool(self.z3.Bool(name))
        self.e.inputs[name] = r
        return r

    def choice(self, name, options):
        """Nondeterministic choice: a symbolic index, forked on."""
        if len(options) == 1:
            self.e.inputs[name] = 0
            return options[0]
        i = self.int(name, 0, len(options) - 1)
        return options[self.V.concretise_int(i)]

    def assume(self, c):
        self.e.assume(self.V.zb(c))

    def check(self, c, msg):
        self.e.check(self.V.zb(c), msg)

    def all(self, xs):
        return self.V.mkbool(self.V.z_and([self.V.zb(x) for x in xs]))

    def any(self, xs):
        return self.V.mkbool(self.V.z_or([self.V.zb(x) for x in xs]))

    def no(self, x):
        return self.V.mkbool(self.V.z_not(self.V.zb(x)))

    def iff(self, a, b):
        a, b = self.V.zb(a), self.V.zb(b)
        if isinstance(a, bool) and isinstance(b, bool):
            return a == b
        if isinstance(a, bool):
            a, b = b, a
        if isinstance(b, bool):
            return self.V.mkbool(a if b else self.V.z_not(a))
        return self.V.mkbool(a == b)

    def implies(self, a, b):
        return self.any([self.no(a), b])

    def ite(self, c, a, b):
        V, z3 = self.V, self.z3
        c = V.zb(c)
        if isinstance(c, bool):
            return a if c else b
        if isinstance(a, (bool, V.SymBool)) and isinstance(b, (bool, V.SymBool)):
            return self.any([self.all([V.mkbool(c), a]), self.all([self.no(V.mkbool(c)), b])])
        if isinstance(a, (V.SymReal, float, Fraction)) or isinstance(b, (V.SymReal, float, Fraction)):
            return V.mkreal(z3.If(c, V.zreal(a), V.zreal(b)))
        if isinstance(a, int) and isinstance(b, int) and a == b:
            return a
        return V.mkint(z3.If(c, V.zint(a), V.zint(b)))

    def min(self, xs):
        xs = list(xs)
        r = xs[0]
        for x in xs[1:]:
            if isinstance(r, int) and isinstance(x, int):
                r = min(r, x)
            else:
                r = self.ite(x < r, x, r)
        return r

    def eq(self, a, b):
        return self.known(self.V.sym_eq(a, b))

    def known(self, e):
        """SymBool, or the truth value already decided on this path"""
        if e is True or e is False:
            return e
        k = self.e.known.get(e.get_id())
        return k if k is not None else self.V.mkbool(e)

    def close(self, a, b, tol=1e-9):
        V = self.V
        if isinstance(a, V.Sym) or isinstance(b, V.Sym):
            if not isinstance(a, (int, V.SymInt)) and not isinstance(b, (int, V.SymInt)):
                return V.mkbool(V.zreal(a) == V.zreal(b))
            return V.mkbool(V.zb(a == b))
        return ConcreteCtx.close(self, a, b, tol)

    def le(self, a, b, tol=1e-9):
        V = self.V
        if isinstance(a, V.Sym) or isinstance(b, V.Sym):
            if isinstance(a, float) or isinstance(b, float) or isinstance(a, V.SymReal) or isinstance(b, V.SymReal):
                return V.mkbool(V.zreal(a) <= V.zreal(b))
            return a <= b
        return ConcreteCtx.le(self, a, b, tol)

    def observe(self, v):
        self.e.observed.append(v)

    def imp(self, module):
        return importlib.import_module(module)

    def steps(self, n):
        self.e.step_limit = self.e.steps + (200000 if n is None else n)

    def cut(self, why):
        from .engine import PathCut
        raise PathCut(why)

    patch = ConcreteCtx.patch
    shared = ConcreteCtx.shared
    drain = ConcreteCtx.drain
    inter = None
    close_ctx = ConcreteCtx.close_ctx


def evalv(V, z3, m, v):
    """Value of v under model m, as JSON-able data."""
    if isinstance(v, V.SymStr):
        return ''.join(chr(c if isinstance(c, int) else m.eval(c.e, model_completion=True).as_long()) for c in v.c)
    if isinstance(v, V.SymBool):
        return z3.is_true(m.eval(v.e, model_completion=True))
    if isinstance(v, V.SymBits):
        return m.eval(v.b, model_completion=True).as_long()
    if isinstance(v, V.SymInt):
        return m.eval(v.e, model_completion=True).as_long()
    if isinstance(v, V.SymReal):
        r = m.eval(v.e, model_completion=True)
        if z3.is_algebraic_value(r):
            r = r.approx(30)
        if not z3.is_rational_value(r):
            return [0, 1]
        return [r.numerator_as_long(), r.denominator_as_long()]
    if isinstance(v, V.SymBytes):
        return evalv(V, z3, m, v.s)
    if isinstance(v, tuple):
        return tuple(evalv(V, z3, m, x) for x in v)
    if isinstance(v, list):
        return [evalv(V, z3, m, x) for x in v]
    if isinstance(v, dict):
        return {_hk(evalv(V, z3, m, k)): evalv(V, z3, m, x) for k, x in dict.items(v)}
    if isinstance(v, (set, frozenset)):
        return set(_hk(evalv(V, z3, m, x)) for x in v)
    return v


def _hk(x):
    return tuple(x) if isinstance(x, list) else x


def obs_eval(V, z3, m, v):
    if isinstance(v, V.SymReal):
        r = evalv(V, z3, m, v)
        return r[0] / r[1]
    if isinstance(v, (list, tuple)):
        return [obs_eval(V, z3, m, x) for x in v]
    if isinstance(v, (set, frozenset)):
        return ['set'] + sorted((obs_eval(V, z3, m, x) for x in v), key=repr)
    if isinstance(v, dict):
        return ['dict'] + sorted(([obs_eval(V, z3, m, k), obs_eval(V, z3, m, x)] for k, x in dict.items(v)), key=repr)
    if isinstance(v, V.Sym):
        return evalv(V, z3, m, v)
    return normalise(v)


def inputs_under(V, z3, m, inputs):
    return {k: evalv(V, z3, m, v) for k, v in inputs.items()}


# --------------------------------------------------------------------------
class Hist(object):
    """A later (or earlier) run of a harness on the same path: inputs of the
    same kind, size and name are shared between the runs (mode 'data': not the
    choices; mode 'other': nothing is shared)."""

    def __init__(self, ctx, seen, i, mode):
        self._c, self._seen, self._i, self._mode = ctx, seen, i, mode

    def __getattr__(self, k):
        return getattr(self._c, k)

    def _name(self, name, kind, sig):
        share = self._mode == 'data' and kind not in ('choice', 'bool')
        if not share:
            return name if self._i == 0 else '%s~%d' % (name, self._i)
        n, k = name, 0
        while self._seen.setdefault(n, (kind, sig)) != (kind, sig):
            k += 1
            n = '%s~%d' % (name, k)
        return n

    def string(self, name, n, dom=None):
        return self._c.string(self._name(name, 'string', (n, repr(dom))), n, dom)

    def int(self, name, lo=None, hi=None):
        return self._c.int(self._name(name, 'int', (lo, hi)), lo, hi)

    def real(self, name, lo=None, hi=None, exact=False):
        return self._c.real(self._name(name, 'real', (lo, hi, exact)), lo, hi, exact)

    def bits(self, name, n):
        return self._c.bits(self._name(name, 'bits', n), n)

    def bool(self, name):
        return self._c.bool(self._name(name, 'bool', None))

    def choice(self, name, options):
        return self._c.choice(self._name(name, 'choice', len(options)), options)


def run_case(harness, ctx, case):
    if 'history' not in case:
        harness.run(ctx, case)
        return
    seen = {}
    if case['mode'] in ('suspended', 'nested'):
        ctx.inter = case['mode']
    for i, c in enumerate(case['history']):
        ctx.steps(None)
        harness.run(Hist(ctx, seen, i, case['mode']), c)
        ctx.close_ctx()
