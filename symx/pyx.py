"""Cython source -> Python source with explicit C semantics.

The .pyx is parsed by Cython's own parser; C integers wrap at their declared
width, usual arithmetic conversions are applied, and `malloc`ed memory becomes
an object that checks bounds, initialisation, double free and leaks.  The
result is then instrumented like any other module.  (The translation is
validated on every run by replaying sampled paths on the compiled
extension.)"""
import sys

SITE = '/opt/venv/lib/python3.12/site-packages'


class PyxUnsupported(Exception):
    pass


CT = {
    ('char', 1, 0): 'i8', ('char', 0, 0): 'u8', ('char', 2, 0): 'i8',
    ('int', 1, 0): 'i32', ('int', 0, 0): 'u32', ('int', 2, 0): 'i32',
    ('int', 1, -1): 'i16', ('int', 0, -1): 'u16', ('int', 2, -1): 'i16',
    ('int', 1, 1): 'i64', ('int', 0, 1): 'u64', ('int', 2, 1): 'i64',
    ('int', 1, 2): 'i64', ('int', 0, 2): 'u64', ('int', 2, 2): 'i64',
    ('short', 1, 0): 'i16', ('short', 0, 0): 'u16',
    ('long', 1, 0): 'i64', ('long', 0, 0): 'u64',
    ('float', 1, 0): 'f', ('double', 1, 0): 'f',
    ('bint', 1, 0): 'bint',
}
NAMED = {'Py_ssize_t': 'i64', 'size_t': 'u64', 'ssize_t': 'i64', 'Py_UCS4': 'ucs4', 'Py_UNICODE': 'ucs4',
         'Py_hash_t': 'i64', 'bint': 'bint',
         'uint8_t': 'u8', 'uint16_t': 'u16', 'uint32_t': 'u32', 'uint64_t': 'u64',
         'int8_t': 'i8', 'int16_t': 'i16', 'int32_t': 'i32', 'int64_t': 'i64'}
SIZE = {'i8': 1, 'u8': 1, 'i16': 2, 'u16': 2, 'i32': 4, 'u32': 4, 'i64': 8, 'u64': 8, 'f': 8, 'ucs4': 4, 'bint': 4}
INTS = ('i8', 'u8', 'i16', 'u16', 'i32', 'u32', 'i64', 'u64', 'ucs4', 'bint')


def parse(src, path):
    if SITE not in sys.path:
        sys.path.append(SITE)
    from Cython.Compiler.TreeFragment import parse_from_strings
    return parse_from_strings('m', src)


def promote(t):
    if t in ('i8', 'u8', 'i16', 'u16', 'bint'):
        return 'i32'
    if t == 'ucs4':
        return 'u32'
    return t


def common(a, b):
    if a == 'f' or b == 'f':
        return 'f'
    a, b = promote(a), promote(b)
    if a == b:
        return a
    ra, rb = SIZE[a], SIZE[b]
    if a[0] == b[0]:
        return a if ra > rb else b
    u, s = (a, b) if a[0] == 'u' else (b, a)
    if SIZE[u] >= SIZE[s]:
        return u
    return s


class Gen(object):
    def __init__(self, path):
        self.out = []
        self.ind = 0
        self.types = [{}]
        self.rettype = [None]
        self.cfuncs = {}
        self.path = path
        self.bc = [True]

    def w(self, s):
        self.out.append('    ' * self.ind + s)

    # -- types
    def base(self, b):
        k = type(b).__name__
        if k == 'CSimpleBaseTypeNode':
            if b.name is None:
                return 'obj'
            if b.name in NAMED and b.name != 'bint':
                return NAMED[b.name]
            if b.is_basic_c_type:
                t = CT.get((b.name, b.signed, b.longness))
                if t:
                    return t
                if b.name == 'void':
                    return 'void'
                raise PyxUnsupported('type %s' % b.name)
            if b.name in NAMED:
                return NAMED[b.name]
            if b.name in ('str', 'unicode'):
                return 'str'
            return 'obj'
        if k in ('CConstTypeNode', 'CConstOrVolatileTypeNode'):
            return self.base(b.base_type)
        return 'obj'

    def declr(self, d, t):
        """(name, type, default)"""
        k = type(d).__name__
        if k == 'CNameDeclaratorNode':
            return d.name, t, d.default
        if k == 'CPtrDeclaratorNode':
            return self.declr(d.base, ('ptr', t))
        if k == 'CArrayDeclaratorNode':
            n, tt, de = self.declr(d.base, t)
            return n, ('arr', tt, d.dimension), de
        raise PyxUnsupported('declarator %s' % k)

    def cast(self, code, frm, to):
        if to in ('obj', None, 'void'):
            if frm == 'ucs4':
                return '__cx_chr(%s)' % code
            if frm == 'bint':
                return '__cx_tobool(%s)' % code
            return code
        if to == 'str':
            if frm == 'ucs4':
                return '__cx_chr(%s)' % code
            return code
        if isinstance(to, tuple):
            if to[0] == 'ptr':
                return '__cx_ptr(%s, %r)' % (code, to[1] if isinstance(to[1], str) else 'ptr')
            return code
        if frm == to:
            return code
        if to == 'f':
            return '__cx_f(%s)' % code
        return '__cx_cast(%s, %r)' % (code, to)

    def lookup(self, name):
        for sc in reversed(self.types):
            if name in sc:
                return sc[name]
        return 'obj'

    # -- expressions: (code, type)
    def e(self, n):
        k = type(n).__name__
        f = getattr(self, 'e_' + k, None)
        if f is None:
            raise PyxUnsupported('expression %s' % k)
        return f(n)

    def eo(self, n):
        """as a Python object"""
        c, t = self.e(n)
        return self.cast(c, t, 'obj')

    def e_NameNode(self, n):
        return n.name, self.lookup(n.name)

    def e_IntNode(self, n):
        return n.value, 'lit'

    def e_FloatNode(self, n):
        return n.value, 'f'

    def e_BoolNode(self, n):
        return ('True' if n.value else 'False'), 'bint'

    def e_NoneNode(self, n):
        return 'None', 'obj'

    def e_NullNode(self, n):
        return 'None', ('ptr', 'void')

    def e_UnicodeNode(self, n):
        return repr(str(n.value)), 'str'

    e_StringNode = e_IdentifierStringNode = e_UnicodeNode

    def e_BytesNode(self, n):
        return repr(n.value), 'obj'

    def e_CharNode(self, n):
        return str(ord(n.value)), 'i8'

    def binop(self, op, a, ta, b, tb):
        num = INTS + ('f', 'lit')
        if ta in num and tb in num and not (ta == 'lit' and tb == 'lit'):
            t = self.ctype2(ta, tb)
            if t == 'f' or op == '/':
                return '(%s %s %s)' % (a, op, b), 'f'
            a, b = self.coerce(a, ta, t), self.coerce(b, tb, t)
            if op == '//' or op == '%':
                return '__cx_cast((%s %s %s), %r)' % (a, op, b, t), t
            if op == '**':
                return '__cx_cast((%s ** %s), %r)' % (a, b, t), t
            return '__cx_cast((%s %s %s), %r)' % (a, op, b, t), t
        if ta == 'lit' and tb == 'lit':
            return '(%s %s %s)' % (a, op, b), 'lit'
        return '(%s %s %s)' % (self.cast(a, ta, 'obj'), op, self.cast(b, tb, 'obj')), 'obj'

    def ctype2(self, ta, tb):
        if ta == 'lit':
            return promote(tb) if tb not in ('u8', 'i8', 'u16', 'i16') else 'i32'
        if tb == 'lit':
            return promote(ta)
        return common(ta, tb)

    def coerce(self, c, t, to):
        if t == 'lit':
            try:
                v = int(c, 0)
                if to[0] == 'u' and v < 0:
                    return '__cx_cast(%s, %r)' % (c, to)
                return c
            except ValueError:
                return '__cx_cast(%s, %r)' % (c, to)
        return self.cast(c, t, to)

    def _bin(self, n):
        a, ta = self.e(n.operand1)
        b, tb = self.e(n.operand2)
        return self.binop(n.operator, a, ta, b, tb)

    e_AddNode = e_SubNode = e_MulNode = e_DivNode = e_ModNode = e_PowNode = e_IntBinopNode = _bin
    e_BitwiseOrNode = _bin
    e_NumBinopNode = _bin

    def e_UnaryMinusNode(self, n):
        c, t = self.e(n.operand)
        if t in INTS:
            t = promote(t)
            return '__cx_cast(-%s, %r)' % (c, t), t
        return '(-%s)' % c, t

    def e_UnaryPlusNode(self, n):
        return self.e(n.operand)

    def e_TildeNode(self, n):
        c, t = self.e(n.operand)
        if t in INTS:
            t = promote(t)
            return '__cx_cast(~%s, %r)' % (c, t), t
        return '(~%s)' % c, t

    def e_NotNode(self, n):
        c, t = self.e(n.operand)
        return '(not %s)' % c, 'bint'

    def e_BoolBinopNode(self, n):
        a, ta = self.e(n.operand1)
        b, tb = self.e(n.operand2)
        t = ta if ta == tb else 'obj'
        if ta in INTS and tb in INTS and ta != tb:
            t = common(ta, tb)
        return '(%s %s %s)' % (a, n.operator, b), t

    def cmp1(self, op, a, ta, b, tb):
        op = {'not_in': 'not in', 'is_not': 'is not', '<>': '!='}.get(op, op)
        num = INTS + ('f', 'lit')
        if op in ('in', 'not in'):
            return '(%s %s %s)' % (self.cast(a, ta, 'obj'), op, self.cast(b, tb, 'obj'))
        if 'ucs4' in (ta, tb) and ('str' in (ta, tb) or 'obj' in (ta, tb)):
            x = a if ta == 'ucs4' else '__cx_ord(%s)' % a
            y = b if tb == 'ucs4' else '__cx_ord(%s)' % b
            return '(%s %s %s)' % (x, op, y)
        if ta in num and tb in num and op not in ('is', 'is not'):
            if not (ta == 'lit' and tb == 'lit'):
                t = self.ctype2(ta, tb)
                if t != 'f':
                    a, b = self.coerce(a, ta, t), self.coerce(b, tb, t)
            return '(%s %s %s)' % (a, op, b)
        return '(%s %s %s)' % (self.cast(a, ta, 'obj'), op, self.cast(b, tb, 'obj'))

    def e_PrimaryCmpNode(self, n):
        a, ta = self.e(n.operand1)
        parts = []
        cur = n
        op = n.operator
        while True:
            b, tb = self.e(cur.operand2)
            parts.append(self.cmp1(op, a, ta, b, tb))
            if getattr(cur, 'cascade', None) is None:
                break
            cur = cur.cascade
            op = cur.operator
            a, ta = b, tb
        if len(parts) == 1:
            return parts[0], 'bint'
        return '(%s)' % ' and '.join(parts), 'bint'

    def e_CondExprNode(self, n):
        c, _ = self.e(n.test if hasattr(n, 'test') else n.condition)
        a, ta = self.e(n.true_val)
        b, tb = self.e(n.false_val)
        if ta == tb:
            t = ta
        elif ta in INTS + ('lit',) and tb in INTS + ('lit',):
            t = self.ctype2(ta, tb)
            a, b = self.coerce(a, ta, t), self.coerce(b, tb, t)
        else:
            a, b, t = self.cast(a, ta, 'obj'), self.cast(b, tb, 'obj'), 'obj'
        return '(%s if %s else %s)' % (a, c, b), t

    def e_IndexNode(self, n):
        b, tb = self.e(n.base)
        i, ti = self.e(n.index)
        if isinstance(tb, tuple):
            return '%s[%s]' % (b, i), (tb[1] if tb[0] in ('ptr', 'arr') else 'obj')
        if tb == 'str' and (ti in INTS or ti == 'lit'):
            return '__cx_stridx(%s, %s, %r)' % (b, i, self.bc[-1]), 'str'
        return '%s[%s]' % (b, self.cast(i, ti, 'obj')), 'obj'

    def e_SliceIndexNode(self, n):
        b, tb = self.e(n.base)
        s = self.e(n.start)[0] if n.start is not None else ''
        t = self.e(n.stop)[0] if n.stop is not None else ''
        return '%s[%s:%s]' % (b, s, t), ('str' if tb == 'str' else 'obj')

    def e_SliceNode(self, n):
        p = []
        for x in (n.start, n.stop, n.step):
            p.append('None' if type(x).__name__ == 'NoneNode' else self.e(x)[0])
        return 'slice(%s)' % ', '.join(p), 'obj'

    def e_SimpleCallNode(self, n):
        return self.callx(n.function, n.args, [])

    def e_GeneralCallNode(self, n):
        pos = n.positional_args
        if type(pos).__name__ != 'TupleNode':
            raise PyxUnsupported('star call')
        kws = []
        if n.keyword_args is not None:
            for it in n.keyword_args.key_value_pairs:
                kws.append((str(it.key.value), it.value))
        return self.callx(n.function, pos.args, kws)

    def callx(self, fn, args, kws):
        if type(fn).__name__ == 'NameNode':
            nm = fn.name
            if nm in ('malloc', 'PyMem_Malloc', 'PyMem_RawMalloc'):
                return '__cx_malloc(%s)' % self.e(args[0])[0], ('ptr', 'void')
            if nm in ('calloc', 'PyMem_Calloc'):
                a, b = self.e(args[0])[0], self.e(args[1])[0]
                return '__cx_calloc(%s, %s)' % (a, b), ('ptr', 'void')
            if nm in ('realloc', 'PyMem_Realloc'):
                return '__cx_realloc(%s, %s)' % (self.e(args[0])[0], self.e(args[1])[0]), ('ptr', 'void')
            if nm in ('free', 'PyMem_Free', 'PyMem_RawFree'):
                return '__cx_free(%s)' % self.e(args[0])[0], 'void'
            if nm in self.cfuncs:
                at, rt = self.cfuncs[nm]
                parts = []
                for t, a in zip(at, args):
                    c, ct = self.e(a)
                    parts.append(self.cast(c, ct, t) if not isinstance(t, tuple) else c)
                return '%s(%s)' % (nm, ', '.join(parts)), rt
            if nm == 'len' and len(args) == 1:
                return 'len(%s)' % self.eo(args[0]), 'i64'
            if nm == 'ord' and len(args) == 1:
                c, t = self.e(args[0])
                if t == 'ucs4':
                    return c, 'u32'
                return '__cx_ord(%s)' % c, 'i64'
            if nm in ('min', 'max') and len(args) >= 2 and not kws:
                c, t = self.e(args[0])
                for a in args[1:]:
                    b, tb = self.e(a)
                    tt = self.ctype2(t, tb) if (t in INTS + ('lit',) and tb in INTS + ('lit',) and not t == tb == 'lit') else ('lit' if t == tb == 'lit' else 'obj')
                    c = '%s(%s, %s)' % (nm, c, b)
                    t = tt
                return c, t
            if nm == 'abs' and len(args) == 1:
                c, t = self.e(args[0])
                return 'abs(%s)' % c, t
        f = self.eo(fn)
        parts = [self.eo(a) for a in args] + ['%s=%s' % (k, self.eo(v)) for k, v in kws]
        return '%s(%s)' % (f, ', '.join(parts)), 'obj'

    def e_AttributeNode(self, n):
        return '%s.%s' % (self.eo(n.obj), n.attribute), 'obj'

    def e_TupleNode(self, n):
        return '(%s,)' % ', '.join(self.eo(a) for a in n.args) if n.args else '()', 'obj'

    def e_ListNode(self, n):
        return '[%s]' % ', '.join(self.eo(a) for a in n.args), 'obj'

    def e_SetNode(self, n):
        return '{%s}' % ', '.join(self.eo(a) for a in n.args), 'obj'

    def e_DictNode(self, n):
        return '{%s}' % ', '.join('%s: %s' % (self.eo(i.key), self.eo(i.value)) for i in n.key_value_pairs), 'obj'

    def e_TypecastNode(self, n):
        t = self.base(n.base_type)
        _, t, _ = self.declr_anon(n.declarator, t)
        c, ct = self.e(n.operand)
        return self.cast(c, ct, t), t

    def declr_anon(self, d, t):
        k = type(d).__name__
        if k == 'CPtrDeclaratorNode':
            return self.declr_anon(d.base, ('ptr', t))
        if k == 'CNameDeclaratorNode':
            return None, t, None
        raise PyxUnsupported('cast declarator %s' % k)

    def e_SizeofTypeNode(self, n):
        t = self.base(n.base_type)
        _, t, _ = self.declr_anon(n.declarator, t)
        return str(8 if isinstance(t, tuple) else SIZE.get(t, 8)), 'u64'

    def e_SizeofVarNode(self, n):
        c, t = self.e(n.operand)
        if t == 'obj' and type(n.operand).__name__ == 'NameNode' and n.operand.name in NAMED:
            t = NAMED[n.operand.name]
        return str(8 if isinstance(t, tuple) else SIZE.get(t, 8)), 'u64'

    def e_LambdaNode(self, n):
        args = [a.declarator.name for a in n.args]
        return '(lambda %s: %s)' % (', '.join(args), self.eo(n.result_expr)), 'obj'

    # -- statements
    def s(self, n):
        k = type(n).__name__
        f = getattr(self, 's_' + k, None)
        if f is None:
            raise PyxUnsupported('statement %s' % k)
        f(n)

    def body(self, n):
        self.ind += 1
        before = len(self.out)
        if n is not None:
            self.s(n)
        if len(self.out) == before:
            self.w('pass')
        self.ind -= 1

    def s_StatListNode(self, n):
        for x in n.stats:
            self.s(x)

    def s_PassStatNode(self, n):
        self.w('pass')

    def s_BreakStatNode(self, n):
        self.w('break')

    def s_ContinueStatNode(self, n):
        self.w('continue')

    def s_CImportStatNode(self, n):
        pass

    s_FromCImportStatNode = s_CImportStatNode

    def s_FromImportStatNode(self, n):
        m = n.module
        for name_, target in n.items:
            self.w('from %s%s import %s as %s' % ('.' * max(0, m.level or 0), m.module_name.value, name_, target.name))

    def s_ExprStatNode(self, n):
        self.w(self.e(n.expr)[0])

    def s_ReturnStatNode(self, n):
        if n.value is None:
            self.w('return')
            return
        c, t = self.e(n.value)
        rt = self.rettype[-1]
        self.w('return ' + self.cast(c, t, rt if rt is not None else 'obj'))

    def s_RaiseStatNode(self, n):
        self.w('raise ' + (self.eo(n.exc_type) if n.exc_type is not None else ''))

    def s_AssertStatNode(self, n):
        self.w('assert ' + self.e(n.condition)[0])

    def s_DelStatNode(self, n):
        for a in n.args:
            self.w('del ' + self.e(a)[0])

    def assign(self, lhs, code, t):
        k = type(lhs).__name__
        if k == 'NameNode':
            lt = self.lookup(lhs.name)
            self.w('%s = %s' % (lhs.name, self.assigncast(code, t, lt)))
        elif k == 'IndexNode':
            b, tb = self.e(lhs.base)
            i, ti = self.e(lhs.index)
            el = tb[1] if isinstance(tb, tuple) else 'obj'
            self.w('%s[%s] = %s' % (b, i, self.assigncast(code, t, el)))
        elif k == 'AttributeNode':
            self.w('%s.%s = %s' % (self.eo(lhs.obj), lhs.attribute, self.cast(code, t, 'obj')))
        elif k in ('TupleNode', 'ListNode'):
            names = []
            for j, a in enumerate(lhs.args):
                names.append('__cx_t%d' % j)
            self.w('(%s,) = %s' % (', '.join(names), code))
            for nm, a in zip(names, lhs.args):
                self.assign(a, nm, 'any')
        else:
            raise PyxUnsupported('target %s' % k)

    def assigncast(self, code, t, lt):
        if t == 'any':
            if lt in INTS:
                return '__cx_cast(%s, %r)' % (code, lt)
            return code
        if lt in INTS:
            if t == 'lit':
                return self.coerce_lit(code, lt)
            if t == lt:
                return code
            if t in ('obj', 'str'):
                return '__cx_fromobj(%s, %r)' % (code, lt)
        return self.cast(code, t, lt)

    def coerce_lit(self, code, lt):
        return '__cx_cast(%s, %r)' % (code, lt)

    def s_SingleAssignmentNode(self, n):
        rk = type(n.rhs).__name__
        if rk == 'ImportNode':
            self.w('import %s as %s' % (n.rhs.module_name.value, n.lhs.name)
                   if n.rhs.module_name.value != n.lhs.name else 'import %s' % n.lhs.name)
            return
        if type(n.lhs).__name__ in ('TupleNode', 'ListNode') and rk in ('TupleNode', 'ListNode') and \
                len(n.lhs.args) == len(n.rhs.args):
            vals = [self.e(a) for a in n.rhs.args]
            names = ['__cx_t%d' % j for j in range(len(vals))]
            self.w('%s = %s' % (', '.join(names), ', '.join(v[0] for v in vals)))
            for nm, a, v in zip(names, n.lhs.args, vals):
                self.assign(a, nm, v[1] if v[1] != 'lit' else 'any')
            return
        c, t = self.e(n.rhs)
        self.assign(n.lhs, c, t)

    def s_CascadedAssignmentNode(self, n):
        c, t = self.e(n.rhs)
        self.w('__cx_c = ' + c)
        for l in n.lhs_list:
            self.assign(l, '__cx_c', t if t != 'lit' else 'any')

    def s_InPlaceAssignmentNode(self, n):
        a, ta = self.e(n.lhs)
        b, tb = self.e(n.rhs)
        c, t = self.binop(n.operator, a, ta, b, tb)
        self.assign(n.lhs, c, t)

    def s_IfStatNode(self, n):
        kw = 'if'
        for cl in n.if_clauses:
            self.w('%s %s:' % (kw, self.e(cl.condition)[0]))
            self.body(cl.body)
            kw = 'elif'
        if n.else_clause is not None:
            self.w('else:')
            self.body(n.else_clause)

    def s_WhileStatNode(self, n):
        self.w('while %s:' % self.e(n.condition)[0])
        self.body(n.body)
        if n.else_clause is not None:
            self.w('else:')
            self.body(n.else_clause)

    def s_ForInStatNode(self, n):
        seq = n.iterator.sequence if hasattr(n.iterator, 'sequence') else n.iterator
        c = self.eo(seq)
        if type(n.target).__name__ == 'NameNode':
            lt = self.lookup(n.target.name)
            self.w('for %s in %s:' % (n.target.name, c))
            if lt in INTS:
                self.ind += 1
                self.w('%s = __cx_fromobj(%s, %r)' % (n.target.name, n.target.name, lt))
                self.ind -= 1
        else:
            self.w('for __cx_it in %s:' % c)
            self.ind += 1
            self.assign(n.target, '__cx_it', 'any')
            self.ind -= 1
        self.body(n.body)
        if n.else_clause is not None:
            self.w('else:')
            self.body(n.else_clause)

    def s_ForFromStatNode(self, n):
        raise PyxUnsupported('for-from')

    def s_TryFinallyStatNode(self, n):
        self.w('try:')
        self.body(n.body)
        self.w('finally:')
        self.body(n.finally_clause)

    def s_TryExceptStatNode(self, n):
        self.w('try:')
        self.body(n.body)
        for cl in n.except_clauses:
            pat = cl.pattern
            if pat:
                p = ', '.join(self.eo(x) for x in pat) if isinstance(pat, list) else self.eo(pat)
                self.w('except (%s)%s:' % (p, (' as ' + cl.target.name) if cl.target is not None else ''))
            else:
                self.w('except Exception:')
            self.body(cl.body)
        if n.else_clause is not None:
            self.w('else:')
            self.body(n.else_clause)

    def s_GILStatNode(self, n):
        self.s(n.body)

    def s_CVarDefNode(self, n):
        t = self.base(n.base_type)
        for d in n.declarators:
            name, tt, default = self.declr(d, t)
            self.types[-1][name] = tt
            if isinstance(tt, tuple) and tt[0] == 'arr':
                dim = self.e(tt[2])[0]
                self.w('%s = __cx_array(%s, %r)' % (name, dim, tt[1]))
                continue
            if default is not None:
                c, ct = self.e(default)
                self.w('%s = %s' % (name, self.assigncast(c, ct, tt)))

    def s_CompilerDirectivesNode(self, n):
        self.s(n.body)

    def s_CEnumDefNode(self, n):
        for i, it in enumerate(n.items):
            self.w('%s = %s' % (it.name, self.e(it.value)[0] if it.value is not None else i))
            self.types[0][it.name] = 'i32'

    def collect(self, n, sc):
        """declarations anywhere in the body"""
        if n is None:
            return
        if type(n).__name__ == 'CVarDefNode':
            t = self.base(n.base_type)
            for d in n.declarators:
                name, tt, _ = self.declr(d, t)
                sc[name] = tt
        for a in n.child_attrs or ():
            c = getattr(n, a, None)
            if isinstance(c, list):
                for x in c:
                    if hasattr(x, 'child_attrs'):
                        self.collect(x, sc)
            elif hasattr(c, 'child_attrs'):
                self.collect(c, sc)

    def directives(self, decorators):
        bc = self.bc[-1]
        for d in decorators or ():
            x = d.decorator
            if type(x).__name__ == 'SimpleCallNode':
                f = x.function
                nm = f.attribute if type(f).__name__ == 'AttributeNode' else getattr(f, 'name', '')
                if nm == 'boundscheck':
                    bc = not (type(x.args[0]).__name__ == 'BoolNode' and not x.args[0].value)
        return bc

    def s_DefNode(self, n):
        self.func(n.name, n.args, n.body, None, n.decorators, n)

    def func(self, fname, args, bodyn, rett, decorators, n):
        sc = {}
        parts = []
        conv = []
        for a in args:
            t = self.base(a.base_type)
            nm, t, dflt = self.declr(a.declarator, t)
            if nm == '' or nm is None:
                # untyped argument: the base type holds its name
                nm, t = a.base_type.name, 'obj'
            sc[nm] = t
            default = a.default if getattr(a, 'default', None) is not None else dflt
            parts.append(nm + ('=' + self.eo(default) if default is not None else ''))
            if t in INTS and rett is None:
                conv.append('%s = __cx_arg(%s, %r)' % (nm, nm, t))
            elif t == 'str' and rett is None:
                conv.append('__cx_argstr(%s, %r)' % (nm, nm))
        if getattr(n, 'star_arg', None) is not None:
            parts.append('*' + n.star_arg.name)
        if getattr(n, 'starstar_arg', None) is not None:
            parts.append('**' + n.starstar_arg.name)
        self.collect(bodyn, sc)
        self.types.append(sc)
        self.rettype.append(rett)
        self.bc.append(self.directives(decorators))
        self.w('def %s(%s):' % (fname, ', '.join(parts)))
        self.ind += 1
        for c in conv:
            self.w(c)
        self.w('pass')
        self.ind -= 1
        self.body(bodyn)
        self.w('')
        self.bc.pop()
        self.rettype.pop()
        self.types.pop()

    def cfunc_sig(self, n):
        t = self.base(n.base_type)
        d = n.declarator
        while type(d).__name__ == 'CPtrDeclaratorNode':
            t = ('ptr', t)
            d = d.base
        ats = []
        for a in d.args:
            bt = self.base(a.base_type)
            nm, tt, _ = self.declr(a.declarator, bt)
            if not nm:
                tt = 'obj'
            ats.append(tt)
        return d.base.name, ats, t, d

    def s_CFuncDefNode(self, n):
        name, ats, t, d = self.cfunc_sig(n)
        self.func(name, d.args, n.body, t, n.decorators, d)


def to_python(src, path):
    tree = parse(src, path)
    g = Gen(path)
    # signatures of cdef functions first
    def walk(n):
        if type(n).__name__ == 'CFuncDefNode':
            name, ats, t, d = g.cfunc_sig(n)
            g.cfuncs[name] = (ats, t)
        for a in n.child_attrs or ():
            c = getattr(n, a, None)
            for x in (c if isinstance(c, list) else [c]):
                if hasattr(x, 'child_attrs'):
                    walk(x)
    walk(tree)
    for line in src.split('\n'):
        pass
    if 'boundscheck=False' in src.replace(' ', '').split('\n\n')[0]:
        g.bc = [False]
    g.s(tree.body)
    return '\n'.join(g.out) + '\n'


# --------------------------------------------------------------------------
# C run-time
# --------------------------------------------------------------------------
class MemoryFault(Exception):
    pass


def namespace():
    from . import engine
    from .values import SymInt, SymStr, mkint, ival, SymBool, isstr, Ch, UNICODE, SymReal, chars_of
    import z3
    R = {'i8': (8, True), 'u8': (8, False), 'i16': (16, True), 'u16': (16, False), 'i32': (32, True),
         'u32': (32, False), 'i64': (64, True), 'u64': (64, False), 'ucs4': (32, False)}

    def rng(x):
        return getattr(x, 'rng', None)

    def cast(x, t):
        if t == 'bint':
            return x if isinstance(x, (SymBool, bool)) else x != 0
        if isinstance(x, SymBool):
            x = int(x)
        if isinstance(x, float):
            x = int(x)
        if isinstance(x, SymReal):
            from .values import real_trunc
            x = real_trunc(x)
        if isstr(x):
            x = cx_ord(x)
        bits, signed = R[t]
        if isinstance(x, int):
            x &= (1 << bits) - 1
            if signed and x >> (bits - 1):
                x -= 1 << bits
            return x
        lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)
        r = getattr(x, 'rng', None)
        if r is not None and lo <= r[0] and r[1] <= hi:
            return x
        if r is None and bool(x >= lo) and bool(x <= hi):
            return x
        e = x.e % ival(1 << bits)
        if signed:
            e = z3.If(e >= ival(1 << (bits - 1)), e - ival(1 << bits), e)
        r = RInt(e)
        r.rng = (lo, hi)
        return r

    class RInt(SymInt):
        __slots__ = ('rng',)

    def cx_ord(x):
        if isinstance(x, SymStr):
            if len(x) != 1:
                raise TypeError('ord() expected a character')
            c = x.c[0]
            r = RInt(c.e)
            r.rng = (c.dom.r[0][0], c.dom.r[-1][1])
            return r
        if isinstance(x, (int, SymInt)):
            return x
        return ord(x)

    def cx_chr(x):
        if isinstance(x, SymInt):
            return SymStr((Ch(x.e, UNICODE),))
        return chr(x)

    def fromobj(x, t):
        if t == 'ucs4' and isstr(x):
            return cx_ord(x)
        if isinstance(x, (int, SymInt)):
            bits, signed = R.get(t, (32, True))
            lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)
            if t != 'bint':
                if bool(x < lo) or bool(x > hi):
                    raise OverflowError('value too large to convert to C integer')
            return x
        if isinstance(x, (bool, SymBool)):
            return int(x)
        raise TypeError('an integer is required')

    def arg(x, t):
        return fromobj(x, t)

    def argstr(x, n):
        if x is not None and not isstr(x):
            raise TypeError("Argument '%s' has incorrect type" % n)

    def stridx(s, i, boundscheck):
        if isinstance(i, SymInt):
            i = int(i)
        n = len(s)
        if i < -n or i >= n or (i < 0 and not boundscheck and False):
            if boundscheck:
                raise IndexError('string index out of range')
            raise MemoryFault('string index %d out of range (length %d) with bounds checking off' % (i, n))
        return s[i]

    class Mem(object):
        def __init__(self, n, zero=False):
            self.n = n
            self.zero = zero
            self.cells = {}
            self.freed = False
            self.item = None

        def typed(self, t):
            if t == 'void':
                return self
            if self.item is None:
                self.item = t
            return self

        def _at(self, i):
            if self.freed:
                raise MemoryFault('use after free')
            i = int(i)
            sz = SIZE.get(self.item, 8)
            if i < 0 or (i + 1) * sz > self.n:
                raise MemoryFault('heap index %d out of bounds (%d bytes, item of %d)' % (i, self.n, sz))
            return i

        def __getitem__(self, i):
            i = self._at(i)
            if i not in self.cells:
                if self.zero:
                    return 0
                raise MemoryFault('read of uninitialised heap memory at index %d' % i)
            return self.cells[i]

        def __setitem__(self, i, v):
            self.cells[self._at(i)] = v

        def __bool__(self):
            return True

    def table():
        en = engine.ACTIVE
        return en.tables.setdefault('heap', []) if en is not None else []

    def malloc(n, zero=False):
        m = Mem(int(n), zero)
        table().append(m)
        return m

    def calloc(a, b):
        return malloc(int(a) * int(b), True)

    def realloc(p, n):
        m = malloc(n)
        if p is not None:
            m.cells = dict(p.cells)
            m.item = p.item
            p.freed = True
        return m

    def free(p):
        if p is None:
            return
        if not isinstance(p, Mem):
            raise MemoryFault('free of a non heap pointer')
        if p.freed:
            raise MemoryFault('double free')
        p.freed = True

    def ptr(x, t):
        if isinstance(x, Mem):
            return x.typed(t)
        return x

    def array(n, t):
        m = Mem(int(n) * SIZE.get(t, 8))
        m.item = t
        return m

    def tobool(x):
        return x if isinstance(x, (bool, SymBool)) else bool(x)

    return {'__cx_cast': cast, '__cx_ord': cx_ord, '__cx_chr': cx_chr, '__cx_fromobj': fromobj,
            '__cx_arg': arg, '__cx_argstr': argstr, '__cx_stridx': stridx, '__cx_malloc': malloc,
            '__cx_calloc': calloc, '__cx_realloc': realloc, '__cx_free': free, '__cx_ptr': ptr,
            '__cx_array': array, '__cx_tobool': tobool, '__cx_f': lambda x: x * 1.0,
            'Py_ssize_t': int, 'size_t': int}
