"""Symbolic matcher for the standard `re` syntax.

Interprets the parse tree of `re._parser` with ordered backtracking; each test
of a symbolic character is a decision of the engine, so the outcome equals the
one of `re` for every string on the path.  (Differentially validated against
`re` by the sampled traces.)"""
import re
from re import _parser as sp, _constants as sc
from .values import (Ch, SymStr, isstr, chars_of, mkstr, mkbool, ch_test, ch_in,
                     ch_eq, in_ranges, pred_ranges, Unsupported, z_and, z_or, z_not, ch_map)

_trees = {}


class Rx(object):
    def __init__(self, pat):
        self.pat = pat
        self.flags = pat.flags
        self.tree = sp.parse(pat.pattern, pat.flags & ~re.DEBUG)
        self.groups = pat.groups
        self.first = first_set(list(self.tree), self.flags)


def compiled(pat):
    k = (pat.pattern, pat.flags)
    r = _trees.get(k)
    if r is None:
        r = _trees[k] = Rx(pat)
    return r


def _cat(cat, flags):
    asc = flags & re.ASCII
    if cat in (sc.CATEGORY_DIGIT, sc.CATEGORY_NOT_DIGIT):
        def f(c):
            return chr(c).isdecimal() and (not asc or c < 128)
    elif cat in (sc.CATEGORY_SPACE, sc.CATEGORY_NOT_SPACE):
        def f(c):
            return chr(c).isspace() and (not asc or c < 128)
    elif cat in (sc.CATEGORY_WORD, sc.CATEGORY_NOT_WORD):
        def f(c):
            return (chr(c).isalnum() or c == 95) and (not asc or c < 128)
    else:
        raise Unsupported('regex category %s' % cat)
    if 'NOT' in str(cat):
        return lambda c: not f(c)
    return f


def _folds(c, flags):
    """case variants of code point c"""
    ch = chr(c)
    out = {c}
    for v in (ch.lower(), ch.upper(), ch.title()):
        if len(v) == 1:
            out.add(ord(v))
            for w in (v.lower(), v.upper()):
                if len(w) == 1:
                    out.add(ord(w))
    return out


def set_pred(items, flags):
    tests = []
    neg = False
    for op, av in items:
        if op is sc.NEGATE:
            neg = True
        elif op is sc.LITERAL:
            tests.append(lambda c, av=av: c == av)
        elif op is sc.RANGE:
            tests.append(lambda c, av=av: av[0] <= c <= av[1])
        elif op is sc.CATEGORY:
            tests.append(_cat(av, flags))
        else:
            raise Unsupported('regex set %s' % op)

    def base(c):
        for t in tests:
            if t(c):
                return True
        return False
    if flags & re.IGNORECASE:
        def p(c):
            return any(base(d) for d in _folds(c, flags)) != neg
    else:
        def p(c):
            return base(c) != neg
    return p


def _key(op, av, flags):
    return ('rx', str(op), str(av), flags & (re.IGNORECASE | re.ASCII | re.DOTALL))


_preds = {}


def node_pred(op, av, flags):
    k = _key(op, av, flags)
    r = _preds.get(k)
    if r is None:
        if op is sc.LITERAL or op is sc.NOT_LITERAL:
            vs = _folds(av, flags) if flags & re.IGNORECASE else {av}
            if op is sc.LITERAL:
                p = vs.__contains__
            else:
                p = lambda c: c not in vs
        elif op is sc.ANY:
            p = (lambda c: True) if flags & re.DOTALL else (lambda c: c != 10)
        elif op is sc.IN:
            p = set_pred(av, flags)
        else:
            raise Unsupported('regex op %s' % op)
        r = _preds[k] = (p, k)
    return r


def first_set(items, flags):
    """Predicate keys of the possible first characters, or None if the
    pattern may match the empty string / is unknown."""
    out = []
    for op, av in items:
        if op in (sc.LITERAL, sc.NOT_LITERAL, sc.ANY, sc.IN):
            out.append(node_pred(op, av, flags))
            return out
        if op is sc.SUBPATTERN:
            f = first_set(list(av[3]), (flags | av[1]) & ~av[2])
            if f is None:
                return None
            return out + f
        if op is sc.BRANCH:
            for b in av[1]:
                f = first_set(list(b), flags)
                if f is None:
                    return None
                out += f
            return out
        if op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
            lo, hi, sub = av
            f = first_set(list(sub), flags)
            if f is None:
                return None
            out += f
            if lo > 0:
                return out
            continue
        if op in (sc.AT, sc.ASSERT, sc.ASSERT_NOT):
            continue
        return None
    return None


class M(object):
    """One matching attempt over a character tuple."""

    def __init__(self, rx, chars):
        self.rx = rx
        self.s = chars
        self.n = len(chars)

    def test(self, i, op, av, flags):
        p, k = node_pred(op, av, flags)
        return bool(mkbool(ch_test(self.s[i], p, k)))

    def isword(self, i):
        p = _cat(sc.CATEGORY_WORD, self.rx.flags)
        return bool(mkbool(ch_test(self.s[i], p, ('rxword', self.rx.flags & re.ASCII))))

    def run(self, items, idx, pos, groups, flags, k):
        """Match items[idx:] at pos then continuation k(pos, groups)."""
        s, n = self.s, self.n
        while idx < len(items):
            op, av = items[idx]
            if op in (sc.LITERAL, sc.NOT_LITERAL, sc.ANY, sc.IN):
                if pos >= n or not self.test(pos, op, av, flags):
                    return None
                pos += 1
                idx += 1
                continue
            if op is sc.AT:
                if not self.at(av, pos, flags):
                    return None
                idx += 1
                continue
            rest = lambda p, g, idx=idx: self.run(items, idx + 1, p, g, flags, k)
            if op is sc.SUBPATTERN:
                gid, add, dele, sub = av
                fl = (flags | add) & ~dele

                def after(p, g, gid=gid, start=pos):
                    if gid is not None:
                        g = dict(g)
                        g[gid] = (start, p)
                        g['last'] = gid
                    return rest(p, g)
                return self.run(list(sub), 0, pos, groups, fl, after)
            if op is sc.BRANCH:
                for b in av[1]:
                    r = self.run(list(b), 0, pos, groups, flags, rest)
                    if r is not None:
                        return r
                return None
            if op is sc.MAX_REPEAT or op is sc.MIN_REPEAT:
                lo, hi, sub = av
                return self.repeat(list(sub), lo, hi, op is sc.MAX_REPEAT, 0, pos, groups, flags, rest)
            if op is sc.ASSERT or op is sc.ASSERT_NOT:
                direction, sub = av
                sub = list(sub)
                found = None
                if direction > 0:
                    found = self.run(sub, 0, pos, groups, flags, lambda p, g: (p, g))
                else:
                    w = sp.SubPattern(self.rx.tree.state, sub).getwidth()
                    if w[0] != w[1]:
                        raise Unsupported('variable lookbehind')
                    if pos - w[0] >= 0:
                        found = self.run(sub, 0, pos - w[0], groups, flags,
                                         lambda p, g: (p, g) if p == pos else None)
                if (found is not None) != (op is sc.ASSERT):
                    return None
                if found is not None and op is sc.ASSERT:
                    groups = found[1]
                idx += 1
                continue
            if op is sc.GROUPREF:
                if av not in groups:
                    return None
                a, b = groups[av]
                L = b - a
                if pos + L > n:
                    return None
                for t in range(L):
                    if not bool(mkbool(ch_eq(s[a + t], s[pos + t]))):
                        return None
                pos += L
                idx += 1
                continue
            raise Unsupported('regex op %s' % op)
        return k(pos, groups)

    def repeat(self, sub, lo, hi, greedy, count, pos, groups, flags, rest):
        if len(sub) == 1 and sub[0][0] in (sc.LITERAL, sc.NOT_LITERAL, sc.ANY, sc.IN):
            op, av = sub[0]
            if greedy:
                p = pos
                c = 0
                while c < hi and p < self.n and self.test(p, op, av, flags):
                    p += 1
                    c += 1
                while c >= lo:
                    r = rest(p, groups)
                    if r is not None:
                        return r
                    c -= 1
                    p -= 1
                return None
        def again(p, g):
            if p == pos and count >= lo:
                return None
            return self.repeat(sub, lo, hi, greedy, count + 1, p, g, flags, rest)
        if count < lo:
            return self.run(sub, 0, pos, groups, flags, again)
        if greedy:
            if count < hi:
                r = self.run(sub, 0, pos, groups, flags, again)
                if r is not None:
                    return r
            return rest(pos, groups)
        r = rest(pos, groups)
        if r is not None:
            return r
        if count < hi:
            return self.run(sub, 0, pos, groups, flags, again)
        return None

    def at(self, av, pos, flags):
        n = self.n
        if av is sc.AT_BEGINNING_STRING or (av is sc.AT_BEGINNING and not flags & re.MULTILINE):
            return pos == 0
        if av is sc.AT_BEGINNING:
            return pos == 0 or bool(mkbool(ch_eq(self.s[pos - 1], 10)))
        if av is sc.AT_END_STRING:
            return pos == n
        if av is sc.AT_END:
            if pos == n:
                return True
            if flags & re.MULTILINE:
                return bool(mkbool(ch_eq(self.s[pos], 10)))
            return pos == n - 1 and bool(mkbool(ch_eq(self.s[pos], 10)))
        if av in (sc.AT_BOUNDARY, sc.AT_NON_BOUNDARY):
            a = pos > 0 and self.isword(pos - 1)
            b = pos < n and self.isword(pos)
            return (a != b) == (av is sc.AT_BOUNDARY)
        raise Unsupported('regex at %s' % av)


class SymMatch(object):
    def __init__(self, pat, string, start, end, groups):
        self.re = pat
        self.string = string
        self._g = dict(groups)
        self._g[0] = (start, end)
        self.pos = 0
        self.endpos = len(string)
        self.lastindex = groups.get('last')

    def _idx(self, g):
        if isinstance(g, str):
            return self.re.groupindex[g]
        return g

    def _one(self, g):
        sp_ = self._g.get(self._idx(g))
        return None if sp_ is None else self.string[sp_[0]:sp_[1]]

    def group(self, *gs):
        if not gs:
            return self._one(0)
        if len(gs) == 1:
            return self._one(gs[0])
        return tuple(self._one(g) for g in gs)

    __getitem__ = _one

    def groups(self, default=None):
        return tuple(default if i not in self._g else self._one(i) for i in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        return {n: (default if i not in self._g else self._one(i)) for n, i in self.re.groupindex.items()}

    def start(self, g=0):
        return self._g.get(self._idx(g), (-1, -1))[0]

    def end(self, g=0):
        return self._g.get(self._idx(g), (-1, -1))[1]

    def span(self, g=0):
        return self._g.get(self._idx(g), (-1, -1))

    def __bool__(self):
        return True

    def expand(self, template):
        return expand(self, template)

    def __repr__(self):
        return '<SymMatch %s>' % (self._g,)


def expand(m, template):
    if '\\' not in template:
        return template
    out = ''
    for part in _template(m.re, template):
        out = out + (part if isinstance(part, str) else (m.group(part) or ''))
    return out


def _template(pat, template):
    r = sp.parse_template(template, pat)
    # python 3.12: list alternating literals and group ids
    return [x for x in r if x != '']


def match_at(pat, string, pos, full=False, nonempty_from=None):
    rx = compiled(pat)
    chars = chars_of(string)
    if rx.first is not None:
        if pos >= len(chars):
            return None
        c = chars[pos]
        # quick rejection, one decision
        cond = z_or([ch_test(c, p, k) for p, k in rx.first]) if len(rx.first) <= 64 else _big_first(rx, c)
        if not bool(mkbool(cond)):
            return None
    m = M(rx, chars)

    def k(p, g):
        if full and p != len(chars):
            return None
        if nonempty_from is not None and p == nonempty_from:
            return None
        return (p, g)
    r = m.run(list(rx.tree), 0, pos, {}, rx.flags, k)
    if r is None:
        return None
    return SymMatch(pat, string, pos, r[0], r[1])


def _big_first(rx, c):
    preds = rx.first
    return ch_test(c, lambda x: any(p(x) for p, _ in preds), ('rxfirst', rx.pat.pattern, rx.flags))


def search(pat, string, pos=0, nonempty_at=None):
    for i in range(pos, len(string) + 1):
        m = match_at(pat, string, i, nonempty_from=(i if nonempty_at == i else None))
        if m is not None:
            return m
    return None


def finditer(pat, string, pos=0):
    n = len(string)
    last_end_empty = None
    while pos <= n:
        m = search(pat, string, pos, nonempty_at=last_end_empty)
        if m is None:
            return
        yield m
        pos = m.end()
        # after any match, an empty match adjacent at the same place is only
        # forbidden right after an empty match
        last_end_empty = pos if m.start() == m.end() else None


def findall(pat, string, pos=0):
    out = []
    for m in finditer(pat, string, pos):
        if pat.groups == 0:
            out.append(m.group())
        elif pat.groups == 1:
            out.append(m.group(1) or '')
        else:
            out.append(m.groups(''))
    return out


def _simple_class(pat):
    """(op, av) when the pattern is a single character test"""
    rx = compiled(pat)
    t = list(rx.tree)
    if len(t) == 1 and t[0][0] in (sc.LITERAL, sc.NOT_LITERAL, sc.ANY, sc.IN):
        return t[0]
    return None


def subn(pat, repl, string, count=0, call=None):
    single = _simple_class(pat)
    if single is not None and not count and isinstance(repl, str) and len(repl) == 1 and '\\' not in repl:
        p, k = node_pred(single[0], single[1], pat.flags)
        out = []
        for c in chars_of(string):
            out.extend(ch_map(c, lambda ch: repl if p(ord(ch)) else ch, ('rxsub', k, repl)))
        return mkstr(out), None
    out = ''
    last = 0
    n = 0
    for m in finditer(pat, string):
        if count and n >= count:
            break
        out = out + string[last:m.start()]
        if callable(repl):
            out = out + (call or (lambda f, *a: f(*a)))(repl, m)
        elif isinstance(repl, str):
            out = out + expand(m, repl)
        else:
            out = out + repl
        last = m.end()
        n += 1
    return out + string[last:], n


def split(pat, string, maxsplit=0):
    out = []
    last = 0
    n = 0
    for m in finditer(pat, string):
        if maxsplit and n >= maxsplit:
            break
        out.append(string[last:m.start()])
        out.extend(m.groups())
        last = m.end()
        n += 1
    out.append(string[last:])
    return out


def pattern_method(pat, name, args, kwargs, call):
    if name == 'sub':
        return subn(pat, *args, call=call, **kwargs)[0]
    if name == 'subn':
        return subn(pat, *args, call=call, **kwargs)
    if name == 'split':
        return split(pat, *args, **kwargs)
    if name == 'findall':
        return findall(pat, *args, **kwargs)
    if name == 'finditer':
        return finditer(pat, *args, **kwargs)
    if name == 'search':
        return search(pat, *args, **kwargs)
    if name == 'match':
        s = args[0]
        return match_at(pat, s, args[1] if len(args) > 1 else 0)
    if name == 'fullmatch':
        return match_at(pat, args[0], 0, full=True)
    raise Unsupported('Pattern.%s' % name)
