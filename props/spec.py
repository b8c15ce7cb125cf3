"""Reference definitions, usable on plain and on symbolic values."""


def lev(ctx, A, B):
    """Levenshtein distance, textbook recurrence (as a term)."""
    la, lb = len(A), len(B)
    row = list(range(lb + 1))
    for i in range(1, la + 1):
        new = [i]
        for j in range(1, lb + 1):
            same = ctx.eq(A[i - 1], B[j - 1])
            sub = ctx.min([row[j - 1], row[j] + 1, new[j - 1] + 1])
            if same is True:
                new.append(row[j - 1])
            elif same is False:
                new.append(ctx.min([row[j - 1] + 1, row[j] + 1, new[j - 1] + 1]))
            else:
                new.append(ctx.min([ctx.ite(same, row[j - 1], row[j - 1] + 1), row[j] + 1, new[j - 1] + 1]))
        row = new
    return row[lb]


def osa(ctx, A, B):
    """Restricted Damerau-Levenshtein (optimal string alignment)."""
    la, lb = len(A), len(B)
    d = [[0] * (lb + 1) for _ in range(la + 1)]
    for i in range(la + 1):
        d[i][0] = i
    for j in range(lb + 1):
        d[0][j] = j
    for i in range(1, la + 1):
        for j in range(1, lb + 1):
            same = ctx.eq(A[i - 1], B[j - 1])
            opts = [ctx.ite(same, d[i - 1][j - 1], d[i - 1][j - 1] + 1), d[i - 1][j] + 1, d[i][j - 1] + 1]
            r = ctx.min(opts)
            if i > 1 and j > 1:
                tr = ctx.all([ctx.eq(A[i - 1], B[j - 2]), ctx.eq(A[i - 2], B[j - 1])])
                r = ctx.min([r, ctx.ite(tr, d[i - 2][j - 2] + 1, r)])
            d[i][j] = r
    return d[la][lb]


def edit1(ctx, A, B, transpositions=False, but_inside_doubled=False):
    """lev(A, B) <= 1 (or OSA <= 1) from its definition: one substitution,
    one insertion, one deletion (or one swap) away. With
    `but_inside_doubled`, leaving out the pairs whose only edit is an insertion between two
    equal characters."""
    la, lb = len(A), len(B)
    if la > lb:
        A, B, la, lb = B, A, lb, la
    if lb - la > 1:
        return False
    E = [[None] * lb for _ in range(la)]

    def eq(i, j):
        if E[i][j] is None:
            E[i][j] = ctx.eq(A[i], B[j])
        return E[i][j]
    alts = []
    if la == lb:
        for skip in range(la) if la else ():
            alts.append(ctx.all([eq(i, i) for i in range(la) if i != skip]))
        if la == 0:
            return True
        if transpositions:
            for p in range(la - 1):
                alts.append(ctx.all([eq(i, i) for i in range(la) if i not in (p, p + 1)] + [eq(p, p + 1), eq(p + 1, p)]))
    else:
        for p in range(lb):
            alt = [eq(i, i if i < p else i + 1) for i in range(la)]
            if but_inside_doubled and 0 < p < la:
                alt.append(ctx.no(ctx.eq(A[p - 1], A[p])))
            alts.append(ctx.all(alt))
    return ctx.any(alts)


def sparse(ctx, name, pattern, dom=None):
    """A string given by a pattern, each ? of it standing for a free character, and {n:x} for
    n times the letter x."""
    import re
    pattern = re.sub(r'\{(\d+):(.)\}', lambda m: m.group(2) * int(m.group(1)), pattern)
    parts = pattern.split('?')
    s = parts[0]
    for i, p in enumerate(parts[1:]):
        c = ctx.string('%s%d' % (name, i), 1, dom) if dom else ctx.string('%s%d' % (name, i), 1)
        s = s + c + p
    return s


# long strings with a few free characters
LONGER = [('{300:a}?bc', '{300:a}cd?e'), ('a?c', '{300:b}d'), ('{300:b}d?', 'dc?'), ('a?', '{66000:b}')]
LONG = [('abcabc?bcabca', 'bcab?abcab?abc'),
        ('aaaa?aaaaa?aaaa', 'aaaaa?aaaaaaa'),
        ('{12:a}b{9:a}?', '?{11:a}b{10:a}'),
        ('abcabcabcab?abc', 'abbc?cabcabccab?'),
        ('x?cdefghijklmnop', 'bcdefghijklmno?'),
        ('ab{30:a}?ba', '?{31:a}bab')]


def lev_decided(ctx, A, B):
    """Levenshtein distance as a plain number, forking on the equalities still open."""
    memo = {}
    A, B = list(A), list(B)
    ka = [c if type(c) is str else ('A', i) for i, c in enumerate(A)]
    kb = [c if type(c) is str else ('B', i) for i, c in enumerate(B)]
    row = list(range(len(B) + 1))
    for i, a in enumerate(A):
        new = [i + 1]
        for j, b in enumerate(B):
            k = ka[i], kb[j]
            if k not in memo:
                memo[k] = True if a == b else False
            x = row[j] if memo[k] else row[j] + 1
            if row[j + 1] + 1 < x:
                x = row[j + 1] + 1
            if new[j] + 1 < x:
                x = new[j] + 1
            new.append(x)
        row = new
    return row[-1]


def shifted(k):
    """Pairs of strings at distance k having in common only the middle one of k + 1 segments, moved
    by k / 2."""
    m = k + 1
    for size in (3, 4):
        base = [[chr(200 + 5 * i + j) for j in range(size)] for i in range(m)]
        more = [x[:1] + ['?' if i == 1 else chr(600 + i)] + x[1:] for i, x in enumerate(base)]
        less = [x[:1] + x[2:] for x in base]
        h = k // 2
        a = ''.join(c for x in base for c in x)
        b = ''.join(c for x in more[:h] + base[h:h + 1] + less[h + 1:] for c in x)
        c = ''.join(c for x in less[:h] + base[h:h + 1] + more[h + 1:] for c in x)
        yield a, b
        yield b, a
        yield a, c
        yield c, a


def edited(ctx, name, A, ops, dom=None):
    """The string A after the given operations (sub, ins, del, swap), from right to left, at any
    positions, the new characters being free."""
    p = len(A) + 1
    for i, op in enumerate(ops):
        last = {'ins': len(A), 'del': len(A) - 1, 'sub': len(A) - 1, 'swap': len(A) - 2}[op]
        p = ctx.choice('%sp%d' % (name, i), list(range(min(p, last) + 1)))
        if op == 'del':
            A = A[:p] + A[p + 1:]
        elif op == 'swap':
            A = A[:p] + A[p + 1] + A[p] + A[p + 2:]
        else:
            c = ctx.string('%sc%d' % (name, i), 1, dom) if dom else ctx.string('%sc%d' % (name, i), 1)
            A = A[:p] + c + A[p + (op == 'sub'):]
    return A
