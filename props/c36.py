from props import spec

ID = 'C36'
BOUNDS = {'quick': 'squeeze: every Unicode string of up to 5 characters; OnlineMean: up to 4 real values added, any of them subtracted, sums of two or three means; longer strings with three free characters, 9 values',
          'thorough': 'strings of up to 7 characters, up to 6 values'}
ASSUMPTIONS = ['floating-point numbers are treated as reals']
ROMAN = 'IXCMixcm'


def cases(tier):
    out = []
    N = 5 if tier == 'quick' else 7
    for n in range(N + 1):
        for roman in (False, True):
            out.append({'f': 'squeeze', 'n': n, 'roman': roman})
    for n in range(5 if tier == 'quick' else 7):
        out.append({'f': 'mean', 'n': n})
        for k in range(n):
            out.append({'f': 'merge', 'n': n, 'k': k})
    for s in ('aabbccdd?ee??ffgghhii', 'a??aaaaaaaa?aaaaaaaaaaaaaa', 'XXII?MMaa!!!??  \t\t'):
        for roman in (False, True):
            out.append({'f': 'squeeze', 's': s, 'roman': roman})
    out.append({'f': 'merge', 'n': 9, 'k': 4})
    out.append({'f': 'merge', 'n': 3, 'k': 3})
    out.append({'f': 'type'})
    return out


def run(ctx, case):
    mod = ctx.imp('fog.utils')
    if case['f'] == 'squeeze':
        s = spec.sparse(ctx, 's', case['s']) if 's' in case else ctx.string('s', case['n'])
        got = mod.squeeze(s, True) if case['roman'] else mod.squeeze(s)
        ctx.observe(got)
        want = []
        for i, c in enumerate(s):
            if i and c == s[i - 1] and not (case['roman'] and ctx.any([ctx.eq(c, r) for r in ROMAN])):
                continue
            want.append(c)
        ctx.check(len(got) == len(want) and ctx.all([ctx.eq(a, b) for a, b in zip(got, want)]),
                  'squeeze does not drop exactly the consecutive duplicates')
        ctx.check(ctx.eq(mod.squeeze(got, case['roman']), got), 'squeezing twice is not squeezing once')
        return
    from statistics import StatisticsError
    M = mod.OnlineMean
    if case['f'] == 'type':
        m = M()
        try:
            m += 3
            ctx.check(False, 'a number is merged into a mean')
        except TypeError:
            ctx.check(len(m) == 0, 'a refused addition changes the mean')
        return
    n = case['n']
    xs = [ctx.real('x%d' % i, -100, 100) for i in range(n)]

    def value(m, vs):
        ctx.check(len(m) == len(vs), 'the number of values is wrong')
        if not vs:
            for f in (m.peek, lambda: float(m)):
                try:
                    f()
                    ctx.check(False, 'the mean of nothing has a value')
                except StatisticsError:
                    pass
            return
        ctx.check(ctx.close(m.peek() * len(vs), sum(vs)), 'the mean is wrong')
    if case['f'] == 'mean':
        m = M()
        value(m, [])
        left = []
        for i, x in enumerate(xs):
            m.add(x)
            left.append(x)
            value(m, left)
        for i in range(n):
            if ctx.bool('drop%d' % i):
                m.subtract(xs[i])
                left = [y for y in left if y is not xs[i]] if ctx.symbolic else left[:len(left) - len(xs) + i] + left[len(left) - len(xs) + i + 1:]
                value(m, left)
        return
    a, b = M(), M()
    k = case['k']
    for x in xs[:k]:
        a.add(x)
    for x in xs[k:]:
        b.add(x)
    c = a + b
    value(c, xs)
    value(a, xs[:k])
    value(b, xs[k:])
    c.add(1)
    value(a, xs[:k])
    value(b, xs[k:])
    d = a
    a += b
    ctx.check(a is d, 'merging in place makes a new mean')
    value(a, xs)
    value(b, xs[k:])
    a += b
    value(a, xs + xs[k:])
