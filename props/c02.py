from props import spec

ID = 'C02'
NEEDS_CFOG = True
BOUNDS = {'quick': 'all pairs of strings over the whole Unicode range with lengths 0..4 x 0..5, and every maximum 0..6, and 2^32-1 for lengths up to 2 x 3; pairs of long strings (up to 66,000 characters) with up to four free characters, and maxima up to 66,001',
          'thorough': 'all pairs of strings over the whole Unicode range with lengths 0..5 x 0..6, and every maximum 0..7, and 2^32-1 for lengths up to 2 x 3'}
ASSUMPTIONS = ['the .pyx is translated to Python with C semantics; validated on the compiled extension', 'malloc does not fail']
NO_HISTORY = lambda c: '{' in c.get('A', '') + c.get('B', '')


def cases(tier):
    a, b, k = (4, 5, 6) if tier == 'quick' else (5, 6, 7)
    out = []
    for i in range(a + 1):
        for j in range(b + 1):
            if i > j and (i > 3 or tier == 'quick' and i > 3):
                continue
            for kk in range(min(k, max(i, j) + 1) + 1):
                out.append({'a': i, 'b': j, 'k': kk})
    for i, j in ((0, 1), (1, 1), (1, 2), (2, 2), (2, 3)):
        out.append({'a': i, 'b': j, 'k': 2 ** 32 - 1})
    for x, y in spec.LONG:
        for kk in (1, 2, 3, 5, 20):
            out.append({'A': x, 'B': y, 'k': kk})
    out.append({'A': '{150:a}?{150:b}cd?', 'B': '{149:a}{151:b}?c', 'k': 3})
    out.append({'A': '{150:a}?{150:b}cd?', 'B': '{149:a}{151:b}?c', 'k': 300})
    for x, y in spec.LONGER:
        for kk in (1, 2, 254, 255, 256, 299, 301, 65534, 65998, 66001):
            out.append({'A': x, 'B': y, 'k': kk})
    return out


def run(ctx, case):
    f = ctx.imp('cfog.metrics.levenshtein').limited_levenshtein_distance
    if 'A' in case:
        ctx.steps(3000000)
        A, B = spec.sparse(ctx, 'A', case['A']), spec.sparse(ctx, 'B', case['B'])
    else:
        A, B = ctx.string('A', case['a']), ctx.string('B', case['b'])
    k = case['k']
    d = f(k, A, B)
    ctx.observe(d)
    ctx.check(ctx.eq(d, ctx.min([(spec.lev_decided if 'A' in case else spec.lev)(ctx, A, B), k + 1])),
              'limited_levenshtein_distance differs from min(distance, maximum + 1)')
