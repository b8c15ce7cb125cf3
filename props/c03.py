from props import spec

ID = 'C03'
NEEDS_CFOG = True
BOUNDS = {'quick': 'all pairs of strings over the whole Unicode range with lengths 0..10 x 0..10; long strings (up to 66,000 characters) with up to four free characters',
          'thorough': 'all pairs of strings over the whole Unicode range with lengths 0..12 x 0..12'}
ASSUMPTIONS = ['the .pyx is translated to Python with C semantics; validated on the compiled extension']
NO_HISTORY = lambda c: '{' in c.get('A', '') + c.get('B', '')


def cases(tier):
    n = 10 if tier == 'quick' else 12
    out = [{'f': f, 'a': i, 'b': j} for f in ('levenshtein_distance_lte1', 'damerau_levenshtein_distance_lte1')
            for i in range(n + 1) for j in range(n + 1) if abs(i - j) <= 2]
    for f in ('levenshtein_distance_lte1', 'damerau_levenshtein_distance_lte1'):
        for x, y in (('{12:a}??{12:a}', '{12:a}??{12:a}'), ('abcdefghijkl??nop', 'abcdefghijkl?nop'), ('?{12:a}?{12:b}', '{12:a}?{13:b}?'),
                     ('{150:a}?{150:b}?', '{150:a}?{150:b}'), ('{150:a}??{150:b}', '{150:a}??{150:b}'), ('{300:a}??', '{300:a}??'),
                     ('{300:a}?b?', '{300:a}?b'), ('??{300:a}', '??{300:a}'), ('{66000:a}?', '{66000:a}??')):
            out.append({'f': f, 'A': x, 'B': y})
            out.append({'f': f, 'A': y, 'B': x})
    return out


def run(ctx, case):
    f = getattr(ctx.imp('cfog.metrics.levenshtein'), case['f'])
    if 'A' in case:
        A, B = spec.sparse(ctx, 'A', case['A']), spec.sparse(ctx, 'B', case['B'])
    else:
        A, B = ctx.string('A', case['a']), ctx.string('B', case['b'])
    r = f(A, B)
    ctx.observe(bool(r))
    if '{66000:a}' in case.get('A', ''):
        A, B = A[66000:], B[66000:]
    ctx.check(ctx.iff(r, spec.edit1(ctx, A, B, 'damerau' in case['f'])), '%s gives a wrong answer' % case['f'])
