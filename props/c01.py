from props import spec

ID = 'C01'
NEEDS_CFOG = True
BOUNDS = {'quick': 'all pairs of strings over the whole Unicode range (0..0x10FFFF) with lengths 0..4 x 0..5; pairs of long strings (up to 600 and 66,000 characters) with up to four free characters',
          'thorough': 'all pairs of strings over the whole Unicode range (0..0x10FFFF) with lengths 0..5 x 0..6'}
ASSUMPTIONS = ['the .pyx is translated to Python with C semantics (fixed-width integers, malloc/free); the translation is '
               'validated by replaying sampled paths on the compiled extension', 'malloc does not fail']
NO_HISTORY = lambda c: '{' in c.get('A', '') + c.get('B', '')


def cases(tier):
    a, b = (4, 5) if tier == 'quick' else (5, 6)
    return [{'a': i, 'b': j} for i in range(a + 1) for j in range(b + 1) if i <= j] + \
        [{'a': j, 'b': i} for i in range(4) for j in range(5) if i < j] + \
        [{'A': x, 'B': y} for x, y in spec.LONG + spec.LONGER + [('{150:a}?{150:b}cd?', '{149:a}{151:b}?c'), ('{260:a}?', '{300:b}{300:c}?')]]


def run(ctx, case):
    f = ctx.imp('cfog.metrics.levenshtein').levenshtein_distance
    if 'A' in case:
        ctx.steps(3000000)
        A, B = spec.sparse(ctx, 'A', case['A']), spec.sparse(ctx, 'B', case['B'])
    else:
        A, B = ctx.string('A', case['a']), ctx.string('B', case['b'])
    d = f(A, B)
    ctx.observe(d)
    ctx.check(ctx.eq(d, (spec.lev_decided if 'A' in case else spec.lev)(ctx, A, B)), 'levenshtein_distance differs from the edit distance')
