from props import spec

ID = 'C06'
BOUNDS = {'quick': 'all pairs of strings over any character but the flags, lengths 0..8, distance (plain or with transpositions) at most 2; any two edits at any positions of any string of 9, 11, 16, 17 or 18 characters',
          'thorough': 'all pairs of strings over any character but the flags, lengths 0..10, distance (plain or with transpositions) at most 2; any two edits at any positions of any string of 10 to 33 characters'}
QUERY_TIMEOUT_MS = 60000
ASSUMPTIONS = ['the strings do not contain the flags']
NO_HISTORY = lambda c: c['a'] > 6


def cases(tier):
    n = 8 if tier == 'quick' else 10
    out = [{'a': i, 'b': j, 't': t} for i in range(n + 1) for j in range(i, min(n, i + 2) + 1) for t in (False, True)]
    ops = ('sub', 'ins', 'del')
    for n in (9, 11, 16, 17, 18) if tier == 'quick' else range(10, 34):
        for t in (False, True):
            for x in ops + (('swap',) if t else ()):
                for y in ops + (('swap',) if t else ()):
                    out.append({'a': n, 'ops': [x, y], 't': t})
    return out


def run(ctx, case):
    mod = ctx.imp('fog.key.levenshtein')
    f = mod.damerau_levenshtein_2d_blocks if case['t'] else mod.levenshtein_2d_blocks
    A = ctx.string('A', case['a'], ((3, 0x10FFFF),))
    if 'ops' in case:
        B = spec.edited(ctx, 'B', A, case['ops'], ((3, 0x10FFFF),))
    else:
        B = ctx.string('B', case['b'], ((3, 0x10FFFF),))
        d = (spec.osa if case['t'] else spec.lev)(ctx, A, B)
        ctx.assume(d <= 2)
    ka, kb = ctx.drain(lambda: f(A)), ctx.drain(lambda: f(B))
    ctx.observe([ka, kb])
    ctx.check(ctx.any([ctx.eq(x, y) for x in ka for y in kb]), 'two strings within distance 2 share no block')
    ctx.check(len(ka) <= 8 and len(kb) <= 8, 'more than 8 blocks')
