from props import spec

ID = 'C05'
BOUNDS = {'quick': 'all pairs of strings over any character but the flag, lengths 0..14 and some up to 65, distance (plain or with transpositions) at most 1',
          'thorough': 'all pairs of strings over any character but the flag, lengths 0..24, distance (plain or with transpositions) at most 1'}
ASSUMPTIONS = ['the strings do not contain the flag']
DOM = {'\x00': ((1, 0x10FFFF),), '*': ((0, 41), (43, 0x10FFFF))}


def cases(tier):
    n = 14 if tier == 'quick' else 24
    out = []
    for i in range(n + 1):
        for j in (i, i + 1):
            if j <= n:
                for t in (False, True):
                    out.append({'a': i, 'b': j, 't': t})
                    if j <= 4:
                        out.append({'a': i, 'b': j, 't': t, 'flag': '*'})
    for i, j in ((31, 32), (32, 32), (40, 41), (41, 41), (64, 64), (64, 65)):
        for t in (False, True):
            out.append({'a': i, 'b': j, 't': t})
    return out


def run(ctx, case):
    mod = ctx.imp('fog.key.levenshtein')
    flag = case.get('flag', '\x00')
    f = mod.damerau_levenshtein_1d_blocks if case['t'] else mod.levenshtein_1d_blocks
    A = ctx.string('A', case['a'], DOM[flag])
    B = ctx.string('B', case['b'], DOM[flag])
    ctx.assume(spec.edit1(ctx, A, B, case['t']))
    kw = {'flag': flag} if 'flag' in case else {}
    ka, kb = ctx.drain(lambda: f(A, **kw)), ctx.drain(lambda: f(B, **kw))
    ctx.observe([ka, kb])
    ctx.check(ctx.any([ctx.eq(x, y) for x in ka for y in kb]), 'two strings within distance 1 share no block')
    ctx.check(len(ka) <= 4 and len(kb) <= 4, 'more than 4 blocks')
