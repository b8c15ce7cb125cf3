import warnings

ID = 'C35'
BOUNDS = {'quick': 'up to 4 items on each side, every equality pattern between keys (0 and the empty string included), 0 to 2 keys per item, lists, generators and sets on each side, keys returned as lists, tuples, sets or generators; up to 7 items on a side with up to 6 keys each, of which two are free',
          'thorough': 'up to 5 items on each side'}
ASSUMPTIONS = ['items are pairwise distinct']


def cases(tier):
    out = []
    N = 4 if tier == 'quick' else 5
    for a in range(N + 1):
        for b in range(N + 1):
            out.append({'f': 'key', 'a': [1] * a, 'b': [1] * b})
            if a + b <= 4:
                for kind in ('gl', 'gr', 'gg', 'sets', 'iter'):
                    out.append({'f': 'key', 'a': [1] * a, 'b': [1] * b, 'kind': kind})
    for a, b in (([2], [2]), ([2, 1], [1]), ([1, 2], [2]), ([1], [2, 1]), ([1, 1], [2, 0]), ([2], [1, 1, 1]), ([0, 2], [1, 1]), ([1, 1], [1, 1])):
        for ret in ('list', 'gen', 'set', 'tuple'):
            for kind in ('', 'gr') if ret == 'list' else ('',):
                out.append({'f': 'keys', 'a': a, 'b': b, 'ret': ret, 'kind': kind})
    for kind in ('', 'gr'):
        out.append({'f': 'key', 'a': [1, 1], 'b': [1, 1], 'kind': kind, 'odd': True})
        out.append({'f': 'keys', 'a': [1, 2], 'b': [1, 1], 'kind': kind, 'ret': 'list', 'odd': True})
    for a, b in ((['1', '2', '3', '?', '1'], ['1', '?', '3', '5']), (['1', '?'], ['1', '2', '3', '2', '1', '7', '2']), (['1'] * 5, ['1', '?', '1'])):
        for kind in ('', 'gr'):
            out.append({'f': 'key', 'a': a, 'b': b, 'kind': kind})
    for a, b in ((['12', '23', '3?', '41', '', '5'], ['21', '35', '?', '6']), (['123456', '1?'], ['1', '65', '4?', '7', '', '321'])):
        for ret in ('list', 'gen'):
            out.append({'f': 'keys', 'a': a, 'b': b, 'ret': ret, 'kind': 'gr' if ret == 'gen' else ''})
    return out


def run(ctx, case):
    f = ctx.imp('fog.join').hashjoin
    A = ['a%d' % i for i in range(len(case['a']))]
    B = ['b%d' % i for i in range(len(case['b']))]
    K = {}
    for xs, shape in ((A, case['a']), (B, case['b'])):
        for x, s in zip(xs, shape):
            K[x] = [ctx.int('%s_%d' % (x, j), 0, 50) for j in range(s)] if type(s) is int else \
                [ctx.int('%s_%d' % (x, j), 0, 50) if c == '?' else int(c) for j, c in enumerate(s)]
    if case.get('odd'):
        K = {x: [ctx.choice('%s_%d_odd' % (x, j), ['', 0, 'a']) for j in range(len(ks))] for x, ks in K.items()}
    kind = case.get('kind')

    def sides():
        left, right = A, B
        if kind in ('gl', 'gg'):
            left = (x for x in A)
        if kind in ('gr', 'gg'):
            right = (x for x in B)
        if kind == 'iter':
            left, right = iter(A), map(str, B)
        if kind == 'sets':
            left, right = dict.fromkeys(A).keys(), dict.fromkeys(B).keys()
        return left, right
    if case['f'] == 'key':
        kw = {'key': lambda x: K[x][0]}
    else:
        ret = case['ret']

        def keys(x):
            ks = list(K[x])
            if ret == 'gen':
                return (k for k in ks)
            if ret == 'tuple':
                return tuple(ks)
            if ret == 'set':
                # without repetitions
                out = []
                for k in ks:
                    if not any(k == o for o in out):
                        out.append(k)
                return out if ctx.symbolic else set(out)
            return ks
        kw = {'keys': keys}
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        got = ctx.drain(lambda: f(*sides(), **kw))
    ctx.observe(sorted(tuple(p) for p in got))
    ctx.check(all(len(p) == 2 and p[0] in A and p[1] in B for p in got), 'a pair is not made of a left and a right item')
    ctx.check(len(set(tuple(p) for p in got)) == len(got), 'a pair is yielded twice')
    pairs = set(tuple(p) for p in got)
    for a in A:
        for b in B:
            same = ctx.any([ctx.eq(x, y) for x in K[a] for y in K[b]])
            ctx.check(ctx.iff(same, (a, b) in pairs), 'the pairs are not those sharing a key')
