import math
from props import graphs

ID = 'C17'
BOUNDS = {'quick': 'two records of 0..5 distinct tokens (10 in all) or three of 1..3, every order and equality pattern between tokens, '
                   'thresholds 0.3, 0.5, 0.6, 0.8, 1.0 (any real threshold from 0.01 to 1 for two records of up to 3 tokens and for 4 or 5 given records of up to 15) and the three metrics, plain, All-Pairs and PPJoin+, every token ordering; 5 or 6 records of up to 12 tokens, two of which are free, thresholds 0.5, 0.8 and 0.9',
          'thorough': 'two records of 0..7 tokens, three of up to 4, thresholds 0.2 to 1.0'}
ASSUMPTIONS = ['crc32 is replaced by an injective map', 'similarities are compared with a tolerance of 1e-6, as the code does',
               'hash containers iterate in insertion order in the model']
METRICS = ('jaccard', 'dice', 'binary_cosine')
NO_HISTORY = lambda c: c.get('t', 0) is None


def cases(tier):
    out = []
    variants = ('ppjoin', 'all_pairs', 'ppjoin_plus')
    thr = (0.3, 0.5, 0.6, 0.8, 1.0)
    if tier == 'quick':
        two = [[1, 1], [1, 2], [2, 2], [2, 3], [3, 3], [3, 4], [4, 4]]
        big = [[4, 5], [5, 5]]
        three = [[1, 1, 1], [1, 2, 2], [2, 2, 2]]
    else:
        two = [[a, b] for a in range(1, 6) for b in range(a, 6)]
        big = [[5, 6], [6, 6], [6, 7]]
        three = [[1, 1, 1], [1, 2, 2], [2, 2, 2], [2, 2, 3], [2, 3, 3]]
        thr = (0.2, 0.3, 0.4, 0.5, 0.6, 0.7, 0.8, 0.9, 1.0)
    for m in METRICS:
        for v in variants:
            for t in thr:
                for sh in two:
                    if sh[1] == 4 and tier == 'quick' and t not in (0.5, 0.8):
                        continue
                    out.append({'m': m, 'v': v, 't': t, 'shape': sh, 'order': None, 'sorted': True})
            for t in (0.6, 0.8):
                for sh in big:
                    out.append({'m': m, 'v': v, 't': t, 'shape': sh, 'order': None, 'sorted': True})
            for t in (0.5, 0.8):
                for sh in three:
                    out.append({'m': m, 'v': v, 't': t, 'shape': sh, 'order': None, 'sorted': True})
                for order in ('freq', 'crc32', None):
                    out.append({'m': m, 'v': v, 't': t, 'shape': [2, 3] if order == 'freq' else [2, 2], 'order': order, 'tok': True})
                    out.append({'m': m, 'v': v, 't': t, 'shape': [2, 2], 'order': order})
                out.append({'m': m, 'v': v, 't': t, 'shape': [0, 0, 1], 'order': 'freq', 'tok': True})
                out.append({'m': m, 'v': v, 't': t, 'shape': [3, 2], 'order': 'freq', 'tok': True, 'dups': True})
    for m in METRICS:
        for v in variants:
            for t in (0.5, 0.8, 0.9) if tier == 'quick' else (0.2, 0.4, 0.5, 0.6, 0.7, 0.8, 0.85, 0.9, 1.0):
                for fixed in (['abcdefghij', 'abcdefghi?', 'bcdefghijk', 'jklmnopqrs', 'klmnopqr?'],
                              ['abcd', 'cdef', '?bcd', 'abcdefghijkl', 'abcdefghijkm', 'abcdefghi'],
                              ['mnopq', 'abmnopq', '?bmnopq', 'bcmnop', 'abcmnopqrstu', 'abcmn?pqrstu']):
                    out.append({'m': m, 'v': v, 't': t, 'fixed': fixed, 'order': None, 'sorted': True})
                out.append({'m': m, 'v': v, 't': t, 'fixed': ['jihgfedcba', '?bcdefghij', 'klmn', 'lk?m', 'abcde'], 'order': 'freq', 'tok': True})
    for m in METRICS:
        for v in variants:
            for sh in ([1, 1], [1, 2], [2, 2], [2, 3], [3, 3]) + (() if tier == 'quick' else ([3, 4], [4, 4], [2, 2, 2])):
                out.append({'m': m, 'v': v, 't': None, 'low': 0.01, 'shape': sh, 'order': None, 'sorted': True})
            for fixed in (['abcdefgh', 'abcdefgh', 'efghijkl', 'gh', 'hijklm'], ['abcdefghij', 'bcdefghijk', 'cdefghi', 'jk', 'abcdefghijklmno'],
                          ['abcd', 'abce', 'bcdef', 'efghi']):
                if v == 'ppjoin_plus' and (tier == 'quick' or m == 'binary_cosine') and len(fixed) > 4:
                    continue
                out.append({'m': m, 'v': v, 't': None, 'low': 0.01, 'fixed': fixed, 'order': None, 'sorted': True})
    out.append({'bad': 'metric'})
    out.append({'bad': 'order'})
    out.append({'bad': 'tokenizer'})
    return out


def sim(m, a, b, o):
    if m == 'jaccard':
        return o / (a + b - o)
    if m == 'dice':
        return 2 * o / (a + b)
    return o / math.sqrt(a * b)


def run(ctx, case):
    mod = ctx.imp('fog.clustering.ppjoin')
    if 'bad' in case:
        try:
            kw = {'metric': {'metric': 'other'}, 'order': {'token_ordering': 'other'}, 'tokenizer': {'tokenizer': 3}}[case['bad']]
            list(mod.ppjoin([['a'], ['a']], 0.8, **kw))
        except TypeError:
            ctx.check(True, '')
            return
        ctx.check(False, 'a wrong call is accepted')
    ctx.patch(mod, 'crc32', lambda t: 1000 - t, optional=True)
    shape = case.get('shape') or case['fixed']
    n = len(shape)
    if 'fixed' in case:
        T = [[ctx.int('t%d_%d' % (i, j), 0, 99) if c == '?' else 2 * (ord(c) - 96) for j, c in enumerate(s)] for i, s in enumerate(shape)]
    else:
        T = [[ctx.int('t%d_%d' % (i, j), 0, 99) for j in range(s)] for i, s in enumerate(shape)]
    if not case.get('dups'):
        for t in T:
            if case.get('sorted'):
                for a, b in zip(t, t[1:]):
                    if type(a) is not int or type(b) is not int:
                        ctx.assume(a < b)
            else:
                for i in range(len(t)):
                    for j in range(i):
                        if type(t[i]) is not int or type(t[j]) is not int:
                            ctx.assume(ctx.no(ctx.eq(t[i], t[j])))
    f = getattr(mod, case['v'])
    kw = {'metric': case['m'], 'token_ordering': case['order']}
    if case.get('tok'):
        records = ['r%d' % i for i in range(n)]
        kw['tokenizer'] = lambda r: iter(T[records.index(r)])
    else:
        records = [list(t) for t in T]
    t = case['t'] if case['t'] is not None else ctx.real('t', case['low'], 1)
    got = ctx.drain(lambda: f(list(records) if not case.get('tok') else iter(records), t, **kw))

    def at(x):
        for i, r in enumerate(records):
            if r is x:
                return i
        return records.index(x)
    found = [tuple(sorted((at(a), at(b)))) for a, b in got]
    ctx.observe(sorted(found))
    for i in range(n):
        for j in range(i + 1, n):
            k = found.count((i, j))
            ctx.check(k <= 1, 'a pair is found twice')
            A, B = T[i], T[j]
            if case.get('dups'):
                from props.c16 import distinct_count
                A, B = distinct_count(A), distinct_count(B)
            a, b = len(A), len(B)
            if case['t'] is None:
                inter = graphs.count(ctx, [ctx.eq(x, y) for x in A for y in B])
                values = [(o, sim(case['m'], a, b, o)) for o in range(1, min(a, b) + 1)]
                if k:
                    ctx.check(ctx.any([ctx.all([ctx.eq(inter, o), t <= v + 2e-6]) for o, v in values]), 'a pair below the threshold is found')
                else:
                    ctx.check(ctx.all([ctx.any([ctx.no(ctx.eq(inter, o)), t > v - 1e-9]) for o, v in values]), 'a pair reaching the threshold is missed')
                continue
            need = [o for o in range(1, min(a, b) + 1) if sim(case['m'], a, b, o) >= case['t'] - 5e-7]
            if not need:
                ctx.check(k == 0, 'a pair below the threshold is found')
                continue
            inter = graphs.count(ctx, [ctx.eq(x, y) for x in A for y in B])
            ctx.check(ctx.iff(k == 1, inter >= need[0]),
                      'a pair below the threshold is found' if k else 'a pair reaching the threshold is missed')
    ctx.check(all(i != j for i, j in found), 'a record is joined with itself')
