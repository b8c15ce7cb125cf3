from props import graphs, spec

ID = 'C07'
BOUNDS = {'quick': 'every pair of distinct strings over the whole Unicode range, lengths 0..5 (k 1..3, of total length at most 9 for k = 3), 0..7 for k = 1; every triple of distinct strings of lengths 0..3, k 1 and 2; '
                   'any string made of 8 to 15 given characters by 1 to 3 edits at any position, the new characters being b or z (k 1..3); nine strings with three free characters among a, b and z; '
                   'pairs keeping a single segment, shifted as far as possible, for k = 4, 6, 8 and 10; '
                   'sorted or not, both modes, every min_size/max_size for triples',
          'thorough': 'every pair of distinct strings, lengths 0..7, k 1..4; every triple of lengths 0..4, k 1..2; sorted or not, both modes'}
ASSUMPTIONS = ['the distance function given is the Levenshtein distance', 'the strings are pairwise distinct',
               'hash containers iterate in insertion order in the model']


def cases(tier):
    out = []
    L, K = (5, 3) if tier == 'quick' else (7, 4)
    for k in range(1, K + 1):
        for a in range(L + 1):
            for b in range(L + 1):
                if abs(a - b) > k + 1 or (a + b == 0):
                    continue
                for sort in (True, False):
                    if sort and a > b:
                        continue
                    if tier == 'quick' and (k == 3 and (a + b > 9 or a + b == 9 and sort) or k == 2 and a + b == 10 and not sort):
                        continue
                    out.append({'k': k, 'n': [a, b], 'sort': sort, 'mode': 'connected_components'})
    for a, b in ((6, 6), (6, 7), (7, 6), (7, 7)):
        out.append({'k': 1, 'n': [a, b], 'sort': False, 'mode': 'connected_components'})
    for k in (1, 2):
        for n in ([1, 1, 1], [0, 1, 1], [1, 2, 2], [2, 1, 3], [2, 2, 2], [1, 2, 3], [3, 2, 1]) + \
                (([2, 2, 3], [3, 3, 2], [3, 3, 3], [3, 4, 3]) if tier != 'quick' else ()):
            for sort in (True, False):
                for mode in ('connected_components', 'fuzzy_clusters'):
                    if sort and n in ([3, 2, 1],):
                        continue
                    out.append({'k': k, 'n': n, 'sort': sort, 'mode': mode, 'lo': 1, 'hi': 1})
    long = [(1, 'abcdefghijklmn', ['ins']), (1, 'abcdefghijklmn', ['sub']), (2, 'abcdefghijklm', ['ins', 'del']), (2, 'abcdefghijklm', ['del', 'ins']),
            (2, 'abcdefghijklmno', ['sub', 'ins']), (2, 'ababababab', ['ins', 'del']), (2, 'abcdefgh', ['ins', 'ins']),
            (3, 'abcdefgh', ['del', 'sub', 'ins']), (3, 'abcdefghi', ['ins', 'ins', 'del']), (3, 'aabbaabb', ['ins', 'del', 'sub'])]
    if tier != 'quick':
        long += [(3, 'abcdefghijklm', ['del', 'sub', 'ins']), (3, 'abcdefghijklmn', ['ins', 'ins', 'del']), (3, 'abcdefghijklmno', ['del', 'del', 'sub']),
                 (4, 'abcdefghij', ['del', 'ins', 'del', 'ins']), (4, 'abcdefghijk', ['ins', 'ins', 'del', 'sub'])]
    for k, base, ops in long:
        for first in (0, 1):
            out.append({'k': k, 'base': base, 'ops': ops, 'first': first, 'sort': bool(first), 'mode': 'connected_components',
                        'dom': ((98, 98), (122, 122))})
    for k in (4, 6, 8, 10):
        for x, y in spec.shifted(k):
            out.append({'k': k, 'L': [x, y], 'sort': False, 'mode': 'connected_components'})
    for k in (1, 2):
        for mode in ('connected_components', 'fuzzy_clusters'):
            for sort in (True, False):
                out.append({'k': k, 'L': ['abcd', 'zzzz', 'x', 'xabcde', '?b?d', 'bcd', 'zzz', 'bbbbbbbb', 'bbbbb?b'], 'sort': sort, 'mode': mode, 'lo': 1, 'hi': 1})
    return out


def run(ctx, case):
    mod = ctx.imp('fog.clustering.passjoin')
    k = case['k']
    if 'ops' in case:
        S = [case['base'], spec.edited(ctx, 'B', case['base'], case['ops'], case.get('dom'))]
        if case['first']:
            S.reverse()
    elif 'L' in case:
        S = [spec.sparse(ctx, 's%d' % i, p, ((97, 98), (122, 122))) for i, p in enumerate(case['L'])]
    else:
        S = [ctx.string('s%d' % i, n) for i, n in enumerate(case['n'])]
    n = len(S)
    lev = spec.lev_decided if 'n' not in case else spec.lev
    E = {}
    for i in range(n):
        for j in range(i + 1, n):
            ctx.assume(ctx.no(ctx.eq(S[i], S[j])))
            E[i, j] = lev(ctx, S[i], S[j]) <= k

    def distance(A, B):
        return lev(ctx, A, B)
    kw, lo, hi = graphs.sizes(ctx, case, n)
    got = ctx.drain(lambda: mod.passjoin(iter(S), k, distance, sort=case['sort'], mode=case['mode'], **kw))
    ids = graphs.indices(ctx, S, got, 'passjoin')
    ctx.observe(sorted(sorted(c) for c in ids))
    graphs.check_mode(ctx, case['mode'], ids, n, E, lo, hi, 'passjoin')
