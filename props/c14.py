from props import graphs
from props.relations import relation, KINDS

ID = 'C14'
BOUNDS = {'quick': '4 items, every symmetric similarity or distance, every sort key values, every window 1..5, one or two passes, lists and iterators, every min_size/max_size; 8 or 9 items with 6 free relations and up to one free sort key; 140 items with 4 free relations and large windows',
          'thorough': '5 items (4 with two passes), every symmetric similarity or distance, every sort key values, every window 1..6'}
ASSUMPTIONS = ['items are pairwise distinct', 'sort keys are pairwise distinct within a pass unless the window spans all items', 'min_size >= 2']


def cases(tier):
    n = 4 if tier == 'quick' else 5
    out = []
    for mode in ('connected_components', 'fuzzy_clusters'):
        for kind in KINDS:
            out.append({'mode': mode, 'n': 3, 'kind': kind, 'passes': 1, 'lo': 1, 'hi': 1})
        for m in range(n + 1):
            out.append({'mode': mode, 'n': m, 'kind': 'similarity', 'passes': 0})
        out.append({'mode': mode, 'n': n, 'kind': 'similarity', 'passes': 1, 'gen': True})
        for gen in (False, True):
            out.append({'mode': mode, 'n': n - 1, 'kind': 'similarity', 'passes': 2, 'gen': gen})
        out.append({'mode': mode, 'n': 3, 'kind': 'similarity', 'passes': 1, 'ties': True})
        out.append({'mode': mode, 'n': 12, 'kind': 'near', 'passes': 0, 'default': True})
        out.append({'mode': mode, 'n': 9, 'kind': 'sparse9', 'passes': 0, 'lo': 1, 'hi': 1})
        out.append({'mode': mode, 'n': 8, 'kind': 'sparse8', 'passes': 1, 'some': [3, 9, None, 1, 20, 15, 2, 11], 'gen': True})
        out.append({'mode': mode, 'n': 8, 'kind': 'sparse5', 'passes': 2, 'some': [3, 9, 5, 1, 20, 15, 2, 11], 'windows': [2, 3, 5]})
        out.append({'mode': mode, 'n': 140, 'kind': 'far', 'passes': 0, 'windows': [130, 139, 140]})
    return out


def chain(ctx, items):
    """every item is similar to the next one, or not, and to the one after"""
    n = len(items)
    E = {(i, j): ctx.bool('s%d' % i) if j == i + 1 else j == i + 2 for i in range(n) for j in range(i + 1, n)}
    return {'similarity': lambda A, B: A == B or graphs.edge(E, items.index(A), items.index(B))}, E


def setup(ctx, case):
    n = case['n']
    items = ['i%03d' % i for i in range(n)]
    if case['kind'] == 'far':
        S = {(i, j): False for i in range(n) for j in range(i + 1, n)}
        for p in ((0, 129), (0, 130), (3, 139), (60, 61)):
            S[p] = ctx.bool('s%d_%d' % p)
        kw, E = {'similarity': lambda A, B: graphs.edge(S, items.index(A), items.index(B))}, S
    elif case['kind'] == 'near':
        # 12 items, every similarity between the first and the last ones
        S = {}
        for i in range(n):
            for j in range(i + 1, n):
                S[i, j] = ctx.bool('s%d_%d' % (i, j)) if i == 0 and j >= 8 else False
        kw, E = {'similarity': lambda A, B: graphs.edge(S, items.index(A), items.index(B))}, S
    else:
        kw, E = chain(ctx, items) if case['kind'] == 'chain' else relation(ctx, items, case['kind'])
    given = items[1::2] + items[::2]
    passes = []
    for p in range(case['passes']):
        vals = [ctx.int('k%d_%d' % (p, i), 0, 99) for i in range(n)] if 'some' not in case else \
            [ctx.int('k%d_%d' % (p, i), 0, 25) if x is None else x * (1 - 2 * p) % 23 for i, x in enumerate(case['some'])]
        passes.append(vals)

    def sorter(vals):
        return lambda x: vals[items.index(x)]
    if case['passes'] == 1:
        kw['key'] = sorter(passes[0])
    elif case['passes'] > 1:
        ks = [sorter(v) for v in passes]
        kw['keys'] = ks
    else:
        passes = [list(range(n))]
    def data():
        return iter(given) if case.get('gen') else given
    skw, lo, hi = graphs.sizes(ctx, case, min(n, 4))
    kw.update(skw)
    return items, data, kw, E, passes, lo, hi


def positions(ctx, vals):
    n = len(vals)
    return [graphs.count(ctx, [vals[j] < vals[i] for j in range(n) if j != i]) for i in range(n)]


def distinct(ctx, vals):
    return ctx.all([ctx.no(ctx.eq(a, b)) for i, a in enumerate(vals) for b in vals[i + 1:]])


def run(ctx, case):
    mod = ctx.imp('fog.clustering.sorted_neighborhood')
    items, data, kw, E, passes, lo, hi = setup(ctx, case)
    n = len(items)
    if case.get('default'):
        window = 10
    else:
        window = ctx.choice('window', case['windows']) if 'windows' in case else ctx.int('window', 1, n + 1)
        kw['window'] = window
    if case.get('ties'):
        ctx.assume(window >= n)
    else:
        for vals in passes:
            ctx.assume(distinct(ctx, vals))
    got = ctx.drain(lambda: mod.sorted_neighborhood(data(), mode=case['mode'], **kw))
    got = graphs.indices(ctx, items, got, 'sorted_neighborhood')
    ctx.observe(sorted(sorted(c) for c in got))
    ctx.check(len(got) <= n, 'more clusters than items')
    F = {}
    P = [positions(ctx, vals) for vals in passes]
    for (i, j), e in E.items():
        if case.get('ties'):
            F[i, j] = e
        else:
            F[i, j] = ctx.all([e, ctx.any([ctx.all([p[i] - p[j] < window, p[j] - p[i] < window]) for p in P])])
    graphs.check_mode(ctx, case['mode'], got, n, F, lo, hi, 'sorted_neighborhood')
