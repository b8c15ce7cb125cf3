from props import graphs
from props.c14 import setup, positions, distinct
from props.relations import KINDS

ID = 'C15'
BOUNDS = {'quick': 'up to 5 items, every symmetric similarity (4 items for distances and sort keys), every window 1..n+1, one or two passes, every min_size/max_size; 7 or 8 items with 6 free relations',
          'thorough': 'up to 6 items, every symmetric similarity, every window 1..n+1'}
ASSUMPTIONS = ['items are pairwise distinct', 'min_size >= 2',
               'an item is similar to itself', 'sort keys are pairwise distinct within a pass']


def cases(tier):
    out = []
    N = 5 if tier == 'quick' else 6
    for n in range(N + 1):
        for w in range(1, n + 2):
            out.append({'mode': 'connected_components', 'n': n, 'kind': 'similarity', 'passes': 0, 'w': w})
            if n < N:
                out.append({'mode': 'fuzzy_clusters', 'n': n, 'kind': 'similarity', 'passes': 0, 'w': w})
    for w in (2, 3):
        for kind in KINDS:
            out.append({'mode': 'connected_components', 'n': 3, 'kind': kind, 'passes': 1, 'w': w, 'lo': 1, 'hi': 1, 'gen': True})
        for mode in ('connected_components', 'fuzzy_clusters'):
            for gen in (False, True):
                out.append({'mode': mode, 'n': 3, 'kind': 'similarity', 'passes': 2, 'w': w, 'gen': gen})
    out.append({'mode': 'connected_components', 'n': 4, 'kind': 'similarity', 'passes': 1, 'w': 2})
    for w in (2, 3, 4):
        out.append({'mode': 'connected_components', 'n': 8, 'kind': 'sparse8', 'passes': 0, 'w': w, 'lo': 1, 'hi': 1})
        out.append({'mode': 'connected_components', 'n': 8, 'kind': 'sparse3', 'passes': 0, 'w': w})
        out.append({'mode': 'connected_components', 'n': 7, 'kind': 'chain', 'passes': 0, 'w': w})
    return out


def partitions(n, w):
    """ways to cut n positions into consecutive blocks of at least w (the last may be shorter)"""
    if n <= w:
        yield [n]
        if n == 0:
            return
    for first in range(w, n):
        for rest in partitions(n - first, w):
            yield [first] + rest
    if n > w:
        yield [n]


def run(ctx, case):
    mod = ctx.imp('fog.clustering.sorted_neighborhood')
    ctx.steps(4000)
    items, data, kw, E, passes, lo, hi = setup(ctx, case)
    n, w = len(items), case['w']
    for vals in passes:
        ctx.assume(distinct(ctx, vals))
    got = ctx.drain(lambda: mod.adaptive_sorted_neighborhood(data(), mode=case['mode'], window=w, **kw))
    got = graphs.indices(ctx, items, got, 'adaptive_sorted_neighborhood')
    ctx.observe(sorted(sorted(c) for c in got))
    ctx.check(len(got) <= n, 'more clusters than items')
    what = 'adaptive_sorted_neighborhood'
    for c in got:
        ctx.check(len(set(c)) == len(c), what + ': an item appears twice in a cluster')
        ctx.check(ctx.all([len(c) >= lo, len(c) <= hi]), what + ': a cluster has not a viable size')
        if case['mode'] == 'fuzzy_clusters':
            for x in c[1:]:
                ctx.check(graphs.edge(E, c[0], x), what + ': a member is not similar to the center of its cluster')
    if len(passes) > 1:
        if w >= n:
            graphs.check_mode(ctx, case['mode'], got, n, E, lo, hi, what)
        elif case['mode'] == 'connected_components':
            R = graphs.reachability(ctx, n, E)
            for c in got:
                ctx.check(ctx.all([R[c[0]][x] for x in c[1:]]), what + ': unrelated items are together')
        return
    P = positions(ctx, passes[0])
    if case['mode'] == 'fuzzy_clusters':
        if w >= n:
            graphs.check_mode(ctx, case['mode'], got, n, E, lo, hi, what)
        return
    # the sorted order is cut into consecutive blocks of at least w items (the last
    # one may be shorter), and everything inside a block is compared
    alts = []
    for cut in partitions(n, w):
        F = {}
        bounds = [sum(cut[:k]) for k in range(1, len(cut))]
        for (i, j), e in E.items():
            apart = [ctx.any([ctx.all([P[i] < b, P[j] >= b]), ctx.all([P[j] < b, P[i] >= b])]) for b in bounds]
            F[i, j] = ctx.all([e, ctx.no(ctx.any(apart))])
        alts.append(graphs.components_cond(ctx, got, n, F, lo, hi))
    ctx.check(ctx.any(alts), what + ': the clusters are not those of consecutive blocks of at least the window size')
    ctx.check(ctx.implies(ctx.all(list(E.values()) + [n >= 2, n >= lo, n <= hi]), ctx.all([len(got) == 1, len(got) == 1 and len(got[0]) == n])),
              what + ': mutually similar items are not all together')
