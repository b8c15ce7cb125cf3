from props import graphs, stubs, metric

ID = 'C18'
BOUNDS = {'quick': '0..4 distinct items, every metric between them, every radius, every choice of pivots (at most 6 random draws), blocks of 2 and 3 items; with vantage point trees, similarities, balancing and worker processes in every completion order on 3 items; 9 items on a line, one of them anywhere, for some radius and draws; the pivots join of up to 4 items',
          'thorough': 'up to 5 items and 8 random draws'}
ASSUMPTIONS = ['the distance (one minus the similarity) is a metric and the items are at positive distances from one another', 'block_size >= 2', 'floating-point numbers are treated as reals',
               'the worker pool and pickling are replaced by in-process stand-ins', 'min_size >= 2']
INTERLEAVED = 40


def cases(tier):
    out = []
    for mode in ('connected_components', 'fuzzy_clusters'):
        for n in (0, 1, 2, 3):
            out.append({'n': n, 'mode': mode, 'block': 2})
            out.append({'n': n, 'mode': mode, 'block': 500, 'vp': True})
        out.append({'n': 3, 'mode': mode, 'block': 2, 'similarity': True, 'gen': True})
        out.append({'n': 3, 'mode': mode, 'block': 2, 'pivots': [1, 0], 'beta': 0.75})
        out.append({'n': 3, 'mode': mode, 'block': 2, 'pivots': [0, 1], 'lo': 1, 'hi': 1})
        out.append({'n': 3, 'mode': mode, 'block': 2, 'pivots': [2, 0], 'processes': 2})
    out.append({'n': 3, 'mode': 'fuzzy_clusters', 'block': 2, 'draws': 4, 'again': 1})
    out.append({'n': 4, 'mode': 'connected_components', 'block': 3, 'pivots': [1, 2]})
    out.append({'n': 4, 'mode': 'connected_components', 'block': 2, 'pivots': [3, 1]})
    out.append({'n': 4, 'mode': 'connected_components', 'block': 500, 'vp': True})
    out.append({'n': 4, 'mode': 'fuzzy_clusters', 'block': 500})
    out.append({'n': 3, 'mode': 'connected_components', 'block': 2, 'pivots': [1, 2], 'vp': True, 'similarity': True})
    for radius in (2, 4, 7):
        for pivots in ([0, 3], [8, 1], [4, 5]):
            for vp in (False, True):
                out.append({'n': 9, 'places': [0, 3, 7, 8, None, 15, 17, 24, 30], 'radius': radius, 'mode': 'connected_components', 'block': 2 if pivots[0] else 4,
                            'pivots': pivots, 'cycle': True, 'vp': vp})
        out.append({'n': 9, 'places': [0, 3, 7, 8, None, 15, 17, 24, 30], 'radius': radius, 'mode': 'fuzzy_clusters', 'block': 3, 'pivots': [2, 6], 'cycle': True, 'processes': 2})
    for a, b in ((1, 1), (1, 2), (2, 1), (2, 2), (3, 1), (1, 0)) + (((2, 3), (3, 2)) if tier != 'quick' else ()):
        out.append({'pivots': None, 'join': [a, b]})
    out.append({'pivots': None, 'join': [17, 3], 'places': [0, 3, 7, 8, None, 15, 17, 24, 30, 31, 33, 37, -4, -5, -6, -9, 41, 2, 12, None], 'radius': 4})
    if tier != 'quick':
        for i in range(4):
            for j in range(4):
                if i != j:
                    out.append({'n': 4, 'mode': 'connected_components', 'block': 2, 'pivots': [i, j], 'draws': 6})
                    out.append({'n': 4, 'mode': 'fuzzy_clusters', 'block': 3, 'pivots': [i, j]})
    return out


def run(ctx, case):
    mod = ctx.imp('fog.clustering.quickjoin')
    if 'join' in case:
        return join(ctx, case, mod)
    n = case['n']
    items = ['i%d' % i for i in range(n)]
    if 'places' in case:
        radius = case['radius']
        D, E = metric.line(ctx, case['places'], radius)
    else:
        radius = ctx.int('radius', 0, 30)
        D, E = metric.metric(ctx, n, radius)
    distance = metric.function(ctx, items, D)
    kw, lo, hi = graphs.sizes(ctx, case, n)
    if case.get('similarity'):
        # similarities up to 1
        kw['similarity'] = lambda a, b: 1 - distance(a, b)
        radius = 1 - radius
    else:
        kw['distance'] = distance
    if case.get('beta'):
        kw['beta'] = case['beta']
    if case.get('processes'):
        kw['processes'] = case['processes']
        stubs.install(ctx, 'fog.clustering.quickjoin')
    if case.get('vp'):
        kw['vp_tree'] = True
    stubs.install_random(ctx, ['fog.clustering.quickjoin', 'phylactery.vptree'], 400 if case.get('cycle') else case.get('draws', 4), case.get('pivots'),
                         case.get('again', 0), cls=stubs.Spread if case.get('cycle') else None)
    def data():
        return iter(items) if case.get('gen') else list(items)
    got = ctx.drain(lambda: mod.quickjoin(data(), radius, block_size=case['block'], mode=case['mode'], **kw))
    got = graphs.indices(ctx, items, got, 'quickjoin')
    ctx.check(len(got) <= n, 'more clusters than items')
    ctx.observe(sorted(sorted(c) for c in got))
    graphs.check_mode(ctx, case['mode'], got, n, E, lo, hi, 'quickjoin')


def join(ctx, case, mod):
    a, b = case['join']
    n = a + b
    items = ['i%d' % i for i in range(n)]
    if 'places' in case:
        radius = case['radius']
        D, E = metric.line(ctx, case['places'], radius)
    else:
        radius = ctx.int('radius', 0, 30)
        D, E = metric.metric(ctx, n, radius)
    if not hasattr(mod, 'quickjoin_join_pivots'):
        return
    got = [(graphs.index_of(ctx, items, x), graphs.index_of(ctx, items, y)) for x, y in mod.quickjoin_join_pivots(items[:a], items[a:], metric.function(ctx, items, D), radius)]
    ctx.observe(sorted(got))
    ctx.check(len(set(got)) == len(got) and all(i < a <= j for i, j in got), 'quickjoin_join_pivots yields a wrong pair')
    for i in range(a):
        for j in range(a, n):
            ctx.check(ctx.iff((i, j) in got, E[i, j]), 'quickjoin_join_pivots: ' + ('a pair beyond the radius is found' if (i, j) in got else 'a pair within the radius is missed'))
