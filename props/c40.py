from props import graphs, stubs, metric

ID = 'C40'
BOUNDS = {'quick': '0..3 items (4 with connected components), every metric between them, items at a null distance included, every radius, every first pivot, the default number of pivots or 0 to n of them; 9 items on a line, one of them anywhere, for some radius and numbers of pivots',
          'thorough': 'up to 4 items in both modes with every number of pivots'}
ASSUMPTIONS = ['the distance is a metric, or a pseudo-metric (distinct items may be at a null distance)', 'items are distinct', 'min_size >= 2', 'not more pivots than items']
INTERLEAVED = 60


def cases(tier):
    out = []
    for mode in ('connected_components', 'fuzzy_clusters'):
        for n in (0, 1, 2, 3):
            for p in ([None] if n < 2 else [None, 0, 1, 2, 3][:n + 2]):
                out.append({'n': n, 'mode': mode, 'pivots': p})
        out.append({'n': 3, 'mode': mode, 'pivots': 2, 'gen': True, 'lo': 1, 'hi': 1})
    for p in (None, 1):
        for f in range(4):
            out.append({'n': 4, 'mode': 'connected_components', 'pivots': p, 'first': f})
    for radius in (2, 4, 7):
        for p in (None, 1, 2, 3, 5, 9):
            out.append({'n': 9, 'places': [0, 3, 7, 8, None, 15, 17, 24, 30], 'radius': radius, 'mode': 'fuzzy_clusters' if p == 3 else 'connected_components', 'pivots': p, 'first': 0 if p == 5 else 3})
    if tier != 'quick':
        for mode in ('connected_components', 'fuzzy_clusters'):
            for p in (1, 2, 3, 4):
                for f in range(4):
                    out.append({'n': 4, 'mode': mode, 'pivots': p, 'first': f})
    return out


def run(ctx, case):
    mod = ctx.imp('fog.clustering.laesa')
    n = case['n']
    items = ['i%d' % i for i in range(n)]
    if 'places' in case:
        radius = case['radius']
        D, E = metric.line(ctx, case['places'], radius)
    else:
        radius = ctx.int('radius', 0, 30)
        D, E = metric.metric(ctx, n, radius, positive=False)
    distance = metric.function(ctx, items, D)
    kw, lo, hi = graphs.sizes(ctx, case, n)
    if case['pivots'] is not None:
        kw['pivots'] = case['pivots']
    stubs.install_random(ctx, ['fog.clustering.laesa'], 8, [case['first']] if 'first' in case else None, again=8)
    def data():
        return iter(items) if case.get('gen') else list(items)
    got = ctx.drain(lambda: mod.laesa(data(), distance, radius, mode=case['mode'], **kw))
    got = graphs.indices(ctx, items, got, 'laesa')
    ctx.check(len(got) <= n, 'more clusters than items')
    ctx.observe(sorted(sorted(c) for c in got))
    graphs.check_mode(ctx, case['mode'], got, n, E, lo, hi, 'laesa')
