from props import graphs, stubs, metric

ID = 'C19'
BOUNDS = {'quick': '0..4 distinct items, every (pseudo-)metric between them, every radius, min_size and max_size, every vantage point drawn (one draw per node is fixed for 4 items beyond the first two); 9 items on a line, one of them anywhere, for some radius and draws',
          'thorough': '0..4 items with every vantage point, 5 items with the first draws fixed'}
ASSUMPTIONS = ['the distance is a pseudo-metric with integer values up to 60', 'min_size >= 1']
INTERLEAVED = 40


def cases(tier):
    out = []
    for n in range(4):
        out.append({'n': n})
        out.append({'n': n, 'lo': 1, 'hi': 1, 'gen': True})
    out.append({'n': 4, 'first': [2, 2, 0, 0, 0, 0, 0, 0, 0, 0]})
    out.append({'n': 4, 'lo': 1, 'hi': 1, 'first': [0, 0, 1, 0, 0, 0]})
    for radius in (0, 2, 4, 7):
        for first in ([0], [4, 3], [8, 0]):
            out.append({'n': 9, 'places': [0, 3, 7, 8, None, 15, 17, 24, 30], 'radius': radius, 'first': first, 'lo': first == [0], 'hi': first == [0]})
    if tier != 'quick':
        out.append({'n': 4})
        for i in range(5):
            out.append({'n': 5, 'first': [i, i] + [0] * 10})
    return out


def run(ctx, case):
    mod = ctx.imp('fog.clustering.vp_tree')
    n = case['n']
    items = ['i%d' % i for i in range(n)]
    if 'places' in case:
        radius = case['radius']
        D, E = metric.line(ctx, case['places'], radius)
    else:
        radius = ctx.int('radius', 0, 30)
        D, E = metric.metric(ctx, n, radius, positive=False)
    kw = {}
    lo, hi = 2, float('inf')
    if case.get('lo'):
        lo = kw['min_size'] = ctx.int('min_size', 1, n + 1)
    if case.get('hi'):
        hi = kw['max_size'] = ctx.int('max_size', 1, n + 1)
    stubs.install_random(ctx, ['fog.clustering.vp_tree', 'phylactery.vptree'], 400 if 'places' in case else 40, case.get('first'), again=40, cls=stubs.Spread if 'places' in case else None)
    def data():
        return iter(items) if case.get('gen') else list(items)
    got = ctx.drain(lambda: mod.vp_tree(data(), metric.function(ctx, items, D), radius, **kw))
    got = graphs.indices(ctx, items, got, 'vp_tree')
    ctx.observe(sorted(sorted(c) for c in got))
    ctx.check(len(got) <= n, 'more clusters than items')
    covered = set()
    for c in got:
        ctx.check(len(set(c)) == len(c), 'an item appears twice in a cluster')
        ctx.check(graphs.within(ctx, len(c), lo, hi), 'a cluster has not a viable size')
        around = []
        for v in c:
            if v not in covered:
                around.append(ctx.all([ctx.iff(u in c, graphs.edge(E, u, v)) for u in range(n) if u != v]))
        ctx.check(ctx.any(around), 'a cluster is not made of all the items within the radius of an item not in an earlier one')
        covered.update(c)
    for v in range(n):
        if v not in covered:
            size = 1 + graphs.count(ctx, [graphs.edge(E, u, v) for u in range(n) if u != v])
            ctx.check(ctx.no(graphs.within(ctx, size, lo, hi)), 'an item with a viable neighborhood is in no cluster')
