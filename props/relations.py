"""An arbitrary symmetric relation between items, given to the code as a
similarity or distance, with or without a radius."""
from props import graphs

KINDS = ('similarity', 'distance', 'similarity+radius', 'distance+radius')


def relation(ctx, items, kind, key=None):
    """(keyword arguments for the code, edges)"""
    n = len(items)
    if kind.startswith('sparse'):
        return sparse(ctx, items, kind)
    vals = {}
    E = {}
    kw = {}
    if 'radius' in kind:
        radius = ctx.real('radius', 0, 10)
        kw['radius'] = radius
    for i in range(n):
        for j in range(i + 1, n):
            if kind == 'similarity':
                vals[i, j] = E[i, j] = ctx.bool('s%d%d' % (i, j))
            elif kind == 'distance':
                vals[i, j] = ctx.int('d%d%d' % (i, j), 0, 3)
                E[i, j] = ctx.eq(vals[i, j], 0)
            else:
                vals[i, j] = ctx.real('d%d%d' % (i, j), 0, 10)
                E[i, j] = vals[i, j] >= radius if kind.startswith('sim') else vals[i, j] <= radius

    def f(A, B):
        i, j = graphs.index_of(ctx, items, A), graphs.index_of(ctx, items, B)
        if i == j:
            return True if kind == 'similarity' else 0 if kind.startswith('distance') else 10
        return graphs.edge(vals, i, j)
    kw['similarity' if kind.startswith('sim') else 'distance'] = f
    return kw, E


def sparse(ctx, items, kind, free=6):
    """many items, a few given relations and `free` arbitrary ones"""
    import random
    n = len(items)
    free = free if n <= 20 else 3
    rng = random.Random(kind)
    pairs = [(i, j) for i in range(n) for j in range(i + 1, n)]
    chosen = rng.sample(pairs, min(len(pairs), free + n // 2))
    E = {p: False for p in pairs}
    for k, p in enumerate(chosen):
        E[p] = ctx.bool('s%d_%d' % p) if k < free else True

    def f(A, B):
        i, j = graphs.index_of(ctx, items, A), graphs.index_of(ctx, items, B)
        return True if i == j else graphs.edge(E, i, j)
    return {'similarity': f}, E
