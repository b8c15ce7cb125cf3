"""An arbitrary metric over a few items."""
from props import graphs


def metric(ctx, n, radius, positive=True):
    """(distances by pair, edges)"""
    D = {}
    for i in range(n):
        for j in range(i + 1, n):
            D[i, j] = ctx.int('d%d%d' % (i, j), 0, 60)
            if positive:
                ctx.assume(D[i, j] > 0)
    for i in range(n):
        for j in range(i + 1, n):
            for k in range(n):
                if k not in (i, j):
                    ctx.assume(D[i, j] <= graphs.edge(D, i, k) + graphs.edge(D, k, j))
    return D, {p: d <= radius for p, d in D.items()}


def function(ctx, items, D):
    def distance(A, B):
        i, j = graphs.index_of(ctx, items, A), graphs.index_of(ctx, items, B)
        return 0 if i == j else graphs.edge(D, i, j)
    return distance


def line(ctx, places, radius):
    """Items on a line, at given places or (None) anywhere else on it."""
    X = [ctx.int('x%d' % i, -50, 50) if x is None else x for i, x in enumerate(places)]
    n = len(X)
    D = {}
    for i in range(n):
        for j in range(i + 1, n):
            d = X[i] - X[j]
            D[i, j] = abs(d) if type(d) is int else ctx.ite(d >= 0, d, -d)
            if type(d) is not int:
                ctx.assume(D[i, j] > 0)
    return D, {p: d <= radius for p, d in D.items()}
