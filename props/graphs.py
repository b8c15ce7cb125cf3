"""What a clustering must look like, given the (symbolic) similarity graph.

`E` maps a pair (i, j), i < j, to a condition; clusters are lists of indices."""


def edge(E, i, j):
    return E[(i, j) if i < j else (j, i)]


def count(ctx, conds):
    r = 0
    for c in conds:
        r = r + ctx.ite(c, 1, 0)
    return r


def reachability(ctx, n, E):
    if n > 12:
        return sparse_reachability(ctx, n, E)
    R = [[True if i == j else edge(E, i, j) for j in range(n)] for i in range(n)]
    for k in range(n):
        for i in range(n):
            for j in range(n):
                if i != j and k not in (i, j):
                    R[i][j] = ctx.any([R[i][j], ctx.all([R[i][k], R[k][j]])])
    return R


def sparse_reachability(ctx, n, E):
    """the same, when most of the edges are known"""
    group = list(range(n))
    for (i, j), e in E.items():
        if e is True:
            a, b = group[i], group[j]
            group = [a if g == b else g for g in group]
    free = [(group[i], group[j], e) for (i, j), e in E.items() if e is not True and e is not False and group[i] != group[j]]
    nodes = sorted(set(x for a, b, _ in free for x in (a, b)))
    at = {x: k for k, x in enumerate(nodes)}
    small = {(i, j): [] for i in range(len(nodes)) for j in range(i + 1, len(nodes))}
    for a, b, e in free:
        small[tuple(sorted((at[a], at[b])))].append(e)
    R = [[True if i == j else ctx.any(edge(small, i, j)) for j in range(len(nodes))] for i in range(len(nodes))]
    for k in range(len(nodes)):
        for i in range(len(nodes)):
            for j in range(len(nodes)):
                if i != j and k not in (i, j):
                    R[i][j] = ctx.any([R[i][j], ctx.all([R[i][k], R[k][j]])])
    return [[True if group[i] == group[j] else R[at[group[i]]][at[group[j]]] if group[i] in at and group[j] in at else False
             for j in range(n)] for i in range(n)]


def index_of(ctx, items, x):
    for i, y in enumerate(items):
        if x is y:
            return i
    for i, y in enumerate(items):
        if ctx.eq(x, y) is True:
            return i
    for i, y in enumerate(items):
        if x == y:
            return i
    return None


def indices(ctx, items, clusters, what):
    out = []
    for c in clusters:
        ids = [index_of(ctx, items, x) for x in c]
        ctx.check(None not in ids, what + ': a cluster holds something that is not one of the items')
        out.append(ids)
    return out


def within(ctx, size, lo, hi):
    return ctx.all([size >= lo, size <= hi])


def check_components(ctx, clusters, n, E, lo, hi, what):
    """clusters are exactly the connected components having a viable size"""
    R = reachability(ctx, n, E)
    where = [[k for k, c in enumerate(clusters) for x in c if x == v] for v in range(n)]
    ctx.check(all(len(w) <= 1 for w in where), what + ': an item appears more than once')
    for v in range(n):
        size = count(ctx, R[v])
        viable = ctx.all([within(ctx, size, lo, hi), size >= 2])
        ctx.check(ctx.iff(bool(where[v]), viable),
                  what + ': an item is ' + ('in a cluster although its component has not a viable size' if where[v] else
                                           'missing although its component has a viable size'))
    for v in range(n):
        for u in range(v + 1, n):
            if where[v] and where[u]:
                ctx.check(ctx.iff(where[v] == where[u], R[u][v]),
                          what + ': ' + ('unrelated items are together' if where[v] == where[u] else 'related items are apart'))


def check_fuzzy(ctx, clusters, n, E, lo, hi, what):
    """each cluster is a center (first) with all of its neighbors, no center
    belongs to an earlier cluster, and every item whose neighborhood has a viable size
    is covered"""
    centers = []
    covered = set()
    for c in clusters:
        ctx.check(len(set(c)) == len(c), what + ': an item appears twice in a cluster')
        ctx.check(within(ctx, len(c), lo, hi), what + ': a cluster has not a viable size')
        ctx.check(len(c) >= 2, what + ': a cluster is alone')
        for u in range(n):
            if u != c[0]:
                ctx.check(ctx.iff(u in c, edge(E, c[0], u)), what + ': a cluster is not a center with all of its neighbors')
        ctx.check(c[0] not in covered, what + ': the center of a cluster belongs to an earlier one')
        centers.append(c[0])
        covered.update(c)
    for v in range(n):
        if v in covered:
            continue
        deg = count(ctx, [edge(E, v, u) for u in range(n) if u != v])
        ctx.check(ctx.no(ctx.all([deg >= 1, within(ctx, deg + 1, lo, hi)])),
                  what + ': an item with a viable neighborhood is in no cluster')


def check_mode(ctx, mode, clusters, n, E, lo, hi, what):
    if mode == 'fuzzy_clusters':
        check_fuzzy(ctx, clusters, n, E, lo, hi, what)
    else:
        check_components(ctx, clusters, n, E, lo, hi, what)


def sizes(ctx, case, n):
    """keyword arguments and bounds for min_size and max_size"""
    kw = {}
    lo, hi = 2, float('inf')
    if case.get('lo'):
        lo = kw['min_size'] = ctx.int('min_size', 2, n + 1)
    if case.get('hi'):
        hi = kw['max_size'] = ctx.int('max_size', 2, n + 1)
    return kw, lo, hi


def components_cond(ctx, clusters, n, E, lo, hi):
    """the condition checked by check_components"""
    R = reachability(ctx, n, E)
    where = [[k for k, c in enumerate(clusters) for x in c if x == v] for v in range(n)]
    if any(len(w) > 1 for w in where):
        return False
    conds = []
    for v in range(n):
        size = count(ctx, R[v])
        conds.append(ctx.iff(bool(where[v]), ctx.all([within(ctx, size, lo, hi), size >= 2])))
        for u in range(v + 1, n):
            if where[v] and where[u]:
                conds.append(ctx.iff(where[v] == where[u], R[u][v]))
    return ctx.all(conds)
