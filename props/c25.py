import math

ID = 'C25'
METRICS = (None, 'jaccard', 'overlap', 'dice', 'binary_cosine', 'cosine')
BOUNDS = {'quick': 'every bipartite graph between 3 projected and 2 other nodes (2 and 3 for the cosine with symbolic real weights), isolated nodes included, every threshold in [0, 1] (away from the similarities, or equal to 0, 1/2, 1, 2 or 3), with and without topology, for the 6 metrics; 6 to 11 projected nodes of which two or four edges are free; every edge between two nodes of the same part and every third part for the check',
          'thorough': '3 projected and 3 other nodes (3 and 2 for the cosine)'}
ASSUMPTIONS = ['nodes of the projected part can be ordered', 'floating-point numbers are treated as reals', 'weights are not negative']


def cases(tier):
    out = []
    for topo in (True, False):
        for m in METRICS:
            if m == 'cosine':
                out.append({'m': m, 'topo': topo, 'n': 2, 'k': 2})
                out.append({'m': m, 'topo': topo, 'n': 2, 'k': 2, 'ones': True, 't': True})
                out.append({'m': m, 'topo': topo, 'n': 3, 'k': 1})
                if tier != 'quick':
                    out.append({'m': m, 'topo': topo, 'n': 2, 'k': 3})
                    out.append({'m': m, 'topo': topo, 'n': 3, 'k': 2})
            else:
                out.append({'m': m, 'topo': topo, 'n': 3, 'k': 2})
                out.append({'m': m, 'topo': topo, 'n': 3, 'k': 2, 't': True})
                out.append({'m': m, 'topo': topo, 'n': 2, 'k': 3, 't': True, 'named': True})
                out.append({'m': m, 'topo': topo, 'n': 2, 'k': 3, 't': 'exact'})
                if tier != 'quick':
                    out.append({'m': m, 'topo': topo, 'n': 3, 'k': 3, 't': True})
                    out.append({'m': m, 'topo': topo, 'n': 3, 'k': 3, 't': 'exact'})
    for topo in (True, False):
        for m in METRICS:
            for fixed in ('1110? 0111? 11100 00?11 00000 10?01', '1? 10 01 11 ?1 11 10 01 10 11 01'):
                out.append({'m': m, 'topo': topo, 'fixed': fixed, 'ones': True, 't': 'exact'})
    out += [{'check': 'same'}, {'check': 'third'}, {'check': 'metric'}]
    return out


def run(ctx, case):
    import networkx as nx
    mod = ctx.imp('fog.graph')
    g = nx.Graph()
    if case.get('check'):
        what = case['check']
        for i in range(2):
            g.add_node('a%d' % i, bipartite='A')
            g.add_node('b%d' % i, bipartite='B' if what != 'third' else 'BC'[i])
        pairs = [('a0', 'b0'), ('a0', 'b1'), ('a1', 'b0'), ('a0', 'a1'), ('b0', 'b1')]
        has = [p for p in pairs if ctx.bool(p[0] + p[1])]
        g.add_edges_from(has)
        part = {n: d['bipartite'] for n, d in g.nodes(data=True)}
        ok = all(part[u] != part[v] for u, v in has) and len(set(part[x] for p in has for x in p)) <= 2
        kw = {'metric': 'other'} if what == 'metric' else {}
        try:
            mod.monopartite_projection(g, 'A', **kw)
            ctx.check(ok and what != 'metric', 'a graph that is not bipartite (or an unknown metric) is accepted')
        except TypeError:
            ctx.check(not ok or what == 'metric', 'a bipartite graph is refused')
        return
    m = case['m']
    fixed = case.get('fixed', '').split()
    n, k = (len(fixed), len(fixed[0])) if fixed else (case['n'], case['k'])
    part, weight = ('part', 'w') if case.get('named') else ('bipartite', 'weight')
    P = ['p%d' % i for i in range(n)]
    Q = ['a%d' % i if i % 2 else 'z%d' % i for i in range(k)]
    W = {}
    for x in P:
        g.add_node(x, **{part: 'P', 'size': len(x) + int(x[1:])})
    for y in Q:
        g.add_node(y, **{part: 'Q'})
    for i, x in enumerate(P):
        for j, y in enumerate(Q):
            if fixed[i][j] == '1' if fixed and fixed[i][j] != '?' else ctx.bool('e%d_%d' % (i, j)):
                if m == 'cosine' and not case.get('ones'):
                    W[x, y] = ctx.real('w%d%d' % (i, j), 0, 100)
                    if i % 2:
                        g.add_edge(x, y, **{weight: W[x, y]})
                    else:
                        g.add_edge(y, x, **{weight: W[x, y]})
                else:
                    W[x, y] = 1
                    g.add_edge(x, y)
    kw = {}
    if case.get('named'):
        kw = {'part': 'part', 'weight': 'w'}
    t = None
    if case.get('t') == 'exact':
        # thresholds that the similarities can equal, without rounding
        t = kw['threshold'] = ctx.choice('threshold', [0, 0.45, 0.65, 0.95] if m == 'cosine' else [0, 0.5, 1, 2, 3])
    elif case.get('t'):
        t = kw['threshold'] = ctx.real('threshold', 0, 1)
        for a in range(1, 4):
            for b in range(1, 4):
                for v in (a / b, a / math.sqrt(b), 2 * a / (b + 3), a / math.sqrt(6), a / math.sqrt(b * 2)):
                    ctx.assume(ctx.any([t > v + 1e-6, t < v - 1e-6]))
    before = sorted((min(u, v), max(u, v)) for u, v in g.edges)
    got = mod.monopartite_projection(g, 'P', metric=m, use_topology=case['topo'], **kw)
    ctx.check(sorted((min(u, v), max(u, v)) for u, v in g.edges) == before and len(g) == n + k, 'the bipartite graph is changed')
    ctx.check(sorted(got.nodes) == sorted(P), 'the projection has not exactly the nodes of the part')
    ctx.check(all(got.nodes[x] == g.nodes[x] for x in P), 'node attributes are lost')
    ctx.check(all(u != v for u, v in got.edges), 'the projection has a loop')
    ctx.observe(sorted((min(u, v), max(u, v)) for u, v in got.edges))
    for i in range(n):
        for j in range(i + 1, n):
            x, y = P[i], P[j]
            a = {q: W[x, q] for q in Q if (x, q) in W}
            b = {q: W[y, q] for q in Q if (y, q) in W}
            common = [q for q in a if q in b]
            c, la, lb = len(common), len(a), len(b)
            has = got.has_edge(x, y)
            value = got[x][y].get(weight) if has else None
            if m == 'cosine' and not case.get('ones'):
                dot = sum(a[q] * b[q] for q in common)
                ctx.check(ctx.iff(has, dot > 0), 'the projection has not exactly the edges it should have')
                if has:
                    xx, yy = sum(w * w for w in a.values()), sum(w * w for w in b.values())
                    ctx.check(ctx.all([value > 0, ctx.close(value * value * xx * yy, dot * dot)]), 'an edge has not the right weight')
                continue
            want = 0 if c == 0 else {None: lambda: c, 'jaccard': lambda: c / (la + lb - c), 'overlap': lambda: c / min(la, lb),
                                     'dice': lambda: 2 * c / (la + lb), 'binary_cosine': lambda: c / math.sqrt(la * lb),
                                     'cosine': lambda: c / math.sqrt(la * lb)}[m]()
            keep = want > 0 if t is None else ctx.all([want > 0, want >= t])
            ctx.check(ctx.iff(has, keep), 'the projection has not exactly the edges it should have')
            if has:
                ctx.check(ctx.close(value, want), 'an edge has not the right weight')
