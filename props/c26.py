ID = 'C26'
BOUNDS = {'quick': 'component sizes: every graph of up to 4 nodes, loops included, and every edge filter; sparsification: paths, cycles and stars of 4 nodes (every weight in quarters from 0 to 1), max_drifter_size 1 to 3 or its default, learning rates 0.25 and 0.5, starting thresholds 0 and 0.25, and a star of 8 nodes with the default size; a barbell of 10 nodes and a tree of 21 with three free weights',
          'thorough': 'every graph of 5 nodes'}
ASSUMPTIONS = ['the learning rate is positive', 'weights and thresholds are exactly representable in floating point']


def cases(tier):
    out = []
    N = 4 if tier == 'quick' else 5
    for n in range(N + 1):
        out.append({'f': 'sizes', 'n': n})
        out.append({'f': 'sizes', 'n': n, 'filter': True}) if n < 4 or tier != 'quick' else None
    out.append({'f': 'sizes', 'n': 3, 'loops': True})
    out.append({'f': 'sizes', 'n': 3, 'directed': True})
    for d in (1, 2, 3, None):
        for lr, start in ((0.25, 0.0), (0.5, 0.25)):
            out.append({'f': 'floatsam', 'n': 4, 'edges': 'path', 'd': d, 'lr': lr, 'start': start})
            out.append({'f': 'floatsam', 'n': 4, 'edges': 'cycle', 'd': d, 'lr': lr, 'start': start, 'remove': True})
            out.append({'f': 'floatsam', 'n': 4, 'edges': 'star', 'd': d, 'lr': lr, 'start': start, 'remove': True, 'name': 'w'})
    out.append({'f': 'floatsam', 'n': 5, 'edges': 'path', 'd': 2, 'lr': 0.25, 'start': 0.0, 'remove': True})
    out.append({'f': 'floatsam', 'n': 8, 'edges': 'star', 'd': None, 'lr': 0.5, 'start': 0.0})
    out.append({'f': 'floatsam', 'n': 3, 'edges': 'none', 'd': None, 'lr': 0.5, 'start': 0.25})
    for edges, free in (('barbell', [0, 5, 6]), ('barbell', [2, 4, 7]), ('tree', [0, 1, 8]), ('tree', [2, 5, 9])):
        for d in (2, 4, None):
            for lr, start in ((0.25, 0.0), (0.125, 0.25)):
                out.append({'f': 'floatsam', 'n': 10 if edges == 'barbell' else 21, 'edges': edges, 'd': d, 'lr': lr, 'start': start, 'remove': True, 'free': free})
    return out


def components(n, edges):
    left, sizes = set(range(n)), []
    while left:
        todo, comp = [left.pop()], 0
        while todo:
            x = todo.pop()
            comp += 1
            for u, v in edges:
                for a, b in ((u, v), (v, u)):
                    if a == x and b in left:
                        left.discard(b)
                        todo.append(b)
        sizes.append(comp)
    return sorted(sizes, reverse=True)


def run(ctx, case):
    import networkx as nx
    n = case['n']
    g = nx.Graph()
    g.add_nodes_from(range(n))
    if case['f'] == 'sizes':
        mod = ctx.imp('fog.graph.utils')
        kept = []
        for i in range(n):
            for j in range(i if case.get('loops') else i + 1, n):
                if ctx.bool('e%d%d' % (i, j)):
                    ok = True
                    if case.get('filter'):
                        ok = True if ctx.bool('f%d%d' % (i, j)) else False
                    g.add_edge(j, i, ok=ok)
                    if ok:
                        kept.append((i, j))
        args = ((lambda u, v, attr: attr['ok']),) if case.get('filter') else ()
        got = sorted(mod.component_sizes(g, *args), reverse=True)
        want = components(n, kept)
        ctx.check(got == want, 'component_sizes is wrong')
        ctx.check(mod.second_largest_component_size(g, *args) == (want[1] if len(want) > 1 else None), 'the size of the second largest component is wrong')
        return
    mod = ctx.imp('fog.graph')
    E = {'path': [(i, i + 1) for i in range(n - 1)], 'cycle': [(i, (i + 1) % n) for i in range(n)],
         'star': [(0, i) for i in range(1, n)], 'none': [], 'tree': [((i - 1) // 2, i) for i in range(1, n)],
         'barbell': [(i, j) for b in (0, n // 2) for i in range(b, b + n // 2) for j in (i + 1, i + 2) if j < b + n // 2] + [(n // 2 - 1, n // 2)]}[case['edges']]
    name = case.get('name', 'weight')
    w = []
    for k, (u, v) in enumerate(E):
        q = ctx.int('w%d' % k, 0, 4) / 4 if k in case.get('free', [k]) else (k * 5 % 7) / 8 + 0.125
        w.append(q)
        g.add_edge(u, v, **{name: q})
    kw = {}
    if case['d'] is not None:
        kw['max_drifter_size'] = case['d']
    if case.get('name'):
        kw['weight'] = name
    if case.get('remove'):
        kw['remove_edges'] = True
    ctx.steps(4000)
    lr, start = case['lr'], case['start']
    got = mod.floatsam_sparsification(g, starting_treshold=start, learning_rate=lr, **kw)
    ctx.observe(got)
    if not E:
        ctx.check(got == start, 'a graph without edges does not get the starting threshold')
        return
    d = case['d']
    if d is None:
        d = {4: 1, 8: 2, 10: 2, 21: 3}[n]
    # the threshold moves up until a component of that size drifts away (or no edge is left)
    t, steps = start, 0
    while True:
        up = t + lr
        left = [e for e, x in zip(E, w) if x >= up]
        s = components(n, left)
        if not left or (len(s) > 1 and s[1] >= d):
            break
        t = up
        steps += 1
    ctx.check(got == t, 'the threshold is not the last one before a component drifts away')
    edges = sorted((min(u, v), max(u, v)) for u, v in g.edges)
    want = sorted((min(u, v), max(u, v)) for (u, v), x in zip(E, w) if not case.get('remove') or x >= got)
    ctx.check(edges == want, 'the graph has not the edges it should have after sparsification')
    ctx.check(len(g) == n, 'nodes are lost')
