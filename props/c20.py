from props import graphs, stubs

ID = 'C20'
BOUNDS = {'quick': '0..3 items with every random draw and every similarity or distance (integers), radius and size bounds, 4 items with the first draws fixed; k from 1 to n + 1 or its default; the full variant with several rho and delta; local optimality for 3 or 4 items from given first neighbors, and 8 items on a line, two of them anywhere',
          'thorough': '4 items with more draws'}
ASSUMPTIONS = ['the similarity or distance is symmetric, with integer values in -20..20', 'runs drawing more random numbers than the bound are cut', 'min_size >= 2']
INTERLEAVED = 100


def cases(tier):
    out = []
    for f in ('nn_descent', 'nn_descent_full'):
        for mode in ('connected_components', 'fuzzy_clusters'):
            out.append({'f': f, 'mode': mode, 'n': 3, 'k': 1})
            out.append({'f': f, 'mode': mode, 'n': 3, 'k': 2, 'all': True})
        for n in (0, 1, 2):
            out.append({'f': f, 'mode': 'connected_components', 'n': n, 'k': None})
        out.append({'f': f, 'mode': 'connected_components', 'n': 3, 'k': None, 'distance': True, 'gen': True})
        out.append({'f': f, 'mode': 'connected_components', 'n': 3, 'k': 4, 'all': True})
        out.append({'f': f, 'mode': 'connected_components', 'n': 3, 'k': 2, 'all': True, 'distance': True, 'lo': 1, 'hi': 1})
        out.append({'f': f, 'mode': 'connected_components', 'n': 4, 'k': 2, 'first': [1, 2, 0, 3, 1, 3, 0, 1]})
    out.append({'f': 'nn_descent_full', 'mode': 'connected_components', 'n': 3, 'k': 2, 'rho': 1.0, 'all': True})
    out.append({'f': 'nn_descent_full', 'mode': 'connected_components', 'n': 3, 'k': 1, 'rho': 1.0, 'delta': 0})
    out.append({'f': 'nn_descent_full', 'mode': 'fuzzy_clusters', 'n': 3, 'k': 1, 'rho': 1.0, 'delta': 0.5})
    for f in ('nn_descent', 'nn_descent_full'):
        for offset in (0, 1):
            out.append({'f': f, 'mode': 'connected_components', 'n': 3, 'k': 1, 'cycle': offset, 'rho': 1.0})
        out.append({'f': f, 'mode': 'connected_components', 'n': 4, 'k': 1 if f == 'nn_descent' else 2, 'cycle': 0, 'rho': 1.0, 'dom': 1})
    for n, k, first in ((3, 1, [1, 2, 0]), (4, 1, [1, 2, 3, 0]), (4, 1, [1, 0, 0, 0]), (4, 1, [3, 3, 3, 0]), (4, 1, [1, 0, 3, 2]), (4, 2, [1, 2, 0, 3, 1, 3, 0, 1])):
        out.append({'f': 'nn_descent', 'mode': 'connected_components', 'n': n, 'k': k, 'first': first, 'optimum': True})
    out.append({'f': 'nn_descent', 'mode': 'connected_components', 'n': 8, 'k': 1, 'first': [1, 2, 3, 4, 5, 6, 7, 0], 'optimum': True, 'line': True})
    out.append({'f': 'nn_descent', 'mode': 'connected_components', 'n': 8, 'k': 2, 'first': [1, 2, 2, 3, 3, 4, 4, 5, 5, 6, 6, 7, 7, 0, 0, 1], 'optimum': True, 'line': True})
    if tier != 'quick':
        for first in ([1, 2, 3, 4, 0], [1, 0, 1, 1, 1]):
            out.append({'f': 'nn_descent', 'mode': 'connected_components', 'n': 5, 'k': 1, 'first': first, 'optimum': True, 'dom': 3})
        out.append({'f': 'nn_descent_full', 'mode': 'connected_components', 'n': 4, 'k': 2, 'rho': 1.0, 'first': [1, 2, 0, 3, 1, 3, 0, 1]})
    return out


class Cycle(stubs.Rng):
    """every value in turn: enough to draw all of them"""

    def pick(self, options):
        options = list(options)
        self.n += 1
        if self.n > self.cap:
            self.ctx.check(False, 'random numbers are drawn without end')
        return options[(self.n + self.offset) % len(options)]


def run(ctx, case):
    mod = ctx.imp('fog.clustering.nn_descent')
    n = case['n']
    items = ['i%d' % i for i in range(n)]
    radius = -1000 if case.get('optimum') else ctx.int('radius', -21, 21)
    top = case.get('dom', 20)
    if case.get('line'):
        # items on a line, two of them anywhere
        X = [3 * i * i % 17 for i in range(n - 2)] + [ctx.int('x0', 0, 20), ctx.int('x1', 0, 20)]
        S = {(i, j): -ctx.ite(X[i] > X[j], X[i] - X[j], X[j] - X[i]) for i in range(n) for j in range(i + 1, n)}
    else:
        S = {(i, j): ctx.int('s%d%d' % (i, j), -top, top) for i in range(n) for j in range(i + 1, n)}
    E = {p: (s <= radius if case.get('distance') else s >= radius) for p, s in S.items()}
    kw, lo, hi = graphs.sizes(ctx, case, n)

    def f(A, B):
        i, j = graphs.index_of(ctx, items, A), graphs.index_of(ctx, items, B)
        if i == j:
            return 0 if case.get('distance') else 20
        return graphs.edge(S, i, j)
    kw['distance' if case.get('distance') else 'similarity'] = f
    for p in ('k', 'rho', 'delta'):
        if p in case and not (p == 'rho' and case['f'] == 'nn_descent'):
            kw[p] = case[p]
    complete = case.get('all') or n <= 2
    cycle = complete or 'cycle' in case
    rng = stubs.install_random(ctx, ['fog.clustering.nn_descent'], 200 if cycle else max(12, len(case['first']) + 2) if case.get('first') else 5,
                               case.get('first'), again=40, cls=Cycle if cycle else None)
    rng.offset = case.get('cycle', 0)
    ctx.steps(3000)
    def data():
        return iter(items) if case.get('gen') else list(items)
    if case.get('optimum'):
        return optimum(ctx, case, mod, items, radius, kw, S)
    got = ctx.drain(lambda: getattr(mod, case['f'])(data(), radius, mode=case['mode'], **kw))
    got = graphs.indices(ctx, items, got, case['f'])
    ctx.observe(sorted(sorted(c) for c in got))
    ctx.check(len(got) <= n, 'more clusters than items')
    if complete:
        # every pair is known from the start
        graphs.check_mode(ctx, case['mode'], got, n, E, lo, hi, case['f'])
        return
    R = graphs.reachability(ctx, n, E)
    seen = set()
    for c in got:
        ctx.check(len(set(c)) == len(c), 'an item appears twice in a cluster')
        ctx.check(graphs.within(ctx, len(c), lo, hi), 'a cluster has not a viable size')
        for x in c[1:]:
            ctx.check(graphs.edge(E, c[0], x) if case['mode'] == 'fuzzy_clusters' else R[c[0]][x], 'unrelated items are together')
        ctx.check(case['mode'] == 'fuzzy_clusters' or not seen & set(c), 'an item is in two clusters')
        seen.update(c)
    ctx.check(True, '')


def optimum(ctx, case, mod, items, radius, kw, S):
    """No neighbor of a neighbor would be a better one."""
    n, k = case['n'], case['k']
    pairs = []
    if not hasattr(mod, 'clusters_from_pairs'):
        ctx.check(True, '')
        return
    real = mod.clusters_from_pairs

    def recording(it, *a, **b):
        it = list(it)
        pairs.extend(it)
        return real(iter(it), *a, **b)
    ctx.patch(mod, 'clusters_from_pairs', recording)
    list(getattr(mod, case['f'])(list(items), radius, mode=case['mode'], **kw))
    if not pairs:
        ctx.check(True, '')
        return
    near = [set() for _ in items]
    for a, b in pairs:
        a, b = [x if type(x) is int else items.index(x) for x in (a, b)]
        near[a].add(b)
        near[b].add(a)
    ctx.observe([sorted(x) for x in near])
    for i in range(n):
        ctx.check(len(near[i]) >= k, 'an item has not enough neighbors')
        for j in sorted(set(j for v in near[i] for j in near[v]) - near[i] - {i}):
            better = graphs.count(ctx, [graphs.edge(S, i, u) >= graphs.edge(S, i, j) for u in near[i]])
            ctx.check(better >= k, 'a neighbor of a neighbor is closer than the neighbors found')
