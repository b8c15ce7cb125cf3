from props import graphs
from props.relations import relation, KINDS

ID = 'C10'
BOUNDS = {'quick': '4 items (5 for plain similarities), every symmetric similarity or distance between them (booleans, integers, reals), every radius, every min_size and max_size; '
                   'lists and generators, with and without a key; data with a repeated item; 8 and 11 items with 6 free relations, 70 items with 3',
          'thorough': '5 items (6 for plain similarities), every symmetric similarity or distance, every radius, min_size and max_size'}
ASSUMPTIONS = ['the similarity or distance is symmetric', 'min_size >= 2', 'floating-point numbers are treated as reals']
MODES = ('leader', 'fuzzy_clusters', 'connected_components')


def cases(tier):
    n = 5 if tier == 'quick' else 6
    out = []
    for mode in MODES:
        for m in range(n + 1):
            out.append({'mode': mode, 'n': m, 'kind': 'similarity'})
        for kind in KINDS:
            out.append({'mode': mode, 'n': n - 1, 'kind': kind, 'lo': 1, 'hi': 1, 'gen': True})
        out.append({'mode': mode, 'n': n, 'kind': 'similarity', 'lo': 1, 'hi': 1, 'key': True})
        out.append({'mode': mode, 'n': 4, 'kind': 'similarity', 'dup': True})
        for m in (8, 11, 70):
            out.append({'mode': mode, 'n': m, 'kind': 'sparse%d' % m, 'lo': 1, 'hi': 1})
    out += [{'mode': 'bad'}, {'mode': 'nofunction'}]
    return out


def run(ctx, case):
    mod = ctx.imp('fog.clustering.pairwise')
    mode = case['mode']
    if mode in ('bad', 'nofunction'):
        try:
            if mode == 'bad':
                list(mod.pairwise(['a', 'b'], mode='other', similarity=lambda a, b: True))
            else:
                list(mod.pairwise(['a', 'b']))
        except TypeError:
            ctx.check(True, '')
            return
        ctx.check(False, 'a wrong call is accepted')
    n = case['n']
    items = ['i%d' % i for i in range(n)]
    kw, E = relation(ctx, items, case['kind'])
    skw, lo, hi = graphs.sizes(ctx, case, n)
    kw.update(skw)
    data = items
    if case.get('key') and mode != 'leader':
        data = [(k, len(items) - i) for i, k in enumerate(items)]
        kw['key'] = lambda x: x[0]
    if case.get('dup'):
        data = items + items[1:2]
    def given():
        return iter(data) if case.get('gen') else list(data)
    got = ctx.drain(lambda: mod.pairwise(given(), mode=mode, **kw))
    if case.get('dup'):
        # positions, not values, are clustered: the repeated item is similar to itself
        n += 1
        last = n - 1
        for i in range(last):
            E[i, last] = True if i == 1 else graphs.edge(E, i, 1)
        got = positions(ctx, data, got)
    else:
        got = graphs.indices(ctx, data, got, mode)
    ctx.check(len(got) <= n, 'more clusters than items')
    ctx.observe(sorted(sorted(c) for c in got))
    if mode != 'leader':
        graphs.check_mode(ctx, mode, got, n, E, lo, hi, mode)
        return
    seen = set()
    for c in got:
        ctx.check(graphs.within(ctx, len(c), lo, hi), 'leader: a cluster has not a viable size')
        for x in c:
            ctx.check(x not in seen, 'leader: an item appears more than once')
            seen.add(x)
        for x in c[1:]:
            ctx.check(graphs.edge(E, c[0], x), 'leader: a member is not similar to the leader of its cluster')
            ctx.check(c[0] < x, 'leader: the leader is not the first item of its cluster')
    if case.get('hi'):
        return
    # exactly the greedy clustering
    left, want = list(range(n)), []
    while left:
        a = left.pop(0)
        c = [a] + [b for b in left if edge_is(E, a, b)]
        left = [b for b in left if b not in c]
        if len(c) >= 2 and len(c) >= lo:
            want.append(sorted(c))
    ctx.check(sorted(sorted(c) for c in got) == sorted(want), 'leader: an item is not with the first leader it is similar to')


def edge_is(E, a, b):
    return True if E[a, b] else False


def positions(ctx, data, clusters):
    """values to positions, giving the k-th occurrence of a repeated value its k-th position"""
    out = []
    used = {}
    for c in clusters:
        ids = []
        local = {}
        for x in c:
            places = [i for i, y in enumerate(data) if y == x]
            k = local.get(x, 0)
            local[x] = k + 1
            ids.append((x, k, places))
        out.append(ids)
    res = []
    for c in out:
        ids = []
        for x, k, places in c:
            if len(places) > 1 and len([1 for y, _, _ in c if y == x]) == 1:
                # only one of the two occurrences is here
                k = used.get(x, 0)
                used[x] = k + 1
            ctx.check(k < len(places), 'an item appears more often than in the data')
            ids.append(places[k])
        res.append(ids)
    return res
