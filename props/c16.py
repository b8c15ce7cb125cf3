from props import graphs

ID = 'C16'
BOUNDS = {'quick': '2 or 3 items of 0..4 tokens (7 in all), every equality pattern between tokens (repetitions included), every radius in (0, 1], both metrics and modes, every min_size/max_size; 7 items of up to 10 tokens, and 19 sharing tokens, two of which are free, with radius 1/8, 1/4, 1/2, 3/4 and 1',
          'thorough': '2 to 4 items of 0..5 tokens (8 in all)'}
ASSUMPTIONS = ['the radius is not within 1e-6 of a ratio of small integers, unless it equals one that floating point represents exactly',
               'hash containers iterate in insertion order in the model', 'min_size >= 2']


def cases(tier):
    shapes = [[2, 2], [3, 3], [4, 3], [2, 2, 2], [3, 2, 2], [0, 1, 1], [1, 4]]
    if tier != 'quick':
        shapes += [[4, 4], [5, 3], [3, 3, 2], [2, 2, 2, 2]]
    out = []
    for metric in ('jaccard', 'overlap'):
        for mode in ('connected_components', 'fuzzy_clusters'):
            for sh in shapes:
                if len(sh) == 2 and mode != 'connected_components':
                    continue
                out.append({'metric': metric, 'mode': mode, 'shape': sh})
            out.append({'metric': metric, 'mode': mode, 'shape': [2, 2, 1], 'lo': 1, 'hi': 1, 'key': True})
        out.append({'metric': metric, 'mode': 'connected_components', 'shape': [3, 3], 'strings': True})
        for fixed in (['abcdefgh', 'abcdefg?', 'hijk?', 'aab', 'ijkl', '', 'abcdi'], ['abcd', 'cdef', 'efgh', 'ghij', 'a?', '?j', 'abcdefghij']):
            for mode in ('connected_components', 'fuzzy_clusters'):
                out.append(dict({'metric': metric, 'mode': mode, 'fixed': fixed}, **({} if mode == 'fuzzy_clusters' else {'hi': 1})))
        out.append({'metric': metric, 'mode': 'connected_components', 'fixed': ['ab' + x for x in 'cdefghijklmnopqrs'] + ['ab?', '?u']})
        out.append({'metric': metric, 'mode': 'fuzzy_clusters', 'shape': [2, 0, 1], 'key': True})
    out.append({'metric': 'jaccard', 'mode': 'connected_components', 'shape': [5, 5], 'default': True})
    out.append({'metric': 'bad'})
    return out


def safe_radius(ctx, r, most=8):
    seen = set()
    for q in range(1, most + 1):
        for p in range(q + 1):
            if p / q in seen:
                continue
            seen.add(p / q)
            away = ctx.any([r > p / q + 1e-6, r < p / q - 1e-6])
            if p / q in (0.25, 0.5, 0.75, 1.0, 0.125, 0.375, 0.625, 0.875):
                away = ctx.any([away, ctx.eq(r, p / q)])
            ctx.assume(away)


def distinct_count(xs):
    reps = []
    for x in xs:
        if not any(x == r for r in reps):
            reps.append(x)
    return reps


def run(ctx, case):
    mod = ctx.imp('fog.clustering.intersection_index')
    if case['metric'] == 'bad':
        try:
            list(mod.intersection_index(['ab', 'ab'], metric='other'))
        except TypeError:
            ctx.check(True, '')
            return
        ctx.check(False, 'an unknown metric is accepted')
    shape = case.get('shape') or case['fixed']
    n = len(shape)
    if 'fixed' in case:
        T = [tuple(ctx.int('t%d_%d' % (i, j), 0, 20) if c == '?' else ord(c) - 97 for j, c in enumerate(s)) for i, s in enumerate(shape)]
    elif case.get('strings'):
        T = [ctx.string('t%d' % i, s) for i, s in enumerate(shape)]
    elif case.get('default'):
        # 4 tokens in common or not, one or none of its own
        base = [ctx.int('c%d' % i, 0, 9) for i in range(2)]
        T = [(100, 101, 102, base[0]), (100, 101, 102, base[1])]
    else:
        T = [tuple(ctx.int('t%d_%d' % (i, j), 0, 99) for j in range(s)) for i, s in enumerate(shape)]
    kw, lo, hi = graphs.sizes(ctx, case, n)
    if case.get('default'):
        radius = 0.8
    elif 'fixed' in case:
        radius = kw['radius'] = ctx.choice('radius', [0.125, 0.25, 0.5, 0.75, 1])
    else:
        radius = ctx.real('radius', 0, 1)
        ctx.assume(radius > 0)
        safe_radius(ctx, radius)
        kw['radius'] = radius
    data = T
    if case.get('key'):
        data = [(i, t) for i, t in enumerate(T)]
        kw['key'] = lambda x: x[1] and x[1][:]
    got = ctx.drain(lambda: mod.intersection_index(iter(data), metric=case['metric'], mode=case['mode'], **kw))
    got = [[next(i for i, x in enumerate(data) if x is y or y == x) for y in c] for c in got] if not ctx.symbolic else \
        [[next(i for i, x in enumerate(data) if x is y) for y in c] for c in got]
    if not ctx.symbolic:
        got = dedupe(data, got)
    ctx.observe(sorted(sorted(c) for c in got))
    D = [distinct_count(t) for t in T]
    E = {}
    for i in range(n):
        for j in range(i + 1, n):
            inter = len([x for x in D[i] if any(x == y for y in D[j])])
            d = len(D[i]) + len(D[j]) - inter if case['metric'] == 'jaccard' else min(len(D[i]), len(D[j]))
            E[i, j] = False if inter == 0 else inter / d >= radius
    ctx.check(len(got) <= n, 'more clusters than items')
    graphs.check_mode(ctx, case['mode'], got, n, E, lo, hi, 'intersection_index')


def dedupe(data, clusters):
    """equal items are told apart by their occurrence"""
    out = []
    for c in clusters:
        seen = {}
        ids = []
        for i in c:
            places = [k for k, x in enumerate(data) if x == data[i]]
            k = seen.get(places[0], 0)
            seen[places[0]] = k + 1
            ids.append(places[k] if k < len(places) else i)
        out.append(ids)
    return out
