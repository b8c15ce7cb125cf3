from props import graphs

ID = 'C12'
BOUNDS = {'quick': '4 items, every assignment of one key, or of none to two keys (3 items), falsey keys included, every min_size and max_size, merged or not; 8 items of which 2 keys are free',
          'thorough': '5 items with one key, 4 items with none to two keys'}
ASSUMPTIONS = ['items are pairwise distinct', 'hash containers iterate in insertion order in the model', 'min_size >= 2']


def cases(tier):
    out = []
    n = 4 if tier == 'quick' else 5
    for m in range(n + 1):
        for merge in (True, False):
            out.append({'f': 'key', 'n': m, 'merge': merge, 'lo': 1, 'hi': 1})
            out.append({'f': 'key', 'n': m, 'merge': merge, 'strings': True})
    for shape in ([2, 2], [1, 2, 1], [2, 2, 1], [1, None, 1], [0, 1, 1], [2, 1, 2], [1, 1, 1, 1]) + (
            ([2, 2, 2], [2, 1, 1, 1], [2, 2, 1, 1]) if tier != 'quick' else ()):
        for merge in (True, False):
            out.append({'f': 'keys', 'shape': shape, 'merge': merge, 'lo': 1, 'hi': 1})
            out.append({'f': 'keys', 'shape': shape, 'merge': merge, 'gen': True})
    for merge in (True, False):
        out.append({'f': 'key', 'fixed': ['1', '2', '?', '1', '3', '2', '?', '0'], 'merge': merge, 'lo': 1, 'hi': 1})
        out.append({'f': 'key', 'fixed': ['1'] * 60 + ['?', '2', '0', '3'] + ['1'] * 20, 'merge': merge, 'lo': 1, 'hi': 1})
        out.append({'f': 'keys', 'fixed': ['12', '3?', '4', '', '?5', '51', '67', '0'], 'merge': merge, 'lo': 1, 'hi': 1})
    return out


def run(ctx, case):
    mod = ctx.imp('fog.clustering.key_collision')
    shape = case.get('shape') or ([1] * case['n'] if 'n' in case else case['fixed'])
    n = len(shape)
    items = ['i%d' % i for i in range(n)]
    if 'fixed' in case:
        K = [[ctx.int('k%d_%d' % (i, j), 0, 9) if c == '?' else int(c) for j, c in enumerate(s)] for i, s in enumerate(shape)]
    elif case.get('strings'):
        K = [[ctx.string('k%d' % i, i % 2)] for i in range(n)]
    else:
        K = [None if s is None else [ctx.int('k%d_%d' % (i, j), 0, 9) for j in range(s)] for i, s in enumerate(shape)]
    kw, lo, hi = graphs.sizes(ctx, case, n)

    def key(x):
        return K[items.index(x)][0]

    def keys(x):
        ks = K[items.index(x)]
        return iter(ks) if case.get('gen') and ks is not None else ks
    if case['f'] == 'key':
        kw['key'] = key
    else:
        kw['keys'] = keys
    got = ctx.drain(lambda: mod.key_collision(iter(items), merge=case['merge'], **kw))
    got = graphs.indices(ctx, items, got, 'key_collision')
    ctx.observe(sorted(sorted(c) for c in got))

    def truthy(k):
        return ctx.no(ctx.eq(k, '' if case.get('strings') else 0))
    if case['f'] == 'keys' and case['merge']:
        E = {(i, j): ctx.any([ctx.all([ctx.eq(a, b), truthy(a)]) for a in K[i] or () for b in K[j] or ()])
             for i in range(n) for j in range(i + 1, n)}
        ctx.check(len(got) <= n, 'more clusters than items')
        graphs.check_components(ctx, got, n, E, lo, hi, 'key_collision')
        return
    # one cluster per truthy key, made of the items having it
    flat = [k for ks in K for k in ks or ()]
    reps = []
    for k in flat:
        if not truthy(k):
            continue
        if any(k == r for r in reps):
            continue
        reps.append(k)
    want = []
    for r in reps:
        c = [i for i in range(n) if any(k == r for k in K[i] or ())]
        if len(c) >= 2 and lo <= len(c) <= hi:
            want.append(c)
    ctx.check(sorted(sorted(c) for c in got) == sorted(want), 'key_collision: clusters are not the groups of items sharing a key')
