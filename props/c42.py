import warnings

from props import metric, spec, stubs
from props.relations import relation

ID = 'C42'
BOUNDS = {'quick': 'the clustering functions on lists of 4 items (3 for those drawing random numbers) given out of order, with every similarity or metric; '
                   'joins, candidate pairs, metrics, signatures, n-grams, graphs and evaluation on up to 4 items, tokens, keys or labels, most of them free, given as lists, sets, dicts or tuples; '
                   'word tokenizers with lists and sets of options over every 3 characters',
          'thorough': 'lists of 5 items (4 for those drawing random numbers)'}
ASSUMPTIONS = ['random draws are free, at most 4 of them', 'the worker pool and pickling are replaced by in-process stand-ins', 'hash containers iterate in insertion order in the model']
HISTORY = False

RELATED = ('pairwise', 'pairwise_leader', 'pairwise_fuzzy_clusters', 'pairwise_connected_components', 'blocking', 'sorted_neighborhood', 'adaptive_sorted_neighborhood')
MODES = ('connected_components', 'fuzzy_clusters')


def cases(tier):
    n = 4 if tier == 'quick' else 5
    out = []
    for f in RELATED:
        modes = {'pairwise': MODES + ('leader',)}.get(f, MODES if not f.startswith('pairwise') else (None,))
        for m in modes:
            out.append({'f': f, 'n': n, 'mode': m})
            out.append({'f': f, 'n': 3, 'mode': m, 'keys': True})
    for m in MODES:
        out.append({'f': 'pairwise', 'n': 3, 'mode': m, 'processes': 2})
        out.append({'f': 'blocking', 'n': 3, 'mode': m, 'processes': 2})
        for f in ('vp_tree', 'laesa', 'quickjoin', 'nn_descent', 'nn_descent_full'):
            if f != 'vp_tree' or m == MODES[0]:
                out.append({'f': f, 'n': n - 1, 'mode': m})
        out.append({'f': 'quickjoin', 'n': 3, 'mode': m, 'vp': True})
        out.append({'f': 'passjoin', 'lengths': [3, 2, 3], 'mode': m})
        out.append({'f': 'clusters_from_pairs', 'mode': m})
        out.append({'f': 'clusters_from_buckets', 'mode': m})
    for merge in (True, False):
        out.append({'f': 'key_collision', 'n': n, 'merge': merge})
        out.append({'f': 'key_collision', 'n': 3, 'merge': merge, 'keys': True})
    for m in ('jaccard', 'overlap', None):
        out.append({'f': 'intersection_index', 'shape': [2, 1, 2], 'metric': m})
        out.append({'f': 'intersection_index', 'shape': [2, 1, 2], 'metric': m, 'key': True})
    for f in ('ppjoin', 'all_pairs', 'ppjoin_plus'):
        for order in ('freq', None):
            for key in (True, False):
                out.append({'f': f, 'shape': [2, 1, 2], 'order': order, 'tok': key})
    out.append({'f': 'minhash', 'lengths': [2, 1, 2]})
    out.append({'f': 'hashjoin', 'shape': [2, 2]})
    out.append({'f': 'hashjoin', 'shape': [3, 1], 'keys': True})
    out.append({'f': 'naive_cosine_pairs', 'shape': [2, 1, 2]})
    out.append({'f': 'sqrt_indexation_pairs'})
    for f in ('jaccard_similarity', 'dice_coefficient', 'overlap_coefficient', 'binary_cosine_similarity', 'cosine_similarity'):
        for kind in ('list', 'set', 'dict') if f != 'cosine_similarity' else ('list',):
            for a, b in ((2, 2), (3, 1), (1, 3)):
                out.append({'f': f, 'kind': kind, 'a': a, 'b': b})
    for f in ('weighted_jaccard_similarity', 'sparse_cosine_similarity', 'sparse_binary_cosine_similarity', 'sparse_dot_product', 'cosine_similarity'):
        for a, b in ((2, 2), (1, 2), (2, 1), (0, 1)):
            out.append({'f': f, 'kind': 'weights', 'a': a, 'b': b})
    for f in ('sparse_norm', 'sparse_normalize'):
        out.append({'f': f, 'kind': 'weights', 'a': 2})
    for f in ('MinHash', 'SuperMinHash', 'LSBMinHash', 'simhash', 'minhash_similarity', 'ngrams'):
        for kind in ('list', 'str') if f == 'ngrams' else ('list',):
            out.append({'f': f, 'kind': kind})
    for f in ('best_matching_macro_average', 'clusters_to_labels', 'labels_to_clusters'):
        for kind in ('list', 'other'):
            out.append({'f': f, 'kind': kind})
    for m in (None, 'jaccard', 'cosine'):
        for topo in (True, False):
            out.append({'f': 'monopartite_projection', 'm': m, 'topo': topo})
    out.append({'f': 'floatsam'})
    out.append({'f': 'component_sizes'})
    for kind in ('list', 'set', 'tuple'):
        for opt in ('stoplist', 'keep', 'drop'):
            out.append({'f': 'WordTokenizer', 'kind': kind, 'opt': opt})
        out.append({'f': 'FingerprintTokenizer', 'kind': kind, 'opt': 'stopwords'})
        out.append({'f': 'FingerprintTokenizer', 'kind': kind, 'opt': 'split'})
    return out


class Kept(object):
    """what was given, and a copy of it"""

    def __init__(self, ctx):
        self.ctx, self.all = ctx, []

    def __call__(self, x, name='the data'):
        self.all.append((x, self.copy(x), name))
        return x

    def copy(self, x):
        if isinstance(x, dict) or hasattr(x, 'items') and hasattr(x, 'keys'):
            return [(k, v, self.copy(v)) for k, v in x.items()]
        if isinstance(x, (list, tuple)):
            return [(y, self.copy(y)) for y in x]
        if isinstance(x, (set, frozenset)):
            return list(x)
        return x

    def same(self, x, c):
        if isinstance(x, dict) or hasattr(x, 'items') and hasattr(x, 'keys'):
            now = list(x.items())
            # whatever their order
            return len(now) == len(c) and all(any(k is k2 and self.equal(v, v2) and self.same(v2, s) for k2, v2 in now) for k, v, s in c)
        if isinstance(x, (list, tuple)):
            return len(x) == len(c) and all(self.equal(y, z) and self.same(y, s) for y, (z, s) in zip(x, c))
        if isinstance(x, (set, frozenset)):
            return len(x) == len(c) and all(any(y is z for z in x) for y in c)
        return True

    def equal(self, a, b):
        return a is b or type(a) is type(b) and isinstance(a, (str, int, float)) and a == b

    def check(self, what):
        for x, c, name in self.all:
            self.ctx.check(self.same(x, c), '%s changes %s it is given' % (what, name))


def run(ctx, case):
    f = case['f']
    kept = Kept(ctx)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        (call_related if f in RELATED or f in ('vp_tree', 'laesa', 'quickjoin', 'nn_descent', 'nn_descent_full') else globals()['call_' + GROUP.get(f, 'other')])(ctx, case, kept)
    kept.check(f)
    ctx.check(True, '')


def call_related(ctx, case, kept):
    f, n = case['f'], case['n']
    mod = ctx.imp('fog.clustering.' + {'nn_descent_full': 'nn_descent', 'adaptive_sorted_neighborhood': 'sorted_neighborhood'}.get(f, f.split('_')[0] if f.startswith('pairwise') else f))
    items = ['%s%d' % ('cadbe'[i], i) for i in range(n)]
    data = kept([x for x in items])
    func = getattr(mod, f)
    kw = {}
    if case['mode']:
        kw['mode'] = case['mode']
    if case.get('processes'):
        kw['processes'] = 2
        stubs.install(ctx, 'fog.clustering.' + f)
    if f in RELATED:
        rel, _ = relation(ctx, items, 'similarity')
        kw.update(rel)
        vals = [ctx.int('k%d' % i, 0, 9) if i < 2 else 2 * i for i in range(n)]
        if f == 'blocking':
            if case.get('keys'):
                blocks = kept([[v, 3] for v in vals], 'the blocks')
                kw['blocks'] = lambda x: blocks[items.index(x)]
            else:
                kw['block'] = lambda x: vals[items.index(x)]
        elif 'neighborhood' in f:
            kw['window'] = ctx.choice('window', [1, 2, n])
            if case.get('keys'):
                kw['keys'] = kept([lambda x: vals[items.index(x)], lambda x: -vals[items.index(x)]], 'the list of keys')
        elif case.get('keys'):
            kw['min_size'], kw['max_size'] = ctx.int('lo', 2, 3), ctx.int('hi', 2, 3)
        list(func(data, **kw))
        return
    radius = ctx.int('radius', 0, 30)
    D, _ = metric.metric(ctx, n, radius)
    distance = metric.function(ctx, items, D)
    stubs.install_random(ctx, ['fog.clustering.' + {'nn_descent_full': 'nn_descent'}.get(f, f), 'phylactery.vptree'], 4 if f != 'vp_tree' else 8, None, again=1)
    ctx.steps(3000)
    if f == 'vp_tree':
        list(func(data, distance, radius))
    elif f == 'laesa':
        list(func(data, distance, radius, **kw))
    elif f == 'quickjoin':
        list(func(data, radius, distance=distance, block_size=2, vp_tree=bool(case.get('vp')), **kw))
    else:
        list(func(data, radius, distance=distance, k=1, **kw))


def tokens(ctx, shape, name='t'):
    """records of distinct tokens, the first one of each being free"""
    T = [[ctx.int('%s%d_%d' % (name, i, j), 0, 20) if j == 0 else 2 * i + 5 - j for j in range(s)] for i, s in enumerate(shape)]
    for t in T:
        ctx.assume(ctx.all([ctx.no(ctx.eq(t[i], t[j])) for j in range(len(t)) for i in range(j)]))
    return T


def call_clusters(ctx, case, kept):
    f = case['f']
    mod = ctx.imp('fog.clustering.' + GROUPED.get(f, f))
    func = getattr(mod, f)
    if f == 'passjoin':
        S = kept([ctx.string('s%d' % i, m, dom=[(97, 99)]) for i, m in enumerate(case['lengths'])])
        ctx.assume(ctx.all([ctx.no(ctx.eq(a, b)) for j, a in enumerate(S) for b in S[:j]]))
        list(func(S, 1, lambda a, b: spec.lev(ctx, a, b), mode=case['mode']))
    elif f == 'clusters_from_pairs':
        list(func(kept([(ctx.int('a', 0, 5), 1), (2, 1), (3, ctx.int('b', 0, 5))]), mode=case['mode'], fuzzy=True))
    elif f == 'clusters_from_buckets':
        b = kept([[4, ctx.int('a', 0, 3), 9], [2, 7], [8, ctx.int('b', 0, 3)]], 'the buckets')
        list(func(b, mode=case['mode'], fuzzy=True, similarity=(lambda x, y: True) if ctx.bool('sim') else None))
    elif f == 'key_collision':
        items = ['%s%d' % ('cadbe'[i], i) for i in range(case['n'])]
        K = kept([[ctx.int('k%d' % i, 0, 9)] + ([3] if case.get('keys') else []) for i in range(case['n'])], 'the keys')
        kw = {'keys': lambda x: K[items.index(x)]} if case.get('keys') else {'key': lambda x: K[items.index(x)][0]}
        list(func(kept(items), merge=case['merge'], **kw))
    elif f == 'intersection_index':
        T = kept(tokens(ctx, case['shape']), 'the tokens')
        kw = {} if case['metric'] is None else {'metric': case['metric'], 'radius': 0.5}
        if case.get('key'):
            items = kept(['c', 'a', 'b'])
            list(func(items, key=lambda x: T[items.index(x)], **kw))
        else:
            data = kept([tuple(t) for t in T])
            list(func(data, **kw))
    elif f in ('ppjoin', 'all_pairs', 'ppjoin_plus'):
        T = tokens(ctx, case['shape'])
        kept(T, 'the tokens')
        ctx.patch(mod, 'crc32', lambda t: 1000 - t, optional=True)
        kw = {'token_ordering': case['order']}
        if case['tok']:
            items = kept(['c', 'a', 'b'])
            list(func(items, 0.5, tokenizer=lambda x: T[items.index(x)], **kw))
        else:
            list(func(T, 0.5, **kw))
    elif f == 'minhash':
        data = kept([ctx.string('s%d' % i, m, dom=[(97, 99)]) for i, m in enumerate(case['lengths'])])
        toks = kept([[c for c in s] for s in data], 'the tokens')
        list(func(kept([2, 0, 1]), h=2, radius=0.5, seed=3, key=lambda i: toks[i]))


def call_joins(ctx, case, kept):
    f = case['f']
    if f == 'hashjoin':
        A, B = kept(['b', 'a', 'c'][:case['shape'][0]]), kept(['z', 'x', 'y'][:case['shape'][1]])
        K = {x: [ctx.int('k' + x, 0, 5)] + ([7, 2] if case.get('keys') else []) for x in A + B}
        kept(K, 'the keys')
        kw = {'keys': lambda x: K[x]} if case.get('keys') else {'key': lambda x: K[x][0]}
        list(ctx.imp('fog.join').hashjoin(A, B, **kw))
        return
    mod = ctx.imp('fog.clustering.fagin')
    if f == 'naive_cosine_pairs':
        list(mod.naive_cosine_pairs(kept([ctx.mapping([(d, 1) for d in v]) for v in tokens(ctx, case['shape'])], 'the vectors')))
        return
    V = kept([{'v%d' % i: 1.0} for i in range(4)], 'the vectors')
    stubs.install_random(ctx, ['fog.clustering.fagin'], 6, None, again=2)
    ctx.patch(mod, 'sparse_cosine_similarity', lambda a, b: 1.0 if a is b else 0.25, optional=True)
    list(mod.sqrt_indexation_pairs(V))


def call_metrics(ctx, case, kept):
    f, kind = case['f'], case['kind']
    func = getattr(ctx.imp('fog.metrics'), f)
    if kind == 'weights':
        A = kept({'k%d' % i: ctx.real('a%d' % i, 0.5, 9) for i in range(case['a'])}, 'the vector')
        if 'b' not in case:
            func(A)
            return
        B = kept({'k%d' % (i * 2 + 1): ctx.real('b%d' % i, 0.5, 9) for i in range(case['b'])}, 'the vector')
        func(A, B)
        return
    a, b = tokens(ctx, [case['a'], case['b']])
    if kind == 'list':
        A, B = a + a[:1], b
    else:
        A, B = (set(a), set(b)) if kind == 'set' else ({x: 1 for x in a}, {x: 1 for x in b})
    func(kept(A), kept(B))


def call_sequences(ctx, case, kept):
    f, kind = case['f'], case['kind']
    if kind == 'str':
        seq = ctx.string('s', 2, dom=[(97, 99)])
    else:
        seq = kept([ctx.choice('t%d' % i, ['b', 'a', 'ab']) for i in range(3)], 'the tokens')
    if f in ('MinHash', 'SuperMinHash', 'LSBMinHash'):
        lsh = ctx.imp('fog.lsh')
        m = lsh.MinHash(4, seed=2) if f == 'MinHash' else lsh.SuperMinHash(4) if f == 'SuperMinHash' else lsh.LSBMinHash(1, seed=2)
        kept(m.create_signature(seq), 'the signature')
        m.create_signature(['b', 'c', 'd'])
        m.create_signature('xyz')
    elif f == 'simhash':
        ctx.imp('fog.lsh').simhash(seq if kind == 'list' else ['b', 'a'], 8)
    elif f == 'minhash_similarity':
        ctx.imp('fog.lsh').minhash_similarity(seq, kept(['a', 'b', 'a'], 'the signature'))
    else:
        grams = [g for g in ctx.imp('fog.tokenizers').ngrams(2, seq)]
        kept(grams, 'the grams')


def call_evaluation(ctx, case, kept):
    f, kind = case['f'], case['kind']
    mod = ctx.imp('fog.evaluation')
    if f == 'best_matching_macro_average':
        T = kept([[4, 1, 3], [2]], 'the truth')
        x = ctx.choice('x', [1, 2, 3, 4])
        rest = [y for y in (4, 3, 2, 1) if y != x]
        P = kept([[x, rest[0]], rest[1:] + ([9] if kind == 'other' else [])], 'the predictions')
        mod.best_matching_macro_average(T, P, **({'allow_additional_items': True} if kind == 'other' else {}))
    elif f == 'clusters_to_labels':
        C = kept([[2, ctx.int('x', 0, 3)], [1], [0, 3]], 'the clusters')
        mod.clusters_to_labels(C, flat=kind == 'list')
    else:
        L = [ctx.int('l%d' % i, 0, 9) for i in range(4)]
        mod.labels_to_clusters(kept(L if kind == 'list' else dict(zip('dbca', L)), 'the labels'))


def snapshot(g):
    return sorted(repr(n) + repr(sorted((k, repr(v)) for k, v in d.items())) for n, d in g.nodes(data=True)), \
        sorted(repr(sorted((u, v))) + repr(sorted((k, str(v)) for k, v in d.items())) for u, v, d in g.edges(data=True)), sorted(g.graph)


def call_graphs(ctx, case, kept):
    import networkx as nx
    f = case['f']
    g = nx.Graph()
    if f == 'monopartite_projection':
        for x in 'abc':
            g.add_node(x, bipartite='P', size=3)
        for y in 'yz':
            g.add_node(y, bipartite='Q')
        for x in 'abc':
            for y in 'yz':
                if ctx.bool('e' + x + y):
                    g.add_edge(x, y, weight=2)
        before = snapshot(g)
        h = ctx.imp('fog.graph').monopartite_projection(g, 'P', metric=case['m'], use_topology=case['topo'])
        ctx.check(h is not g and snapshot(g) == before, 'the projected graph is changed')
        return
    g.add_nodes_from(range(4))
    for i in range(4):
        for j in range(i):
            if ctx.bool('e%d%d' % (i, j)):
                g.add_edge(i, j, weight=(i * 3 + j) / 16)
    before = snapshot(g)
    if f == 'floatsam':
        ctx.imp('fog.graph').floatsam_sparsification(g, learning_rate=0.25, weight='weight')
    else:
        list(ctx.imp('fog.graph.utils').component_sizes(g))
        ctx.imp('fog.graph.utils').second_largest_component_size(g)
    ctx.check(snapshot(g) == before, 'the graph is changed')


def call_tokenizers(ctx, case, kept):
    mod = ctx.imp('fog.tokenizers')
    kind, opt = case['kind'], case['opt']
    give = {'list': list, 'set': set, 'tuple': tuple}[kind]
    values = {'stoplist': ['b', 'a'], 'keep': ['word', 'number'], 'drop': ['punct', 'word'], 'stopwords': ['b', 'a'], 'split': ["'", '-']}[opt]
    o = kept(give(values), 'the ' + opt)
    s = ctx.string('s', 3, dom=[(97, 99), (32, 32), (39, 39), (45, 45), (49, 49)])
    t = getattr(mod, case['f'])(**{opt: o})
    list(t(s))


GROUP = {}
GROUPED = {'clusters_from_pairs': 'utils', 'clusters_from_buckets': 'utils', 'all_pairs': 'ppjoin', 'ppjoin_plus': 'ppjoin'}
for _g, _fs in (('clusters', 'passjoin clusters_from_pairs clusters_from_buckets key_collision intersection_index ppjoin all_pairs ppjoin_plus minhash'),
                ('joins', 'hashjoin naive_cosine_pairs sqrt_indexation_pairs'),
                ('metrics', 'jaccard_similarity dice_coefficient overlap_coefficient binary_cosine_similarity cosine_similarity weighted_jaccard_similarity '
                            'sparse_cosine_similarity sparse_binary_cosine_similarity sparse_dot_product sparse_norm sparse_normalize'),
                ('sequences', 'MinHash SuperMinHash LSBMinHash simhash minhash_similarity ngrams'),
                ('evaluation', 'best_matching_macro_average clusters_to_labels labels_to_clusters'),
                ('graphs', 'monopartite_projection floatsam component_sizes'),
                ('tokenizers', 'WordTokenizer FingerprintTokenizer')):
    for _f in _fs.split():
        GROUP[_f] = _g
