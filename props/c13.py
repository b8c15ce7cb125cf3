from props import graphs
from props.relations import relation, KINDS

ID = 'C13'
BOUNDS = {'quick': '4 items with one block each, 3 items with up to 2 blocks each, every assignment of blocks and every symmetric similarity or distance, '
                   'every radius, min_size and max_size, both modes; 8 items with 6 free relations and one free block; 70 items in a block, and items having 30 blocks',
          'thorough': '5 items with one block each, 4 items with up to 2 blocks each'}
ASSUMPTIONS = ['items are pairwise distinct', 'the similarity is symmetric', 'min_size >= 2', 'hash containers iterate in insertion order in the model']


def cases(tier):
    out = []
    n = 4 if tier == 'quick' else 5
    for mode in ('fuzzy_clusters', 'connected_components'):
        for m in range(n + 1):
            out.append({'mode': mode, 'shape': [1] * m, 'kind': 'similarity'})
        for kind in KINDS:
            out.append({'mode': mode, 'shape': [1] * 3, 'kind': kind, 'lo': 1, 'hi': 1})
            out.append({'mode': mode, 'shape': [2, 1, 2], 'multi': True, 'kind': kind, 'lo': 1, 'hi': 1})
        for shape in ([2, 2], [1, 2, 1], [2, 2, 1], [0, 2, 1], [2, 2, 2], [1, 1, 1, 1]) + (([2, 2, 1, 1], [2, 1, 2, 2]) if tier != 'quick' else ()):
            out.append({'mode': mode, 'shape': shape, 'multi': True, 'kind': 'similarity'})
            if len(shape) < 4:
                out.append({'mode': mode, 'shape': shape, 'multi': True, 'kind': 'similarity', 'gen': True})
        for shape in (['1', '1', '1', '?', '2', '2', '2', '1'], ['12', '3?', '4', '', '25', '51', '14', '0']):
            out.append({'mode': mode, 'shape': shape, 'multi': len(shape[0]) > 1, 'kind': 'sparse1', 'lo': 1, 'hi': 1})
        out.append({'mode': mode, 'shape': [[1]] * 70, 'kind': 'sparse1'})
        out.append({'mode': mode, 'shape': [list(range(30)), [29, 31], [0, None], list(range(5, 40))], 'multi': True, 'kind': 'similarity'})
    return out


def run(ctx, case):
    mod = ctx.imp('fog.clustering.blocking')
    mode, shape = case['mode'], case['shape']
    n = len(shape)
    items = ['i%d' % i for i in range(n)]
    kw, E = relation(ctx, items, case['kind'])
    skw, lo, hi = graphs.sizes(ctx, case, n)
    kw.update(skw)
    K = []
    for i, s in enumerate(shape):
        s = [None] * s if type(s) is int else [None if c in ('?', None) else int(c) for c in s]
        K.append([ctx.int('b%d_%d' % (i, j), 0, 9) if c is None else c for j, c in enumerate(s)])
    if case.get('multi'):
        kw['blocks'] = lambda x: iter(K[items.index(x)]) if case.get('gen') else K[items.index(x)]
    else:
        kw['block'] = lambda x: K[items.index(x)][0]
    got = ctx.drain(lambda: mod.blocking(iter(items), mode=mode, **kw))
    got = graphs.indices(ctx, items, got, 'blocking')
    ctx.observe(sorted(sorted(c) for c in got))
    E = {(i, j): ctx.all([e, ctx.any([ctx.eq(a, b) for a in K[i] for b in K[j]])]) for (i, j), e in E.items()}
    ctx.check(len(got) <= n, 'more clusters than items')
    graphs.check_mode(ctx, mode, got, n, E, lo, hi, 'blocking')
