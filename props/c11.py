from props import graphs, stubs
from props.relations import relation

ID = 'C11'
BOUNDS = {'quick': 'pairwise: 0..4 items with every symmetric similarity (5 items with chunks of 2 or more), every chunk size from 1 to n + 1 and, every completion order (of the last 3 chunks beyond 3 items); '
                   'blocking: 4 items, up to 2 blocks each, every similarity and completion order; 9 items with 6 free relations',
          'thorough': 'as quick, with 0..5 items'}
ASSUMPTIONS = ['the worker pool and pickling are replaced by in-process stand-ins: imap keeps the order, imap_unordered may deliver in any order',
               'the similarity is symmetric', 'min_size >= 2']


def cases(tier):
    out = []
    N = 4 if tier == 'quick' else 5
    for mode in ('fuzzy_clusters', 'connected_components'):
        for n in range(N + 1):
            for c in range(1, n + 2):
                out.append({'f': 'pairwise', 'mode': mode, 'n': n, 'chunk': c})
        out.append({'f': 'pairwise', 'mode': mode, 'n': 5, 'chunk': 2})
        out.append({'f': 'pairwise', 'mode': mode, 'n': 5, 'chunk': 3, 'key': True})
        out.append({'f': 'pairwise', 'mode': mode, 'n': 3, 'chunk': 2, 'lo': 1, 'hi': 1, 'kind': 'distance+radius'})
        for c in (2, 3, 4, 5, 100):
            out.append({'f': 'pairwise', 'mode': mode, 'n': 9, 'chunk': c, 'kind': 'sparse%d' % c})
        for multi in (False, True):
            out.append({'f': 'blocking', 'mode': mode, 'n': 3, 'multi': multi})
            out.append({'f': 'blocking', 'mode': mode, 'n': 4, 'multi': multi, 'few': True})
    return out


def run(ctx, case):
    n, mode = case['n'], case['mode']
    items = ['i%d' % i for i in range(n)]
    kw, E = relation(ctx, items, case.get('kind', 'similarity'))
    skw, lo, hi = graphs.sizes(ctx, case, n)
    kw.update(skw)
    if case['f'] == 'pairwise':
        mod = ctx.imp('fog.clustering.pairwise')
        stubs.install(ctx, 'fog.clustering.pairwise', 6 if n <= 3 else 3)
        data = items
        if case.get('key'):
            data = [(k, -i) for i, k in enumerate(items)]
            kw['key'] = lambda x: x[0]
        got = ctx.drain(lambda: mod.pairwise(list(data), mode=mode, processes=2, chunk_size=case['chunk'], **kw))
        got = graphs.indices(ctx, data, got, 'parallel pairwise')
    else:
        mod = ctx.imp('fog.clustering.blocking')
        stubs.install(ctx, 'fog.clustering.blocking')
        if case['multi']:
            keys = [[ctx.int('b%d' % i, 0, 3), ctx.int('c%d' % i, 0, 3)] if i < 2 else [ctx.int('b%d' % i, 0, 3)] for i in range(n)]
            kw['blocks'] = lambda x: keys[items.index(x)]
        else:
            keys = [[ctx.int('b%d' % i, 0, 3)] for i in range(n)]
            kw['block'] = lambda x: keys[items.index(x)][0]
        E = {(i, j): ctx.all([e, ctx.any([ctx.eq(a, b) for a in keys[i] for b in keys[j]])]) for (i, j), e in E.items()}
        got = ctx.drain(lambda: mod.blocking(items, mode=mode, processes=2, **kw))
        got = graphs.indices(ctx, items, got, 'parallel blocking')
    ctx.check(len(got) <= n, 'more clusters than items')
    ctx.observe(sorted(sorted(c) for c in got))
    graphs.check_mode(ctx, mode, got, n, E, lo, hi, 'parallel ' + case['f'])
