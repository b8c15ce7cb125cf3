ID = 'C28'
BOUNDS = {'quick': 'up to 6 labels, every equality pattern, given as a sequence, a mapping or an iterable of pairs; labels such as None, an empty string or -1; up to 5 items in up to 3 clusters with every equality pattern, with or without a key, flat or not; 12 labels or up to 14 items of which two are free',
          'thorough': 'up to 7 labels'}
ASSUMPTIONS = ['items are integers from 0 to n - 1 when asking for flat labels']


def cases(tier):
    out = []
    N = 6 if tier == 'quick' else 7
    for n in range(N + 1):
        for kind in ('list', 'tuple', 'dict', 'pairs', 'str'):
            if kind in ('list', 'dict') or n <= 3:
                out.append({'f': 'labels', 'n': n, 'kind': kind})
    for shape in ([], [1], [2], [1, 1], [2, 1], [1, 2], [2, 2], [3, 1], [2, 0, 1], [1, 3], [2, 1, 1]):
        out.append({'f': 'clusters', 'shape': shape})
        out.append({'f': 'clusters', 'shape': shape, 'key': True})
        out.append({'f': 'flat', 'shape': shape})
        out.append({'f': 'flat', 'shape': shape, 'key': True})
        if sum(shape) > 1:
            out.append({'f': 'flat', 'shape': shape, 'over': True})
    for kind in ('list', 'dict', 'pairs', 'tuple'):
        out.append({'f': 'labels', 'n': 3, 'kind': kind, 'odd': True})
    for kind in ('list', 'dict', 'pairs'):
        out.append({'f': 'labels', 'n': 12, 'kind': kind, 'fixed': '012?3102?543'})
    for fixed in ('abcd efgh ?ij', 'ab cd ef gh a? ?j k l'):
        out.append({'f': 'clusters', 'shape': [len(c) for c in fixed.split()], 'fixed': fixed})
        out.append({'f': 'clusters', 'shape': [len(c) for c in fixed.split()], 'fixed': fixed, 'key': True})
    return out


def run(ctx, case):
    mod = ctx.imp('fog.evaluation')
    if case['f'] == 'labels':
        n, kind = case['n'], case['kind']
        names = ['n%d' % ((i * 3) % (13 if n > 7 else 7)) for i in range(n)] if kind in ('dict', 'pairs') else list(range(n))
        if kind == 'str':
            L = ctx.string('labels', n, dom=[(97, 122)])
            labels = L
        else:
            L = labels = [] if case.get('odd') else [ctx.int('l%d' % i, -3, 50) if case.get('fixed', '?' * n)[i] == '?' else int(case['fixed'][i]) for i in range(n)]
            if case.get('odd'):
                L = labels = [ctx.choice('o%d' % i, [None, 0, '', 'a', -1]) for i in range(n)]
            if kind == 'tuple':
                labels = tuple(L)
            elif kind == 'dict':
                labels = dict(zip(names, L))
            elif kind == 'pairs':
                labels = iter(list(zip(names, L)))
        got = mod.labels_to_clusters(labels)
        got = [list(c) for c in got]
        ctx.observe(got)
        want = []
        for i in range(n):
            for c in want:
                if L[c[0]] == L[i]:
                    c.append(i)
                    break
            else:
                want.append([i])
        ctx.check(got == [[names[i] for i in c] for c in want], 'clusters are not the groups of items having the same label')
        if kind == 'list':
            back = mod.clusters_to_labels(got, flat=True)
            ctx.check(list(back) == [[k for k, c in enumerate(want) if i in c][0] for i in range(n)], 'labels do not survive a round trip')
            again = mod.labels_to_clusters(back)
            ctx.check([list(c) for c in again] == got, 'clusters do not survive a round trip')
        return
    shape = case['shape']
    if case['f'] == 'clusters':
        fixed = case.get('fixed', ' '.join('?' * s for s in shape)).split(' ')
        C = [[ctx.int('x%d_%d' % (i, j), 0, 50) if fixed[i][j] == '?' else ord(fixed[i][j]) - 97 for j in range(s)] for i, s in enumerate(shape)]
        flat = False
    else:
        # any permutation of 0..n-1
        n = sum(shape)
        xs = [ctx.int('x%d' % i, 0, n - 1) for i in range(n)]
        if case.get('over'):
            # items may be found several times
            n = ctx.choice('n', list(range(1, n)))
            ctx.assume(ctx.all([x < n for x in xs]))
            for i in range(n):
                ctx.assume(ctx.any([ctx.eq(x, i) for x in xs]))
        else:
            for i in range(n):
                for j in range(i):
                    ctx.assume(ctx.no(ctx.eq(xs[i], xs[j])))
        xs, C, flat = list(xs), [], True
        for s in shape:
            C.append([xs.pop() for _ in range(s)])
    kw = {}
    if case.get('key'):
        kw['key'] = lambda p: p[0]
        got = mod.clusters_to_labels([[(x, 'item') for x in c] for c in C], flat=flat, **kw)
    else:
        got = mod.clusters_to_labels([list(c) for c in C], flat=flat)
    if flat:
        ctx.check(len(got) == n, 'there are not as many labels as items')
        for i, c in enumerate(C):
            for x in c:
                later = [d for d in C[i + 1:] if any(y == x for y in d)]
                ctx.check(later or got[x] == i, 'an item does not get the index of its (last) cluster')
        return
    ks = [x for c in C for x in c]
    ctx.check(len(got) <= len(ks), 'there are more labels than items')
    for k in list(got):
        ctx.check(any(ctx.eq(k, x) for x in ks), 'an unknown item is labelled')
    for x in ks:
        last = [i for i, c in enumerate(C) for y in c if y == x][-1]
        found = [got[k] for k in list(got) if k == x]
        ctx.check(found == [last], 'an item does not get the index of its (last) cluster')
