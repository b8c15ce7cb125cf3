ID = 'C24'
BOUNDS = {'quick': 'two weighted sets over 3 keys (2 for the cosine), each key present or not on each side, with every real weight >= 0 (any sign for the dot product, norm and normalization); sequences of up to 4 tokens with every equality pattern for cosine_similarity; weighted sets over 8 keys, with a free weight on one or both sides; sequences of up to 10 tokens with one or two free ones',
          'thorough': 'over 4 keys (3 for the cosine)'}
ASSUMPTIONS = ['floating-point numbers are treated as reals', 'weights are not negative where the metric is only defined so']


def cases(tier):
    out = []
    k = 3 if tier == 'quick' else 4
    for n in range(1, k + 1):
        out.append({'f': 'weighted_jaccard_similarity', 'n': n})
        out.append({'f': 'sparse_dot_product', 'n': n})
        out.append({'f': 'sparse_norm', 'n': n})
        out.append({'f': 'sparse_normalize', 'n': n})
    for n in range(1, k):
        out.append({'f': 'sparse_cosine_similarity', 'n': n})
        out.append({'f': 'cosine_similarity', 'n': n})
    for a, b in ((1, 1), (2, 1), (2, 2), (3, 1), (3, 2), (0, 1), (4, 2)):
        out.append({'f': 'cosine_similarity', 'a': a, 'b': b})
    for f in ('weighted_jaccard_similarity', 'sparse_cosine_similarity', 'cosine_similarity'):
        out.append({'f': f, 'same': True})
        out.append({'f': f, 'empty': True})
    for f in ('weighted_jaccard_similarity', 'sparse_dot_product', 'sparse_norm', 'sparse_normalize', 'sparse_cosine_similarity', 'cosine_similarity'):
        for fixed in ([[1, 2.5, 0, 4, None], [3, 0, 0.5, 4, 1, 2]], [[1, 2, 3, 4, 5, 6, 7, None], [None, 1, 1]], [[None], [2, 0.5, 1, 8, 3]]):
            if 'cosine' in f and len(fixed[0]) == 8:
                fixed = [fixed[0][:7] + [2], fixed[1]]
            if f != 'sparse_normalize' or len(fixed[0]) < 8:
                out.append({'f': f, 'fixed': fixed, 'n': 8})
            if not f.startswith('sparse_norm'):
                out.append({'f': f, 'fixed': fixed[::-1], 'n': 8})
    for x, y in (('aabbccdde?', 'abcde'), ('abcabcabc', 'xyza?'), ('aaaaab?', 'bbba?')):
        out.append({'f': 'cosine_similarity', 'a': x, 'b': y})
    return out


def weights(ctx, name, n, lo, fixed=None):
    d = {}
    if fixed:
        for i, x in enumerate(fixed):
            if x is None or x:
                d['k%d' % i] = ctx.real('%s%d' % (name, i), lo, 100) if x is None else x
        return d
    for i in range(n):
        if ctx.bool('%shas%d' % (name, i)):
            d['k%d' % i] = ctx.real('%s%d' % (name, i), lo, 100)
    return d


def run(ctx, case):
    f = getattr(ctx.imp('fog.metrics'), case['f'])
    if case.get('empty'):
        ctx.check(f({}, {'a': 1.0}) == 0 and f({'a': 1.0}, {}) == 0, 'an empty weighted set is similar to something')
        return
    if case.get('same'):
        A = {'a': ctx.real('a', 0.5, 9), 'b': ctx.real('b', 0.5, 9)}
        ctx.check(ctx.close(f(A, A), 1), case['f'] + ' of a weighted set with itself is not 1')
        ctx.check(ctx.close(f(A, dict(A)), 1) if case['f'] == 'weighted_jaccard_similarity' else True, 'equal weighted sets are not similar')
        return
    if 'a' in case:
        a, b = [[ctx.int('%s%d' % (n, i), 0, 99) if c == '?' else ord(c) - 97 for i, c in enumerate('?' * case[n] if type(case[n]) is int else case[n])]
                for n in 'ab']
        got = f(a, b)
        ctx.observe(got)
        xy = len([1 for x in a for y in b if x == y])
        xx = len([1 for x in a for y in a if x == y])
        yy = len([1 for x in b for y in b if x == y])
        want = xy / (xx * yy) ** 0.5 if xx and yy else 0
        ctx.check(ctx.close(got, want), 'cosine_similarity is not the cosine of the frequencies')
        return
    n = case['n']
    lo = -100 if case['f'] in ('sparse_dot_product', 'sparse_norm', 'sparse_normalize') else 0
    A = weights(ctx, 'a', n, lo, case.get('fixed', [None])[0])
    keys = ['k%d' % i for i in range(n)]
    if case['f'] == 'sparse_norm':
        r = f(A)
        ctx.check(ctx.all([r >= 0, ctx.close(r * r, sum(w * w for w in A.values()))]), 'sparse_norm is not the euclidean norm')
        return
    if case['f'] == 'sparse_normalize':
        before = dict(A)
        r = f(A)
        ctx.check(dict(A) == before, 'sparse_normalize changes its input')
        s = sum(w * w for w in A.values())
        if ctx.eq(s, 0) if not A else s == 0:
            ctx.check(len(r) == 0, 'a null vector is normalized to something')
            return
        ctx.check(sorted(r) == sorted(A), 'sparse_normalize changes the keys')
        ctx.check(ctx.close(sum(w * w for w in r.values()), 1), 'a normalized vector has not a norm of 1')
        ks = sorted(A)
        for x in ks:
            ctx.check(r[x] * A[x] >= 0, 'a normalized vector changes direction')
            for y in ks:
                ctx.check(ctx.close(r[x] * A[y], r[y] * A[x]), 'a normalized vector changes direction')
        return
    B = weights(ctx, 'b', n, lo, case.get('fixed', [None, None])[1])
    got = f(dict(A), dict(B))
    pairs = [(A.get(k, 0), B.get(k, 0)) for k in keys]
    if case['f'] == 'sparse_dot_product':
        ctx.check(ctx.close(got, sum(x * y for x, y in pairs)), 'sparse_dot_product is wrong')
    elif case['f'] == 'weighted_jaccard_similarity':
        I = sum(ctx.min([x, y]) for x, y in pairs)
        U = sum(-ctx.min([-x, -y]) for x, y in pairs)
        ctx.check(ctx.any([ctx.all([ctx.eq(U, 0), ctx.eq(got, 0)]), ctx.all([ctx.no(ctx.eq(U, 0)), ctx.close(got * U, I)])]),
                  'weighted_jaccard_similarity is not the sum of minima over the sum of maxima')
    else:
        xx, yy = sum(x * x for x, _ in pairs), sum(y * y for _, y in pairs)
        xy = sum(x * y for x, y in pairs)
        null = ctx.any([ctx.eq(xx, 0), ctx.eq(yy, 0)])
        ctx.check(ctx.implies(null, ctx.eq(got, 0)), 'the cosine of a null vector is not 0')
        ctx.check(got >= 0, 'the cosine of positive vectors is negative')
        ctx.check(ctx.implies(ctx.no(null), ctx.close(got * got * xx * yy, xy * xy)), 'sparse_cosine_similarity is not the cosine')
