import math

from props import graphs, text

ID = 'C21'
BOUNDS = {'quick': 'clustering of up to 3 items of up to 3 characters among 3, with free signatures of up to 4 values (radius 0.25 to 1, guessed or given bands) or the real ones; guessed bands for up to 24 values and every threshold; signatures (MinHash of 3 values, 2 seeds; SuperMinHash of up to 4 values, free random draws) of up to 4 tokens; similarities of signatures of up to 4 free values',
          'thorough': 'clustering of 4 items; guessed bands for up to 64 values; MinHash of 4 values; SuperMinHash of 4 values and 3 tokens'}
ASSUMPTIONS = ['items are pairwise distinct', 'floats are exact reals (the thresholds used avoid rounding)', 'with free signatures, the signatures of the items are arbitrary',
               'for SuperMinHash, the pseudo random draws of each token are arbitrary reals in [0, 1)', 'hash containers iterate in insertion order in the model']
ABC = [(97, 99)]


def cases(tier):
    big = tier != 'quick'
    out = []
    out.append({'f': 'cluster', 'h': 2, 'bands': 1, 'shape': [1, 1], 'multi': True})
    for h in (1, 2, 3, 4):
        for bands in [None] + list(range(1, h + 1)):
            for shape in ([], [2], [1, 2], [2, 2]) + (([1, 1, 2],) if h < 3 or big else ()):
                out.append({'f': 'cluster', 'h': h, 'bands': bands, 'shape': shape})
    if big:
        out.append({'f': 'cluster', 'h': 2, 'bands': 2, 'shape': [1, 1, 1, 1]})
    for h in (1, 4):
        for shape in ([1, 2], [2, 2], [1, 1, 2]):
            if h == 4 and shape == [2, 2] and not big:
                continue
            for key in (True, False):
                out.append({'f': 'real', 'h': h, 'shape': shape, 'key': key})
    for h in list(range(1, 13)) + [16, 20, 24] + ([32, 48, 64] if big else []):
        out.append({'f': 'bands', 'h': h})
    out.append({'f': 'sweep'})
    for seed in (1, 7):
        for a, b in ((0, 0), (0, 1), (1, 1), (1, 2), (2, 1), (2, 2)):
            out.append({'f': 'signature', 'seed': seed, 'a': a, 'b': b, 'h': 4 if big else 3})
    for n in (1, 2, 3, 4):
        out.append({'f': 'similarity', 'n': n})
    for m in (1, 2, 3, 4):
        for toks in ([1], [1, 2], [2, 1, 2], [1, 2, 3]):
            if m == 4 and len(toks) > 2 and not big:
                continue
            out.append({'f': 'super', 'm': m, 't': toks})
    out.append({'f': 'lsb'})
    for h, bands in ((1, 1), (2, 1), (2, 2), (4, 2), (6, 3), (6, 2), (4, 4)) + (((9, 3), (8, 2), (8, 4)) if big else ()):
        out.append({'f': 'probability', 'h': h, 'bands': bands})
    for cls in ('MinHash', 'SuperMinHash', 'LSBMinHash'):
        for n in (1, 2, 3):
            out.append({'f': 'tokens', 'cls': cls, 'n': n})
            out.append({'f': 'tokens', 'cls': cls, 'n': n, 'chars': True})
    return out


class Stub(object):
    """Stands for MinHash with arbitrary signatures."""

    def __init__(self, ctx, items, sigs):
        self.ctx, self.items, self.sigs = ctx, items, sigs

    def create_signature(self, seq):
        for x, s in zip(self.items, self.sigs):
            if x is seq:
                return list(s)
        raise KeyError(seq)


def jaccard(ctx, a, b):
    """(size of the intersection, size of the union) of sets of characters"""
    def distinct(s, t=()):
        r = []
        for c in list(s) + list(t):
            if not any([c == d for d in r]):
                r.append(c)
        return r
    A, B = distinct(a), distinct(b)
    u = len(distinct(A, B))
    return len(A) + len(B) - u, u


def clusters(ctx, case):
    mod = ctx.imp('fog.clustering.minhash')
    h, shape = case['h'], case['shape']
    n = len(shape)
    radius = ctx.choice('radius', [0.25, 0.5, 0.8, 1.0] if n < 3 else [0.5, 1.0])
    seqs = [ctx.string('s%d' % i, k, dom=ABC) for i, k in enumerate(shape)]
    items = ['i%d' % i for i in range(n)]
    kw = {}
    if case.get('f') == 'cluster':
        lo, hi = 0, 9
        seqs = [list(s) for s in seqs]
        sigs = [[ctx.choice('v%d_%d' % (i, k), [1, 2, 11, 12, 112, 65537, 2 ** 31 + 1]) if case.get('multi') else ctx.int('v%d_%d' % (i, k), lo, hi) for k in range(h)] for i in range(n)]
        stub = lambda hh=256, *a, **k: Stub(ctx, seqs, sigs)
        ctx.patch(mod, 'MinHash', stub, optional=True)
        ctx.patch('fog.lsh.minhash', 'MinHash', stub)
        kw['key'] = lambda x: seqs[items.index(x)]
        bands = case['bands']
        if bands is not None:
            kw['bands'] = bands
    else:
        mh = ctx.imp('fog.lsh').MinHash(h, seed=3)
        sigs = [mh.create_signature(s) for s in seqs]
        kw['seed'] = 3
        bands = None
        if case['key']:
            kw['key'] = lambda x: seqs[items.index(x)]
        else:
            ctx.assume(ctx.all([ctx.no(ctx.eq(seqs[i], seqs[j])) for j in range(n) for i in range(j)]))
            items = seqs
    got = ctx.drain(lambda: mod.minhash(iter(items), h=h, radius=radius, **kw))
    got = graphs.indices(ctx, items, got, 'minhash')
    ctx.observe(sorted(sorted(c) for c in got))
    if bands is None:
        bands = mod.guess_bands(h, radius)
        ctx.check(1 <= bands <= h, 'the guessed number of bands is not possible')
    rows = h // bands
    E = {}
    for j in range(n):
        for i in range(j):
            share = ctx.any([ctx.all([ctx.eq(sigs[i][k], sigs[j][k]) for k in range(b * rows, b * rows + rows)]) for b in range(bands)])
            I, U = jaccard(ctx, seqs[i], seqs[j])
            E[i, j] = ctx.all([share, I >= radius * U])
    graphs.check_mode(ctx, 'connected_components', got, n, E, 2, 1000, 'minhash')


class Draws(object):
    """Random whose draws are free, but the same for the same seed."""

    def __init__(self, ctx, cap):
        self.ctx, self.cap, self.vals, self.key, self.k = ctx, cap, {}, None, 0

    def __call__(self, seed=None):
        return self

    def seed(self, x=None):
        self.key, self.k = x, 0

    def random(self):
        self.k += 1
        return self.draw(self.key, self.k - 1)

    def draw(self, key, k):
        if (key, k) not in self.vals:
            v = self.ctx.real('r%s_%d' % (key, k), 0, 1)
            self.ctx.assume(v < 1)
            self.vals[key, k] = v
        return self.vals[key, k]


def run(ctx, case):
    f = case['f']
    for m in ('fog.clustering.minhash', 'fog.lsh'):
        ctx.imp(m)
    ctx.steps(20000)
    if f in ('cluster', 'real'):
        return clusters(ctx, case)
    if f == 'bands':
        mod = ctx.imp('fog.clustering.minhash')
        h = case['h']
        t = ctx.real('t', 0.0001, 1)
        b = mod.guess_bands(h, t)
        ctx.observe(b)
        ctx.check(1 <= b <= h, 'the guessed number of bands is not possible')
        th = [(1.0 / k) ** (k / h) for k in range(1, h + 1)]
        # away from the thresholds themselves, because of the rounding
        ctx.assume(ctx.all([ctx.any([t > x + 1e-9, t < x - 1e-9] + ([ctx.eq(t, x)] if x in (1.0, 0.5, 0.25) else [])) for x in th]))
        for k in range(1, b):
            ctx.check(th[k - 1] > t, 'a smaller number of bands is enough')
        if b < h:
            ctx.check(th[b - 1] <= t, 'the number of bands is not enough')
        return
    if f == 'sweep':
        mod = ctx.imp('fog.clustering.minhash')
        last = ctx.real('t', 0.01, 0.99)
        for h in (256, 64, 16, 20, 8):
            for t in [0.8, 0.81, 0.75, 0.5, 0.49, 0.84, 0.3, 0.2, 0.95] + ([last] if h == 8 else []):
                b = mod.guess_bands(h, t)
                th = [(1.0 / k) ** (k / h) for k in range(1, h + 1)]
                ctx.assume(ctx.all([ctx.any([t > x + 1e-9, t < x - 1e-9]) for x in th]))
                ctx.check(ctx.all([x > t for x in th[:b - 1]] + [b == h or th[b - 1] <= t]), 'the guessed number of bands depends on earlier calls')
        return
    if f == 'probability':
        mod = ctx.imp('fog.clustering.minhash')
        if not hasattr(mod, 'match_probability'):
            return
        x = ctx.real('s', 0, 1)
        h, bands = case['h'], case['bands']
        got = mod.match_probability(h, bands, x)
        band = none = 1
        for _ in range(h // bands):
            band = band * x
        for _ in range(bands):
            none = none * (1 - band)
        ctx.check(ctx.close(got, 1 - none), 'the probability is not the one that some band matches')
        return
    if f == 'tokens':
        lsh = ctx.imp('fog.lsh')
        cls = case['cls']
        mh = lsh.MinHash(4, seed=2) if cls == 'MinHash' else lsh.SuperMinHash(8) if cls == 'SuperMinHash' else lsh.LSBMinHash(1, seed=2)
        toks = ['a', '\u0161', '\U00010061', '\xe1'] if case.get('chars') else ['a', 'b', 'ab', '\xe9t\xe9']
        seq = [ctx.choice('t%d' % i, toks) for i in range(case['n'])]
        if case.get('chars'):
            got = list(mh.create_signature(''.join(seq)))
            one = [list(mh.create_signature(t)) for t in seq]
            ctx.check(got == list(mh.create_signature(''.join(seq[::-1] + seq))), 'the signature depends on the order')
            ctx.check(cls != 'MinHash' or got == [min(x) for x in zip(*one)], 'the signature is not made of the smallest hashes')
            ctx.check(all((a == b) == (x == y) for a, x in zip(seq, one) for b, y in zip(seq, one)), 'different tokens have the same signature')
            return
        got = list(mh.create_signature(seq))
        ctx.observe(got)
        ctx.check(got == list(mh.create_signature(seq[::-1])), 'the signature depends on the order')
        ctx.check(got == list(mh.create_signature(tuple(seq + seq[:1]))), 'the signature depends on the repetitions')
        one = [list(mh.create_signature([t])) for t in seq]
        if cls == 'MinHash':
            ctx.check(got == [min(x) for x in zip(*one)], 'the signature is not made of the smallest hashes')
        else:
            ctx.check(case['n'] > 1 or got == one[0], 'the signature changes')
        ctx.check(all((a == b) == (x == y) for a, x in zip(seq, one) for b, y in zip(seq, one)) or cls == 'LSBMinHash', 'different tokens have the same signature')
        return
    if f == 'similarity':
        n = case['n']
        A, B = [[ctx.int('%s%d' % (x, i), 0) for i in range(n)] for x in 'ab']
        got = ctx.imp('fog.lsh').minhash_similarity(A, B)
        same = graphs.count(ctx, [ctx.eq(x, y) for x, y in zip(A, B)])
        ctx.check(ctx.close(got, same / n), 'the similarity is not the rate of common values')
        return
    if f == 'signature':
        mh = ctx.shared([case['h'], case['seed']], lambda: ctx.imp('fog.lsh').MinHash(case['h'], seed=case['seed']))
        dom = ABC if case['a'] + case['b'] > 2 else [(32, 126)]
        a, b = ctx.string('a', case['a'], dom=dom), ctx.string('b', case['b'], dom=dom)
        A, B, AB, BA = [mh.create_signature(x) for x in (a, b, a + b, b + a)]
        ctx.check(all(len(x) == case['h'] for x in (A, B, AB)), 'the signature has not the given size')
        ctx.check(text.same(ctx, AB, BA), 'the signature depends on the order')
        ctx.check(text.same(ctx, mh.create_signature(a + a + b), AB), 'the signature depends on the repetitions')
        if case['a'] and case['b']:
            for x, y, z in zip(A, B, AB):
                ctx.check(ctx.eq(z, ctx.min([x, y])), 'the signature of an union is not made of the smallest hashes')
        else:
            ctx.check(text.same(ctx, AB, A if case['a'] else B), 'the signature depends on nothing')
        again = ctx.imp('fog.lsh').MinHash(case['h'], seed=case['seed'])
        ctx.check(text.same(ctx, again.create_signature(a + b), AB), 'two MinHash of the same seed differ')
        return
    if f == 'lsb':
        lsh = ctx.imp('fog.lsh')
        s = ctx.string('s', ctx.choice('n', [0, 1, 2]), dom=ABC)
        for p in (1, 2):
            big = lsh.MinHash(64 * p, seed=5).create_signature(s)
            got = lsh.LSBMinHash(p, seed=5).create_signature(s)
            ctx.check(len(got) == p, 'the LSB signature has not the given size')
            for w, x in enumerate(got):
                for i in range(64):
                    ctx.check((int(x) >> i & 1) == (int(big[64 * w + i]) & 1), 'a bit is not the lowest one of the hash')
        return
    m, toks = case['m'], case['t']
    mod = ctx.imp('fog.lsh.minhash')
    d = Draws(ctx, m)
    ctx.patch(mod, 'Random', d)
    names = {1: 'x', 2: 'y', 3: 'z'}
    sm = mod.SuperMinHash(m)
    first = None
    if len(toks) > 1:
        first = sm.create_signature(names[toks[0]])
    got = sm.create_signature(''.join(names[t] for t in toks))
    if first is not None:
        ctx.check(text.same(ctx, first, sm.create_signature(names[toks[0]])), 'the signature depends on the previous ones')
    ctx.observe(got)
    ctx.check(len(got) == m, 'the signature has not the given size')
    best = [None] * m
    for t in sorted(set(toks)):
        p = list(range(m))
        for j in range(m):
            r = d.draw(ord(names[t]), j)
            k = j
            while not (r * (m - j) < k - j + 1):
                k += 1
            p[j], p[k] = p[k], p[j]
            v = r + j
            best[p[j]] = v if best[p[j]] is None else ctx.min([best[p[j]], v])
    for g, w in zip(got, best):
        ctx.check(ctx.all([g <= w, w < g + 1]), 'a value is not the smallest one of the tokens')
