from itertools import combinations
import math
from props import spec

ID = 'C29'
BOUNDS = {'quick': 'sequences of up to 5 symbols (any Unicode string, or lists), n from 1 to 5; n-gram keys of strings of up to 5 characters with every threshold in [0, 1]; sequences of 15 symbols and keys of strings of 10 with one free character',
          'thorough': 'sequences of up to 7 symbols; n-gram keys of up to 6 characters'}
ASSUMPTIONS = ['n >= 1', 'floating-point numbers are treated as reals']


def cases(tier):
    out = []
    N = 5 if tier == 'quick' else 7
    for n in range(1, 6):
        for l in range(N + 1):
            out.append({'f': 'ngrams', 'n': n, 'l': l})
            out.append({'f': 'join', 'n': n, 'l': l})
    for n in (1, 2, 3):
        for l in range(N + (1 if tier == 'quick' else 0)):
            out.append({'f': 'keys', 'n': n, 'l': l, 't': True})
            out.append({'f': 'keys', 'n': n, 'l': l})
        for l in range(2, 6):
            out.append({'f': 'keys', 'n': n, 'l': l, 't': 'exact'})
        for s in ('abcdefghijklm?o', '?aaaaaaaaaaaaaa?'):
            out.append({'f': 'ngrams', 'n': n + 1, 's': s})
            out.append({'f': 'join', 'n': n + 1, 's': s})
        out.append({'f': 'keys', 'n': n, 's': 'abcdefg?ij'})
    for a, b in ((3, 3), (4, 3), (4, 4)):
        out.append({'f': 'collide', 'n': 2, 'a': a, 'b': b})
    return out


def run(ctx, case):
    tok = ctx.imp('fog.tokenizers')
    n = case['n']
    if case['f'] in ('ngrams', 'join'):
        s = spec.sparse(ctx, 's', case['s']) if 's' in case else ctx.string('s', case['l'])
        l = len(s)
        f = {2: tok.bigrams, 3: tok.trigrams, 4: tok.quadrigrams}.get(n, lambda x: tok.ngrams(n, x))
        if case['f'] == 'join':
            if l < n:
                ctx.check(True, '')
                return
            mod = ctx.imp('fog.tokenizers.ngrams')
            ctx.check(mod.join_ngrams(iter(list(tok.ngrams(n, s)))) == s, 'joining the n-grams of a string does not give it back')
            return
        for x in (s, list(s), tuple(s)):
            for g in (f, lambda x: tok.ngrams(n, x)):
                got = ctx.drain(lambda: g(x))
                want = [x[i:i + n] for i in range(l - n + 1)] if l >= n else [x]
                ctx.check(len(got) == len(want) and ctx.all([ctx.eq(u, v) for u, v in zip(got, want)]), 'n-grams are not the windows of the sequence')
                ctx.check(all(isinstance(u, type(x)) or isinstance(x, type(s)) for u in got), 'n-grams have not the type of the sequence')
        return
    ngram_keys = ctx.imp('fog.key').ngram_keys
    if case['f'] == 'collide':
        # one substitution in a string leaves a common subsequence of grams
        a, b = ctx.string('a', case['a'], dom=[(97, 100)]), ctx.string('b', case['b'], dom=[(97, 100)])
        t = 0.5
        A, B = list(ngram_keys(n, a, threshold=t)), list(ngram_keys(n, b, threshold=t))
        ga, gb = [a[i:i + n] for i in range(len(a) - n + 1)], [b[i:i + n] for i in range(len(b) - n + 1)]
        need = max(max(1, math.floor(len(ga) * t)), max(1, math.floor(len(gb) * t)))
        common = ctx.any([ctx.all([ctx.eq(ga[i], gb[j]) for i, j in zip(I, J)])
                          for I in combinations(range(len(ga)), need) for J in combinations(range(len(gb)), need)])
        ctx.check(ctx.implies(common, ctx.any([ctx.eq(x, y) for x in A for y in B])), 'strings sharing enough grams have no key in common')
        return
    s = spec.sparse(ctx, 's', case['s']) if 's' in case else ctx.string('s', case['l'])
    l = len(s)
    kw, t = {}, 0.8
    if case.get('t') == 'exact':
        t = kw['threshold'] = ctx.choice('t', [0, 0.25, 0.5, 0.75, 1])
    elif case.get('t'):
        t = kw['threshold'] = ctx.real('t', 0, 1)
        k = max(1, l - n + 1)
        for i in range(1, k + 1):
            # keep off the boundaries, where floating-point products may round
            ctx.assume(ctx.any([t * k < i - 0.001, t * k > i + 0.001, ctx.eq(t, 1)]))
    got = ctx.drain(lambda: ngram_keys(n, s, **kw))
    grams = [s[i:i + n] for i in range(l - n + 1)] if l >= n else [s]
    k = len(grams)
    need = max(1, math.floor(k * t)) if case.get('t') is not True else max([1] + [i for i in range(1, k + 1) if i <= t * k])
    want = []
    for m in range(k, need - 1, -1):
        for c in combinations(grams, m):
            want.append(''.join(c) if not ctx.symbolic else join(ctx, c))
    ctx.check(ctx.eq(got[0], want[0]), 'the first key is not made of every gram')
    for x in got:
        ctx.check(ctx.any([ctx.eq(x, y) for y in want]), 'a key is not made of enough grams, in order')
    for x in want:
        ctx.check(ctx.any([ctx.eq(x, y) for y in got]), 'a combination of grams has no key')


def join(ctx, c):
    r = ''
    for g in c:
        r = r + g
    return r
