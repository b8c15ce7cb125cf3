ID = 'C22'
BOUNDS = {'quick': 'every 16, 32 or 64 bits word and every 128 bits fingerprint for the bit counts; simhash of up to 3 tokens (possibly repeated) of free digests in a window of one hexadecimal digit, for every supported size from 8 to 512, and of up to 13 tokens of any characters of which two have a free digit; LSB signatures of one or two words with 10 free bits',
          'thorough': 'up to 5 tokens and windows of two digits'}
ASSUMPTIONS = ['the digests of the tokens are arbitrary (hashlib is replaced by free digests)']
ZERO = '0123456789abcdef' * 8


def cases(tier):
    big = tier != 'quick'
    out = [{'f': 'popcount', 'n': n} for n in (1, 16, 32, 64)]
    out += [{'f': 'popcount16', 'n': n} for n in (1, 8, 16)]
    out += [{'f': 'popcount32', 'n': n} for n in (1, 16, 17, 32)]
    out += [{'f': 'popcount64', 'n': n} for n in (1, 8, 16, 31, 32, 33, 48, 64)]
    for f in (8, 64, 128, 256, 512):
        out.append({'f': 'distance', 'n': min(f, 128), 's': f})
    for L in (1, 2):
        for off in (0, 27, 54):
            out.append({'f': 'lsb', 'L': L, 'off': off})
    for f in (8, 16, 32, 64, 128, 256, 512):
        last = f // 4 - 1
        for pos in sorted({0, 1, last // 2, last}):
            for toks in (['a'], ['a', 'b'], ['a', 'b', 'a'], ['a', 'b', 'c'], ['a', 'a', 'b', 'b']) + ((['a', 'b', 'c', 'd'], ['a', 'b', 'c', 'd', 'e']) if big else ()):
                if len(toks) < 3 or pos in (0, last) or big:
                    out.append({'f': 'simhash', 's': f, 'pos': pos, 't': toks})
        out.append({'f': 'simhash', 's': f, 'pos': 0, 't': []})
    for s, pos in ((64, 3), (128, 31), (512, 60)):
        for toks in ('abcdefg', 'abcdefgh', 'aaabbcdefghhh', 'abababcdef'):
            out.append({'f': 'simhash', 's': s, 'pos': pos, 't': list(toks), 'free': 'ab'})
        out.append({'f': 'simhash', 's': s, 'pos': pos, 't': ['a', '\xe9t\xe9', 'b', '\u0161', '', 'ab', '\U0001f600', 'ba'], 'free': 'ab'})
    out.append({'f': 'sizes'})
    return out


class Digest(object):
    def __init__(self, ctx, size, pos, data=b'', free='abcde'):
        self.free = free
        self.ctx, self.size, self.pos, self.data = ctx, size, pos, data

    def update(self, data):
        self.data = self.data + data

    def hexdigest(self):
        t = self.data.decode()
        s = ''.join(ZERO[(i * 7 + sum(ord(c) * (k + 1) for k, c in enumerate(t)) * 5 + i // 3) % 97] for i in range(self.size))
        if self.pos >= self.size or t not in list(self.free):
            return s
        c = digit(self.ctx, t)
        return s[:self.pos] + c + s[self.pos + 1:]

    def digest(self):
        s = self.hexdigest()
        if not isinstance(s, str):
            from symx.values import concretise_str
            s = concretise_str(s, 5000)
        return bytes.fromhex(s)

    def copy(self):
        return Digest(self.ctx, self.size, self.pos, self.data, self.free)

    @property
    def digest_size(self):
        return self.size // 2


def digit(ctx, t):
    c = ctx.__dict__.setdefault('digits', {})
    if t not in c:
        c[t] = ctx.string('digit_' + t, 1, dom=[(48, 57), (97, 102)])
    return c[t]


def run(ctx, case):
    utils = ctx.imp('fog.lsh.utils')
    f = case['f']
    if f.startswith('popcount'):
        x = ctx.bits('x', case['n'])
        got = getattr(utils, f)(x)
        ctx.observe(got)
        ctx.check(ctx.eq(got, ctx.popcount(x)), 'wrong number of bits')
    elif f == 'distance':
        lsh = ctx.imp('fog.lsh')
        a, b = ctx.bits('a', case['n']), ctx.bits('b', case['n'])
        want = ctx.popcount(a ^ b)
        ctx.check(ctx.eq(lsh.simhash_distance(a, b, f=case['s']), want / case['s']), 'the distance is not the rate of different bits')
        ctx.check(ctx.close(lsh.simhash_similarity(a, b, f=case['s']), 1 - want / case['s']), 'the similarity is not the rate of common bits')
        if case['s'] == 128:
            ctx.check(ctx.eq(lsh.simhash_distance(a, b), want / 128), 'the default size is not 128')
    elif f == 'lsb':
        lsh = ctx.imp('fog.lsh')
        L, off = case['L'], case['off']
        back = 0x9249249249249249 & ~(0x3ff << off)
        A, B = [], []
        for i in range(L):
            k = 10 if i == 0 else 3
            A.append((ctx.bits('a%d' % i, k) << off) | back)
            B.append((ctx.bits('b%d' % i, k) << off) | (back >> 1 & ~(0x3ff << off)))
        want = 0
        for x, y in zip(A, B):
            for i in range(64):
                want = want + ctx.ite(ctx.iff(ctx.bit(x, i), ctx.bit(y, i)), 0, 1)
        got = lsh.lsb_minhash_similarity(A, B)
        ctx.check(ctx.close(got, 1 - 2 * want / (64 * L)), 'the similarity is not estimated from the different bits')
        ctx.check(ctx.close(lsh.lsb_minhash_similarity(A, A), 1), 'a signature is not similar to itself')
    elif f == 'simhash':
        lsh = ctx.imp('fog.lsh')
        size, free = case['s'], case.get('free', 'abcde')
        sizes = {'md5': 32, 'sha256': 64, 'sha512': 128}
        for name, n in sizes.items():
            ctx.patch('hashlib', name, lambda data=b'', n=n, **k: Digest(ctx, n, case['pos'], data, free))
        ctx.patch('hashlib', 'new', lambda name, data=b'', **k: Digest(ctx, sizes[name], case['pos'], data, free))
        sig = lsh.simhash(list(case['t']), f=size)
        ctx.observe(sig)
        ctx.check(ctx.all([sig >= 0, sig < 2 ** size]), 'the signature does not have the given size')
        l = size // 4
        n = 32 if size <= 128 else size // 4
        texts = [Digest(ctx, n, case['pos'], t.encode(), free).hexdigest()[:l] for t in case['t']]
        for i in range(size):
            ones = 0
            for t in texts:
                c = t[l - 1 - i // 4]
                if isinstance(c, str):
                    b = bool(int(c, 16) >> (i % 4) & 1)
                else:
                    b = ctx.any([ctx.eq(c, x) for x in '0123456789abcdef' if int(x, 16) >> (i % 4) & 1])
                ones = ones + ctx.ite(b, 1, 0)
            ctx.check(ctx.iff(ctx.bit(sig, i), 2 * ones > len(texts)), 'a bit of the signature is not the one of most tokens')
    else:
        n = ctx.choice('n', [3, 5, 6, 7, 12, 100, 1024, 2048, 513])
        try:
            ctx.imp('fog.lsh').simhash(['a'], f=n)
            ok = True
        except AssertionError:
            ok = False
        ctx.check(not ok, 'a wrong size is accepted')
