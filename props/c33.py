from props import spec, text

ID = 'C33'
BOUNDS = {'quick': 'names of one character out of 2,500, of up to 3 letters a-z or 4 among c, e, h, i, j and z; variants inserted between a prefix and a suffix of 2 letters in all, or in long names with one or two free letters',
          'thorough': 'up to 4 letters a-z or 6 of the small alphabet; prefixes and suffixes of 3 letters in all'}
ASSUMPTIONS = ['unidecode and str.lower transliterate each character by itself']
LOW = [(97, 122)]
FEW = [(99, 99), (101, 101), (104, 106), (122, 122)]
BOTH = [(65, 90), (97, 122), (39, 39)]


def cases(tier):
    big = tier != 'quick'
    out = [{'f': 'total', 'dom': 'WIDE', 'n': 1}]
    for n in range(4 + big):
        out.append({'f': 'total', 'dom': 'LOW', 'n': n})
    for n in (4,) + ((5, 6) if big else ()):
        out.append({'f': 'total', 'dom': 'FEW', 'n': n})
    for n in range(1, 3 + big):
        out.append({'f': 'case', 'n': n})
    k = 2 + big
    for a in range(k + 1):
        for b in range(k + 1):
            if 0 < a + b <= k:
                out.append({'f': 'variants', 'a': a, 'b': b, 'v': ['f', 'v', 'w', 'ph']})
            if 2 <= a <= a + b <= k:
                out.append({'f': 'variants', 'a': a, 'b': b, 'v': ['a', 'e']})
    for b in range(1, k + 1):
        out.append({'f': 'variants', 'a': 0, 'b': b, 'v': ['e', 'ye', 'je']})
    for a in range(2, k + 1):
        out.append({'f': 'variants', 'a': a, 'b': 0, 'v': ['i', 'ij', 'iy']})
        out.append({'f': 'variants', 'a': a - 1, 'b': 1, 'v': ['tch', 'ch', 'sh']})
    out.append({'f': 'variants', 'a': 0, 'b': 2, 'v': ['dzh', 'dj', 'zh']})
    out.append({'f': 'variants', 'a': 1, 'b': 1, 'v': ['ks', 'x']})
    out.append({'f': 'variants', 'a': 0, 'b': 2, 'v': ['cz', 'ts']})
    for a in range(k + 1):
        b = k - a
        for v in (['ch', '\u010d', '\u0161', '\u015d'], ['zh', '\u017e'], ['iou', '\xfb'], ['l', 'll'], ['m', 'mmm'], ['n', 'nn'], ['r', 'rr'], ['b', 'bb']):
            out.append({'f': 'variants', 'a': a, 'b': b, 'v': v})
        if b:
            out.append({'f': 'variants', 'a': a, 'b': b, 'v': ['k', 'kh']})
            out.append({'f': 'variants', 'a': a, 'b': b, 'v': ['k', 'c', 'g']})
        out.append({'f': 'variants', 'a': a, 'b': b, 'v': ['tch', 'tz']})
    for b in range(k + 1):
        out.append({'f': 'variants', 'a': 0, 'b': b, 'v': ['you', 'yu', 'iou', '\xfb']})
    for name in ('dosto?evsk?y', '?aleks?ndrov?tch', 'sh?hed?in', 't?h?ikovskij', 'ks?nia-iour?ev', "y?vg'en?y"):
        out.append({'f': 'total', 'dom': 'LOW', 'pattern': name})
    for p, q, v in (('al', 'ks?nder', ['e', 'a', 'y', 'o']), ('mich', 'l?', ['ai', 'ae', 'a']), ('che?', '', ['ov', 'of', 'off', 'oph', 'ow']), ('?ar?n', 'eva', ['', 'n', 'nn']), ('?ostoye', 'sk?y', ['v', 'w', 'ff', 'ph'])):
        out.append({'f': 'around', 'p': p, 'q': q, 'v': v})
    return out


def run(ctx, case):
    f = ctx.imp('fog.phonetics').rusalka
    if case['f'] == 'total':
        s = spec.sparse(ctx, 's', case['pattern'], BOTH) if 'pattern' in case else ctx.string('s', case['n'], dom={'WIDE': text.WIDE, 'LOW': LOW, 'FEW': FEW}[case['dom']])
        got = f(s)
        ctx.observe(got)
        ctx.check(len(got) <= 3 * len(s) or case['dom'] == 'WIDE', 'the key is longer than the name')
        for i, c in enumerate(got):
            ctx.check(ctx.any([text.between(ctx, c, 'a', 'z'), text.among(ctx, c, '\u0283\u0292')]), 'the key has an unexpected character')
            if i:
                ctx.check(ctx.no(text.among(ctx, c, 'aeiouy')), 'the key has a vowel after its first letter')
        return
    if case['f'] == 'case':
        s = ctx.string('s', case['n'], dom=BOTH)
        got = f(s)
        ctx.check(ctx.eq(got, f(s.lower())), 'the key depends on the case')
        ctx.check(ctx.eq(got, f(text.cat([c for c in s if not c == "'"]))), 'the key depends on the apostrophes')
        return
    if case['f'] == 'around':
        a, b = spec.sparse(ctx, 'a', case['p'], [(97, 97), (107, 110), (112, 113)]), spec.sparse(ctx, 'b', case['q'], [(97, 97), (107, 110), (113, 113)])
        keys = [f(a + v + b) for v in case['v']]
        for k in keys:
            ctx.check(ctx.eq(k, keys[0]), 'transliteration variants %s have different keys' % ', '.join(case['v']))
        return
    a, b = ctx.string('a', case['a'], dom=LOW), ctx.string('b', case['b'], dom=LOW)
    first = None
    if 'iy' in case['v']:
        # rules may drop these, making the vowel the first letter
        ctx.assume(ctx.no(text.among(ctx, a[0], 'hi')))
    for v in case['v']:
        if v in ('tch', 'ch', 'sh') and case['a']:
            # the letter before may merge with these
            ctx.assume(ctx.no(text.among(ctx, a[-1], 'dtscpi')))
        if v == 'tz' and case['b']:
            ctx.assume(ctx.no(text.among(ctx, b[0], 'h')))
        if v in ('kh', 'c'):
            ctx.assume(ctx.no(text.among(ctx, b[0], 'sz' if v == 'kh' else 'szh')))
        if v == 'yu':
            ctx.assume(ctx.no(text.among(ctx, b[0], 'o')) if case['b'] else True)
        if v == 'ks':
            ctx.assume(ctx.no(text.among(ctx, a[-1], 'cgkx')))
            ctx.assume(ctx.no(text.among(ctx, b[0], 'hsx')))
        if v in ('dzh', 'cz'):
            ctx.assume(ctx.no(text.among(ctx, b[0], 'hjszk')))
        if v in ('tch', 'dzh', 'sh') and case['b']:
            ctx.assume(ctx.no(text.among(ctx, b[0], 'hjs')))
        k = f(a + v + b)
        if first is None:
            first = k
        ctx.check(ctx.eq(k, first), 'transliteration variants %s have different keys' % ', '.join(case['v']))
