from props import spec, text

ID = 'C30'
BOUNDS = {'quick': 'strings of one character out of 2,500 (Latin, Greek, Cyrillic, symbols, some CJK), of two characters of a mixed alphabet, of up to 4 ASCII characters of the listed alphabets, with each option (split, stopwords, keep_digits, squeeze, min_token_size) splitting characters and stopwords with a meaning in regular expressions, and n-grams of 1 to 3; long strings with up to three free characters of these alphabets',
          'thorough': 'three mixed characters, up to 5 ASCII characters'}
ASSUMPTIONS = ['unidecode and str.lower transliterate each character by itself']
WORDS = [(32, 32), (45, 45), (65, 66), (97, 98)]
DIGITS = [(32, 32), (48, 49), (97, 98), (0x661, 0x661)]
SPLIT = [(32, 32), (44, 46), (97, 98)]
BASIC = [(32, 32), (33, 33), (48, 48), (65, 65), (97, 99)]


def cases(tier):
    big = tier != 'quick'
    out = [{'dom': 'WIDE', 'n': 1}, {'dom': 'MIXED', 'n': 2}, {'dom': 'ASCII', 'n': 2}, {'dom': 'ASCII', 'n': 0}]
    out += [{'dom': 'MIXED', 'n': 2, 'g': 2}]
    for n in (3, 4) + ((5,) if big else ()):
        out.append({'dom': 'BASIC', 'n': n})
    for g in (1, 2, 3):
        for n in (0, 2, 3, 4):
            out.append({'dom': 'BASIC', 'n': n, 'g': g})
    for n in (2, 3, 4) + ((5,) if big else ()):
        out.append({'dom': 'WORDS', 'n': n, 'stop': ['ab', 'b']})
        out.append({'dom': 'WORDS', 'n': n, 'squeeze': True})
        out.append({'dom': 'DIGITS', 'n': n, 'digits': False})
        out.append({'dom': 'SPLIT', 'n': n, 'split': [',', '-']})
        out.append({'dom': 'SPLIT', 'n': n, 'split': [',', '-'], 'stop': ['a']})
        out.append({'dom': 'ONLY', 'n': n, 'min': 2})
        out.append({'dom': 'ROMAN', 'n': n, 'squeeze': True})
        out.append({'dom': 'ONLY', 'n': n, 'stop': ['a.b', 'b|a', 'a*']})
        out.append({'dom': 'OPS', 'n': n, 'split': ['+', '-', '/']})
        out.append({'dom': 'OPS', 'n': n, 'split': ['^', ']', '\\']})
        if n < 4:
            out.append({'dom': 'WORDS', 'n': n, 'stop': ['ab'], 'g': 2})
            out.append({'dom': 'WORDS', 'n': n, 'squeeze': True, 'g': 2})
            out.append({'dom': 'DIGITS', 'n': n, 'digits': False, 'g': 2})
            out.append({'dom': 'SPLIT', 'n': n, 'split': [',', '-'], 'g': 2})
    if big:
        out += [{'dom': 'MIXED', 'n': 3}, {'dom': 'ASCII', 'n': 3}]
    for name in ('University?of\tNorth??Carolina', '  the ?ab the lab? ', "\xc9cole d'?conomie (?)", 'aaa?bbb aaa bbb?'):
        out.append({'dom': 'BASIC', 'pattern': name, 'n': 5})
        if 'Unive' not in name:
            out.append({'dom': 'BASIC', 'pattern': name, 'n': 5, 'g': 2})
    for name in ('ab -abba?b ab', 'b ba?a-b?b'):
        out.append({'dom': 'WORDS', 'pattern': name, 'n': 5, 'stop': ['ab', 'b']})
        out.append({'dom': 'WORDS', 'pattern': name, 'n': 5, 'squeeze': True})
    out.append({'dom': 'DIGITS', 'pattern': '12 a?3b 4?b1', 'n': 5, 'digits': False})
    out.append({'dom': 'SPLIT', 'pattern': 'a,b?ab-ba?a', 'n': 5, 'split': [',', '-']})
    return out


DOMS = {'ROMAN': [(32, 32), (48, 48), (88, 88), (105, 105), (108, 109)], 'OPS': [(43, 47), (92, 94), (97, 98)], 'WIDE': text.WIDE, 'MIXED': text.MIXED, 'ASCII': text.ASCII, 'BASIC': BASIC, 'WORDS': WORDS, 'DIGITS': DIGITS, 'SPLIT': SPLIT, 'ONLY': [(32, 32), (97, 98)]}
SPACE = ' \t\n\r\x0b\x0c\x1c\x1d\x1e\x1f'


def isword(ctx, c):
    return ctx.any([text.between(ctx, c, 'a', 'z'), text.between(ctx, c, 'A', 'Z'), text.between(ctx, c, '0', '9'), ctx.eq(c, '_')])


def clean(ctx, s, case, unidecode):
    chars = list(s)
    if case.get('split'):
        chars = [' ' if text.among(ctx, c, case['split']) else c for c in chars]
    if case.get('stop'):
        # alphabet: ASCII; a stopword is dropped when it is a whole word
        out, i = [], 0
        while i < len(chars):
            if not isword(ctx, chars[i]):
                out.append(chars[i])
                i += 1
                continue
            j = i
            while j < len(chars) and isword(ctx, chars[j]):
                j += 1
            w = chars[i:j]
            if not any(len(w) == len(x) and all(ctx.any([ctx.eq(c, y), ctx.eq(c, y.upper())]) for c, y in zip(w, x)) for x in case['stop']):
                out += w
            i = j
        chars = out
    if case.get('digits') is False:
        chars = [c for c in chars if not text.among(ctx, c, '0123456789\u0661')]
    low = text.cat(chars).lower()
    out = []
    for c in unidecode(low) if len(low) else []:
        if ctx.any([text.between(ctx, c, 'a', 'z'), text.between(ctx, c, '0', '9')]):
            out.append(c)
        elif text.between(ctx, c, 'A', 'Z'):
            out.append(c.lower())
        elif text.among(ctx, c, SPACE):
            out.append(' ')
    while out and isinstance(out[0], str) and out[0] == ' ':
        out.pop(0)
    if case.get('squeeze'):
        out = [c for i, c in enumerate(out) if not i or not ctx.eq(c, out[i - 1])]
    return out


def words(out):
    ws = [[]]
    for c in out:
        if isinstance(c, str) and c == ' ':
            ws.append([])
        else:
            ws[-1].append(c)
    return [w for w in ws if w]


def run(ctx, case):
    tok, key = ctx.imp('fog.tokenizers'), ctx.imp('fog.key')
    import unidecode
    ud = unidecode.unidecode
    if ctx.symbolic:
        from symx import rt
        real = ud
        ud = rt.HOOKS_PY.get(real, real)
    s = spec.sparse(ctx, 's', case['pattern'], DOMS[case['dom']]) if 'pattern' in case else ctx.string('s', case['n'], dom=DOMS[case['dom']])
    kw = {}
    for a, b in (('stop', 'stopwords'), ('squeeze', 'squeeze'), ('digits', 'keep_digits'), ('split', 'split'), ('min', 'min_token_size')):
        if a in case:
            kw[b] = case[a]
    g = case.get('g')
    if g:
        T = ctx.shared(['tok.NgramsFingerprintTokenizer', kw], lambda: tok.NgramsFingerprintTokenizer(**kw)) if kw else tok.ngrams_fingerprint_tokenizer
        K = ctx.shared(['key.NgramsFingerprintKeyer', kw], lambda: key.NgramsFingerprintKeyer(**kw)) if kw else key.ngrams_fingerprint
        got, k = list(T(g, s)), K(g, s)
        ctx.check(ctx.eq(T.key(g, s), k) and ctx.eq(k, text.cat(got)), 'the key is not made of the tokens')
    else:
        T = ctx.shared(['tok.FingerprintTokenizer', kw], lambda: tok.FingerprintTokenizer(**kw)) if kw else tok.fingerprint_tokenizer
        K = ctx.shared(['key.FingerprintingKeyer', kw], lambda: key.FingerprintingKeyer(**kw)) if kw else key.fingerprint
        got, k = list(T(s)), K(s)
        j = text.cat([(' ' if i else '') + x for i, x in enumerate(got)])
        ctx.check(ctx.eq(T.key(s), k) and ctx.eq(k, j), 'the key is not made of the tokens')
    ctx.observe(got)
    out = clean(ctx, s, case, ud)
    if g:
        flat = [c for c in out if not (isinstance(c, str) and c == ' ')]
        want = [flat[i:i + g] for i in range(len(flat) - g + 1)] if len(flat) >= g else [flat]
    else:
        want = words(out)
        if case.get('min'):
            must = [w for w in want if len(w) > case['min']]
            for w in must:
                ctx.check(ctx.any([text.same(ctx, x, w) for x in got]), 'a long enough word is dropped')
            ctx.check(all(not x or len(x) >= case['min'] for x in got), 'a word which is too short is kept')
            if must:
                ctx.check(all(len(x) > 0 for x in got), 'a token is empty')
            return
    for x in got:
        if len(x):
            ctx.check(ctx.any([text.same(ctx, x, w) for w in want]), 'a token is not a word of the cleaned string')
    for w in want:
        if w:
            ctx.check(ctx.any([text.same(ctx, x, w) for x in got]), 'a word of the cleaned string is lost')
    if any(want):
        ctx.check(all(len(x) > 0 for x in got), 'a token is empty')
    ctx.check(ctx.all([got[i] < got[i + 1] for i in range(len(got) - 1)]), 'tokens are not sorted and unique')
    if not g and not kw and case['n'] >= 3:
        ctx.check(ctx.eq(K(k), k), 'the fingerprint of a fingerprint is not itself')
