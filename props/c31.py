from props import spec, text

ID = 'C31'
BOUNDS = {'quick': 'strings of one character out of 2,500, of two of a mixed alphabet, of up to 5 characters of {A, B, c, e, r, -} and of up to 3 ASCII letters; long strings with two free letters',
          'thorough': 'up to 6 characters'}
ASSUMPTIONS = ['unidecode and str.upper transliterate each character by itself']
FEW = [(45, 45), (65, 66), (99, 99), (101, 101), (114, 114)]
LETTERS = [(65, 90), (97, 122)]
DOMS = {'WIDE': text.WIDE, 'MIXED': text.MIXED, 'FEW': FEW, 'LETTERS': LETTERS}
ORDER = 'JKQXZVWYBFMGPDHCLNTSR'


def cases(tier):
    out = []
    for f in ('skeleton', 'omission'):
        for dom, ns in (('WIDE', (1,)), ('MIXED', (2,)), ('FEW', (0, 1, 2, 3, 4, 5) + ((6,) if tier != 'quick' else ())), ('LETTERS', (2, 3) + ((4,) if tier != 'quick' else ()))):
            for n in ns:
                out.append({'f': f, 'dom': dom, 'n': n})
        for name in ('L?UNIVERSITE D?AIX', 'chemog?ap?ic', 'Rac?ntrez-mo?', 'm\xeel?h\xe2tel\xe9?', 'bcdfghj?lmnpqrstv?xyz', '1?2?aa'):
            out.append({'f': f, 'dom': 'LETTERS', 'pattern': name, 'n': 1})
    return out


def upper(ctx, s, first=False):
    """the upper case transliteration"""
    import unidecode
    ud = unidecode.unidecode
    if ctx.symbolic:
        from symx import rt
        ud = rt.HOOKS_PY.get(ud, ud)
    return list(ud(s.upper() if first else s).upper())


def letters(ctx, s):
    return [c for c in upper(ctx, s) if text.between(ctx, c, 'A', 'Z')]


def vowel(ctx, c):
    return text.among(ctx, c, 'AEIOU')


def run(ctx, case):
    mod = ctx.imp('fog.key')
    s = spec.sparse(ctx, 's', case['pattern'], DOMS[case['dom']]) if 'pattern' in case else ctx.string('s', case['n'], dom=DOMS[case['dom']])
    got = (mod.skeleton_key if case['f'] == 'skeleton' else mod.omission_key)(s)
    ctx.observe(got)
    L = letters(ctx, s) if case['n'] else []
    ctx.check((len(got) == 0) == (not L), 'the key is empty for a string having letters, or the converse')
    if not L:
        return
    if case['f'] == 'skeleton':
        first, rest = [L[0]], L[1:]
        uniq = []
        for c in rest:
            if not c == L[0] and not any(c == u for u in uniq):
                uniq.append(c)
        want = first + [c for c in uniq if not vowel(ctx, c)] + [c for c in uniq if vowel(ctx, c)]
        ctx.check(text.same(ctx, got, want), 'the skeleton key is not the first letter, then the other consonants, then the other vowels, once each in order')
        return
    vowels = []
    for c in L:
        if vowel(ctx, c) and not any(c == u for u in vowels):
            vowels.append(c)
    cons = [c for c in L if not vowel(ctx, c)]
    k = len(got) - len(vowels)
    ctx.check(k >= 0 and text.same(ctx, got[k:], vowels), 'the omission key does not end with the vowels, in order of appearance')
    head = list(got[:k])
    for c in cons:
        ctx.check(text.among(ctx, c, head), 'a consonant is missing from the omission key')
    for c in head:
        ctx.check(text.among(ctx, c, cons), 'the omission key has a consonant the string has not')
    rank = [sum([ctx.ite(ctx.eq(c, o), i, 0) for i, o in enumerate(ORDER)]) for c in head]
    ctx.check(ctx.all([rank[i] < rank[i + 1] for i in range(len(rank) - 1)]), 'the consonants are not in the order of the omission key')
