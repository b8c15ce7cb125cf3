from props import spec, text
from props.c31 import upper

ID = 'C32'
BOUNDS = {'quick': 'names of one character out of 2,500, of two of a mixed alphabet, of up to 3 ASCII letters (and German letters), of up to 4 letters of {A, C, D, H, K, L, P, S, X, M, N}; long names with two free German letters',
          'thorough': 'up to 4 ASCII letters, 5 of the small alphabet'}
ASSUMPTIONS = ['unidecode and str.upper transliterate each character by itself']
GERMAN = [(65, 90), (97, 122), (0xC4, 0xC4), (0xD6, 0xD6), (0xDC, 0xDC), (0xDF, 0xDF), (0xE4, 0xE4), (0xF6, 0xF6), (0xFC, 0xFC), (45, 45)]
SMALL = [(ord(c), ord(c)) for c in 'ACDHKLMNPSX']
DOMS = {'WIDE': text.WIDE, 'MIXED': text.MIXED, 'GERMAN': GERMAN, 'SMALL': SMALL}


def cases(tier):
    big = tier != 'quick'
    out = []
    for dom, ns in (('WIDE', (0, 1)), ('MIXED', (2,)), ('GERMAN', (1, 2, 3) + ((4,) if big else ())), ('SMALL', (3, 4) + ((5,) if big else ()))):
        for n in ns:
            out.append({'dom': dom, 'n': n})
    for name in ('M\xfcller-L?denscheid?', 'Schwartz?nb?rger', '?rschb?cher', 'Breschn?w', 'Wik?pedia', 'Heinz?Cl?ssen', 'Alexa?der Ph?lipp', 'he??o', 'ph?hP?', 'x?cx?'):
        out.append({'pattern': name, 'dom': 'GERMAN', 'n': 1})
    return out


def run(ctx, case):
    mod = ctx.imp('fog.phonetics')
    s = spec.sparse(ctx, 's', case['pattern'], DOMS[case['dom']]) if 'pattern' in case else ctx.string('s', case['n'], dom=DOMS[case['dom']])
    got = mod.cologne(s)
    ctx.observe(got)
    # letters, and whether the next character is an H
    L, H = [], []
    U = upper(ctx, s, True) if case['n'] else []
    for i, c in enumerate(U):
        if text.between(ctx, c, 'A', 'Z'):
            L.append(c)
            H.append(i + 1 < len(U) and text.among(ctx, U[i + 1], 'H'))

    def is_(c, xs):
        return text.among(ctx, c, xs)
    # the table of Postel, as digits ('' for H, '48' for X)
    codes = []
    for i, c in enumerate(L):
        prev = L[i - 1] if i else None
        nxt = L[i + 1] if i + 1 < len(L) else None
        if is_(c, 'H'):
            continue
        if is_(c, 'AEIJOUY'):
            codes.append('0')
        elif is_(c, 'B'):
            codes.append('1')
        elif is_(c, 'P'):
            codes.append('3' if H[i] else '1')
        elif is_(c, 'DT'):
            codes.append('8' if nxt is not None and is_(nxt, 'CSZ') else '2')
        elif is_(c, 'FVW'):
            codes.append('3')
        elif is_(c, 'GKQ'):
            codes.append('4')
        elif is_(c, 'C'):
            if i == 0:
                codes.append('4' if nxt is not None and is_(nxt, 'AHKLOQRUX') else '8')
            elif is_(prev, 'SZ'):
                codes.append('8')
            else:
                codes.append('4' if nxt is not None and is_(nxt, 'AHKOQUX') else '8')
        elif is_(c, 'X'):
            codes.append('8' if prev is not None and is_(prev, 'CKQ') else '48')
        elif is_(c, 'L'):
            codes.append('5')
        elif is_(c, 'MN'):
            codes.append('6')
        elif is_(c, 'R'):
            codes.append('7')
        else:
            codes.append('8')
    flat = ''.join(codes)
    sq = ''.join(d for i, d in enumerate(flat) if not i or d != flat[i - 1])
    want = sq[:1] + sq[1:].replace('0', '')
    ctx.check(ctx.eq(got, want), 'the code is not the Cologne phonetic code')
