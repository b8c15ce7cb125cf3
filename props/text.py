"""Alphabets for the harnesses working on text."""
ASCII = [(0, 127)]
LATIN = [(0, 0x24F)]
# Latin, Greek, Cyrillic, general punctuation, currencies, letterlike symbols,
# number forms, some CJK, ligatures, full width forms
WIDE = LATIN + [(0x370, 0x45F), (0x1E00, 0x1EFF), (0x2000, 0x206F), (0x20A0, 0x20BF), (0x2100, 0x218F), (0x4E00, 0x4E7F), (0x5317, 0x5317), (0xFB00, 0xFB06), (0xFF01, 0xFF5E)]
# ASCII and a few letters whose transliteration is remarkable
MIXED = [(32, 32), (39, 39), (45, 45), (48, 49), (65, 68), (72, 72), (97, 100), (104, 104), (0xA0, 0xA0), (0xC6, 0xC6), (0xC9, 0xC9), (0xDF, 0xDF), (0xE9, 0xE9), (0x130, 0x130), (0x2116, 0x2116), (0x5317, 0x5317)]


def among(ctx, c, chars):
    """c is one of these characters (symbolic truth value)"""
    return ctx.any([ctx.eq(c, x) for x in chars])


def between(ctx, c, a, b):
    if ctx.symbolic and not isinstance(c, str):
        return ctx.all([c >= a, c <= b])
    return a <= c <= b


def same(ctx, got, want):
    """equality of two sequences"""
    return len(got) == len(want) and ctx.all([ctx.eq(a, b) for a, b in zip(got, want)])


def cat(xs):
    r = ''
    for x in xs:
        r = r + x
    return r
