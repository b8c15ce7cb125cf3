from props import text

ID = 'C34'
BOUNDS = {'quick': 'texts of up to 2 characters of ASCII and Latin-1, of 3 among 18, of 4 among 10 characters (letters, digits, apostrophe, hyphen, point, sigils, space, control character); URLs, emails, abbreviations, contractions, unions, smileys and emojis with one or two free characters around; one Latin-1 character after sigils, words and numbers, up to three characters of smileys, texts of about 65 characters with two free ones; every option on texts of up to 3 characters, stoplists as lists and sets; hashtags of up to 5 characters; eight sentences with two free characters',
          'thorough': 'texts of 3 ASCII characters, of 4 among 18 and 5 among 10; options on texts of up to 4; hashtags of 7'}
ASSUMPTIONS = ['unidecode and str.lower work on each character by itself']
LATIN1 = [(0, 255), (0x2019, 0x2019)]


def dom(chars):
    return [(ord(c), ord(c)) for c in chars]


MANY = dom("aAtnoO1.,-'_#@$! \x01")
SOME = dom("aAt1.-'# @")
NUMS = dom("15.,-' a")
WORDS = dom("aBt-'. ")
TAGS = dom("aA\u00e9\u00c91")
CASELESS = dom("aA1\u00b2\u5317_")
EMO = dom("\U0001F64F\u2B50\uFE0F\u200D\U0001F468,a \U0001F1EB\U0001F1F7")
DOMS = {'LATIN1': LATIN1, 'ASCII': text.ASCII, 'MANY': MANY, 'SOME': SOME, 'NUMS': NUMS, 'WORDS': WORDS, 'EMO': EMO, 'TAGS': TAGS, 'CASELESS': CASELESS,
        'RED': dom("aAb1!"), 'AA': dom("aA"), 'FACES': dom("><):;=8dD3^-|a'*")}
PARTS = "-_.,'\u2019\u00b7#@$"
TYPES = ['word', 'number', 'punct', 'emoji', 'smiley', 'url', 'email', 'hashtag', 'mention']
SHAPES = ['http://?', '?http://a?b', 'https://a.b/?? c', 'a?b@c?d', 'Mr??', '?etc.?', "?'tis?", "it's?", "?n't?", "90's?", "a-t-?", "a-?t-?", "va?y",
          "a-il?", ":?)", "<?3", "??->", "O'?a", "#?B", "@?b'", "$?.5", "-?.5", "?.?.?", "l'?#a", "U.?a", "hui'?", "\u2B50?\uFE0F?", "\U0001F64F?"]


def cases(tier):
    big = tier != 'quick'
    out = []
    for n in range(3):
        out.append({'f': 'text', 'dom': 'LATIN1', 'n': n})
    out.append({'f': 'text', 'dom': 'MANY', 'n': 3})
    for d in ('SOME', 'NUMS', 'WORDS'):
        out.append({'f': 'text', 'dom': d, 'n': 4})
    out.append({'f': 'text', 'dom': 'EMO', 'n': 3})
    if big:
        out.append({'f': 'text', 'dom': 'ASCII', 'n': 3})
        out.append({'f': 'text', 'dom': 'MANY', 'n': 4})
        for d in ('SOME', 'NUMS', 'WORDS'):
            out.append({'f': 'text', 'dom': d, 'n': 5})
        out.append({'f': 'text', 'dom': 'EMO', 'n': 4})
    for s in SHAPES:
        out.append({'f': 'shape', 's': s})
    for s in ["Hello @user?, see #Tag1? and http://a.b/cd e", "It's 12?345.6 or -7?8 (l'ab) Mr. O'Neil", "It's 12345.6 or -78 (l'a?b) Mr. O'Neil?", "a?z@b.com: 1,5? \u2B50 :-) etc", "etc? va-t-il? -- U.S.A 90's", "va-t-il -- U.S.A? 90's?",
              "\u201ca?b\u201d \xabc?d\xbb x/yz", "x/y?z $1?.50 20% \u2026"]:
        out.append({'f': 'shape', 's': s})
    for s in ('@a?', '@?a', '#a?', '#?a', 'a?', '?a', 'a@?', 'a@b?c', 'http://a?', "a'?", 'a-?', 'a.?', '1?', '1.?', '-?', 'A.?'):
        out.append({'f': 'shape', 's': s, 'dom': 'LATIN1'})
    for s in ('<3?', ':)?', '->?', '^^?', '<-?', ':?)?', '<:??', 'D:?', '=?]', '8-?a', '???'):
        out.append({'f': 'shape', 's': s, 'dom': 'FACES'})
    for s in ('a' * 62 + '??@b', 'a' * 63 + '?@b?', 'http://a.b/' + 'c' * 53 + '??', '1' * 64 + '?.5?', '#' + 'a' * 64 + '?', ' ' * 64 + '??', '.' * 63 + '??'):
        out.append({'f': 'shape', 's': s})
    for n in range(1, 8 if big else 6):
        out.append({'f': 'split', 'dom': 'TAGS', 'n': n})
        out.append({'f': 'split', 'dom': 'CASELESS', 'n': n})
    for o in ({'lower': True}, {'min_word_length': 2}, {'max_word_length': 1}, {'min_word_length': 1, 'max_word_length': 2},
              {'stoplist': ['a', 'A', '1', '.']}, {'stoplist': ['a']}, {'stoplist': []}, {'stoplist': ['T', 'aa', 'aT'], 'lower': True, 'set': True}, {'stoplist': ['T', 'A'], 'set': True},
              {'stoplist': ['a', 'at'], 'hashtags_as_words': True, 'mentions_as_words': True}, {'stoplist': ['a', 'T'], 'lower': True}, {'keep': ['word']}, {'keep': ['punct', 'number']},
              {'drop': ['punct']}, {'drop': ['word', 'mention']}, {'normalize_mentions': True}, {'normalize_hashtags': True},
              {'mentions_as_words': True}, {'hashtags_as_words': True}, {'mentions_as_words': True, 'normalize_mentions': True},
              {'hashtags_as_words': True, 'lower': True}, {'hashtags_as_words': True, 'normalize_hashtags': True, 'min_word_length': 2},
              {'mentions_as_words': True, 'keep': ['mention']}, {'drop': []}, {'keep': []}):
        for n in (2, 3) + ((4,) if big else ()):
            out.append({'f': 'options', 'dom': 'SOME', 'n': n, 'o': o})
        out.append({'f': 'options', 'dom': 'LATIN1', 'n': 2 if big else 1, 'pre': '@' if 'mention' in str(o) else '#', 'o': o})
    for n in (2, 3):
        out.append({'f': 'unidecode', 'dom': 'LATIN1' if n == 2 else 'SOME', 'n': n})
        out.append({'f': 'hashtags', 'dom': 'SOME', 'n': n})
    for n in (1, 5, 6) + ((7,) if big else ()):
        out.append({'f': 'reduce', 'dom': 'RED', 'n': n})
    for n in (5, 6, 7):
        out.append({'f': 'reduce', 'dom': 'AA', 'n': n})
    for n in (0, 1, 2):
        out.append({'f': 'html', 'n': n})
    out.append({'f': 'errors'})
    return out


def fill(ctx, shape, d):
    s = ''
    k = 0
    for c in shape:
        if c == '?':
            s = s + ctx.string('c%d' % k, 1, dom=d)
            k += 1
        else:
            s = s + c
    return s


def kept(s):
    """the characters of s which cannot be lost"""
    return [c for c in s if not (c.isspace() or c <= '\x1f' or c == '-')]


def number(ctx, v):
    k = 1 if v[0] == '-' else 0
    seen = False
    if len(v) == k:
        return False
    for c in v[k:]:
        if c.isdecimal():
            continue
        if seen or not (c == '.' or c == ','):
            return False
        seen = True
    return v[-1].isdecimal()


def examine(ctx, s, tokens, apostrophe):
    got = []
    for t, v in tokens:
        got.extend(kept(v))
        ctx.check(t in TYPES, 'unknown type of token %s' % t)
        ctx.check(len(v) > 0, 'empty token')
        for c in v:
            ctx.check(ctx.no(c.isspace()), 'a token has a space')
        if t == 'number':
            ctx.check(number(ctx, v), 'a token is tagged as a number but is not one')
        elif t == 'hashtag':
            ctx.check(ctx.all([len(v) > 1, text.among(ctx, v[0], '#$')]), 'a token is tagged as a hashtag but is not one')
            if len(v) > 1:
                ctx.check(v[1].isalpha(), 'a hashtag does not start with a letter')
            if not apostrophe:
                ctx.check(ctx.all([c.isalnum() for c in v[1:]]), 'a hashtag has unexpected characters')
        elif t == 'mention':
            ctx.check(ctx.all([len(v) > 1, ctx.eq(v[0], '@')]), 'a token is tagged as a mention but is not one')
            if not apostrophe:
                ctx.check(ctx.all([ctx.any([text.between(ctx, c, 'a', 'z'), text.between(ctx, c, 'A', 'Z'), text.between(ctx, c, '0', '9'), ctx.eq(c, '_')]) for c in v[1:]]), 'a mention has unexpected characters')
        elif t == 'punct':
            # the tests want lone digits to be punctuation
            ctx.check(len(v) == 1 and ctx.any([ctx.no(v.isalnum()), v.isdecimal()]), 'a token is tagged as punctuation but is not one')
        elif t == 'url':
            ctx.check(v.startswith('http://') or v.startswith('https://'), 'a token is tagged as an url but is not one')
            ctx.check(ctx.no(ctx.any([ctx.eq(c, ',') for c in v])), 'an url has a comma')
        elif t == 'email':
            ctx.check(ctx.any([ctx.eq(c, '@') for c in v]), 'a token is tagged as an email but is not one')
            ctx.check(ctx.no(ctx.any([ctx.eq(c, ',') for c in v])), 'an email has a comma')
        elif t == 'word':
            ctx.check(ctx.any([c.isalnum() for c in v]), 'a word has no letter nor digit')
            ctx.check(ctx.all([ctx.any([c.isalnum(), text.among(ctx, c, PARTS)]) for c in v]), 'a word has unexpected characters')
    want = kept(s)
    ctx.check(text.same(ctx, got, want), 'some characters are lost, repeated, moved or invented')


def streams(ctx, got, want, msg):
    ctx.check(len(got) == len(want) and ctx.all([ctx.all([t == u, ctx.eq(v, w)]) for (t, v), (u, w) in zip(got, want)]), msg)


def post(ctx, o, tokens, uni):
    """what the options are documented to do with the tokens"""
    out = []
    stop = o.get('stoplist')
    if stop is not None and o.get('lower'):
        stop = [x.lower() for x in stop]
    for t, v in tokens:
        if 'keep' in o and t not in o['keep']:
            continue
        if 'drop' in o and t in o['drop']:
            continue
        if t == 'mention':
            if o.get('normalize_mentions'):
                v = v.lower()
            if o.get('mentions_as_words'):
                t, v = 'word', v[1:]
        elif t == 'hashtag':
            if o.get('normalize_hashtags'):
                v = uni(v.lower())
            if o.get('hashtags_as_words'):
                t, v = 'word', v[1:]
        if t == 'word':
            if o.get('lower'):
                v = v.lower()
            if len(v) < o.get('min_word_length', 0) or len(v) > o.get('max_word_length', 1000):
                continue
        if stop is not None and any([v == x for x in stop]):
            continue
        out.append((t, v))
    return out


def reduced(s):
    out = []
    i = 0
    while i < len(s):
        j = i + 1
        while j < len(s) and s[j] == s[i]:
            j += 1
        n = j - i
        if n >= 5 and s[i].isalpha():
            n = 3
        out.extend([s[i]] * n)
        i = j
    return text.cat(out)


def refuses(f, **kw):
    try:
        f(**kw)
    except TypeError:
        return True
    return False


def run(ctx, case):
    mod = ctx.imp('fog.tokenizers.words')
    cls = ctx.imp('fog.tokenizers').WordTokenizer

    def Tok(**o):
        return ctx.shared(o, lambda: cls(**o))
    f = case['f']
    ctx.steps(4000)
    if f == 'text' or f == 'shape':
        s = ctx.string('s', case['n'], dom=DOMS[case['dom']]) if f == 'text' else fill(ctx, case['s'], DOMS[case.get('dom', 'MANY')])
        tokens = ctx.drain(lambda: Tok()(s))
        ctx.observe([list(t) for t in tokens])
        examine(ctx, s, tokens, ctx.any([text.among(ctx, c, "'\u2019") for c in s]))
    elif f == 'split':
        s = ctx.string('s', case['n'], dom=DOMS[case['dom']])
        got = ctx.drain(lambda: mod.split_hashtag('#' + s))
        ctx.observe([list(t) for t in got])
        ctx.check(ctx.eq(text.cat([v for t, v in got]), s), 'the parts do not make the hashtag')
        for k, (t, v) in enumerate(got):
            ctx.check(len(v) > 0, 'empty part')
            ctx.check(t in ('word', 'number'), 'unknown type of part')
            if t == 'number':
                ctx.check(ctx.all([c.isdecimal() for c in v]), 'a part is tagged as a number but is not one')
            else:
                ctx.check(ctx.no(ctx.any([c.isdecimal() for c in v])), 'a word part has a digit')
                if case['dom'] == 'CASELESS':
                    continue
                for i in range(1, len(v)):
                    ctx.check(ctx.no(ctx.all([v[i - 1].islower(), v[i].isupper()])), 'a part is not split where the case changes')
                if k and got[k - 1][0] == 'word':
                    ctx.check(v[0].isupper(), 'a hashtag is split inside a word')
    elif f == 'options':
        s = case.get('pre', '') + ctx.string('s', case['n'], dom=DOMS[case['dom']])
        import unidecode
        if ctx.symbolic:
            from symx import rt
            uni = lambda v: rt.call(unidecode.unidecode, v)
        else:
            uni = unidecode.unidecode
        want = post(ctx, case['o'], ctx.drain(lambda: Tok()(s)), uni)
        o = dict(case['o'])
        if o.pop('set', False):
            o['stoplist'] = set(o['stoplist'])
        got = ctx.drain(lambda: Tok(**o)(s))
        ctx.observe([list(t) for t in got])
        streams(ctx, got, want, 'the options do not do what they are documented to do')
    elif f == 'unidecode':
        import unidecode
        s = ctx.string('s', case['n'], dom=DOMS[case['dom']])
        if ctx.symbolic:
            from symx import rt
            u = rt.call(unidecode.unidecode, s)
        else:
            u = unidecode.unidecode(s)
        streams(ctx, list(Tok(unidecode=True)(s)), list(Tok()(u)), 'the tokens are not the ones of the transliterated text')
    elif f == 'hashtags':
        s = '#' + ctx.string('s', case['n'], dom=DOMS[case['dom']])
        ctx.assume(ctx.no(ctx.any([text.among(ctx, c, "'\u2019") for c in s])))
        want = []
        for t, v in Tok()(s):
            if t == 'hashtag':
                want.extend(mod.split_hashtag(v))
            else:
                want.append((t, v))
        streams(ctx, list(Tok(split_hashtags=True)(s)), want, 'the hashtags are not split')
    elif f == 'reduce':
        s = ctx.string('s', case['n'], dom=DOMS[case['dom']])
        if case['n'] > 4 and case['dom'] == 'RED':
            # long enough runs need most of the text
            ctx.assume(ctx.all([ctx.eq(s[i], s[1]) for i in range(2, 5)]))
        streams(ctx, list(Tok(reduce_words=True)(s)), list(Tok()(reduced(s))), 'the words are not reduced as documented')
    elif f == 'html':
        s = ctx.string('s', case['n'], dom=SOME)
        ctx.assume(ctx.no(ctx.any([ctx.eq(c, '#') for c in s])))
        for e, c in (('&amp;', '&'), ('&#34;', '"'), ('&eacute;', '\u00e9')):
            for i in range(case['n'] + 1):
                streams(ctx, list(Tok(decode_html_entities=True)(s[:i] + e + s[i:])), list(Tok()(s[:i] + c + s[i:])), 'the HTML entities are not decoded')
    else:
        a = ctx.int('a', 0, 5)
        b = ctx.int('b', 0, 5)
        ctx.check(ctx.iff(refuses(Tok, min_word_length=a, max_word_length=b), a >= b), 'inconsistent word lengths are not refused, or consistent ones are')
        t = ctx.choice('t', TYPES + ['unknown', 'words', ''])
        ctx.check(refuses(Tok, keep=[t]) == (t not in TYPES), 'unknown types are not refused')
        ctx.check(refuses(Tok, drop=['word', t]) == (t not in TYPES), 'unknown types are not refused')
        ctx.check(refuses(Tok, keep=['word'], drop=['punct']), 'keep and drop are both accepted')
