from props import spec

ID = 'C04'
BOUNDS = {'quick': 'all pairs of strings over any character but the flag, lengths 0..6 with length difference <= 2 (soundness), default flag and a custom flag',
          'thorough': 'all pairs of strings over any character but the flag, lengths 0..9 with length difference <= 3'}
ASSUMPTIONS = ['the strings do not contain the wildcard flag']
DOM = {'\x00': ((1, 0x10FFFF),), '*': ((0, 41), (43, 0x10FFFF))}


def cases(tier):
    n, d = (6, 2) if tier == 'quick' else (9, 3)
    out = []
    for i in range(n + 1):
        for j in range(i, n + 1):
            if j - i <= d:
                for t in (False, True):
                    out.append({'a': i, 'b': j, 't': t})
                    if max(i, j) <= 3:
                        out.append({'a': i, 'b': j, 't': t, 'flag': '*'})
    for base in ('abcdeffghijklm', 'aaaabbbbaaaa'):
        for ops in (['ins'], ['sub'], ['swap'], ['ins', 'del'], ['sub', 'sub'], ['swap', 'ins']):
            for t in (False, True):
                out.append({'base': base, 'ops': ops, 't': t})
    out.append({'known': 'insertion between doubled letters', 't': False})
    out.append({'known': 'insertion between doubled letters', 't': True})
    return out


def run(ctx, case):
    mod = ctx.imp('fog.key.levenshtein')
    flag = case.get('flag', '\x00')
    f = mod.damerau_levenshtein_1d_keys if case['t'] else mod.levenshtein_1d_keys
    if 'known' in case:
        # pinned by the repository's own tests: recorded in known_findings.json
        ctx.check(set(f('hello')) & set(f('helxlo')), 'hello and helxlo, one insertion apart, share no key')
        return
    if 'ops' in case:
        A = case['base']
        B = spec.edited(ctx, 'B', A, case['ops'], DOM[flag])
    else:
        A = ctx.string('A', case['a'], DOM[flag])
        B = ctx.string('B', case['b'], DOM[flag])
    kw = {'flag': flag} if 'flag' in case else {}
    ka, kb = ctx.drain(lambda: f(A, **kw)), ctx.drain(lambda: f(B, **kw))
    if ctx.choice('observed', [0, 1]) if max(len(A), len(B)) <= 2 else 0:
        ctx.observe([ka, kb])
        return
    shared = ctx.any([ctx.eq(x, y) for x in ka for y in kb])
    close = spec.edit1(ctx, A, B, case['t'])
    ctx.check(max(len(ka) - (3 if case['t'] else 2) * len(A), len(kb) - (3 if case['t'] else 2) * len(B)) <= 3, 'more keys than documented')
    ctx.check(ctx.implies(spec.edit1(ctx, A, B, case['t'], but_inside_doubled=True), shared),
              'two strings within distance 1 share no key')
    if case['t']:
        ctx.check(ctx.implies(shared, spec.osa(ctx, A, B) <= 2), 'two strings more than 2 edits apart share a key')
    else:
        ctx.check(ctx.implies(shared, close), 'two strings more than 1 edit apart share a key')
