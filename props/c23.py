from props.c16 import distinct_count

ID = 'C23'
FUNCS = ('jaccard_similarity', 'dice_coefficient', 'overlap_coefficient', 'binary_cosine_similarity')
BOUNDS = {'quick': 'two sequences of 0..4 tokens each with every equality pattern (repetitions included), given as lists, tuples, sets, frozensets, dicts, iterators or strings over all of Unicode; sequences of up to 18 tokens of which two are free',
          'thorough': 'sequences of up to 5 tokens'}
ASSUMPTIONS = ['hash containers iterate in insertion order in the model', 'the value for two empty sequences is only required to be 0 or 1']


def cases(tier):
    out = []
    n = 4 if tier == 'quick' else 5
    for f in FUNCS + ('intersection_size',):
        for a in range(n + 1):
            for b in range(n + 1):
                if a + b <= n + 2:
                    out.append({'f': f, 'a': a, 'b': b, 'as': ['list', 'list']})
        for ta, tb in (('set', 'list'), ('dict', 'frozenset'), ('iter', 'iter'), ('tuple', 'set')):
            out.append({'f': f, 'a': 3, 'b': 2, 'as': [ta, tb]})
            out.append({'f': f, 'a': 1, 'b': 3, 'as': [ta, tb]})
        out.append({'f': f, 'a': 3, 'b': 3, 'as': ['str', 'str']})
        out.append({'f': f, 'a': 3, 'b': 3, 'as': ['list', 'same']})
        for x, y in (('abcdefgh??', 'hgfedcba'), ('abcabc?', 'ababab?x'), ('abcdefghijkl', 'klmnopqrs??'), ('a?', 'bcdefghijklmnopqra')):
            out.append({'f': f, 'A': x, 'B': y, 'as': ['list', 'list']})
            out.append({'f': f, 'A': y, 'B': x, 'as': ['set', 'iter']})
    return out


def give(kind, xs):
    if kind in ('set', 'frozenset', 'dict'):
        # equal tokens once, also when they are symbolic
        xs = distinct_count(xs)
    if kind == 'set':
        return set(xs)
    if kind == 'frozenset':
        return frozenset(xs)
    if kind == 'dict':
        return {x: 1 for x in xs}
    if kind == 'iter':
        return iter(xs)
    if kind == 'tuple':
        return tuple(xs)
    return xs


def run(ctx, case):
    name = case['f']
    f = getattr(ctx.imp('fog.metrics.utils' if name == 'intersection_size' else 'fog.metrics'), name)
    if 'A' in case:
        A = a = [ctx.int('a%d' % i, 0, 30) if c == '?' else ord(c) - 97 for i, c in enumerate(case['A'])]
        B = b = [ctx.int('b%d' % i, 0, 30) if c == '?' else ord(c) - 97 for i, c in enumerate(case['B'])]
    elif case['as'][0] == 'str':
        A, B = ctx.string('A', case['a']), ctx.string('B', case['b'])
        a, b = list(A), list(B)
    else:
        A = a = [ctx.int('a%d' % i, 0, 99) for i in range(case['a'])]
        B = b = [ctx.int('b%d' % i, 0, 99) for i in range(case['b'])]
    if case['as'][1] == 'same':
        A = give('set', a)
        b = a
        got = f(A, A)
    else:
        got = f(give(case['as'][0], A), give(case['as'][1], B))
    ctx.observe(got)
    da, db = distinct_count(a), distinct_count(b)
    la, lb = len(da), len(db)
    i = len([x for x in da if any(x == y for y in db)])
    if name == 'intersection_size':
        ctx.check(got == i, 'intersection_size is wrong')
        return
    if la == 0 and lb == 0:
        ctx.check(got == 0 or got == 1, name + ' of empty sequences is neither 0 nor 1')
        return
    want = {'jaccard_similarity': lambda: i / (la + lb - i), 'dice_coefficient': lambda: 2 * i / (la + lb),
            'overlap_coefficient': lambda: i / min(la, lb) if la and lb else 0,
            'binary_cosine_similarity': lambda: i / (la * lb) ** 0.5 if la and lb else 0}[name]()
    ctx.check(ctx.close(got, want), name + ' is not the value its definition gives')
