import math

from props import graphs, stubs

ID = 'C41'
BOUNDS = {'quick': 'candidate pairs: up to 4 vectors of up to 3 dimensions with every equality pattern, 7 vectors of up to 5 dimensions of which three are free, 42 vectors; leaders: up to 5 vectors, every similarity between them and every order of the shuffle',
          'thorough': 'up to 5 vectors of up to 3 dimensions; 6 vectors for leaders'}
ASSUMPTIONS = ['the dimensions of a vector are distinct', 'the similarity used for the leaders is arbitrary', 'hash containers iterate in insertion order in the model']


def cases(tier):
    big = tier != 'quick'
    out = []
    for shape in ([], [2], [1, 1], [1, 2], [2, 2], [3, 2], [3, 3], [0, 1, 1], [1, 1, 1], [1, 2, 1], [2, 2, 1], [2, 2, 2], [1, 1, 1, 1], [1, 2, 1, 1]) + \
            (([2, 2, 2, 1], [1, 1, 1, 1, 1], [3, 3, 2]) if big else ()):
        out.append({'f': 'naive', 'shape': shape})
    out.append({'f': 'naive', 'fixed': ['abcde', 'fg?', 'ab', 'x?yz', 'e', 'gfx', '?']})
    out.append({'f': 'naive', 'fixed': ['abcde', 'abc?e', 'abcd', 'x', 'z', '?z', 'bcde']})
    out.append({'f': 'naive', 'fixed': ['ab?'] + ['a' + chr(99 + i % 5) for i in range(40)] + ['b?']})
    out.append({'f': 'sqrt', 'n': 40, 'free': ['2 7', '2 11', '7 30', '3 39']})
    for n in range(1, 6) if not big else range(1, 7):
        out.append({'f': 'sqrt', 'n': n})
    return out


def run(ctx, case):
    mod = ctx.imp('fog.clustering.fagin')
    if case['f'] == 'naive':
        shape = case.get('fixed') or case['shape']
        n = len(shape)
        if 'fixed' in case:
            V = [[ctx.int('d%d_%d' % (i, k), 97, 122) if c == '?' else ord(c) for k, c in enumerate(s)] for i, s in enumerate(shape)]
        else:
            V = [[ctx.int('d%d_%d' % (i, k), 0, 50) for k in range(m)] for i, m in enumerate(shape)]
        for v in V:
            for i in range(len(v)):
                for j in range(i):
                    if type(v[i]) is not int or type(v[j]) is not int:
                        ctx.assume(ctx.no(ctx.eq(v[i], v[j])))
        got = [tuple(sorted(p)) for p in mod.naive_cosine_pairs([ctx.mapping([(d, 1) for d in v]) for v in V])]
        ctx.observe(sorted(got))
        ctx.check(len(set(got)) == len(got), 'a pair is given twice')
        ctx.check(all(i != j for i, j in got), 'a vector is paired with itself')
        for j in range(n):
            for i in range(j):
                share = ctx.any([ctx.eq(x, y) for x in V[i] for y in V[j]])
                ctx.check(ctx.iff((i, j) in got, share), 'vectors sharing no dimension are paired' if (i, j) in got else 'vectors sharing a dimension are not paired')
        return
    n = case['n']
    V = [{'v%d' % i: 1} for i in range(n)]
    L = int(math.sqrt(n))
    first = []
    for k in range(L):
        if 'free' in case:
            first.append(k * 4 + 3)
            continue
        first.append(ctx.choice('leader%d' % k, [i for i in range(n) if i not in first]))
    order = first + [i for i in range(n) if i not in first]
    S = {}
    for i in range(n):
        for j in range(i):
            S[j, i] = ctx.real('s%d_%d' % (j, i), 0, 1) if 'free' not in case or '%d %d' % (j, i) in case['free'] else (i * 7 + j * 11) % 16 / 16

    def at(v):
        return int(list(v)[0][1:])

    def similarity(a, b):
        a, b = at(a), at(b)
        return 1.0 if a == b else graphs.edge(S, a, b)

    def shuffle(x):
        x[:] = [x[i] for i in order]
    ctx.patch(mod, 'shuffle', shuffle, optional=True)
    ctx.patch('random', 'shuffle', shuffle, optional=True)
    ctx.patch(mod, 'sparse_cosine_similarity', similarity)
    got = [tuple(p) for p in mod.sqrt_indexation_pairs(V)]
    ctx.observe(got)
    lead = []
    for i in range(n):
        mine = [p for p in got if p[0] == i]
        ctx.check(len(mine) >= 1 and mine[0][1] in first, 'a vector is not compared to a leader')
        l = mine[0][1]
        for m in first:
            ctx.check(similarity(V[i], V[m]) <= similarity(V[i], V[l]), 'the leader of a vector is not the closest one')
        ctx.check(sorted(j for _, j in mine[1:]) == [j for j in range(i) if lead[j] == l], 'a vector is not compared to the earlier vectors having the same leader')
        lead.append(l)
