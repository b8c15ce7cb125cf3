ID = 'C27'
BOUNDS = {'quick': 'truth and predicted clusters of the listed shapes, up to 4 items on each side, every equality pattern between the items (repetitions, missing and additional items included), additional items allowed or not; two truth clusters of up to 5 items spread over three predicted ones',
          'thorough': 'up to 5 items on each side'}
ASSUMPTIONS = ['an item is found only once in a truth cluster', 'when several predicted clusters tie on the F1 score, any of them may be the match']


def cases(tier):
    out = []
    shapes = [([1], [1]), ([2], [1, 1]), ([1, 1], [2]), ([2, 1], [2, 1]), ([3], [2, 1]), ([1, 2], [3]), ([1], [2]), ([2], [1]),
              ([2, 1], [1, 2]), ([1, 1, 1], [2, 1]), ([2, 2], [3, 1]), ([3, 1], [1, 3]), ([2, 2], [2, 2]), ([3, 1], [2, 1, 1])]
    shapes += [([4], [2, 1, 1]), ([4], [2, 2]), ([3, 2], [2, 3])]
    if tier != 'quick':
        shapes += [([2, 2, 1], [3, 2]), ([5], [2, 2, 1]), ([3, 1], [2, 2, 1])]
    for t, p in shapes:
        out.append({'t': t, 'p': p})
        if sum(t) <= 3 or tier != 'quick':
            out.append({'t': t, 'p': p, 'allow': True})
    out += [{'t': [1, 1], 'p': [2, 1], 'allow': True}, {'t': [2, 1], 'p': [3, 2], 'allow': True}]
    out += [{'t': t, 'p': p} for t, p in (([], [1]), ([1], []), ([1, 0], [1]), ([1], [0, 1]), ([], []), ([0], [1]))]
    for n in ((3, 4), (4, 4), (5, 3)) + (((6, 6), (7, 5)) if tier != 'quick' else ()):
        out.append({'spread': n})
        out.append({'spread': n, 'allow': True})
    return out


def run(ctx, case):
    f = ctx.imp('fog.evaluation').best_matching_macro_average
    T = [[ctx.int('t%d_%d' % (i, j), 0, 50) for j in range(s)] for i, s in enumerate(case.get('t', []))]
    P = [[ctx.int('p%d_%d' % (i, j), 0, 50) for j in range(s)] for i, s in enumerate(case.get('p', []))]
    if case.get('spread'):
        # the first items of each truth cluster in the first predicted one, the next ones
        # in the second one, the other ones on their own
        T, P, k = [], [[], [], []], 0
        for i, s in enumerate(case['spread']):
            T.append(list(range(k, k + s)))
            k += s
            a = ctx.choice('a%d' % i, list(range(s + 1)))
            b = ctx.choice('b%d' % i, list(range(a, s + 1)))
            P[0] += T[-1][:a]
            P[1] += T[-1][a:b]
            P[2] += T[-1][b:]
        if case.get('allow'):
            P[0] += list(range(100, 100 + ctx.choice('more', [0, 3])))
        P = [c for c in P if c]
    for c in T:
        for i in range(len(c)):
            for j in range(i):
                ctx.assume(ctx.no(ctx.eq(c[i], c[j])))
    kw = {'allow_additional_items': True} if case.get('allow') else {}
    try:
        got = f([list(c) for c in T], [list(c) for c in P], **kw)
    except TypeError:
        got = None
    ctx.observe(got)

    def inside(x, c):
        return any(ctx.eq(x, y) for y in c)
    allt = [x for c in T for x in c]
    allp = [x for c in P for x in c]
    bad = not T or not P or not all(T) or not all(P)
    if not bad and not case.get('allow'):
        bad = any(not inside(x, allt) for x in allp)
    if not bad:
        bad = any(not inside(x, allp) for x in allt)
    if not bad:
        kept = [x for x in allp if inside(x, allt)] if case.get('allow') else allp
        bad = any(inside(x, kept[:i]) for i, x in enumerate(kept))
    if bad:
        ctx.check(got is None, 'ill-formed clusters are accepted')
        return
    ctx.check(got is not None, 'well-formed clusters are refused')
    sets = [(0.0, 0.0, 0.0)]
    for c in T:
        best = []
        for q in P:
            tp = len([1 for x in c if inside(x, q)])
            if not tp:
                continue
            size = len([1 for x in q if inside(x, allt)])
            p, r = tp / size, tp / len(c)
            best.append((p, r, 2 * tp / (size + len(c))))
        top = max(b[2] for b in best)
        best = [b for b in best if abs(b[2] - top) < 1e-9]
        sets = [tuple(u + v / len(T) for u, v in zip(s, b)) for s in sets for b in best]
    ctx.check(any(all(abs(g - w) < 1e-9 for g, w in zip(got, s)) for s in sets) and len(got) == 3,
              'the scores are not the averages of those of the best matching predicted clusters')
