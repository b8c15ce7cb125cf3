from props import graphs

ID = 'C09'
BOUNDS = {'quick': 'every list of up to 4 pairs over up to 6 items, in every order and orientation, duplicates included; every list of buckets '
                   'of shapes up to [3,2]/[2,2,2], with or without an arbitrary symmetric predicate; every min_size and max_size; up to 8 pairs or 7 buckets over up to 11 items, of which up to two ends are free',
          'thorough': 'as quick, with up to 5 pairs, buckets up to [4,3]/[3,3]/[3,2,2]'}
ASSUMPTIONS = ['hash containers iterate in one fixed order (insertion order) in the model', 'min_size >= 2',
               'without the fuzzy flag, the same pair is not given twice (the documented contract)']
BUDGET = {'quick': 300}


def cases(tier):
    out = []
    M = 4 if tier == 'quick' else 5
    for mode in ('connected_components', 'fuzzy_clusters'):
        for fuzzy in (True, False):
            for m in range(M + 1):
                for lo, hi in ((0, 0), (1, 1)):
                    if m == 5 and (lo or hi):
                        continue
                    out.append({'f': 'pairs', 'mode': mode, 'fuzzy': fuzzy, 'm': m, 'lo': lo, 'hi': hi})
        shapes = [[1], [2], [3], [2, 2], [3, 2]] if tier == 'quick' else [[1], [2], [3], [4], [2, 2], [3, 2], [2, 2, 2], [3, 3], [4, 2]]
        for sh in shapes:
            for sim in (False, True):
                for fuzzy in (True,) if len(sh) > 1 else (True, False):
                    out.append({'f': 'buckets', 'mode': mode, 'fuzzy': fuzzy, 'shape': sh, 'sim': sim, 'lo': 1, 'hi': 1})
        for fixed in ('ab cd ef gh ij f? ?b', 'ab bc cd ?? ef fg gh', 'a? bc ?d ef ah', 'ab ac ad ae af ag b? ?h'):
            for fuzzy in (True, False):
                out.append({'f': 'pairs', 'mode': mode, 'fuzzy': fuzzy, 'fixed': fixed, 'm': len(fixed.split()), 'lo': 1, 'hi': 1})
        for fixed in ('abcd ef?g hi', 'ab bc cd ef fg ?h h?', 'abcdefg h? ?i'):
            out.append({'f': 'buckets', 'mode': mode, 'fuzzy': True, 'fixed': fixed, 'sim': False, 'lo': 1, 'hi': 1})
    out.append({'f': 'mode'})
    return out


def canon(xs):
    """class representatives (forks on the equality pattern)"""
    reps, ids = [], []
    for x in xs:
        for i, r in enumerate(reps):
            if x == r:
                ids.append(i)
                break
        else:
            ids.append(len(reps))
            reps.append(x)
    return reps, ids


def several(ctx, case, m):
    if 'fixed' in case:
        return [ctx.int('x%d' % i, 0, 30) if c == '?' else ord(c) - 97 for i, c in enumerate(case['fixed'].replace(' ', ''))]
    return [ctx.int('x%d' % i, 0, 99) for i in range(m)]


def run(ctx, case):
    mod = ctx.imp('fog.clustering.utils')
    if case['f'] == 'mode':
        try:
            list(mod.clusters_from_pairs([('a', 'b')], mode='other'))
        except TypeError:
            ctx.check(True, '')
            return
        ctx.check(False, 'an unknown mode is accepted')
    if case['f'] == 'pairs':
        ends = several(ctx, case, 2 * case.get('m', 0))
        reps, ids = canon(ends)
        pairs = [(ids[2 * i], ids[2 * i + 1]) for i in range(case['m'])]
        ctx.assume(all(a != b for a, b in pairs))
        seen = [tuple(sorted(p)) for p in pairs]
        if not case['fuzzy']:
            ctx.assume(len(set(seen)) == len(seen))
        given = [(ends[2 * i], ends[2 * i + 1]) for i in range(case['m'])]
        n = len(reps)
        E = {(i, j): (i, j) in seen for i in range(n) for j in range(i + 1, n)}
        kw, lo, hi = graphs.sizes(ctx, case, n if 'fixed' in case else min(n, 4))
        got = ctx.drain(lambda: mod.clusters_from_pairs(iter(given), mode=case['mode'], fuzzy=case['fuzzy'], **kw))
    else:
        shape = case.get('shape') or [len(b) for b in case['fixed'].split()]
        flat = several(ctx, case, sum(shape))
        reps, ids = canon(flat)
        buckets, at, E = [], 0, {}
        n = len(reps)
        together = set()
        for s in shape:
            bi = ids[at:at + s]
            ctx.assume(len(set(bi)) == len(bi))
            for a in range(s):
                for b in range(a + 1, s):
                    together.add(tuple(sorted((bi[a], bi[b]))))
            buckets.append(flat[at:at + s])
            at += s
        S = {(i, j): ctx.bool('s%d%d' % (i, j)) if case['sim'] else True for i in range(n) for j in range(i + 1, n)}
        E = {p: S[p] if p in together else False for p in S}

        def similarity(A, B):
            return graphs.edge(S, graphs.index_of(ctx, reps, A), graphs.index_of(ctx, reps, B))
        kw, lo, hi = graphs.sizes(ctx, case, n if 'fixed' in case else min(n, 4))
        if case['sim']:
            kw['similarity'] = similarity
        got = ctx.drain(lambda: mod.clusters_from_buckets(buckets, mode=case['mode'], fuzzy=case['fuzzy'], **kw))
    ctx.check(len(got) <= max(1, n), 'more clusters than items')
    ctx.observe(sorted(sorted(graphs.index_of(ctx, reps, x) for x in c) for c in got))
    graphs.check_mode(ctx, case['mode'], graphs.indices(ctx, reps, got, case['f']), n, E, lo, hi, case['f'])
