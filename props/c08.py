from props import spec

ID = 'C08'
BOUNDS = {'quick': 'interval and count formulas: every k 0..8 and every lengths s and l (symbolic integers) up to 10^9, l > k, |s - l| <= k; partitions: k 0..8, every length up to 10^9; '
                   'strings: every string over Unicode of length 0..16, k 0..4; selection: every pair of strings of lengths up to 6 within distance k (1..3), '
                   'and any string made of 8 to 16 given characters by 1 to 4 edits at any position (free characters among b and z); '
                   'strings keeping a single segment, shifted as far as possible, for k = 4, 6, 8 and 10',
          'thorough': 'k up to 12; strings up to 30 characters; pairs up to 7; edits on up to 24 characters'}
ASSUMPTIONS = ['the announced count applies to strings longer than k, as in the paper']


def cases(tier):
    big = tier != 'quick'
    top = 10 ** 9
    out = []
    for k in range(0, 13 if big else 9):
        out.append({'what': 'keys', 'k': k})
        for d in range(-k, k + 1):
            out.append({'what': 'count', 'k': k, 'd': d, 'top': top})
    for k in range(0, 13 if big else 9):
        out.append({'what': 'partition', 'k': k, 'top': top})
    for k in range(0, 5):
        for n in range(0, 31 if big else 17):
            out.append({'what': 'segments', 'k': k, 'n': n})
    for k in range(0, 5):
        for n in (k + 1, k + 3, 8, 11) + ((15, 20) if big else ()):
            for d in range(-k, k + 1):
                if n + d > k:
                    out.append({'what': 'distinct', 'k': k, 'n': n, 'l': n + d})
    for k in (6, 8, 9, 16):
        for n, l in ((40, 40), (45, 41), (41, 45), (60, 54)):
            if abs(n - l) <= k:
                out.append({'what': 'distinct', 'k': k, 'n': n, 'l': l, 'free': [n // 2, n - 1]})
    for k in (1, 2, 3):
        for a in range(0, 8 if big else 7):
            for b in range(max(0, a - k), min(a + k, 7 if big else 6) + 1):
                if not big and k == 3 and a + b > 10:
                    continue
                out.append({'what': 'select', 'k': k, 'n': [a, b]})
    long = [(1, 'abcdefghijklmn', ['ins']), (1, 'abcdefghijklmno', ['sub']), (1, 'aaaaaaaaaa', ['del']), (2, 'abcdefghijklm', ['ins', 'del']), (2, 'abcdefghijklm', ['del', 'ins']),
            (2, 'abcdefghijklmnop', ['sub', 'ins']), (2, 'ababababab', ['ins', 'del']), (3, 'abcdefgh', ['del', 'sub', 'ins']), (3, 'abcdefghi', ['ins', 'ins', 'del'])]
    if big:
        long += [(2, 'abcdefghijklmnopqrstuvwx', ['ins', 'del']), (3, 'abcdefghijklmn', ['ins', 'ins', 'del']), (4, 'abcdefghij', ['del', 'ins', 'del', 'ins'])]
    for k in (4, 6, 8, 10):
        for x, y in spec.shifted(k):
            out.append({'what': 'select', 'k': k, 'L': [x, y]})
    out.append({'what': 'sweep', 'k': 0})
    for k, base, ops in long:
        for first in (0, 1):
            out.append({'what': 'select', 'k': k, 'base': base, 'ops': ops, 'first': first})
    return out


def width(ctx, start, stop):
    return ctx.ite(stop >= start, stop - start + 1, 0)


def run(ctx, case):
    mod = ctx.imp('fog.clustering.passjoin')
    k, what = case['k'], case['what']
    if what in ('count', 'partition'):
        l = ctx.int('l', 0 if what == 'partition' else k + 1, case['top'])
        parts = [tuple(p) for p in mod.partition(k, l)]
        ctx.check(len(parts) == k + 1, 'partition does not give k + 1 segments')
        at, ok = 0, []
        for i, (j, start, length) in enumerate(parts):
            ok += [ctx.eq(j, i), ctx.eq(start, at), length >= parts[0][2], length <= parts[0][2] + 1, length >= parts[i - 1][2] if i else True]
            at = at + length
        ctx.check(ctx.all(ok), 'partition does not give contiguous even segments, the shorter ones first')
        ctx.check(ctx.eq(at, l), 'partition does not cover the whole string')
        if what == 'count':
            d = case['d']
            s = l + d
            total = 0
            for i, start, length in parts:
                a, b = mod.multi_match_aware_interval(k, d, i, s, start, length)
                ctx.check(ctx.any([b < a, ctx.all([a >= 0, b + length <= s])]), 'multi_match_aware_interval reaches outside of the string')
                total = total + width(ctx, a, b)
            ctx.check(ctx.eq(mod.count_substrings_l(k, s, l), total), 'count_substrings_l is not the number of selected positions')
        return
    if what == 'keys':
        s = ctx.int('s', k, 60)
        keys = sum(mod.count_substrings_l(k, s, s - j) for j in range(k + 1))
        ctx.check(ctx.eq(mod.count_keys(k, s), keys), 'count_keys is not the sum of count_substrings_l over the lengths s - k to s')
        return
    if what == 'segments':
        S = ctx.string('S', case['n'])
        got = [tuple(x) for x in mod.segments(k, S)]
        ctx.observe([[i, t] for i, t in got])
        ctx.check([i for i, _ in got] == list(range(k + 1)), 'segments are not numbered from 0 to k')
        sizes = [len(t) for _, t in got]
        ctx.check(sizes == sorted(sizes) and sizes[-1] - sizes[0] <= 1 and sum(sizes) == case['n'], 'segments are not even, or do not cover the string')
        flat = [c for _, t in got for c in t]
        ctx.check(ctx.all([ctx.eq(x, y) for x, y in zip(flat, S)]), 'segments are not the successive parts of the string')
        return
    if what == 'sweep':
        # many lengths and thresholds, one after the other
        S = spec.sparse(ctx, 'S', ''.join('?' if i in (3, 40) else chr(200 + i) for i in range(70)))
        for r in range(2):
            for k in (7, 4, 1, 3, 2, 5)[::1 - 2 * r]:
                for n in list(range(0, 70, 3)) + list(range(65, 8, -7)) + [8, 16, 32, 64, 10, 20]:
                    T = S[:n]
                    got = [tuple(x) for x in mod.segments(k, T)]
                    sizes = [n // (k + 1) + (i >= k + 1 - n % (k + 1)) for i in range(k + 1)]
                    ctx.check([i for i, _ in got] == list(range(k + 1)) and [len(t) for _, t in got] == sizes, 'segments are not even after other ones')
                    ctx.check(ctx.all([ctx.eq(x, y) for x, y in zip([c for _, t in got for c in t], T)]), 'segments are not the successive parts of the string after other ones')
                    parts = [tuple(p) for p in mod.partition(k, n)]
                    ctx.check(parts == [(i, sum(sizes[:i]), sizes[i]) for i in range(k + 1)], 'partition is not even after other ones')
                    if k < n < 30:
                        s = min(29, n + k % 3 - 1)
                        found = sum(len(list(mod.multi_match_aware_substrings(k, S[20:20 + s], n, i, a, b))) for i, a, b in parts)
                        ctx.check(found == mod.count_substrings_l(k, s, n), 'the number of selected substrings changes after other selections')
        return
    if what == 'distinct':
        S = ctx.string('S', case['n']) if 'free' not in case else spec.sparse(ctx, 'S', ''.join('?' if i in case['free'] else chr(200 + i) for i in range(case['n'])))
        l = case['l']
        n = 0
        for i, start, length in mod.partition(k, l):
            got = ctx.drain(lambda: mod.multi_match_aware_substrings(k, S, l, i, start, length))
            n += len(got)
            inside(ctx, S, got, length)
        announced = mod.count_substrings_l(k, case['n'], l)
        ctx.check(n <= announced, 'more substrings are selected than count_substrings_l tells')
        apart = ctx.all([ctx.no(ctx.eq(S[i], S[j])) for i in range(case['n']) for j in range(i)])
        ctx.check(ctx.any([ctx.no(apart), n == announced]), 'fewer substrings are selected than count_substrings_l tells, in a string of distinct characters')
        return
    if 'ops' in case:
        S = [case['base'], spec.edited(ctx, 'B', case['base'], case['ops'], ((98, 98), (122, 122)))]
        if case['first']:
            S.reverse()
        lev = spec.lev_decided
    elif 'L' in case:
        S = [spec.sparse(ctx, 's%d' % i, p, ((97, 98), (122, 122))) for i, p in enumerate(case['L'])]
        lev = spec.lev_decided
    else:
        S = [ctx.string('s%d' % i, n) for i, n in enumerate(case['n'])]
        lev = spec.lev
    A, B = S
    ctx.assume(lev(ctx, A, B) <= k)
    found = []
    for (i, start, length), (_, seg) in zip(list(mod.partition(k, len(B))), list(mod.segments(k, B))):
        for x in mod.multi_match_aware_substrings(k, A, len(B), i, start, length):
            found.append(ctx.eq(x, seg))
    ctx.check(ctx.any(found), 'no segment of a string within distance k is among the selected substrings')


def inside(ctx, S, got, length):
    n = len(S)
    for x in got:
        ctx.check(len(x) == length, 'a selected substring has not the length of the segment')
        ctx.check(ctx.any([ctx.all([ctx.eq(c, S[p + q]) for q, c in enumerate(x)]) for p in range(n - length + 1)]), 'a selected substring is not in the string')
    for x, y in zip(got, got[1:]):
        ctx.check(ctx.no(ctx.eq(x, y)), 'the same substring is selected twice in a row')
