from props import spec

ID = 'C38'
NEEDS_CFOG = True
MEM = True
BOUNDS = {'quick': 'every pair of strings over the whole Unicode range: distance functions lengths 0..3 x 0..4 and every maximum 0..5, '
                   'predicates lengths 0..6; pairs of strings of up to 71 characters (and some of 300 and 66,000) of which up to four are free; allocation never fails',
          'thorough': 'every pair of strings over the whole Unicode range: distance functions lengths 0..4 x 0..5 and every maximum 0..6, '
                      'predicates lengths 0..10; allocation never fails'}
ASSUMPTIONS = ['malloc does not fail', 'counterexamples are replayed on an AddressSanitizer build with an allocation counter']
VALIDATE = 60
NO_HISTORY = lambda c: '{' in c.get('A', '') + c.get('B', '')


def cases(tier):
    a, b = (3, 4) if tier == 'quick' else (4, 5)
    out = []
    for i in range(a + 1):
        for j in range(b + 1):
            out.append({'f': 'levenshtein_distance', 'a': i, 'b': j})
            for k in range(max(i, j) + 2):
                out.append({'f': 'limited_levenshtein_distance', 'a': i, 'b': j, 'k': k})
    for x, y in spec.LONG + [('{40:a}?', '{41:a}b'), ('?', '{60:a}'), ('', '{70:b}?')] + spec.LONGER:
        out.append({'f': 'levenshtein_distance', 'A': x, 'B': y})
        for k in (1, 2, 5, 9):
            out.append({'f': 'limited_levenshtein_distance', 'A': x, 'B': y, 'k': k})
        for f in ('levenshtein_distance_lte1', 'damerau_levenshtein_distance_lte1'):
            out.append({'f': f, 'A': x, 'B': y})
    n = 6 if tier == 'quick' else 10
    for f in ('levenshtein_distance_lte1', 'damerau_levenshtein_distance_lte1'):
        for i in range(n + 1):
            for j in range(n + 1):
                if abs(i - j) <= 1:
                    out.append({'f': f, 'a': i, 'b': j})
    return out


def live(ctx, mod):
    if ctx.symbolic:
        return sum(1 for m in ctx.e.tables.get('heap', ()) if not m.freed)
    import ctypes
    try:
        return ctypes.c_long.in_dll(ctypes.CDLL(mod.__file__), 'cx_live').value
    except ValueError:
        return 0


def run(ctx, case):
    mod = ctx.imp('cfog.metrics.levenshtein')
    f = getattr(mod, case['f'])
    A, B = [spec.sparse(ctx, x, case[x]) for x in 'AB'] if 'A' in case else [ctx.string('A', case['a']), ctx.string('B', case['b'])]
    before = live(ctx, mod)
    f(case['k'], A, B) if 'k' in case else f(A, B)
    ctx.check(live(ctx, mod) == before, 'memory leaked by %s' % case['f'])
