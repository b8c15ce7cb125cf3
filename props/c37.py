import csv
import io

from props import spec, stubs, text  # noqa

ID = 'C37'
BOUNDS = {'quick': 'one or two rows of one to three columns, the target cell holding up to 4 characters (letters, spaces and the separator of up to three characters), every position of the column, with and without target column, renaming and --after, chains of one or two operations, with and without eval; eight rows with three free characters',
          'thorough': 'up to 5 characters'}
ASSUMPTIONS = ['reading and writing CSV is faithful (the csv module is replaced by lists of rows, except when replaying)', 'every row has as many cells as the header']
DOM = [(32, 32), (65, 67), (97, 99), (124, 124), (59, 59)]


def cases(tier):
    out = []
    big = tier != 'quick'
    shapes = [[1], [2], [3], [0, 1], [2, 0], [1, 1], [4], [2, 2], [1, 0, 2]] + ([[5], [3, 2], [2, 1, 2]] if big else [])
    for shape in shapes:
        for opt in ({}, {'target': True}, {'rename': True}, {'target': True, 'rename': True}, {'sep': ';'}, {'sep': ';', 'target': True}):
            for cols, pos in ((1, 0), (2, 0), (3, 1), (2, 1)):
                if shape in ([2], [0, 1]) or (cols, pos) == (3, 1):
                    out.append(dict(opt, f='split', shape=shape, cols=cols, pos=pos))
    for shape in ([], [1], [2], [0, 1], [3], [1, 1]) + (([4], [2, 2]) if big else ()):
        for ops in ('lower', 'upper', 'strip', 'squeeze', 'strip,upper', 'squeeze,lower', 'squeeze,lower,squeeze', 'strip,squeeze,strip', 'len', 'unidecode', 'fingerprint', '=value.upper() + "!"', '=value[::-1]'):
            for opt in ({}, {'target': True}, {'target': True, 'after': True}, {'after': True}):
                for cols, pos in ((3, 1), (1, 0), (2, 1)):
                    if (cols, pos) == (3, 1) or ops == 'lower':
                        out.append(dict(opt, f='transform', shape=shape, ops=ops, cols=cols, pos=pos))
    # longer separators
    for shape in ([3], [4], [2, 3]):
        for sep in ('||', '|;', ' | '):
            for opt in ({}, {'target': True}):
                out.append(dict(opt, f='split', shape=shape, cols=3, pos=1, sep=sep))
    # a column renamed, or created, with the name of another one
    for opt in ({'rename': 'h0'}, {'rename': 'h2'}, {'rename': 'h1'}, {'rename': 'h0', 'target': 'h1'}, {'target': 'h0'}, {'target': 'h2'}):
        for shape in ([2], [1, 1]):
            out.append(dict(opt, f='split', shape=shape, cols=3, pos=1))
    for opt in ({'target': 'h0'}, {'target': 'h1', 'after': True}):
        out.append(dict(opt, f='transform', shape=[1, 1], ops='upper', cols=3, pos=1))
    rows = ['a|b;c', 'C', '?|a?', '|', '', 'A b|cc|?', ';a;', 'a||b']
    for opt in ({}, {'target': True}, {'rename': True}, {'sep': ';'}):
        out.append(dict(opt, f='split', fixed=rows, cols=3, pos=1))
    for ops in ('lower', 'strip,upper', 'squeeze', 'len', 'fingerprint', '=value[::-1]'):
        for opt in ({}, {'target': True}, {'target': True, 'after': True}):
            out.append(dict(opt, f='transform', fixed=rows, ops=ops, cols=3, pos=1))
    return out


class Namespace(object):
    def __init__(self, **kw):
        self.__dict__.update(kw)


class Writer(object):
    def __init__(self, out):
        self.out = out

    def writerow(self, row):
        self.out.append(list(row))

    def writerows(self, rows):
        for r in rows:
            self.writerow(r)


def act(ctx, name, action, headers, rows, **kw):
    mod = ctx.imp(name)
    table = [list(headers)] + [list(r) for r in rows]
    if ctx.symbolic:
        out = []
        ctx.patch('csv', 'reader', lambda f, *a, **k: iter(f))
        ctx.patch('csv', 'writer', lambda f, *a, **k: Writer(f))
        getattr(mod, action)(Namespace(file=table, output=out, **kw))
        return out
    f = io.StringIO(newline='')
    csv.writer(f).writerows(table)
    f.seek(0)
    out = io.StringIO(newline='')
    getattr(mod, action)(Namespace(file=f, output=out, **kw))
    out.seek(0)
    return list(csv.reader(out))


def chain(ctx, ops, value):
    from unidecode import unidecode
    if ops == '=value.upper() + "!"':
        return value.upper() + '!'
    if ops == '=value[::-1]':
        return value[::-1]
    for op in ops.split(','):
        if op == 'lower':
            value = value.lower()
        elif op == 'upper':
            value = value.upper()
        elif op == 'strip':
            value = value.strip()
        elif op == 'len':
            value = len(value) if ctx.symbolic else str(len(value))
        elif op == 'squeeze':
            r = ''
            for i, c in enumerate(value):
                if not i or c != value[i - 1]:
                    r = r + c
            value = r
        elif op == 'unidecode':
            pass  # the cells are ASCII
        elif op == 'fingerprint':
            words = []
            w = ''
            for c in value.lower() if value else '':
                if c == ' ':
                    words.append(w)
                    w = ''
                elif not (c == '|' or c == ';'):
                    w = w + c
            words.append(w)
            kept = []
            for w in words:
                if len(w) and not any(ctx.eq(w, k) for k in kept):
                    kept.append(w)
            kept.sort()
            value = ''
            for i, w in enumerate(kept):
                value = value + (' ' if i else '') + w
    return value


def same(ctx, got, want):
    ctx.check(len(got) == len(want), 'the number of rows is wrong')
    for g, w in zip(got, want):
        ctx.check(len(g) == len(w), 'a row has not as many cells as expected')
        ctx.check(ctx.all([ctx.eq(a, b) for a, b in zip(g, w)]), 'a cell is wrong')


def run(ctx, case):
    cols, pos = case['cols'], case['pos']
    headers = ['h%d' % i for i in range(cols)]
    rows = []
    for i, n in enumerate(case.get('fixed') or case['shape']):
        row = [' "r%d",\nc%d; ' % (i, j) for j in range(cols)]
        row[pos] = spec.sparse(ctx, 'cell%d_' % i, n, DOM) if 'fixed' in case else ctx.string('cell%d' % i, n, dom=DOM)
        rows.append(row)
    target = (case['target'] if type(case['target']) is str else 'new') if case.get('target') else None
    if case['f'] == 'split':
        sep = case.get('sep', '|')
        rename = (case['rename'] if type(case['rename']) is str else 'renamed') if case.get('rename') else None
        got = act(ctx, 'fog.cli.split', 'split_action', headers, rows, column='h%d' % pos, separator=sep, target_column=target, rename_column=rename)
        head = list(headers)
        if rename:
            head[pos] = rename
        want = [head + ([target] if target else [])]
        for row in rows:
            cell, values = row[pos], ['']
            k = 0
            while k < len(cell):
                if text.same(ctx, list(cell)[k:k + len(sep)], sep):
                    values.append('')
                    k += len(sep)
                else:
                    values[-1] = values[-1] + cell[k]
                    k += 1
            for v in values:
                want.append(row + [v] if target else row[:pos] + [v] + row[pos + 1:])
    else:
        ops = case['ops']
        ev = ops.startswith('=')
        got = act(ctx, 'fog.cli.transform', 'transform_action', headers, rows, column='h%d' % pos, operations=ops[1:] if ev else ops,
                  target_column=target, after=bool(case.get('after')), eval=ev)
        want = []
        for k, row in enumerate([headers] + rows):
            v = chain(ctx, ops, row[pos]) if k else target
            if not target:
                want.append(row[:pos] + [v if k else headers[pos]] + row[pos + 1:])
            elif case.get('after'):
                want.append(row[:pos + 1] + [v] + row[pos + 1:])
            else:
                want.append(row + [v])
    same(ctx, got, want)
