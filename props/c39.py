import csv
import datetime
import io

from props import spec, text

ID = 'C39'
BOUNDS = {'quick': 'reports of one cluster of up to 3 values of up to 2 characters (ASCII and Latin-1 for one value, 14 special characters for two), or of two clusters, with 1 to 3 rows per value; the whole command on up to 3 rows of up to 2 characters among 8; ten rows, or three clusters of longer values, with up to three free characters',
          'thorough': '3 characters; 4 rows'}
ASSUMPTIONS = ['reading CSV is faithful (the csv module is replaced by lists of rows, except when replaying)', 'the clusters are the ones of key_collision on fingerprint (C12, C30)']
WIDE = [(0, 255), (0x2028, 0x2029)]
SPECIAL = [(0, 0), (8, 10), (13, 13), (31, 31), (34, 34), (38, 39), (60, 60), (62, 62), (92, 92), (110, 110), (117, 117), (127, 127), (233, 233)]
FEW = [(32, 32), (34, 34), (38, 38), (60, 60), (65, 66), (92, 92), (97, 98)]


def cases(tier):
    big = tier != 'quick'
    out = []
    for t in ('toml', 'html'):
        for shape in ([[2]], [[0, 1]], []) + (([[1, 1]], [[2, 1]]) if big else ()):
            out.append({'f': 'report', 't': t, 'shape': shape, 'dom': 'WIDE'})
        for shape in ([[1, 1]], [[2, 1]]) + (([[3]], [[2, 2]]) if big else ()):
            out.append({'f': 'report', 't': t, 'shape': shape, 'dom': 'SPECIAL'})
        for shape in ([[1, 1, 1]], [[1, 1], [1, 1]], [[2, 2]]):
            out.append({'f': 'report', 't': t, 'shape': shape, 'dom': 'FEW'})
        for shape in ([], [1], [1, 1], [2, 1], [1, 1, 1], [2, 2]) + (([2, 1, 1], [1, 1, 1, 1]) if big else ()):
            out.append({'f': 'command', 't': t, 'shape': shape})
        out.append({'f': 'command', 't': t, 'shape': [0, 1, 0]})
        out.append({'f': 'command', 't': t, 'fixed': ['', 'Ab a', 'a ab ', '?', '', ' ', 'ab  a']})
        out.append({'f': 'command', 't': t, 'fixed': ['Ab a', 'a ab', 'x', 'AB? a', 'a b', 'b a', 'Ab a', 'ba b?', 'b "a', 'x']})
        out.append({'f': 'report', 't': t, 'shape': [['University of', 'university <of>'], ['a\\', '"a?', "a'''?"], ['\xe9t\xe9', 'ete', '?\n']], 'dom': 'FEW' if t == 'html' else 'SPECIAL', 'sparse': True})
    return out


class Invalid(Exception):
    pass


class File(list):
    def write(self, s):
        self.append(s)


class Parser(object):
    """TOML, as far as reports go."""

    def __init__(self, chars):
        self.s, self.i = chars, 0

    def peek(self):
        return self.s[self.i] if self.i < len(self.s) else ''

    def skip(self, what=' \t'):
        while self.i < len(self.s) and any([self.peek() == c for c in what]):
            self.i += 1

    def expect(self, t):
        for c in t:
            if self.i >= len(self.s) or not self.peek() == c:
                raise Invalid('%r expected' % t)
            self.i += 1

    def word(self):
        r = ''
        while self.i < len(self.s) and isinstance(self.peek(), str) and (self.peek().isalnum() or self.peek() in '_-.:+'):
            r += self.peek()
            self.i += 1
        # digits of symbolic numbers
        return r

    def string(self):
        self.expect('"')
        out = []
        while True:
            if self.i >= len(self.s):
                raise Invalid('unterminated string')
            c = self.peek()
            self.i += 1
            if c == '"':
                return text.cat(out)
            if c == '\\':
                e = self.peek()
                self.i += 1
                found = False
                for a, b in (('n', '\n'), ('"', '"'), ('\\', '\\'), ('t', '\t'), ('r', '\r'), ('b', '\b'), ('f', '\f')):
                    if e == a:
                        out.append(b)
                        found = True
                        break
                if found:
                    continue
                n = 4 if e == 'u' else 8 if e == 'U' else 0
                if not n:
                    raise Invalid('unknown escape')
                h = ''
                for c in self.s[self.i:self.i + n]:
                    if not isinstance(c, str):
                        from symx.values import concretise_str
                        c = concretise_str(c, 40)
                    if c not in '0123456789abcdefABCDEF':
                        raise Invalid('unknown escape')
                    h += c
                self.i += n
                if len(h) != n:
                    raise Invalid('unknown escape')
                out.append(chr(int(h, 16)))
                continue
            if c <= '\x08' or ('\x0a' <= c and c <= '\x1f') or c == '\x7f':
                raise Invalid('control character')
            out.append(c)

    def value(self):
        self.skip()
        if self.peek() == '"':
            return self.string()
        if self.peek() == '[':
            self.i += 1
            out = []
            self.skip(' \t\n')
            while not self.peek() == ']':
                out.append(self.value())
                self.skip(' \t\n')
                if self.peek() == ',':
                    self.i += 1
                    self.skip(' \t\n')
                elif not self.peek() == ']':
                    raise Invalid('] expected')
            self.i += 1
            return out
        start = self.i
        while self.i < len(self.s) and not any([self.peek() == c for c in ' \t\n,]']):
            self.i += 1
        r = text.cat(self.s[start:self.i])
        if isinstance(r, str):
            if r in ('true', 'false'):
                return r == 'true'
            try:
                return int(r)
            except ValueError:
                try:
                    return float(r)
                except ValueError:
                    return datetime.datetime.fromisoformat(r)
        n = 0
        for c in r:
            if not c.isdecimal():
                raise Invalid('unknown value')
            n = n * 10 + (ord(c) if isinstance(c, str) else rt().call(ord, c)) - 48
        return n

    def parse(self):
        root = {}
        cur = root
        while True:
            self.skip(' \t\n')
            if self.i >= len(self.s):
                return root
            if self.peek() == '[':
                self.i += 1
                many = self.peek() == '['
                if many:
                    self.i += 1
                name = self.word()
                self.expect(']]' if many else ']')
                cur = {}
                if many:
                    root.setdefault(name, []).append(cur)
                elif name in root or not name:
                    raise Invalid('twice the same table')
                else:
                    root[name] = cur
            else:
                k = self.word()
                if not k or k in cur:
                    raise Invalid('twice the same key')
                self.skip()
                self.expect('=')
                cur[k] = self.value()
            self.skip()
            if self.i < len(self.s):
                self.expect('\n')


def rt():
    from symx import rt
    return rt


def load(ctx, out):
    if ctx.symbolic:
        return Parser(list(text.cat(out))).parse()
    import tomllib
    try:
        return tomllib.loads(out)
    except tomllib.TOMLDecodeError as e:
        raise Invalid(str(e))


VOID = ('meta', 'br', 'hr', 'link', 'img')
ENTITIES = [('amp', '&'), ('lt', '<'), ('gt', '>'), ('quot', '"'), ('#x27', "'"), ('#39', "'"), ('apos', "'"), ('#34', '"')]


def page(ctx, out):
    """(items of the lists, text before each list, cells of the tables) of a HTML page"""
    s = list(text.cat(out)) if ctx.symbolic else list(out)
    pages, before, rows = [], [], []
    stack, here = [], []
    i = 0
    while i < len(s):
        c = s[i]
        if c == '<':
            j = i + 1
            while j < len(s) and not s[j] == '>':
                j += 1
            tag = text.cat(s[i + 1:j])
            i = j + 1
            if not isinstance(tag, str):
                from symx.values import concretise_str
                tag = concretise_str(tag, 600)
            if tag.startswith('!'):
                continue
            name = tag.lstrip('/').split(' ')[0]
            if not name.isalnum():
                raise Invalid('unknown tag')
            if name in VOID or tag.endswith('/'):
                continue
            if 'li' in stack and tag != '/li':
                raise Invalid('a tag in an item')
            if not tag.startswith('/'):
                if name == 'ul':
                    before.append(here)
                    pages.append([])
                if name == 'li' and stack[-1:] != ['ul']:
                    raise Invalid('an item out of a list')
                if name == 'tr':
                    rows.append([])
                stack.append(name)
                if name != 'b':
                    here = []
                continue
            if not stack or stack.pop() != name:
                raise Invalid('unexpected ' + tag)
            if name == 'li':
                pages[-1].append(here)
            elif name == 'td':
                rows[-1].append(here)
            if name != 'b':
                here = []
            continue
        if c == '&':
            j = i + 1
            while j < len(s) and not s[j] == ';':
                j += 1
            ent = text.cat(s[i + 1:j])
            r = [v for k, v in ENTITIES if ent == k]
            if not r:
                raise Invalid('unknown entity')
            here.append(r[0])
            i = j + 1
            continue
        here.append(c)
        i += 1
    if stack:
        raise Invalid('an element is not closed')
    return pages, before, rows


def integers(ctx, chars):
    out, inside = [], False
    for c in chars:
        if c.isdecimal():
            if not inside:
                out.append(0)
            inside = True
            out[-1] = out[-1] * 10 + (ord(c) if isinstance(c, str) else rt().call(ord, c)) - 48
        elif not c == ',':
            inside = False
    return out


def trim(xs):
    xs = list(xs)
    while xs and xs[0].isspace():
        xs.pop(0)
    while xs and xs[-1].isspace():
        xs.pop()
    return text.cat(xs)


def verify(ctx, t, out, lines, values, counts, clusters, meta=None):
    """clusters: lists of indices in values, in the expected order"""
    try:
        data = load(ctx, out) if t == 'toml' else page(ctx, out)
    except Invalid as e:
        ctx.check(False, 'the report is not valid: %s' % e)
        return
    if t == 'html':
        pages, before, rows = data
        ctx.check(len(pages) == len(clusters), 'wrong number of clusters in the report')
        for k, (got, want) in enumerate(zip(pages, clusters)):
            ctx.check(len(got) == len(want), 'wrong number of values in the report')
            for x, w in zip(got, ordered(ctx, want, counts)):
                ctx.check(ctx.eq(trim(x), trim(values[w])), 'a value is not the one of the cluster')
                v = values[w]
                ctx.check(ctx.any([text.same(ctx, x[i:i + len(v)], v) for i in range(len(x) - len(v) + 1)]), 'whitespace of a value is lost')
            n = integers(ctx, before[k])
            ctx.check(len(n) == 3, 'the sizes of a cluster are missing')
            ctx.check(ctx.all([ctx.eq(x, y) for x, y in zip(n, [k + 1, len(want), sum([counts[w] for w in want])])]), 'wrong sizes of a cluster')
        cells = {}
        for r in rows:
            ctx.check(len(r) == 2, 'wrong shape of the tables')
            cells[trim(r[0]).lower()] = r[1]
        for name, n in (('lines', lines), ('distinct values', len(values)), ('found clusters', len(clusters))):
            ctx.check(name in cells and ctx.eq(integers(ctx, cells[name])[0], n), 'wrong statistics in the report')
        ctx.check(trim(cells['algorithm used']) == 'fingerprint_collision', 'the algorithm is not the one used')
        if meta:
            ctx.check(trim(cells['date']) == meta['date'].date().isoformat(), 'wrong date')
            ctx.check(trim(cells['took']) == str(datetime.timedelta(seconds=meta['took'])), 'wrong duration')
        return
    ctx.check(data['info']['algorithm'] == 'fingerprint_collision', 'the algorithm is not the one used')
    if meta:
        ctx.check(data['info']['date'] == meta['date'].replace(microsecond=0), 'wrong date')
        ctx.check(data['stats']['took'] == meta['took'], 'wrong duration')
    st = data['stats']
    ctx.check(ctx.all([ctx.eq(st['lines'], lines), ctx.eq(st['nb_distinct_values'], len(values)), ctx.eq(st['nb_clusters'], len(clusters))]), 'wrong statistics in the report')
    got = data.get('cluster', [])
    ctx.check(len(got) == len(clusters), 'wrong number of clusters in the report')
    for k, (c, want) in enumerate(zip(got, clusters)):
        ctx.check(ctx.all([ctx.eq(c['id'], k), ctx.eq(c['nb_values'], len(want)), ctx.eq(c['nb_rows'], sum([counts[w] for w in want]))]), 'wrong sizes of a cluster')
        want = ordered(ctx, want, counts)
        ctx.check(ctx.eq(c['harmonized'], values[want[0]]), 'the harmonized value is not the most frequent one')
        ctx.check(c['harmonize'] is False, 'the cluster is already harmonized')
        ctx.check(len(c['values']) == len(want), 'wrong number of values in the report')
        for row, w in zip(c['values'], want):
            ctx.check(len(row) == 2 and len(row[0]) == 1 and len(row[1]) == 1, 'wrong shape of the values')
            ctx.check(ctx.all([ctx.eq(row[0][0], values[w]), ctx.eq(row[1][0], counts[w])]), 'a value is not the one of the cluster')


def ordered(ctx, ids, counts):
    """by decreasing count, the first ones first"""
    out = []
    for i in ids:
        k = len(out)
        while k and counts[out[k - 1]] < counts[i]:
            k -= 1
        out.insert(k, i)
    return out


class Namespace(object):
    def __init__(self, **kw):
        self.__dict__.update(kw)


def run(ctx, case):
    t = case['t']
    out = File() if ctx.symbolic else io.StringIO()
    meta = None
    dom = {'WIDE': WIDE, 'SPECIAL': SPECIAL}.get(case.get('dom'), FEW)
    if case['f'] == 'report':
        mod = ctx.imp('fog.cli.reporting')
        values, counts, clusters = [], [], []
        for ns in case['shape']:
            clusters.append([])
            for n in ns:
                clusters[-1].append(len(values))
                if case.get('sparse'):
                    values.append(spec.sparse(ctx, 'v%d_' % len(values), n, dom))
                    counts.append(len(counts) + 1)
                    continue
                values.append(ctx.string('v%d' % len(values), n, dom=dom))
                counts.append(ctx.int('n%d' % len(counts), 1, 3 if t == 'toml' else 2))
        ctx.assume(ctx.all([ctx.no(ctx.eq(values[i], values[j])) for j in range(len(values)) for i in range(j)]))
        lines = ctx.int('lines', 0, 9) if t == 'toml' else 1234
        if ctx.symbolic:
            from symx.containers import SCounter
            table = SCounter()
        else:
            from collections import Counter
            table = Counter()
        for v, n in zip(values, counts):
            table[v] = n
        meta = {'date': datetime.datetime(2020, 1, 2, 3, 4, 5, 6), 'algorithm': 'fingerprint_collision', 'took': 0.5, 'lines': lines}
        mod.RENDERERS[t](out, meta, table, [[values[i] for i in c] for c in clusters])
    else:
        mod = ctx.imp('fog.cli.cluster')
        cells = [spec.sparse(ctx, 'c%d_' % i, p, FEW) for i, p in enumerate(case['fixed'])] if 'fixed' in case else [ctx.string('c%d' % i, n, dom=dom) for i, n in enumerate(case['shape'])]
        rows = [['id', 'name']] + [['1', c] for c in cells]
        if ctx.symbolic:
            ctx.patch('csv', 'reader', lambda f, *a, **k: iter(f))
            f = rows
        else:
            f = io.StringIO(newline='')
            csv.writer(f).writerows(rows)
            f.seek(0)
        mod.cluster_action(Namespace(file=f, column='name', algorithm='fingerprint_collision', type=t, output=out))
        values, counts = [], []
        for c in cells:
            for k, v in enumerate(values):
                if v == c:
                    counts[k] += 1
                    break
            else:
                values.append(c)
                counts.append(1)
        fingerprint = ctx.imp('fog.key').fingerprint
        keys = [fingerprint(v) for v in values]
        groups = []
        for i, k in enumerate(keys):
            if not k:
                continue
            for g in groups:
                if keys[g[0]] == k:
                    g.append(i)
                    break
            else:
                groups.append([i])
        clusters = [g for g in groups if len(g) > 1]
        lines = len(cells)
    verify(ctx, t, out if ctx.symbolic else out.getvalue(), lines, values, counts, clusters, meta)
