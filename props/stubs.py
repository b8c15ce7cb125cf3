"""Stand-ins for what cannot be run symbolically: worker processes and pickling."""


class Dill(object):
    @staticmethod
    def dumps(x, *a, **k):
        return ('pickled', x)

    @staticmethod
    def loads(x, *a, **k):
        return x[1]


def make_pool(ctx, log=None, free_order=3):
    """A Pool running in-process; imap_unordered delivers in every order."""
    counter = [0]

    class Pool(object):
        def __init__(self, *a, **k):
            pass

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

        def imap(self, f, it, chunksize=1):
            return iter([f(x) for x in it])

        def map(self, f, it, chunksize=1):
            return [f(x) for x in it]

        def starmap(self, f, it, chunksize=1):
            return [f(*x) for x in it]

        def imap_unordered(self, f, it, chunksize=1):
            todo = list(it)
            while todo:
                counter[0] += 1
                k = ctx.choice('order%d' % counter[0], list(range(len(todo)))) if len(todo) <= free_order else len(todo) - 1
                x = todo.pop(k)
                yield f(x)

        def close(self):
            pass

        join = terminate = close
    return Pool


def install(ctx, module, free_order=3):
    pool = make_pool(ctx, free_order=free_order)
    ctx.patch('multiprocessing', 'Pool', pool)
    ctx.patch('multiprocessing.pool', 'Pool', pool)
    ctx.patch(module, 'Pool', pool, optional=True)
    ctx.patch(module, 'dill', Dill, optional=True)


class Rng(object):
    """Random draws, each of them free; runs needing more than `cap` draws, or more
    than `again` draws equal to the one just before over the same range, are cut."""

    def __init__(self, ctx, cap, first=None, again=0):
        self.ctx, self.cap, self.n, self.first, self.again = ctx, cap, 0, first or [], again
        self.last = None

    def pick(self, options):
        options = list(options)
        self.n += 1
        if self.n > self.cap:
            self.ctx.cut('more than %d random draws' % self.cap)
        if len(options) == 1:
            return options[0]
        if self.n <= len(self.first):
            return options[self.first[self.n - 1]]
        r = self.ctx.choice('draw%d' % self.n, options)
        if self.last == (options, r):
            self.again -= 1
            if self.again < 0:
                self.ctx.cut('the same random draw twice in a row')
        self.last = (options, r)
        return r

    def randint(self, a, b):
        return self.pick(range(a, b + 1))

    def randrange(self, a, b=None, step=1):
        return self.pick(range(a) if b is None else range(a, b, step))

    def choice(self, xs):
        return self.pick(xs)

    def sample(self, xs, k, **kw):
        left, out = list(xs), []
        for _ in range(k):
            i = self.pick(range(len(left)))
            out.append(left.pop(i))
        return out

    def shuffle(self, xs):
        xs[:] = self.sample(xs, len(xs))

    def random(self):
        return self.pick([0.0, 0.25, 0.5, 0.75, 0.999])

    def seed(self, *a):
        pass


def install_random(ctx, modules, cap, first=None, again=0, cls=None):
    rng = (cls or Rng)(ctx, cap, first, again)
    new = lambda *a, **k: rng
    import importlib
    import random
    real = {f: getattr(random, f) for f in ('Random', 'randint', 'randrange', 'choice', 'sample', 'shuffle', 'random', 'seed')}
    for f, old in real.items():
        stand_in = new if f == 'Random' else getattr(rng, f)
        for m in modules:
            m = importlib.import_module(m)
            for name in [k for k, v in vars(m).items() if v is old or v == old]:
                ctx.patch(m, name, stand_in)
        ctx.patch('random', f, stand_in)
    return rng


class Spread(Rng):
    """The first draws as given, the next ones spread over all values."""

    def pick(self, options):
        options = list(options)
        self.n += 1
        if self.n > self.cap:
            self.ctx.cut('more than %d random draws' % self.cap)
        if self.n <= len(self.first):
            return options[self.first[self.n - 1] % len(options)]
        return options[(self.n * 7 + self.n // 5) % len(options)]
