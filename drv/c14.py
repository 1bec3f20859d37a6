# -*- coding: utf-8 -*-
from array import array
from common import P
from messaging.mms.iterator import PreviewIterator


class Old(object):
    """a sequence by __getitem__ only"""
    def __init__(self, x):
        self.x = x

    def __getitem__(self, i):
        return self.x[i]


def sources(rng, items):
    def g():
        for x in items:
            yield x
    ks = [lambda: list(items), lambda: tuple(items), lambda: iter(items), g, lambda: Old(items)]
    if all([type(x) is int and 0 <= x < 256 for x in items]):
        ks += [lambda: array('B', items)] * 2
    return rng.choice(ks)()


def endless(items):
    """a sequence without an end, of which these are the first items"""
    for x in items:
        yield x
    for i in range(20000):
        yield i
    raise MemoryError('the sequence has no end')


class It(object):
    def __init__(self, ctx, slot, items, src=None):
        self.ctx, self.slot = ctx, slot
        if src is None:
            src = sources(ctx.rng, items)
        self.it, e = ctx.run('PreviewIterator', PreviewIterator, src)
        ctx.emit('new', slot=slot, items=[P(x) for x in items], r={'ok': e is None})

    def do(self, c):
        if self.it is None:
            return
        ctx, it = self.ctx, self.it
        if c == 'n':
            ctx.emit('next', slot=self.slot,
                     r=ctx.call('next', it.next if ctx.rng.random() < .7 else lambda: next(it)))
        elif c == 'p':
            ctx.emit('preview', slot=self.slot, r=ctx.call('preview', it.preview))
        elif c == 'r':
            ctx.emit('reset', slot=self.slot, r=ctx.call('reset', it.reset_preview))
        elif c == 'i':
            ctx.emit('iter', slot=self.slot, r=ctx.call('iter', lambda: iter(it) is it))
        else:
            ctx.emit('drain', slot=self.slot, r=ctx.call('drain', list, it))


def values(rng, n):
    k = rng.randrange(4)
    if k == 0:
        return range(1, n + 1)
    if k == 1:
        return [rng.randrange(256) for _ in range(n)]
    if k == 2:
        return [rng.choice((0, 0, 1, None, '', False, 'x', (), u'y')) for _ in range(n)]
    return [0] * n


def gen(ctx):
    rng = ctx.rng
    for n, ops in ctx.behaviours():
        it = It(ctx, 1, values(rng, n))
        for c in ops:
            it.do(c)
        it.do('d')
    for _ in range(ctx.n(60, 4000)):
        its = [It(ctx, s, values(rng, rng.choice((0, 1, 2, 3, 5, 12, 30, 300)))) for s in (1, 2)]
        style = rng.choice(('npr', 'nppr', 'npppppr', 'npppi', 'nnnpr', 'pppppppn'))
        for _ in range(rng.randrange(60)):
            rng.choice(its).do(rng.choice(style))
        if rng.random() < .5:
            for it in its:
                it.do('d')
                it.do('n')
                it.do('p')
    # of sequences without an end
    for _ in range(ctx.n(6, 200)):
        items = values(rng, 60)
        it = It(ctx, 1, items, endless(items))
        style = rng.choice(('npr', 'nppr', 'npppppr', 'npppi', 'pppppppn'))
        for _ in range(rng.randrange(60)):
            it.do(rng.choice(style))
    # far ahead
    for far in (31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 290, 511, 512, 513, 1023, 1024, 1025):
        for _ in range(ctx.n(1, 4)):
            it = It(ctx, 1, values(rng, far + rng.randrange(20)))
            for _ in range(rng.randrange(3)):
                it.do('n')
            for _ in range(far):
                it.do('p')
            for _ in range(rng.randrange(4)):
                it.do(rng.choice('npr'))
            it.do('d')
