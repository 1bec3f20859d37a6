# -*- coding: utf-8 -*-
from world import *


def badtype(rng):
    return [rng.choice((None, 1, 2.5, ['x'], ('a',), {}, object()))]


def when(rng, valid=None):
    """times, valid or not"""
    k = rng.randrange(10)
    if k < 2:
        return ()
    if k < 5:
        b = rng.choice((0, 0, 1, 500, 4000, 5000, -1))
        return (b, rng.choice((0, -1, b, b + 1, b + 1000, 10 ** 6)))
    if k == 5:
        return (rng.randint(0, 5000),)
    if k == 6:
        e = rng.randint(1, 4000)
        return (e + rng.choice((1, 1, 100)), e)
    bad = rng.choice((None, '1', 1.0, [], 2 ** 40, 0.0))
    return rng.choice(((bad,), (bad, 0), (0, bad), (5, bad), (bad, bad), (100, bad), (bad, 5)))


def file_(ctx, w):
    rng = ctx.rng
    if not w.files or rng.random() < .4:
        return w.file(data(rng, rng.choice((None, None, 0, 1000))))
    return rng.randint(1, len(w.files))


def arg(ctx, w, types=True):
    k = ctx.rng.randrange(8)
    if k < 5:
        return file_(ctx, w)
    if k == 5:
        return 'missing'
    if k == 6:
        return 'directory'
    return badtype(ctx.rng) if types else 'missing'


def onpage(ctx, w, p):
    rng = ctx.rng
    k = rng.randrange(12)
    if k < 3:
        w.media('image', p, arg(ctx, w), *when(rng))
    elif k < 6:
        w.media('audio', p, arg(ctx, w), *when(rng))
    elif k < 9:
        t = badtype(rng)[0] if rng.random() < .2 else text(rng)
        w.text(p, t, *when(rng))
    elif k == 9:
        w.itemhdr(p, rng.choice(('img', 'aud', 'txt')), rng.choice(('Content-ID', 'X-Foo')), token(rng))
    else:
        w.duration(p, rng.choice((1, 2, 4000, rng.randint(1, 10 ** 5), 0, -1, -4000, 1.5, None, '5', [], 2.0)))


def onpart(ctx, w, d):
    rng = ctx.rng
    k = rng.randrange(9)
    if k < 3:
        a = arg(ctx, w, False)
        w.load(d, a)
        if rng.random() < .3:
            # the file of a part again, and something in between
            if rng.random() < .5:
                w.lookpart(d)
            for _ in range(rng.randrange(3)):
                rng.choice((lambda: w.ctype(d, media(rng)), lambda: w.phdr(d, 'X-Foo', token(rng)),
                            lambda: w.load(d, file_(ctx, w)), lambda: w.lookpart(d)))()
            if isinstance(a, int) and rng.random() < .6:
                w.rewrite(a, data(rng))
            w.load(d, a)
    elif k < 5:
        w.data(d, data(rng), media(rng), params(rng, rng.choice((0, 0, 1, 3))))
    elif k == 5:
        w.ptext(d, text(rng))
    elif k == 6:
        w.ctype(d, media(rng))
    else:
        w.phdr(d, rng.choice(('Content-ID', 'Content-Location', 'X-Foo', token(rng))), text(rng))


def gen(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(110, 6000)):
        w = World(ctx)
        pages = [w.page() for _ in range(2)]
        parts = [d for d in [w.part() for _ in range(2)] if d]
        if rng.random() < .3:
            # parts that were received
            m = w.msg()
            w.addpart(m, parts[0])
            for _ in range(rng.randint(1, 4)):
                onpart(ctx, w, parts[0])
            w.data(parts[1], data(rng), media(rng), params(rng, rng.choice((1, 2))))
            w.addpart(m, parts[1])
            got = w.receive(m)
            if got:
                parts = got[1]
                for d in parts:
                    w.lookpart(d)
        for _ in range(rng.randint(1, 14)):
            if rng.random() < .55:
                p = rng.choice(pages)
                onpage(ctx, w, p)
                if rng.random() < .1:
                    w.away(lambda: w.look(p))
                w.look(p)
                if rng.random() < .1:
                    w.look(pages[0])
            elif rng.random() < .15:
                d = w.part(arg(ctx, w, False))
                if d:
                    parts.append(d)
                    w.lookpart(d)
            else:
                d = rng.choice(parts)
                onpart(ctx, w, d)
                if rng.random() < .15:
                    w.away(*[lambda: w.lookpart(d), lambda: w.look(rng.choice(pages))][:rng.randint(1, 2)])
                # a part that was never looked at before it is changed, too
                if rng.random() < .8:
                    w.lookpart(d)
        for p in pages:
            w.look(p)
        for d in parts:
            w.lookpart(d)
