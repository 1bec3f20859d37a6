# -*- coding: utf-8 -*-
from world import *

SIZES = [0, 1, 2, 126, 127, 128, 129, 255, 256, 257]
BIG = [16382, 16383, 16384, 16385]
PHDR = ['Content-ID', 'Content-Location', 'Content-Disposition', 'X-Foo', 'Content-Language', 'Content-MD5',
        'Age', 'Date', 'Etag', 'Profile-Warning', 'Accept-Charset', 'Content-Encoding', 'Via', 'foo']


def header(ctx, w, d):
    rng = ctx.rng
    n = rng.choice(PHDR) if rng.random() < .7 else token(rng)
    if n not in ('Content-Type', 'Pragma', 'Accept'):
        v = rng.choice(('<0001>', text(rng), token(rng), sized(rng)))
        w.phdr(d, n, v)


def newpart(ctx, w, n=None, headers=True):
    rng = ctx.rng
    d = w.part()
    k = rng.randrange(5)
    if k == 0:
        w.load(d, w.file(data(rng, n)))
    elif k == 1 and n is None:
        w.ptext(d, text(rng))
    elif k == 2:
        w.data(d, data(rng, n), media(rng), {})
    else:
        w.data(d, data(rng, n), media(rng), params(rng, rng.choice((0, 1, 2, 4))))
    if k == 4 and rng.random() < .3:
        w.ctype(d, media(rng))
    if headers:
        for _ in range(rng.choice((0, 0, 1, 2, 5))):
            header(ctx, w, d)
    return d


def newpage(ctx, w, which=None, n=None):
    rng = ctx.rng
    p = w.page()
    if which is None:
        which = rng.randrange(8)
    order = [('image', 1), ('audio', 2), ('text', 4)]
    rng.shuffle(order)
    for k, bit in order:
        if which & bit:
            if k == 'text':
                w.text(p, text(rng) if n is None else 'x' * n)
            else:
                w.media(k, p, w.file(data(rng, n)))
    if rng.random() < .2:
        which = rng.choice(('img', 'aud', 'txt'))
        w.itemhdr(p, which, rng.choice(('Content-ID', 'X-Foo', 'Content-Location')), token(rng))
    return p


def check(w, m):
    w.enc(m)
    w.list(m)


def gen(ctx):
    rng = ctx.rng
    i = 0
    # every subset of media on two pages, with and without further parts
    for a in range(8):
        for b in range(8):
            i += 1
            if ctx.mine(i):
                w = World(ctx)
                m = w.msg()
                w.addpage(m, newpage(ctx, w, a))
                if (a + b) % 3:
                    w.addpart(m, newpart(ctx, w))
                w.addpage(m, newpage(ctx, w, b))
                check(w, m)
    for n in SIZES + BIG + [65537 + rng.randrange(9000)]:
        i += 1
        if ctx.mine(i):
            w = World(ctx)
            m = w.msg()
            w.addpart(m, newpart(ctx, w, n))
            w.addpart(m, newpart(ctx, w, 3))
            check(w, m)
            w.addpage(m, newpage(ctx, w, 3, n))
            check(w, m)
    # headers of every length around one and two octets
    for n in list(range(20, 36)) + list(range(110, 140)):
        i += 1
        if ctx.mine(i):
            w = World(ctx)
            m = w.msg()
            d = newpart(ctx, w, 4, False)
            w.phdr(d, 'X-Foo', 'y' * n)
            w.addpart(m, d)
            w.addpart(m, newpart(ctx, w, 2))
            check(w, m)
    # many parts
    for n in (100, 125, 126, 127, 128, 129, 200, 253, 254, 255, 256, 300):
        i += 1
        if ctx.mine(i):
            w = World(ctx)
            m = w.msg()
            ds = [newpart(ctx, w, 1) for _ in range(5)]
            for _ in range(n):
                w.addpart(m, rng.choice(ds))
            check(w, m)
    for _ in range(ctx.n(200, 3000)):
        w = World(ctx)
        ms = [w.msg() for _ in range(rng.choice((1, 1, 2)))]
        pages = [newpage(ctx, w) for _ in range(rng.randint(0, 4))]
        parts = [newpart(ctx, w) for _ in range(rng.randint(0, 4))]
        for _ in range(rng.randint(0, 8)):
            m = rng.choice(ms)
            if pages and rng.random() < .5:
                w.addpage(m, rng.choice(pages))
            elif parts:
                w.addpart(m, rng.choice(parts))
            if rng.random() < .2:
                check(w, m)
            if rng.random() < .1:
                # what was received is changed and sent on
                got = w.receive(m)
                if got:
                    ms.append(got[0])
                    parts.extend(got[1])
                    for d in got[1]:
                        if rng.random() < .4:
                            header(ctx, w, d)
        # things added before they are filled in
        for p in pages:
            if rng.random() < .2:
                w.text(p, text(rng))
            if rng.random() < .2:
                w.media('image', p, w.file(data(rng)))
        for d in parts:
            if rng.random() < .2:
                w.data(d, data(rng), media(rng), params(rng, rng.choice((0, 1))))
            elif rng.random() < .1:
                w.ctype(d, media(rng))
            elif rng.random() < .1:
                w.load(d, w.file(data(rng)))
        for m in ms:
            check(w, m)
