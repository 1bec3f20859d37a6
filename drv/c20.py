# -*- coding: utf-8 -*-
from world import *


def xmltext(rng):
    k = rng.randrange(8)
    n = rng.choice((0, 1, 3, 10, 40, 40, 40, 3000))
    if k == 0:
        return ''.join([rng.choice('&<>"\'ab ;') for _ in range(n)])
    if k == 1:
        return rng.choice(('&amp;', '&lt;', ']]>', '<!--', '&#10;', '<text src="x"/>', '</smil>', '"/><img src="y'))
    if k == 2:
        return ''.join([rng.choice('ab\t\n\r ') for _ in range(n)])
    if k == 3:
        return ''.join([chr(rng.choice((rng.randint(32, 126), rng.randint(160, 255)))) for _ in range(n)])
    return ''.join([rng.choice('abc XYZ,.;/@=()[]{}?:!') for _ in range(n)])


def name(rng, i):
    return rng.choice(('a%d.jpg', 'b b%d.gif', 'x&y%d.png', "o'%d.amr", 'q"%d.mp3', '<%d>.wbmp', 'n%d', '%d.txt')) % i


def times(rng, dur):
    k = rng.randrange(9)
    if k < 2:
        return ()
    b = rng.choice((0, 1, 500, dur - 1, dur, dur + 1, rng.randint(0, 6000), -1))
    if k == 2:
        return (b,)
    if k == 3:
        return (b, 0)
    if k == 4:
        return (0, -rng.randint(0, 10))
    if k == 5:
        return (max(b, 1), -1)
    e = rng.choice((b, b + 1, dur - 1, dur, dur + 1, dur * 2, 4000, 4001, 1))
    if 0 < e < b:
        e = b
    return (b, e)


def page(ctx, w, which=None, dur=None):
    rng = ctx.rng
    p = w.page()
    if which is None:
        which = rng.randrange(8)
    if dur is None:
        dur = rng.choice((None, 1, 2, 1000, 3999, 4000, 4001, 10 ** 6, rng.randint(1, 9000)))
    if dur is not None and rng.random() < .5:
        w.duration(p, dur)
    d = dur or 4000
    order = [('image', 1), ('audio', 2), ('text', 4)]
    rng.shuffle(order)
    for k, bit in order:
        if which & bit:
            if k == 'text':
                w.text(p, xmltext(rng), *times(rng, d))
            else:
                t = [ord(c) for c in xmltext(rng)]
                w.media(k, p, w.file(t, name(rng, len(w.files))), *times(rng, d))
                s = k[:3] if k == 'audio' else 'img'
                s = 'aud' if k == 'audio' else 'img'
                x = rng.randrange(8)
                if x == 0:
                    w.itemhdr(p, s, 'Content-ID', '<%d>' % len(w.files))
                if x == 1:
                    w.itemdrop(p, s, 'Content-Location')
                if x == 2:
                    w.itemhdr(p, s, 'Content-ID', 'cid:%d' % len(w.files))
                    w.itemdrop(p, s, 'Content-Location')
                if x == 3:
                    w.itemhdr(p, s, 'Content-Location', 'http://x/?a=1&b=%d' % len(w.files))
    if dur is not None:
        w.duration(p, dur)
    return p


def gen(ctx):
    rng = ctx.rng
    i = 0
    for a in range(8):
        for b in range(8):
            i += 1
            if ctx.mine(i):
                w = World(ctx)
                m = w.msg()
                w.addpage(m, page(ctx, w, a))
                w.addpage(m, page(ctx, w, b))
                w.smil(m)
    # one item of each kind, all times around the duration
    for kind in ('image', 'audio', 'text'):
        for dur in (1, 1000, 4000):
            for b in (-1, 0, 1, dur - 1, dur, dur + 1):
                for e in (-1, 0, 1, b, b + 1, dur - 1, dur, dur + 1, 2 * dur):
                    i += 1
                    if not ctx.mine(i) or 0 < e < b:
                        continue
                    w = World(ctx)
                    m = w.msg()
                    p = w.page()
                    if dur != 4000:
                        w.duration(p, dur)
                    if kind == 'text':
                        w.text(p, 'x', b, e)
                    else:
                        w.media(kind, p, w.file([1]), b, e)
                    w.addpage(m, p)
                    w.smil(m)
    for _ in range(ctx.n(60, 4000)):
        w = World(ctx)
        ms = [w.msg() for _ in range(rng.choice((1, 1, 1, 2)))]
        pages = [page(ctx, w) for _ in range(rng.choice((0, 1, 2, 3, 5, 12)))]
        if rng.random() < .3:
            w.size(rng.choice(range(1, len(ms) + 1)), rng.randint(0, 2000), rng.randint(0, 2000))
        for p in pages:
            w.addpage(rng.choice(range(1, len(ms) + 1)), p)
            if rng.random() < .1:
                w.smil(1)
        if pages and rng.random() < .3:
            w.addpage(1, pages[0])          # shown twice
        for m in range(1, len(ms) + 1):
            w.smil(m)
        # changes after it was shown
        for p in pages[:3]:
            k = rng.randrange(4)
            if k == 0:
                w.duration(p, rng.randint(1, 5000))
            elif k == 1:
                w.text(p, xmltext(rng), *times(rng, 4000))
            elif k == 2:
                w.media('image', p, w.file([1, 2]), *times(rng, 4000))
        if pages:
            w.smil(1)
