# -*- coding: utf-8 -*-
from deliver import *


def gen(ctx):
    rng = ctx.rng
    i = 0
    def dl(**kw):
        kw.setdefault('smsc', [0])
        kw.setdefault('address', address(rng, 4))
        return deliver(rng, **kw)
    # every length, every alphabet, without and with a concatenation header
    for fmt, top in ((0, 160), (4, 140), (8, 70)):
        for n in range(top + 1):
            i += 1
            if not ctx.mine(i):
                continue
            emit(ctx, dl(fmt=fmt, n=n, header=None))
            for kind in ('c8', 'c16'):
                h = element(rng, kind)
                if n <= capacity(fmt, h):
                    emit(ctx, dl(fmt=fmt, n=n, header=h))
    # every header length (every number of fill bits)
    for hl in range(2, 100):
        for fmt in (0, 4, 8):
            i += 1
            if not ctx.mine(i):
                continue
            h = [rng.choice((1, 3, 7, 0x70, 0x24)), hl - 2] + [rng.randrange(256) for _ in range(hl - 2)]
            cap = capacity(fmt, h)
            for n in (0, 1, 2, 8, cap, cap - 1, rng.randrange(cap + 1)):
                emit(ctx, dl(fmt=fmt, n=min(n, cap), header=h))
            if hl >= 5:
                h = element(rng, 'c8') + [3, max(0, hl - 7)] + [rng.randrange(256) for _ in range(max(0, hl - 7))]
                emit(ctx, dl(fmt=fmt, header=h))
                h = [3, max(0, hl - 8)] + [rng.randrange(256) for _ in range(max(0, hl - 8))] + element(rng, 'c16')
                emit(ctx, dl(fmt=fmt, header=h))
    # an empty header
    for fmt in (0, 4, 8):
        i += 1
        if ctx.mine(i):
            for n in (0, 1, 5, capacity(fmt, [])):
                emit(ctx, dl(fmt=fmt, header=[], n=n))
    # every septet at every position modulo 8
    for v in range(128):
        i += 1
        if ctx.mine(i):
            for k in range(8):
                us = units(rng, 0, 9 + k % 8)
                us[k] = v
                emit(ctx, dl(fmt=0, units=us, header=rng.choice((None, element(rng)))))
                us = us[:k + 1]
                emit(ctx, dl(fmt=0, units=us, header=rng.choice((None, element(rng)))))
    for v in range(256):
        i += 1
        if ctx.mine(i):
            emit(ctx, dl(fmt=4, units=[v] * 3))
            emit(ctx, dl(fmt=8, units=[v, v << 8 if not 0xd8 <= v < 0xe0 else v, v * 257
                                       if not 0xd8 <= v < 0xe0 else 0]))
            if v in DCS:
                emit(ctx, dl(dcs=v, header=None, n=7))
                emit(ctx, dl(dcs=v, header=element(rng, 'c8')))
    # octets beyond the announced length are not text
    for fmt in (0, 4, 8):
        for k in (1, 2, 4, 7):
            i += 1
            if ctx.mine(i):
                emit(ctx, dl(fmt=fmt, n=rng.randrange(20)) + [rng.randrange(256) for _ in range(k)])
                emit(ctx, dl(fmt=fmt, n=rng.randrange(20), header=element(rng, 'c8'))
                     + [rng.randrange(256) for _ in range(k)])
    # repeated elements
    for _ in range(ctx.n(60, 600)):
        h = element(rng, rng.choice(('c8', 'c16'))) + element(rng) + element(rng, rng.choice(('c8', 'c16')))
        emit(ctx, dl(header=h))
    for _ in range(ctx.n(350, 12000)):
        emit(ctx, deliver(rng))
