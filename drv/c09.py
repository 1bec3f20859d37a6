# -*- coding: utf-8 -*-
from deliver import *


def gen(ctx):
    rng = ctx.rng
    i = 0
    for v in range(256):
        i += 1
        if ctx.mine(i):
            for _ in range(ctx.n(2, 20)):
                emit(ctx, report(rng, status=v))
            emit(ctx, report(rng, status=v, scts=stamp(rng), dt=stamp(rng)))
            emit(ctx, report(rng, mr=v))
    for n in range(1, 21):
        for toa in TONS:
            i += 1
            if ctx.mine(i):
                a = address(rng, n, toa + rng.choice((0, 1, 8)))
                for cut in (None, None, 'status', 'dt', 'scts'):
                    emit(ctx, report(rng, address=a, cut=cut, smsc=smsc(rng, n)))
    # both time stamps: every value of every field
    for f in range(6):
        for v in range(100):
            i += 1
            if not ctx.mine(i):
                continue
            for which in ('scts', 'dt'):
                s = stamp(rng)
                s[f] = bcd(v)
                emit(ctx, report(rng, **{which: s, 'status': rng.choice((0, 0, 0x30))}))
                if rng.random() < .3:
                    emit(ctx, report(rng, **{which: s, 'cut': 'status'}))
    for f in range(7):
        for v in range(256):
            i += 1
            if ctx.mine(i) and (v >> 4 > 9 or v & 15 > 9 or f == 6):
                s = stamp(rng)
                s[f] = v
                emit(ctx, report(rng, **{rng.choice(('scts', 'dt')): s, 'status': 0}))
    # days of months, leap years
    for m in range(1, 13):
        for y in (0, 10, 11, 12, 69, 68, 96, 99):
            i += 1
            if ctx.mine(i):
                for d in (28, 29, 30, 31, 32):
                    s = stamp(rng, (y, m, d, 1, 2, 3))
                    emit(ctx, report(rng, scts=s, dt=s, status=0))
    for first in range(256):
        if first % 4 == 2:
            i += 1
            if ctx.mine(i):
                emit(ctx, report(rng, first=first))
    for _ in range(ctx.n(350, 12000)):
        emit(ctx, report(rng, cut=rng.choice((None, None, None, 'status', 'dt', 'scts'))))
