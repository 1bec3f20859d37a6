# -*- coding: utf-8 -*-
from deliver import *


def gen(ctx):
    rng = ctx.rng
    i = 0
    for n in range(1, 21):
        for _ in range(ctx.n(2, 20)):
            for toa in TONS:
                i += 1
                if ctx.mine(i):
                    emit(ctx, deliver(rng, address=address(rng, n, toa + rng.choice((0, 1, 8)))))
                    emit(ctx, deliver(rng, smsc=smsc(rng, n)))
    for n in range(0, 13):
        for toa in range(0, 256):
            if toa >> 4 & 7 == 5 or n == 0:
                continue
            i += 1
            if ctx.mine(i) and (n + toa) % ctx.n(5, 1) == 0:
                emit(ctx, deliver(rng, address=address(rng, n, toa), n=3) if n else
                     deliver(rng, smsc=[0], n=3))
                d = semi(digits(rng, n or 11))
                emit(ctx, deliver(rng, smsc=[1 + len(d), toa] + d, n=3)
                     if toa >> 4 & 7 != 5 else deliver(rng))
    # alphanumeric senders: every septet at every position, every length
    for k in range(1, 12):
        for v in range(128):
            i += 1
            if ctx.mine(i):
                s = units(rng, 0, k)
                s[(v * 7 + k) % k] = v
                emit(ctx, deliver(rng, address=alnum(rng, s), n=2))
                s[-1] = v
                emit(ctx, deliver(rng, address=alnum(rng, s), n=2))
    # octets
    for v in range(256):
        i += 1
        if ctx.mine(i):
            emit(ctx, deliver(rng, pid=v))
            if v in DCS:
                emit(ctx, deliver(rng, dcs=v))
                emit(ctx, deliver(rng, dcs=v, header=None))
    # every first octet, with and without a header
    for v in range(0, 256, 4):
        i += 1
        if ctx.mine(i):
            for fmt in (0, 4, 8):
                emit(ctx, deliver(rng, first=v, fmt=fmt, header=element(rng) if v & 0x40 else None))
                if not ctx.quick:
                    for _ in range(20):
                        emit(ctx, deliver(rng, first=v, fmt=fmt, header=element(rng) if v & 0x40 else None))
    # every zone, close to every end
    for q in range(-79, 80):
        i += 1
        if ctx.mine(i):
            for _ in range(ctx.n(3, 30)):
                emit(ctx, deliver(rng, stamp=stamp(rng, None, q), n=2))
            for d in ((0, 1, 1, 0, 0, 0), (99, 12, 31, 23, 59, 59), (12, 2, 29, 12, 0, 0), (10, 3, 1, 0, 14, 0),
                      (11, 2, 28, 23, 45, 1), (0, 2, 29, 23, 0, 0), (68, 12, 31, 23, 59, 59), (69, 1, 1, 0, 0, 0)):
                emit(ctx, deliver(rng, stamp=stamp(rng, d, q), n=2))
    emit(ctx, deliver(rng, stamp=[bcd(x) for x in (9, 9, 9, 9, 9, 9)] + [8]))
    # every value of every field of the date
    for v in range(100):
        i += 1
        if ctx.mine(i):
            emit(ctx, deliver(rng, stamp=stamp(rng, (v, v % 12 + 1, v % 28 + 1, v % 24, v % 60, (v + 30) % 60))))
    for _ in range(ctx.n(350, 12000)):
        emit(ctx, deliver(rng))
