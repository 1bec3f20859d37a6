# -*- coding: utf-8 -*-
from array import array
from deliver import *


def one(ctx, octs):
    v, e = ctx.run('UserDataHeader', lambda: UserDataHeader.from_bytes(array('B', octs)))
    if e is None:
        v, e = ctx.run('observe', udh, v)
    ctx.emit('udh', octets=octs, r=result(v, e, lambda x: x))


KINDS = ('c8', 'c16', 'p8', 'p16', 'x', 'x')


def gen(ctx):
    rng = ctx.rng
    i = 0
    if ctx.mine(0):
        one(ctx, [])
    # every identifier alone, first, in the middle and last
    for ident in range(256):
        i += 1
        if not ctx.mine(i):
            continue
        if ident in (0, 4, 5, 8):
            e = element(rng, {0: 'c8', 4: 'p8', 5: 'p16', 8: 'c16'}[ident])
            es = [e, e[:2] + [rng.randrange(256) for _ in e[2:]]]
        else:
            es = [[ident, n] + [rng.randrange(256) for _ in range(n)] for n in (0, 1, 2, 3, 4, 5, 6, 7, 20)]
        for e in es:
            one(ctx, e)
            one(ctx, e + element(rng, rng.choice(KINDS)))
            one(ctx, element(rng, rng.choice(KINDS)) + e)
            one(ctx, element(rng, rng.choice(KINDS)) + e + element(rng, rng.choice(KINDS)))
    # every length of an unknown element
    for n in range(0, 253):
        i += 1
        if ctx.mine(i):
            e = [rng.choice((1, 2, 3, 6, 7, 9, 10, 36, 112, 255)), n] + [rng.randrange(256) for _ in range(n)]
            one(ctx, e)
            one(ctx, e + element(rng, rng.choice(KINDS[:4])))
            one(ctx, element(rng, rng.choice(KINDS[:4])) + e)
            one(ctx, element(rng, 'p16') + e + element(rng, 'c8'))
            one(ctx, element(rng, 'c16') + e + element(rng, 'p8'))
    # every order of kinds up to four elements
    ks = ('c8', 'c16', 'p8', 'p16', 'x')
    for a in ks:
        for b in ks:
            for c in ks:
                for d in ks + (None,):
                    i += 1
                    if ctx.mine(i):
                        one(ctx, [o for k in (a, b, c, d) if k for o in element(rng, k)])
    # values of the fields
    for v in range(256):
        i += 1
        if ctx.mine(i):
            w = rng.randrange(256)
            one(ctx, [0, 3, v, w, 255 - v])
            one(ctx, [8, 4, v, w, 255 - v, v ^ 1])
            one(ctx, [4, 2, v, w])
            one(ctx, [5, 4, v, w, w, v])
    for _ in range(ctx.n(800, 20000)):
        one(ctx, header(rng, 254))
    # and inside messages
    for _ in range(ctx.n(100, 3000)):
        h = header(rng)
        octs = deliver(rng, header=h)
        pdu = hexa(rng, octs)
        v, e = ctx.run('SmsDeliver', SmsDeliver, pdu)
        if e is None:
            v, e = ctx.run('observe', lambda: udh(v.udh))
        ctx.emit('udh', octets=h, r=result(v, e, lambda x: x))
