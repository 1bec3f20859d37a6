# -*- coding: utf-8 -*-
from array import array
from common import codes
import messaging.utils as U
from deliver import semi, pack7


def S(x):
    return ''.join(map(chr, x))


def U8(x):
    return x.decode('latin1')


def pack(ctx, m):
    ctx.emit('pack7', m=m, r=ctx.call('pack7', U.pack_8bits_to_7bits, ctx.rng.choice((S, S, lambda m: U8(S(m))))(m)))


def packh(ctx, h, m):
    ctx.emit('pack7h', m=m, h=h, r=ctx.call('pack7', U.pack_8bits_to_7bits, ' ' + S(m), S(h)))


def unpack(ctx, o, which):
    if which:
        r = ctx.call('unpack_msg2', U.unpack_msg2, array('B', o) if len(o) % 3 else list(o))
    else:
        h = ''.join(['%02x' % x for x in o])
        r = ctx.call('unpack_msg', U.unpack_msg, (h, h.upper(), unicode(h), unicode(h.upper()))[ctx.rng.randrange(4)])
    ctx.emit('unpack', o=o, r=r)


def swap(ctx, m):
    arg = list(m)
    r = ctx.call('swap', U.swap, arg)
    again = ctx.call('swap', lambda: U.swap(U.swap(list(m))))
    ctx.emit('swap', m=m, r=r, again=again, kept=arg == m)


def number(ctx, d):
    h = ''.join(['%02x' % x for x in semi(d)])
    ctx.emit('number', digits=d, r=ctx.call('swap_number', U.swap_number, ctx.rng.choice((h, unicode(h)))))


def hexa(ctx, o):
    h = ''.join(['%02x' % x for x in o])
    ctx.emit('hex', o=o, str=ctx.call('encode_str', U.encode_str, U8(S(o)) if ctx.rng.random() < .3 else S(o)),
             bytes=ctx.call('encode_bytes', U.encode_bytes, array('B', o) if ctx.rng.random() < .5 else o),
             back=ctx.call('to_array', U.to_array, ctx.rng.choice((h, unicode(h)))),
             up=ctx.call('to_array', U.to_array, unicode(h.upper())))


def gen(ctx):
    rng = ctx.rng
    R = rng.randrange
    i = 0
    for n in range(0, 161):
        i += 1
        if not ctx.mine(i):
            continue
        for _ in range(ctx.n(4, 40)):
            pack(ctx, [R(128) for _ in range(n)])
            pack(ctx, [rng.choice((0, 127, 1, 64)) for _ in range(n)])
            if n <= 153:
                packh(ctx, [R(256) for _ in range(6)], [R(128) for _ in range(n)])
                packh(ctx, [5, 0, 3, R(256), R(256), R(256)], [rng.choice((0, 127)) for _ in range(n)])
        if n <= 140:
            for w in (0, 1):
                for _ in range(ctx.n(3, 30)):
                    unpack(ctx, [R(256) for _ in range(n)], w)
                    unpack(ctx, [rng.choice((0, 255, 128, 1)) for _ in range(n)], w)
                m = [R(128) for _ in range(8 * n // 7)]
                unpack(ctx, pack7(m), w)
        swap(ctx, [R(256) for _ in range(n)])
        number(ctx, [R(10) for _ in range(n)])
        hexa(ctx, [R(256) for _ in range(n)])
    # one septet set among zeroes, one octet among zeroes: every value, every phase
    for v in range(1, 128):
        i += 1
        if ctx.mine(i):
            for k in range(8):
                m = [0] * (k + 1 + R(9))
                m[k] = v
                pack(ctx, m)
                packh(ctx, [R(256) for _ in range(6)], m)
    for v in range(1, 256):
        i += 1
        if ctx.mine(i):
            for k in range(8):
                o = [0] * (k + 1 + R(9))
                o[k] = v
                unpack(ctx, o, 0)
                unpack(ctx, o, 1)
            hexa(ctx, [v])
            hexa(ctx, [0, v, 0])
    for _ in range(ctx.n(150, 3000)):
        h = rng.choice(([], [R(256) for _ in range(6)], [R(256) for _ in range(R(12))]))
        m = [R(256) for _ in range(R(140))]
        ctx.emit('pack8', h=h, m=m, r=ctx.call('pack8', U.pack_8bits_to_8bit, S(m),
                                               *([S(h)] if h or R(2) else [])))
        m = [rng.choice((R(0xd800), R(0xe000, 0x10000), R(256))) for _ in range(R(70))]
        ctx.emit('pack16', h=h, m=m, r=ctx.call('pack16', U.pack_8bits_to_ucs2,
                                                u''.join(map(unichr, m)),
                                                *([S(h)] if h or R(2) else [])))
        number(ctx, [R(10) for _ in range(R(25))])
        swap(ctx, [R(256) for _ in range(R(40))])
