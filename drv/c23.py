# -*- coding: utf-8 -*-
import glob
import os
from array import array
from foreign import *
from world import look_message, same
from messaging.mms.message import MMSMessage
from messaging.mms.mms_pdu import MMSDecoder




def one(ctx, o, legal=True):
    """a message decoded by new or kept decoders, from data or a file; those
    decoded before stay what they are"""
    rng = ctx.rng
    if not hasattr(ctx, 'kept'):
        ctx.kept = MMSDecoder(), []
    decoder_, seen = ctx.kept
    got = []

    def go():
        k = rng.randrange(5)
        if k < 2:
            m = MMSMessage.from_data(array('B', o))
        elif k < 4:
            m = decoder_.decode_data(array('B', o))
        else:
            path = os.path.join(ctx.scratch, 'received')
            with open(path, 'wb') as f:
                f.write(array('B', o).tostring())
            m = decoder_.decode_file(path)
        got.append(m)
        return look_message(m)
    r = result(*ctx.run('decode', go), **{'proj': same})
    ctx.emit('dec', s=o, r=r, legal=legal)
    if got and legal and len(o) < 2000:
        seen.append((got[-1], o))
        if len(seen) > 20:
            del seen[rng.randrange(20)]
        if rng.random() < .1:
            m, o = rng.choice(seen)
            r = result(*ctx.run('look', look_message, m), **{'proj': same})
            ctx.emit('dec', s=o, r=r, legal=True)


def value(ctx, name, o):
    """a header value by itself, and followed by others"""
    one(ctx, [128 | NUM[name]] + o)
    rng = ctx.rng
    after = rng.choice([n for n in sorted(NUM) if n not in (name, 'Content-Type')])
    one(ctx, [128 | NUM[name]] + o + one_header(rng, after))


def gen(ctx):
    rng = ctx.rng
    i = 0
    for f in sorted(glob.glob(os.path.join(os.environ['VERIF_REPO'], 'messaging/test/mms-data/*'))):
        i += 1
        if ctx.mine(i) and os.path.getsize(f) < 60000:
            one(ctx, [ord(c) for c in open(f, 'rb').read()], False)
    # every token, every octet
    for name, lo, hi in (('Message-Type', 128, 256), ('Response-Status', 128, 256), ('Status', 128, 256),
                         ('Priority', 128, 131), ('Sender-Visibility', 128, 130), ('Delivery-Report', 128, 130),
                         ('Read-Reply', 128, 130), ('Report-Allowed', 128, 130), ('Message-Class', 128, 132)):
        for b in range(lo, hi):
            i += 1
            if ctx.mine(i):
                value(ctx, name, [b])
    for b in range(16, 128):
        i += 1
        if ctx.mine(i):
            value(ctx, 'MMS-Version', [128 | b])
    # every number of octets
    for n in range(1, 31):
        i += 1
        if ctx.mine(i):
            x = rng.getrandbits(8 * n) | 1 << 8 * n - 1
            value(ctx, 'Message-Size', [n] + bigbytes(x))
            for q in (False, True):
                d = [129, n] + bigbytes(x)
                for h in ('Delivery-Time', 'Expiry'):
                    value(ctx, h, value_length(rng, len(d), q) + d)
                d = [128, n] + bigbytes(x)
                value(ctx, 'Delivery-Time', value_length(rng, len(d), q) + d)
    for b in range(128):
        i += 1
        if ctx.mine(i):
            value(ctx, rng.choice(('Delivery-Time', 'Expiry')), value_length(rng, 2) + [129, 128 | b])
    for n in list(range(0, 40)) + [100, 120, 124, 125, 126, 127, 128, 129, 130, 200, 300]:
        i += 1
        if ctx.mine(i):
            t = 'x' * n
            for q in (False, True):
                e = integer(rng, rng.choice(CHARSETS)) + text_string(t)
                for h in ('To', 'Subject', 'Response-Text', 'Cc', 'Bcc'):
                    if q or len(e) <= 30 or h == 'To':
                        value(ctx, h, value_length(rng, len(e), q) + e)
                f = [128] + text_string(t)
                value(ctx, 'From', value_length(rng, len(f), q) + f)
                f = [128] + value_length(rng, len(e), q) + e
                value(ctx, 'From', value_length(rng, len(f)) + f)
    for _ in range(ctx.n(40, 400)):
        n = seconds(rng)
        o = bigbytes(n) or [0]
        value(ctx, 'Date', [len(o)] + o)
        d = [128, len(o)] + o
        value(ctx, 'Expiry', value_length(rng, len(d)) + d)
    # two headers in every order
    names = [n for n in sorted(NUM) if n != 'Content-Type']
    for a in names:
        for b in names:
            i += 1
            if a != b and ctx.mine(i):
                one(ctx, message(rng, [a, b], ctx.rng.random() < .2, 0))
    for n in (1, 2, 127, 128, 130):
        i += 1
        if ctx.mine(i):
            one(ctx, [0x84] + content_type(rng) + uintvar(n) + [x for _ in range(n) for x in part(rng, 2)])
    for n in (126, 127, 128, 129, 16383, 16384):
        i += 1
        if ctx.mine(i):
            one(ctx, [0x84] + content_type(rng) + uintvar(2) + part(rng, n) + part(rng, 3))
    for _ in range(ctx.n(250, 12000)):
        one(ctx, message(rng))
