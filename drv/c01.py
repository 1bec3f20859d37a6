# -*- coding: utf-8 -*-
from common import codes, result, P
from submit import either
from messaging.sms.gsm0338 import is_gsm_text

POL = ('strict', 'replace', 'ignore')
BASIC = (u"@\xa3$\xa5\xe8\xe9\xf9\xec\xf2\xc7\n\xd8\xf8\r\xc5\xe5\u0394_\u03a6"
         u"\u0393\u039b\u03a9\u03a0\u03a8\u03a3\u0398\u039e\xc6\xe6\xdf\xc9"
         u" !\"#\xa4%&'()*+,-./0123456789:;<=>?\xa1ABCDEFGHIJKLMNOPQRSTUVWXYZ"
         u"\xc4\xd6\xd1\xdc\xa7\xbfabcdefghijklmnopqrstuvwxyz\xe4\xf6\xf1\xfc\xe0")
EXT = u"\x0c^{}\\[~]|\u20ac"
LOOK = u"\xe7\u0391\u0392\u0395\u0396\u0397\u0399\u039a\u039c\u039d\u039f\u03a1\u03a4\u03a5\u03a7"


def enc1(ch, pol):
    try:
        return codes(ch.encode('gsm0338', pol))
    except UnicodeError:
        return [-1]
    except Exception:
        return [-2]


def policy(rng, pol):
    """strict need not be said"""
    return () if pol == 'strict' and rng.random() < .5 else (pol,)


def emit_enc(ctx, text, pol):
    ctx.emit('enc', text=codes(text), pol=pol,
             r=ctx.call('encode', either(ctx.rng, text).encode, 'gsm0338', *policy(ctx.rng, pol)))


def emit_dec(ctx, octets, pol):
    s = ''.join(map(chr, octets))
    ctx.emit('dec', octets=octets, pol=pol,
             r=ctx.call('decode', s.decode, 'gsm0338', *policy(ctx.rng, pol)))


def emit_pred(ctx, text):
    ctx.emit('pred', text=codes(text), r=ctx.call('is_gsm_text', is_gsm_text, text))


def gen(ctx):
    rng = ctx.rng
    # every Unicode character (beyond the BMP: a sample), every policy
    blocks = [range(b, b + 256) for b in range(0, 0x10000, 256)
              if not 0xd800 <= b < 0xe000]
    for k in range(ctx.n(8, 64)):
        blocks.append([0x10000 + ctx.common.randrange(0x100000) for _ in range(256)])
    for i, block in enumerate(blocks):
        if not ctx.mine(i):
            continue
        chars = [unichr(c) for c in block]
        for pol in POL:
            rs = ctx.run('encode', lambda: [enc1(c, pol) for c in chars])[0]
            ctx.emit('encblock', chars=block, pol=pol, rs=rs)

        def pred(c):
            r = is_gsm_text(c)
            return 1 if r is True else 0 if r is False else -1
        rs = ctx.run('is_gsm_text', lambda: [pred(c) for c in chars])[0]
        ctx.emit('predblock', chars=block, rs=rs)

    # every octet, every pair, every policy
    i = 0
    for pol in POL:
        for a in range(256):
            i += 1
            if not ctx.mine(i):
                continue
            emit_dec(ctx, [a], pol)
            if a == 27 or a % 37 == 5 or a > 250:
                for b in range(256):
                    emit_dec(ctx, [a, b], pol)
    # every escape pair in a context, doubled escapes, trailing escapes
    for b in range(256):
        if ctx.mine(b):
            for pol in POL:
                emit_dec(ctx, [65, 27, b, 66], pol)
                emit_dec(ctx, [27, 27, b], pol)
                emit_dec(ctx, [b, 27], pol)

    # texts
    pools = [BASIC, EXT, BASIC + EXT, BASIC + EXT + LOOK, EXT + LOOK,
             BASIC + u"\u0430\u4e2d\xe1\x1b\x00\x09`\xa0\xb5\x7f"]
    emit_pred(ctx, u'')
    for pol in POL:
        emit_enc(ctx, u'', pol)
        emit_dec(ctx, [], pol)
    for _ in range(ctx.n(400, 8000)):
        pool = rng.choice(pools)
        n = rng.choice((1, 2, 2, 3, 3, 4, 5, 8, 20, 80, 161, 300))
        text = u''.join([rng.choice(pool) for _ in range(n)])
        emit_enc(ctx, text, rng.choice(POL))
        emit_pred(ctx, text)
        if rng.random() < .1:
            # ordinary byte strings are texts too
            emit_pred(ctx, ''.join([chr(rng.randrange(32, 127)) for _ in range(n)]))
        octets = [rng.choice((27, 27, rng.randrange(128), rng.randrange(128),
                              rng.randrange(128), rng.randrange(256)
                              if rng.random() < .2 else 65)) for _ in range(n)]
        emit_dec(ctx, octets, rng.choice(POL))
