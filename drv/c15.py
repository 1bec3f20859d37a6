# -*- coding: utf-8 -*-
from wsp import *

# encoder, decoder, values
ENC = ['uint_8', 'uint_var', 'short_integer', 'long_integer', 'integer_value', 'short_length',
       'value_length', 'text_string', 'token_text', 'extension_media', 'constrained_encoding',
       'version_value', 'no_value', 'media_type', 'constrained_media', 'accept_value']


def suffix(rng):
    return [rng.choice((0, 31, 127, 128, 255, rng.randrange(256))) for _ in range(rng.choice((0, 0, 1, 2, 5)))]


def one(ctx, name, v):
    rng = ctx.rng
    r = result(*ctx.run('encode_' + name, again(ctx, getattr(Encoder, 'encode_' + name)), v), **{'proj': octets})
    ctx.emit('enc', f=name, v=W(v), r=r)
    if r['ok'] and r['v']['k'] == 'a':
        dec(ctx, name, r['v']['a'] + suffix(rng), exact=True)


def header(ctx, name, v):
    r = result(*ctx.run('encode_header', again(ctx, Encoder.encode_header), name, v), **{'proj': octets})
    ctx.emit('enchdr', name=codes(name), v=W(v), r=r)
    if r['ok'] and r['v']['k'] == 'a':
        dec(ctx, 'header', r['v']['a'] + suffix(ctx.rng), exact=True)


def anytext(rng):
    k = rng.randrange(12)
    t = text(rng)
    if k == 0:
        return t + chr(0) + text(rng)
    if k == 1:
        return unicode(text(rng, high=False)) + u'\u20ac'
    if k == 2:
        return unicode(text(rng, high=False))
    if k == 3:
        return 'x' * length(rng)
    return t


def anytoken(rng):
    k = rng.randrange(6)
    if k == 0:
        return text(rng)
    if k == 1:
        t = list(token(rng))
        t[rng.randrange(len(t))] = chr(rng.randrange(0, 256))
        return ''.join(t)
    return token(rng)


def version(rng):
    k = rng.randrange(6)
    if k < 2:
        return '%d.%d' % (rng.randint(0, 9), rng.randint(0, 16))
    if k == 2:
        return '%d' % rng.randint(0, 12)
    if k == 3:
        return rng.choice(('1.2.4', '1.0.0', '1.', '.1', '1.x', 'x', '', '1.05', '01.0', '1.00', '1,0',
                           '7.14', '7.15', '8.0', '0.1', '1.-1', '-1.0', '1.123', '10.0', '7', '0', '8'))
    return text(rng, high=False)


def gen(ctx):
    rng = ctx.rng
    i = 0
    for v in range(-3, 300) + [1000, 16383, 16384, 16385, 2097151, 2097152, 268435455, 268435456,
                               2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 63, 2 ** 64]:
        for name in ENC[:7]:
            i += 1
            if ctx.mine(i):
                one(ctx, name, v)
        if -1 <= v <= 130 and ctx.mine(v):
            one(ctx, 'constrained_encoding', v)
    for b in range(0, 32):
        for d in (-1, 0, 1):
            i += 1
            if ctx.mine(i):
                v = (1 << (8 * b)) + d
                one(ctx, 'long_integer', v)
                one(ctx, 'integer_value', v)
                one(ctx, 'uint_var', v)
    for c in range(256):
        if ctx.mine(c):
            for t in (chr(c), 'a' + chr(c), chr(c) + 'b'):
                one(ctx, 'text_string', t)
                one(ctx, 'token_text', t)
                if c < 128:
                    one(ctx, 'extension_media', t)
    for n in range(0, 2300):
        if n % (4 if ctx.quick else 1) == 0 or n < 130:
            i += 1
            if ctx.mine(i):
                dec(ctx, 'well_known_charset', integer(rng, n) + suffix(rng), exact=True)
    for maj in range(0, 9):
        for mnr in range(0, 18):
            if ctx.mine(maj + mnr):
                one(ctx, 'version_value', '%d.%d' % (maj, mnr))
        if ctx.mine(maj):
            one(ctx, 'version_value', '%d' % maj)
    for k, m in enumerate(MEDIA + OTHER_MEDIA):
        if ctx.mine(k):
            one(ctx, 'media_type', m)
            one(ctx, 'constrained_media', m)
            one(ctx, 'accept_value', m)
            header(ctx, 'Accept', m)
    for k, f in enumerate(FIELDS + LATER_FIELDS):
        if ctx.mine(k) and f not in ('Accept', 'Pragma'):
            header(ctx, f, text(rng, high=False))
            header(ctx, f, 'x' * length(rng))
    for _ in range(ctx.n(150, 4000)):
        n = number(rng)
        one(ctx, rng.choice(('uint_var', 'long_integer', 'integer_value', 'value_length')), n)
        one(ctx, 'text_string', anytext(rng))
        one(ctx, 'token_text', anytoken(rng))
        one(ctx, 'version_value', version(rng))
        one(ctx, 'extension_media', text(rng, high=False))
        one(ctx, 'constrained_encoding', rng.choice((rng.randint(0, 127), text(rng, high=False))))
        header(ctx, rng.choice(('X-Foo', token(rng), rng.choice(FIELDS[1:31]))), text(rng))
        one(ctx, 'no_value', rng.choice((None, 0, '')))
