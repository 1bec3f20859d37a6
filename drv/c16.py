# -*- coding: utf-8 -*-
from ctypes_ import *
import c15
from messaging.mms.wsp_pdu import get_header_field_names, get_well_known_parameters


def one(ctx, m, ps):
    r = result(*ctx.run('encode_content_type_value', again(ctx, Encoder.encode_content_type_value), m, dict(ps)),
               **{'proj': octets})
    ctx.emit('enc', media=codes(m), params=pairs(ps), r=r)
    if r['ok'] and r['v']['k'] == 'a':
        dec(ctx, 'content_type_value', r['v']['a'] + c15.suffix(ctx.rng), media=codes(m), params=pairs(ps))


VERSIONS = ('1.1', '1.2', '1.3', '1.4')
NUMBERS = [0, 1, 2, 3, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29]
NAMES = ['Level', 'Type', 'Name', 'Filename', 'Padding', 'Start', 'Start-info', 'Comment', 'Domain', 'Path', 'Secure',
         'SEC', 'MAC', 'Size']
ODD = ['', 'a', 'a b', 'abc', '"a"', 'x\x00y', u'\u0416', '\xe9t\xe9', 'a;b', '1.2', '2', '9.9', 'text/plain', '\x1fx',
       '\x7fx', 0, 1, 127, 128, 255, 256, 2 ** 31, 2 ** 240 - 1, 2 ** 240, -1, -128, None, 0.5, [], 'image/gif']


def names(ctx):
    for v in VERSIONS + ('1.0', '1.5', '2.0', '', '1'):
        ver = int(v[2]) if v in VERSIONS else 0
        r = result(*ctx.run('fields', get_header_field_names, v))
        ctx.emit('names', f='fields', ver=ver, r=r)

        def table(d):
            return W([(k, d[k][0]) for k in sorted(d)])
        r = result(*ctx.run('params', get_well_known_parameters, v), **{'proj': table})
        ctx.emit('names', f='params', ver=ver, r=r)


def onep(ctx, name, v, ver):
    args = (name, v) if ver == '1.2' and ctx.rng.random() < .5 else (name, v, ver)
    r = result(*ctx.run('encode_parameter', again(ctx, Encoder.encode_parameter), *args), **{'proj': octets})
    ctx.emit('encp', name=codes(name), v=W(v), ver=int(ver[2]), r=r)
    if r['ok'] and r['v']['k'] == 'a':
        decp(ctx, r['v']['a'] + c15.suffix(ctx.rng), ver)


def decp(ctx, s, ver):
    it = PreviewIterator(array('B', s))
    v, e = ctx.run('decode_well_known_parameter', Decoder.decode_well_known_parameter, it, ver)
    r = result(v, e, lambda x: W(x[0]))
    r2 = {'ok': False, 'exc': []}
    if e is None:
        r2 = result(*ctx.run('decode_' + v[1], getattr(Decoder, 'decode_' + v[1]), it))
    ctx.emit('decp', s=s, ver=int(ver[2]), r=r, r2=r2, rest=drain(it.next))


def typed(rng, k):
    """an encoding of the value of parameter k"""
    if k == 0:
        return uintvar(rng.randint(1, 1099))
    if k in (1, 3, 14, 22):
        return integer(rng, rng.choice((4, 106, 1000, 2026, 127, 0, 200, rng.randrange(3000))))
    if k in (8, 17):
        return [128 | rng.randrange(128)]
    if k in (2, 7):
        return [128 | rng.randrange(16, 56)]
    if k == 9:
        return rng.choice(([128 | rng.randrange(76)], text_string(token(rng))))
    if k == 16:
        return [0]
    if k in (19, 20, 21):
        return long_int(rng, rng.randint(0, 2 ** 31))
    if k >= 18:
        t = token(rng)
        return rng.choice((text_string(t), [0], [34] + text_string(sized(rng))))
    return text_string(text(rng))


def parameters(ctx):
    rng = ctx.rng
    i = 0
    for ver in VERSIONS:
        for name in NAMES + ['x', 'x y', '', 'Max-Agex']:
            for v in ODD:
                i += 1
                if ctx.mine(i):
                    onep(ctx, name, v, ver)
        for k in range(0, 128):
            i += 1
            if ctx.mine(i):
                for _ in range(2):
                    decp(ctx, integer(rng, k) + (typed(rng, k) if k in NUMBERS else [0]) + c15.suffix(rng), ver)
    for _ in range(ctx.n(60, 3000)):
        name = rng.choice(NAMES + UNTYPED)
        onep(ctx, name, value(rng, name), rng.choice(VERSIONS))


def gen(ctx):
    rng = ctx.rng
    if ctx.shard == 0:
        names(ctx)
    parameters(ctx)
    for k, m in enumerate(MEDIA + OTHER_MEDIA):
        if ctx.mine(k):
            one(ctx, m, {})
            one(ctx, m, {'Name': 'x'})
            one(ctx, m, params(rng, 2))
    i = 0
    for n in range(0, 140):
        i += 1
        if ctx.mine(i):
            one(ctx, 'text/plain', {'Name': sized(rng, n)})
            one(ctx, 'x/y', {rng.choice(TEXTP + UNTYPED): sized(rng, n)})
            one(ctx, 'image/gif', {'Padding': n % 128})
            one(ctx, 'image/gif', {'Type': n % 128, 'Start': '<a>'})
            one(ctx, 'image/png', {'foo': n})
    for n in (250, 1000, 16000, 16370, 16378, 16379, 16380, 16390):
        i += 1
        if ctx.mine(i):
            one(ctx, 'text/plain', {'Name': sized(rng, n)})
    # many parameters
    for n in (13, 15, 16, 17, 20, 31, 32, 33, 64):
        i += 1
        if ctx.mine(i):
            for _ in range(2):
                one(ctx, media(rng), dict([(token(rng) + str(k), token(rng, 0, 3)) for k in range(n)]))
    for c in range(128, 256):          # 127 is not TEXT
        i += 1
        if ctx.mine(i):
            for t in (chr(c), 'a' + chr(c), chr(c) + 'b'):
                one(ctx, 'text/plain', {rng.choice(UNTYPED): t})
                one(ctx, 'text/plain', {rng.choice(TEXTP): t})
    for m in MEDIA:
        i += 1
        if ctx.mine(i):
            one(ctx, 'application/vnd.wap.multipart.related', {'Type': m, 'Start': '<0000>'})
    for _ in range(ctx.n(250, 9000)):
        one(ctx, media(rng), params(rng))
