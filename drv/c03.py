# -*- coding: utf-8 -*-
from submit import Session, mixed, gsm, ucs, octets, GSMB, GSMX, UCS, number, validity
from messaging.sms.submit import SmsSubmit

NUM = '+34600123456'


def one(ctx, text, fmt=None):
    s = Session(ctx, ctx.rng.random() < .5 and NUM or number(ctx.rng), text)
    if fmt is not None:
        s.set('fmt', fmt)
    # the text is the same whatever else is set
    rng = ctx.rng
    if rng.random() < .5:
        s.set('rand', rng.choice((rng.randrange(256), rng.randrange(256), rng.randrange(100000))))
    if rng.random() < .2:
        for f, v in (('klass', rng.randrange(4)), ('validity', validity(rng)), ('srr', True),
                     ('csca', number(rng)), ('pid', rng.randrange(256)), ('ref', rng.randrange(256))):
            if rng.random() < .5:
                s.set(f, v)
    s.enc()


def around(ctx, total, parts, cap):
    """positions near the limits of the parts"""
    return [p for k in range(1, parts + 2) for p in range(k * cap - 2, k * cap + 2)
            if 0 <= p < total]


def gen(ctx):
    rng = ctx.rng
    i = 0
    # every length of a single part and of short concatenations
    for n in range(0, 320):
        i += 1
        if ctx.mine(i):
            one(ctx, gsm(rng, n, 0))
            one(ctx, gsm(rng, n, rng.choice((.1, .5, 1))))
    for n in range(0, 150):
        i += 1
        if ctx.mine(i):
            one(ctx, ucs(rng, n))
    for n in range(0, 290):
        i += 1
        if ctx.mine(i):
            one(ctx, octets(rng, n), 4)
    for n in list(range(0, 76)) + [134, 135]:
        i += 1
        if ctx.mine(i):
            one(ctx, gsm(rng, n, 0), 8)
    # an extension character at every position near a limit
    for n in (154, 155, 160, 161, 305, 306, 307, 459, 460):
        for p in around(ctx, n, 3, 153) + [158, 159, 160]:
            if p > n - 2:
                continue
            i += 1
            if not ctx.mine(i):
                continue
            t = [rng.choice(GSMB) for _ in range(n - 1)]
            t[p] = rng.choice(GSMX)
            one(ctx, u''.join(t))
            if p + 1 < len(t):
                t[p + 1] = rng.choice(GSMX)
            one(ctx, u''.join(t))
    # only extension characters
    for n in (79, 80, 81, 152, 153, 154, 200, 229, 230):
        i += 1
        if ctx.mine(i):
            one(ctx, gsm(rng, 0) + u''.join([rng.choice(GSMX) for _ in range(n)]))
    # every character, in a context: short, and at each end of a part
    chars = GSMB + GSMX
    for ch in chars:
        i += 1
        if ctx.mine(i):
            one(ctx, ch)
            one(ctx, ch * rng.choice((7, 8, 9, 160, 200)))
            pad = gsm(rng, 152, 0)
            one(ctx, pad + ch + gsm(rng, 20, 0))
            one(ctx, pad[:151] + ch + gsm(rng, 20, 0))
    # the escape character itself in the other alphabets
    for n, fmt, cap in ((100, None, 67), (200, None, 67), (150, 4, 134), (300, 4, 134)):
        for p in around(ctx, n, 3, cap) + [n - 1]:
            if not 0 <= p < n:
                continue
            i += 1
            if ctx.mine(i):
                if fmt == 4:
                    t = octets(rng, n)
                    one(ctx, t[:p] + '\x1b' + t[p + 1:], 4)
                else:
                    t = ucs(rng, n, 0)
                    one(ctx, t[:p] + u'\x1b' + t[p + 1:])
    # what a text cannot be
    for text, fmt in ((u'\u0430', 0), (u'abc\u4e2d', 0), (u'\u0430', 4), (u'a' * 200 + u'\u0100', 4),
                      (u'x\u0101', 4), (u'\U0001f600', None), (u'\U0001f600' + u'a' * 100, None),
                      (u'a\x1b', 0), (u'ok', 1), (u'ok', 12), (u'ok', 5), (u'ok', 2), (u'ok', 16)):
        i += 1
        if ctx.mine(i):
            one(ctx, text, fmt)
    # nearly texts of the alphabet: decomposed, compatible and look-alike characters
    for c in (u'e\u0301', u'A\u030a', u'n\u0303', u'u\u0308', u'\u2126', u'\u212b', u'\ufb01', u'\uff21', u'\u00b5',
              u'\u0391', u'\u0397', u'\xe7', u'\xc1', u'\u2018', u'\u2019', u'\u201c', u'\u2013', u'\u2026', u'\xa0',
              u'\u2028', u'\u200b', u'\xad', u'\t', u'\x00', u'`', u'\x7f', u'\x85', u'\u20ac\u0301'):
        i += 1
        if ctx.mine(i):
            for t in (c, u'ab' + c + u'cd', u'x' * 159 + c, gsm(rng, 152, 0) + c + gsm(rng, 20, 0)):
                one(ctx, t, 0)
                one(ctx, t)
    # byte strings that are texts
    for n in (0, 5, 160, 161, 307):
        i += 1
        if ctx.mine(i):
            one(ctx, ''.join([chr(rng.randrange(32, 127)) for _ in range(n)]).replace('`', 'x'))
    # the largest messages, and the first that are too large
    big = [(153 * k + d, 0) for k in (100, 255) for d in (-1, 0, 1)] + \
          [(134 * k + d, 4) for k in (215, 223, 255) for d in (0, 1)] + \
          [(67 * k + d, 8) for k in (216, 223, 224, 255) for d in (0, 1)]
    if ctx.quick:
        big = [b for b in big if b[0] % 7 < 7]
    for n, fmt in big:
        i += 1
        if not ctx.mine(i):
            continue
        if fmt == 0:
            one(ctx, gsm(rng, n, 0))
        elif fmt == 4:
            one(ctx, octets(rng, n).replace('\x1b', 'x'), 4)
        else:
            one(ctx, u'\u0436' + ucs(rng, n - 1).replace(u'\x1b', u'x') if n > 1 else u'\u0436')
    i += 1
    if ctx.mine(i):
        # escapes push the last code into part 256
        one(ctx, u'a' + u'{' * (255 * 76) + u'b')
        one(ctx, u'{' * (255 * 76))
        one(ctx, u'{' * (255 * 76) + u'a')
        one(ctx, (u'a' * 152 + u'{') * 255)
        one(ctx, (u'a' * 152 + u'{') * 252)
    for _ in range(ctx.n(60, 2500)):
        k = rng.randrange(5)
        n = rng.choice((3, 20, 70, 141, 161, 306, 460, 700, rng.randrange(1000)))
        if k == 0:
            one(ctx, gsm(rng, n, rng.choice((0, .02, .1, .5))))
        elif k == 1:
            one(ctx, ucs(rng, n // 2, rng.random()))
        elif k == 2:
            one(ctx, octets(rng, n), 4)
        elif k == 3:
            one(ctx, gsm(rng, n // 2, 0), 8)
        else:
            # a text that looks like a GSM text but for one character
            t = gsm(rng, n, 0)
            p = rng.randrange(n)
            one(ctx, t[:p] + rng.choice(UCS + u'\xe7\u0391\u03a7`') + t[p + 1:])
    mixed(ctx, ctx.n(60, 1500))
