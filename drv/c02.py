# -*- coding: utf-8 -*-
from submit import Session, mixed, number, gsm, ucs, octets, validity, GSMB
from datetime import timedelta
from messaging.sms.submit import SmsSubmit


def period(i):
    """what the octet i means"""
    if i < 144:
        return timedelta(minutes=5 * (i + 1))
    if i < 168:
        return timedelta(minutes=720 + 30 * (i - 143))
    if i < 197:
        return timedelta(days=i - 166)
    return timedelta(weeks=i - 192)


def gen(ctx):
    rng = ctx.rng
    # every value of the small settings
    for i, (klass, fmt, srr) in enumerate([(k, f, s) for k in (None, 0, 1, 2, 3)
                                           for f in (None, 0, 4, 8) for s in (False, True)]):
        if not ctx.mine(i):
            continue
        s = Session(ctx, number(rng), u'hello')
        if klass is not None:
            s.set('klass', klass)
        s.set('fmt', fmt)
        s.set('srr', srr)
        for v in (None, rng, rng, rng):
            s.set('validity', v and validity(rng))
            s.enc()
        s.set('text', u'x' * 200)
        s.enc()
    for i in range(256):
        if not ctx.mine(i):
            continue
        s = Session(ctx, number(rng), u'hello')
        s.set('pid', i)
        s.set('ref', i)
        s.enc()
        s.set('pid', rng.randrange(256))
        s.set('ref', rng.choice((i + 256, 256 * rng.randrange(1000) + i, 65536 + i, i - 256, i - 65536,
                                 2 ** 31 + i, 2 ** 40 + i)))
        s.set('rand', i)
        s.set('text', gsm(rng, 170))
        s.enc()
    # every relative period
    for i in range(256):
        if ctx.mine(i):
            s = Session(ctx, number(rng), gsm(rng, rng.randrange(60)))
            s.set('validity', period(i))
            s.enc()
    # many parts, of every length
    for i, n in enumerate((4, 6, 7, 9, 10, 11, 15, 16, 17, 31, 32, 64, 99, 127, 128, 129, 200, 255)):
        if not ctx.mine(i):
            continue
        s = Session(ctx, number(rng), gsm(rng, 153 * n - rng.randrange(153), 0))
        s.enc()
        if n < 20:
            s.set('rand', rng.randrange(256))
            s.set('text', u'\u0436' * (67 * n - rng.randrange(67)))
            s.enc()
            s.set('text', octets(rng, 134 * n - rng.randrange(134)).replace('\x1b', 'x'))
            s.set('fmt', 4)
            s.enc()
    for n in range(0, 161):
        if ctx.mine(n):
            s = Session(ctx, number(rng), gsm(rng, n))
            s.set('csca', rng.choice((None, number(rng))))
            s.enc()
            s.set('text', ucs(rng, n % 71))
            s.enc()
    # every length of both numbers
    for i in range(3, 21):
        for plus in ('', '+'):
            if not ctx.mine(i):
                continue
            s = Session(ctx, plus + ''.join([rng.choice('0123456789') for _ in range(i)]), u'a')
            for cp in ('', '+'):
                for n in range(3, 21):
                    s.set('csca', cp + ''.join([rng.choice('0123456789') for _ in range(n)]))
                    s.enc()
            s.set('csca', None)
            s.enc()
    for i in range(ctx.n(120, 2500)):
        s = Session(ctx, number(rng), gsm(rng, rng.randrange(12)))
        for _ in range(rng.choice((1, 1, 2, 3))):
            for _ in range(rng.choice((0, 1, 2, 4, 6))):
                f = rng.choice(('number', 'csca', 'text', 'fmt', 'klass', 'srr', 'pid',
                                'validity', 'ref', 'rand'))
                if f in ('number', 'csca'):
                    v = number(rng)
                    if rng.random() < .1 and f == 'csca':
                        v = None
                elif f == 'text':
                    v = rng.choice((lambda: gsm(rng, rng.choice((5, 160, 161, 340))),
                                    lambda: ucs(rng, rng.choice((5, 70, 71, 140))),
                                    lambda: octets(rng, rng.choice((5, 140, 141, 300)))
                                    if s.obj is not None and s.obj.fmt == 4 else u'abc'))()
                elif f == 'fmt':
                    v = rng.choice((None, 0, 4, 8))
                elif f == 'klass':
                    v = rng.randrange(4)
                elif f == 'srr':
                    v = rng.random() < .5
                elif f == 'pid':
                    v = rng.randrange(256)
                elif f == 'validity':
                    v = validity(rng)
                else:
                    v = rng.choice((None, rng.randrange(256), rng.randrange(100000)))
                s.set(f, v)
            s.enc()
    mixed(ctx, ctx.n(150, 2500))
