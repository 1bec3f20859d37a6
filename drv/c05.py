# -*- coding: utf-8 -*-
from datetime import datetime, timedelta
from submit import Session, relative, absolute, validity_record, gsm
import messaging.utils as U
from common import P, result

FULL = 63 * 7 * 1440


def rel1(td):
    try:
        v = U.timedelta_to_relative_validity(td)
        return v if isinstance(v, int) and 0 <= v < 256 else -3
    except ValueError:
        return -1
    except Exception, e:
        if type(e).__name__ == 'Dropped':
            raise
        return -2


def rel(ctx, td):
    v = validity_record(td)
    ctx.emit('rel', s=v['s'], us=v['us'],
             r=ctx.call('relative', U.timedelta_to_relative_validity, td))


def abs_(ctx, d):
    v = validity_record(d)
    ctx.emit('abs', d=v['d'], off=v['off'],
             r=ctx.call('absolute', lambda x: [int(y) for y in
                                               U.datetime_to_absolute_validity(x)], d))


def zone(ctx, s, m):
    def f():
        o = U.FixedOffset.from_timezone(s, 'name').utcoffset(None)
        assert o.microseconds == 0 and o.seconds % 60 == 0
        return o.days * 1440 + o.seconds // 60
    ctx.emit('zone', s=s, min=m, r=ctx.call('zone', f))
    ctx.emit('zone', s=s, min=0, r=ctx.call('dst', lambda: U.FixedOffset.from_timezone(s, 'name').dst(None).days))


def gen(ctx):
    rng = ctx.rng
    # every whole minute of the whole range and beyond (quick: the first two days and a stride)
    spans = range(0, FULL + 4000, 720)
    for i, a in enumerate(spans):
        if not ctx.mine(i):
            continue
        if ctx.quick and i > 66 and i % 12 > 1:
            continue
        rs = ctx.run('relative', lambda: [rel1(timedelta(minutes=a + k)) for k in range(720)])[0]
        ctx.emit('relblock', **{'from': a, 'rs': rs or [-9]})
    # both sides of every representable period, to the second and microsecond
    per = [(v + 1) * 300 for v in range(144)] + [43200 + (v - 143) * 1800 for v in range(144, 168)] + \
          [(v - 166) * 86400 for v in range(168, 197)] + [(v - 192) * 604800 for v in range(197, 256)]
    for i, p in enumerate(per):
        if ctx.mine(i):
            for d in (-1, 0, 1):
                rel(ctx, timedelta(seconds=p + d))
            rel(ctx, timedelta(seconds=p - 1, microseconds=999999))
            rel(ctx, timedelta(seconds=p, microseconds=1))
            s = Session(ctx, '123', u'x')
            for d in (-1, 0, 1):
                s.set('validity', timedelta(seconds=p + d))
                s.enc()
    if ctx.mine(0):
        for td in (timedelta(0), timedelta(seconds=299, microseconds=999999), timedelta(-1),
                   timedelta(-1, 86000), timedelta(minutes=4), timedelta(weeks=63, microseconds=1),
                   timedelta(weeks=64), timedelta(days=10000), timedelta(days=-300)):
            rel(ctx, td)
            s = Session(ctx, '123', u'x')
            s.set('validity', td)
            s.enc()
    # every zone, written both ways
    for q in range(-79, 80):
        if ctx.mine(q):
            zone(ctx, '%s%02d%02d' % ('-' if q < 0 else '+', abs(q) * 15 // 60, abs(q) * 15 % 60), q * 15)
            for _ in range(ctx.n(1, 12)):
                d = absolute(rng).replace(tzinfo=U.FixedOffset(q * 15, 'x'))
                abs_(ctx, d)
                s = Session(ctx, '123', u'x')
                s.set('validity', d)
                s.enc()
    if ctx.mine(3):
        zone(ctx, '', 0)
        zone(ctx, '-0000', 0)
    # every value of each field
    for n in range(100):
        if ctx.mine(n):
            y = 1970 + n if n < 99 else 2069
            for d in (datetime(y, n % 12 + 1, n % 28 + 1, n % 24, n % 60, (n * 7) % 60),):
                abs_(ctx, d)
                s = Session(ctx, '123', u'x')
                s.set('validity', d)
                s.enc()
    for i in range(ctx.n(80, 3000)):
        rel(ctx, relative(rng))
        abs_(ctx, absolute(rng))
        s = Session(ctx, '123', gsm(rng, rng.choice((4, 4, 170))))
        s.set('validity', rng.choice((relative, absolute))(rng))
        s.enc()
    # the same moment, read on different clocks, and the same clock in different zones
    for i in range(ctx.n(6, 200)):
        s = Session(ctx, '123', u'x')
        d = absolute(rng)
        z = d.replace(tzinfo=d.tzinfo or U.FixedOffset(0, 'utc'), year=max(1971, min(2068, d.year)))
        for _ in range(4):
            o = U.FixedOffset(15 * rng.choice((0, 1, -1, 4, -4, 56, -48, rng.randrange(-79, 80))), 'zone')
            z = z.astimezone(o) if rng.random() < .7 else z.replace(tzinfo=o, year=max(1971, min(2068, z.year)))
            abs_(ctx, z)
            s.set('validity', z)
            s.enc()
