# -*- coding: utf-8 -*-
from datetime import datetime, timedelta, date, time
from submit import Session, number, gsm, ucs, validity, relative, absolute, ATTR
from messaging.sms.submit import SmsSubmit

BADNUM = ['1', '12', '+', '+1', '+12', '++123', '12+34', '123+', '1' * 21, '+' + '1' * 21,
          '1' * 30, 'abc', '123a', 'a123', '12 34', ' 1234', '1234 ', '+12 345', '123-456',
          '12.34', '+ 123', '1234\n', '\n1234', '12\t34', '#123', '*100#', '123\x00', '-123',
          '0x123', u'\u0661\u0662\u0663\u0664', u'123\u0664', u'+\uff11\uff12\uff13\uff14', '(123)4',
          '+123\n', '1234+', '1e10', '123,4', '12345678901234567890\n', '1234\r', '1234;']
BADKLASS = [-1, 4, 5, 100, '0', '1', 1.0, 2.5, [], None, (1,), -2, 255, u'2', {}]
BADVALIDITY = [5, 'day', 300, 1.5, [], (1, 2), date(2010, 1, 1), {}, time(1, 2), '5', -1, 0, '',
               u'', False]
FMTS = [0, 4, 8]


def gen(ctx):
    rng = ctx.rng
    i = 0
    for b in BADNUM + ['']:
        i += 1
        if ctx.mine(i) and b:
            Session(ctx, b, u'a')
            s = Session(ctx, number(rng), u'abc')
            if rng.random() < .7:
                s.set('csca', number(rng))
            s.bad('number', b)
            s.enc()
            s.bad('csca', b)
            s.enc()
    for f, bad in (('klass', BADKLASS), ('validity', BADVALIDITY)):
        for b in bad:
            i += 1
            if ctx.mine(i):
                s = Session(ctx, number(rng), u'abc')
                s.bad(f, b)
                s.enc()
                s.set(f, rng.randrange(4) if f == 'klass' else relative(rng))
                s.bad(f, b)
                s.enc()
                if f == 'validity':
                    s.set(f, absolute(rng))
                    s.bad(f, b)
                    s.enc()
    for n in range(3, 21):
        i += 1
        if ctx.mine(i):
            for p in ('', '+'):
                s = Session(ctx, p + ''.join([rng.choice('0123456789') for _ in range(n)]), u'abc')
                s.set('csca', p + ''.join([rng.choice('0123456789') for _ in range(n)]))
                s.set('number', unicode(p + '9' * n))
                s.enc()
    # unknown alphabets and validities out of range, in histories
    for fmt in list(range(1, 20)) + [32, 64, 128, 200, 255]:
        i += 1
        if ctx.mine(i) and fmt not in FMTS:
            s = Session(ctx, number(rng), rng.choice((u'abc', gsm(rng, 200), ucs(rng, 80))))
            s.set('ref', 5)
            if rng.random() < .5:
                s.enc()
            s.set('fmt', fmt)
            s.enc()
            s.set('fmt', rng.choice((None, 8)))
            s.enc()
    for _ in range(ctx.n(120, 2500)):
        s = Session(ctx, number(rng), rng.choice((u'abc', gsm(rng, 200), ucs(rng, 80), u'')))
        s.set('rand', rng.randrange(256))
        for _ in range(rng.randrange(1, 9)):
            k = rng.randrange(9)
            if k == 0:
                s.bad(rng.choice(('number', 'csca')), rng.choice(BADNUM))
            elif k == 1:
                s.bad('klass', rng.choice(BADKLASS))
            elif k == 2:
                s.bad('validity', rng.choice(BADVALIDITY))
            elif k == 3:
                s.set('validity', rng.choice((timedelta(0), timedelta(minutes=4, seconds=59),
                                              timedelta(weeks=63, seconds=1), timedelta(-1),
                                              timedelta(weeks=64))))
            elif k == 4:
                s.set('fmt', rng.choice((1, 2, 3, 5, 7, 9, 12, 16)))
            elif k == 5:
                s.set('validity', validity(rng))
            elif k == 6:
                s.set('fmt', rng.choice((None, None, 0, 8)))
            elif k == 7:
                s.set('klass', rng.randrange(4))
            else:
                s.set('csca', rng.choice((None, number(rng))))
            if rng.random() < .5:
                s.enc()
        s.set('validity', rng.choice((None, relative(rng))))
        s.set('fmt', None)
        s.enc()
