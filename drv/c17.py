# -*- coding: utf-8 -*-
from world import *

STR = ['Bcc', 'Cc', 'To', 'Subject', 'Response-Text']
TYPES = ['m-send-req', 'm-send-conf', 'm-notification-ind', 'm-notifyresp-ind', 'm-retrieve-conf',
         'm-acknowledge-ind', 'm-delivery-ind']
STATUS = ['Expired', 'Retrieved', 'Rejected', 'Deferred', 'Unrecognised']
APP = ['X-Mms-Foo', 'X-Foo', 'X-Mms-Bar', 'Foo', 'X', 'User-Agent', 'Accept', 'Content-ID', 'to', 'X-Mms-To',
       'X-Mms-From', 'X-Mms-Subject', 'date']


def value(rng, name):
    if name in STR:
        return rng.choice((estring(rng), '+34231342234/TYPE=PLMN', 'a@b.example'))
    if name == 'From':
        return rng.choice(('', estring(rng), '+4478/TYPE=PLMN', 'x' * length(rng) or 'x'))
    if name in ('Message-ID', 'Transaction-Id', 'X-Mms-Transaction-Id'):
        return rng.choice((text(rng), token(rng), '', str(rng.randrange(10 ** 6))))
    if name in ('Message-Type', 'X-Mms-Message-Type'):
        return rng.choice(TYPES + ['m-send-req'] * 4)
    if name in ('MMS-Version', 'X-Mms-Version'):
        return rng.choice(('1.0', '1.1', '1.2', '1.3', '1.4', '2.0', '7.14', '1', '8', '1.15', '0.9',
                           '%d.%d' % (rng.randint(1, 7), rng.randint(0, 14))))
    if name == 'Message-Size':
        return number(rng)
    if name == 'Status':
        return rng.choice(STATUS)
    return text(rng, high=False)


NAMES = STR + ['From', 'Message-ID', 'Transaction-Id', 'Message-Type', 'MMS-Version', 'Message-Size', 'Status',
               'X-Mms-Transaction-Id', 'X-Mms-Message-Type', 'X-Mms-Version']


def one(ctx, sets, drops=(), ct=None, page=False):
    w = World(ctx)
    m = w.msg()
    for d in drops:
        w.delhdr(m, d)
    for n, v in sets:
        w.sethdr(m, n, v)
    if ct:
        w.setct(m, *ct)
    if page:
        w.addpage(m, w.page())
    w.enc(m)


def gen(ctx):
    rng = ctx.rng
    jobs = []
    # destinations and types
    for t in TYPES:
        for k in range(8):
            dest = [(n, '+123') for i, n in enumerate(('To', 'Cc', 'Bcc')) if k >> i & 1]
            for x in ('Message-Type', 'X-Mms-Message-Type'):
                jobs.append(([(x, t)] + dest, (), None, k == 3))
    for k in range(8):
        for j in range(8):
            drops = [n for i, n in enumerate(('Message-Type', 'Transaction-Id', 'MMS-Version')) if k >> i & 1]
            sets = [s for i, s in enumerate((('X-Mms-Message-Type', 'm-notifyresp-ind'),
                                             ('X-Mms-Transaction-Id', 'abc'), ('X-Mms-Version', '1.2')))
                    if j >> i & 1]
            jobs.append((sets, drops, None, False))
            jobs.append((sets + [('To', 'x')], drops, None, False))
    for s in STATUS:
        jobs.append(([('Message-Type', 'm-notifyresp-ind'), ('Status', s)], (), None, False))
    for n in NAMES:
        jobs.append(([(n, value(rng, n))], (), None, False))
    for n in range(0, 260, 3) + [127, 128, 29, 30, 31, 32, 300, 1000]:
        jobs.append(([('From', 'x' * n), ('Subject', 'y' * (n + 1))], (), None, False))
    for n in (0, 1, 127, 128, 255, 256, 65535, 65536, 2 ** 24, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32,
              2 ** 239, 2 ** 240 - 1):
        jobs.append(([('Message-Size', n)], (), None, False))
    for i, j in enumerate(jobs):
        if ctx.mine(i):
            one(ctx, *j)
    for _ in range(ctx.n(500, 12000)):
        names = rng.sample(NAMES, rng.choice((0, 1, 2, 3, 5, 8, len(NAMES))))
        sets = [(n, value(rng, n)) for n in names]
        for _ in range(rng.choice((0, 0, 1, 2, 4))):
            n = rng.choice(APP) if rng.random() < .6 else token(rng)
            if n not in ('Date', 'Content-Type') and n not in MMSNAMES:
                sets.append((n, text(rng, high=rng.random() < .5)))
        rng.shuffle(sets)
        drops = [n for n in ('Message-Type', 'Transaction-Id', 'MMS-Version') if rng.random() < .1]
        ct = None
        if rng.random() < .5:
            ct = (media(rng), params(rng, rng.choice((0, 1, 2, 3))))
        one(ctx, sets, drops, ct, rng.random() < .2)


MMSNAMES = '''Bcc Cc Content-Location Content-Type Date Delivery-Report Delivery-Time Expiry From
Message-Class Message-ID Message-Type MMS-Version Message-Size Priority Read-Reply Report-Allowed
Response-Status Response-Text Sender-Visibility Status Subject To Transaction-Id'''.split()
