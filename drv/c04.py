# -*- coding: utf-8 -*-
from datetime import timedelta
from messaging.utils import FixedOffset
from submit import Session, number, gsm, ucs, octets, edited, validity, relative, absolute, setting

LATIN = u"abcdefgh 0123456789"


def text_of(rng, label):
    if label == 'gsm1':
        return rng.choice((lambda: gsm(rng, rng.randrange(0, 30)), lambda: gsm(rng, 160),
                           lambda: u''.join([rng.choice(LATIN) for _ in range(rng.randrange(20))])))()
    if label == 'gsmN':
        n = rng.choice((161, 170, 307))
        return rng.choice((lambda: gsm(rng, n),
                           lambda: u''.join([rng.choice(LATIN) for _ in range(n)])))()
    if label == 'ucs1':
        return ucs(rng, rng.choice((1, 5, 70)))
    return ucs(rng, rng.choice((71, 135)))


def value(rng, f, v):
    if f == 'text':
        return text_of(rng, v)
    if f == 'val':
        return {'none': lambda: None, 'relative': lambda: relative(rng),
                'absolute': lambda: absolute(rng),
                'out-of-range': lambda: rng.choice((timedelta(0), timedelta(weeks=64),
                                                    timedelta(seconds=299)))}[v]()
    if f in ('fmt', 'klass', 'ref', 'rand') and v == -1:
        return None
    if f in ('ref', 'rand'):
        return rng.choice((0, 1, 2, 5, 255, 256, 300, -1, -2, -200, 2 ** 31 + 5, rng.randrange(70000)))
    if f == 'klass':
        return rng.randrange(4)
    if f == 'fmt' and v == 5:
        return rng.choice((1, 2, 5, 12, 16))
    return v


BAD = {'number': ['x', '12', 'abc', '1' * 21], 'csca': ['x', '12', 'abc', '+' * 5],
       'klass': [4, 'x', None, -1], 'val': [3, 'day', 1.5, []]}


def step(rng, s, op):
    if s.obj is None:
        return
    if op[0] == 'set':
        s.set('validity' if op[1] == 'val' else op[1], value(rng, op[1], op[2]))
    elif op[0] == 'bad':
        s.bad('validity' if op[1] == 'val' else op[1], rng.choice(BAD[op[1]]))
    else:
        s.enc()


def gen(ctx):
    rng = ctx.rng
    # behaviours of the specification; long ones run interleaved
    slots = []
    for b in ctx.behaviours():
        s = Session(ctx, number(rng), text_of(rng, 'gsm1'), slot=len(slots) + 1)
        if len(b) <= 4:
            for op in b:
                step(rng, s, op)
            if b[-1][0] != 'enc' and s.obj is not None:
                s.enc()
            continue
        slots.append((s, list(b) + [['enc', '', 0], ['enc', '', 0]]))
        if len(slots) < 3:
            continue
        while slots:
            k = rng.randrange(len(slots))
            s, ops = slots[k]
            if ops:
                step(rng, s, ops.pop(0))
            else:
                del slots[k]
        slots = []
    # long runs of automatic references, past the end of the pool
    for k in range(ctx.n(2, 6)):
        s = Session(ctx, number(rng), octets(rng, 141), slot=1)
        s.set('fmt', 4)
        if k % 2:
            s.set('ref', 7)
        short = gsm(rng, 9)
        for i in range(ctx.n(270, 800)):
            r = rng.random()
            if k % 2 == 0 and r < .3:
                # one draw for the message reference only
                s.set('text', short)
                s.set('ref', None)
                s.enc()
                s.set('text', octets(rng, 141))
            elif r < .04:
                s.set('ref', rng.choice((None, 5)))
            elif r < .06:
                s.set('rand', 77)
                s.enc()
                s.set('rand', None)
            elif r < .07:
                s.set('fmt', 5)
                s.enc()
                s.set('fmt', 4)
            s.enc()
    # nothing but draws: one for each encoding, or two
    for k in range(ctx.n(2, 4)):
        if not ctx.mine(k):
            continue
        s = Session(ctx, number(rng), octets(rng, 141), slot=1)
        s.set('fmt', 4)
        s.set('ref', 7)
        for i in range(ctx.n(516, 780) // (1 + k % 2)):
            if k % 2:
                s.set('ref', None)
            s.enc()
    # an encoding that fails, and what made it fail taken back
    causes = [('validity', timedelta(0), None), ('validity', timedelta(weeks=64), timedelta(1)),
              ('fmt', 5, None), ('fmt', 12, 8), ('fmt', 0, None), ('text', u'\u0436' * 67 * 256, u'\u0436')]
    for i in range(ctx.n(4, 60)):
        for j, (f, v, back) in enumerate(causes):
            if f == 'text' and (i or not ctx.mine(5)):
                continue
            for t in ('gsm1', 'ucs1', 'gsmN', 'ucsN') if f != 'text' else ('ucs1',):
                s = Session(ctx, number(rng), text_of(rng, t), slot=1)
                if rng.random() < .3:
                    s.enc()
                if rng.random() < .3:
                    s.set('klass', rng.randrange(4))
                s.set(f, v)
                s.enc()
                if rng.random() < .5:
                    s.set('text', text_of(rng, rng.choice(('gsm1', 'ucs1', 'ucsN'))))
                    s.enc()
                g, w = rng.choice((('text', text_of(rng, 'ucs1' if t < 'h' else 'gsm1')),
                                   ('klass', 2), ('number', number(rng)), ('csca', number(rng)), ('srr', True),
                                   ('pid', 9), ('ref', 5), ('rand', 6)))
                for h, x in rng.sample([(f, back), (g, w)], 2):
                    s.set(h, x)
                s.enc()
                s.set('text', text_of(rng, 'ucs1' if t < 'h' else 'gsm1'))
                s.set('fmt', None)
                s.enc()
    # the same moment, read on different clocks
    for _ in range(ctx.n(4, 60)):
        sess = [Session(ctx, number(rng), u'x', slot=i + 1) for i in range(2)]
        d = absolute(rng)
        z = d.replace(tzinfo=d.tzinfo or FixedOffset(0, 'utc'), year=max(1971, min(2068, d.year)))
        for _ in range(3):
            for s in sess:
                z = z.astimezone(FixedOffset(15 * rng.choice((0, 1, -1, 4, -4, 56, -48, rng.randrange(-79, 80))), 'zone'))
                s.set('validity', rng.choice((z, z, z.replace(tzinfo=None), z + timedelta(0, 0, 1))))
                s.enc()
    # the alphabet changes with one character in the middle
    for _ in range(ctx.n(12, 200)):
        n = rng.choice((3, 45, 60, 160, 300))
        s = Session(ctx, number(rng), gsm(rng, n, 0), slot=1)
        for k in range(4):
            s.enc()
            i = rng.choice((0, n - 1, n // 2, rng.randrange(n)))
            t = s.obj.text
            s.set('text', t[:i] + (u'\u0436' if k % 2 == 0 else u'z') + t[i + 1:])
            if k == 1:
                s.set('text', gsm(rng, n, 0))
        s.enc()
    # every setting after an encoding
    fields = ('number', 'csca', 'text', 'fmt', 'klass', 'srr', 'pid', 'validity', 'ref', 'rand')
    for _ in range(ctx.n(60, 1500)):
        sess = [Session(ctx, number(rng), gsm(rng, 20), slot=i + 1) for i in range(3)]
        for _ in range(rng.randrange(3, 25)):
            s = rng.choice(sess)
            if s.obj is None:
                continue
            f = rng.choice(fields)
            v = {'number': lambda: number(rng), 'csca': lambda: rng.choice((None, number(rng))),
                 'text': lambda: text_of(rng, rng.choice(('gsm1', 'gsmN', 'ucs1', 'ucsN')))
                 if rng.random() < .5 else edited(rng, s.obj.text, rng.random() < .5),
                 'fmt': lambda: rng.choice((None, None, 0, 4, 8, 7)), 'klass': lambda: rng.randrange(4),
                 'srr': lambda: rng.random() < .5, 'pid': lambda: rng.randrange(256),
                 'validity': lambda: rng.choice((validity(rng), timedelta(1, 1), timedelta(0))),
                 'ref': lambda: rng.choice((None, rng.randrange(-300, 600))),
                 'rand': lambda: rng.choice((None, rng.randrange(-300, 600)))}[f]()
            s.set(f, v)
            if rng.random() < .6:
                s.enc()
                if rng.random() < .5:
                    s.enc()
