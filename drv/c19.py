# -*- coding: utf-8 -*-
from world import *
import c17
import c18
import c20


class Session(object):
    def __init__(self, ctx):
        self.ctx, self.rng = ctx, ctx.rng
        self.w = w = World(ctx)
        w.nofiles()
        self.m = w.msg()
        self.bad = None
        if self.rng.random() < .7:
            w.sethdr(self.m, 'To', '+34231342234/TYPE=PLMN')

    def newpage(self):
        w, rng = self.w, self.rng
        p = w.page()
        k = rng.randrange(1, 8)
        if k & 1:
            w.media('image', p, w.file(data(rng, rng.choice((1, 20, 130)))), *c20.times(rng, 4000))
        if k & 2:
            w.media('audio', p, w.file(data(rng, rng.choice((0, 7, 30)))))
        if k & 4:
            w.text(p, c20.xmltext(rng), *c20.times(rng, 4000))
        return p

    def do(self, x):
        w, rng, m = self.w, self.rng, self.m
        if x == 'P':
            w.addpage(m, self.newpage())
        elif x == 'D':
            w.addpart(m, c18.newpart(self.ctx, w, rng.choice((None, 3))))
        elif x == 'H':
            n = rng.choice(('To', 'Cc', 'Bcc', 'From', 'Subject', 'X-Foo', 'Message-Type', 'Message-Size'))
            w.sethdr(m, n, '' if n == 'From' and rng.random() < .5 else c17.value(rng, n))
        elif x == 'X':
            n = rng.choice(('X-Mms-Message-Type', 'X-Mms-Transaction-Id', 'X-Mms-Version'))
            w.sethdr(m, n, c17.value(rng, n))
        elif x == 'C':
            w.setct(m, media(rng), params(rng, rng.choice((0, 1, 2))))
        elif x == 'O':
            w.delhdr(m, rng.choice(('To', 'Message-Type', 'MMS-Version', 'X-Mms-Version', 'From', 'Transaction-Id')))
        elif x == 'S':
            w.size(m, rng.randint(1, 999), rng.randint(1, 999))
        elif x == 'M':
            if w.pages:
                p = rng.randint(1, len(w.pages))
                if rng.random() < .5:
                    w.text(p, c20.xmltext(rng), *c20.times(rng, 4000))
                else:
                    w.duration(p, rng.randint(1, 9000))
        elif x == 'B':
            n = rng.choice(('Subject', 'X-Bad', 'Response-Text', 'Message-ID'))
            w.sethdr(m, n, 'a' + chr(0) + 'b')
            self.bad = n
        elif x == 'F':
            w.delhdr(m, self.bad)
        elif x == 'e':
            w.enc(m)
        elif x == 's':
            w.smil(m)
        elif x == 'l':
            w.list(m)
        elif x[0] == 'w':
            w.tofile(m, int(x[1]))
        elif x[0] == 'r':
            w.fromfile(int(x[1]))
        elif x[0] == 'a':
            self.m = w.adopt(int(x[1])) or m
        elif x == 't':
            w.touch()
        if x in ('e', 's', 'l') or x[0] in 'wra':
            w.lookmsg(self.m)


def walks(rng):
    """sessions when there are none of the specification's"""
    while 1:
        ops = [rng.choice('PD')]
        for _ in range(rng.randint(2, 14)):
            ops.append(rng.choice('PDHXCOSMeesl') if rng.random() < .8 else rng.choice(('w1', 'w2')))
            if ops[-1][0] == 'w' and rng.random() < .5:
                ops.append('r' + ops[-1][1])
        yield ops


def gen(ctx):
    rng = ctx.rng
    for ops in ctx.behaviours() or walks(rng):
        s = Session(ctx)
        for x in ops:
            if x in 'esl' or x[0] == 'w':
                if rng.random() < .15:
                    s.w.away(lambda: s.do(x))
            s.do(x)
        # everything again
        for x in rng.sample(['e', 's', 'l', 'w1', 'e'], 3):
            s.do(x)
