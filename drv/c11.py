# -*- coding: utf-8 -*-
from common import codes, P, excnames
from submit import either, gsm, ucs, octets, validity, number as numbers
from deliver import stamp, semi, smsc, hexa
from messaging.sms.submit import SmsSubmit
from messaging.sms.deliver import SmsDeliver


def text(rng, parts):
    """(text, alphabet) of that many parts"""
    k = rng.randrange(4)
    if k == 0:
        n = rng.randrange(161) if parts == 1 else rng.randrange(153 * parts - 152 + 10, 153 * parts - 8)
        return gsm(rng, n, rng.choice((0, .05, .3))), None
    if k == 1:
        n = rng.randrange(1, 71) if parts == 1 else rng.randrange(67 * parts - 66 + 5, 67 * parts + 1)
        return ucs(rng, n).replace(u'\x1b', u'x'), None
    if k == 2:
        n = rng.randrange(141) if parts == 1 else rng.randrange(134 * parts - 133 + 8, 134 * parts + 1)
        return octets(rng, n).replace('\x1b', 'x'), 4
    n = rng.randrange(1, 71) if parts == 1 else rng.randrange(67 * parts - 66 + 5, 67 * parts + 1)
    return gsm(rng, n, 0), 8


def edges(rng):
    """a text whose parts end around escapes, of about a number of full parts"""
    n = rng.choice((2, 2, 3, 4))
    total = 153 * n + rng.choice((-2, -1, 0, 0, 1, 2))
    t, at, septets = [], 0, 0
    while septets < total:
        at = septets % 153
        if total - septets > 1 and (at > 148 and rng.random() < .7 or rng.random() < .1):
            t.append(rng.choice(u'\u20ac[]{}^|~\\'))
            septets += 2
        else:
            t.append(rng.choice(u'abcdefgh \xe9'))
            septets += 1
    return u''.join(t), None


class World(object):
    def __init__(self, ctx):
        self.ctx, self.rng = ctx, ctx.rng
        self.objs = {}
        self.mids = self.pids = 0
        self.packets = {}        # (mid, part) -> pids
        self.deliver = {}
        self.reused = None
        ctx.emit('new', x=0)

    def sender(self, name):
        if name not in self.objs:
            plus = self.rng.random() < .7
            num = numbers(self.rng, plus)
            while num in [n for _, n in self.objs.values()]:
                num = numbers(self.rng, plus)
            self.objs[name] = [None, num]
        return self.objs[name]

    def send(self, name, t, fmt, rand=None, fresh=False):
        """a message of a sender; the number of its parts"""
        ctx = self.ctx
        ent = self.sender(name)

        def go():
            if ent[0] is None or fresh:
                ent[0] = SmsSubmit('+34600000000', either(self.rng, t))
            m = ent[0]
            m.text = t
            m.fmt = fmt
            m.rand_id = rand
            if self.rng.random() < .3:
                m.request_status = self.rng.random() < .5
                m.validity = validity(self.rng)
                m.pid = self.rng.randrange(256)
                m.csca = self.rng.choice((None, numbers(self.rng)))
                if self.rng.random() < .5:
                    m.klass = self.rng.randrange(4)
            return m.to_pdu()
        ps, e = ctx.run('to_pdu', go)
        self.mids += 1
        pdus = [] if e is not None else [p.pdu for p in ps]
        ctx.emit('send', mid=self.mids, sender=codes(ent[1]), text=codes(t), ok=e is None,
                 pdus=[codes(p) for p in pdus])
        for i, p in enumerate(pdus):
            self.relay(self.mids, i + 1, p, ent[1])
        return self.mids, len(pdus)

    def relay(self, mid, part, pdu, sender):
        rng = self.rng
        o = [int(pdu[i:i + 2], 16) for i in range(0, len(pdu), 2)]
        i = o[0] + 1
        first = o[i]
        j = i + 4 + (o[i + 2] + 1) // 2
        vp = {0: 0, 2: 1}.get(first >> 3 & 3, 7)
        d = [int(c) for c in sender.replace('+', '')]
        deliver = smsc(rng, rng.choice((0, 11, 12))) + \
            [(first & 0x40) | rng.choice((0, 4, 0x24))] + \
            [len(d), 0x91 if '+' in sender else 0x81] + semi(d) + o[j:j + 2] + stamp(rng) + o[j + 2 + vp:]
        self.pids += 1
        s = hexa(rng, deliver)
        self.ctx.emit('relay', pid=self.pids, mid=mid, part=part, pdu=codes(s))
        self.packets[mid, part] = (self.pids, s)

    def arrive(self, mid, part):
        if (mid, part) not in self.packets:
            return
        pid, s = self.packets[mid, part]
        ctx = self.ctx

        def go():
            if self.reused is not None and self.rng.random() < .4:
                m = self.reused
                m.pdu = s
            else:
                m = self.reused = SmsDeliver(s)
            d = m.data
            return dict((k, P(d.get(k))) for k in ('number', 'text', 'ref', 'cnt', 'seq'))
        v, e = ctx.run('SmsDeliver', go)
        ctx.emit('arrive', pid=pid, r={'ok': True, 'v': v} if e is None else
                 {'ok': False, 'exc': excnames(e)})


PLAN = {1: ('a', 2), 2: ('a', 2), 3: ('b', 2), 4: ('a', 1)}


def gen(ctx):
    rng = ctx.rng
    for b in ctx.behaviours():
        w = World(ctx)
        mid = {}
        explicit = rng.random() < .4
        base = rng.randrange(256)
        for op, m, p in b:
            if op == 'send':
                name, n = PLAN[m]
                t, fmt = text(rng, n)
                mid[m], _ = w.send(name, t, fmt, base + m * 37 if explicit else None)
            else:
                w.arrive(mid[m], p)
    # larger worlds
    for _ in range(ctx.n(14, 400)):
        w = World(ctx)
        flight = []
        explicit = rng.random() < .4
        refs = {}
        for _ in range(rng.randrange(2, 7)):
            name = rng.choice('abc')
            n = rng.choice((1, 2, 2, 3, 4, 6, 12))
            t, fmt = edges(rng) if rng.random() < .3 else text(rng, n)
            rand = None
            if explicit:
                rand = rng.randrange(100000)
                while (name, rand % 256) in refs:
                    rand += 1
                refs[name, rand % 256] = 1
            mid, k = w.send(name, t, fmt, rand, explicit and rng.random() < .5)
            flight += [(mid, p) for p in range(1, k + 1)] * rng.choice((1, 1, 2))
            while flight and rng.random() < .6:
                w.arrive(*flight.pop(rng.randrange(len(flight))))
        while flight:
            w.arrive(*flight.pop(rng.randrange(len(flight))))
    # the longest messages
    if ctx.mine(0) or not ctx.quick:
        w = World(ctx)
        for t, fmt in ((gsm(rng, 153 * 255, 0), None), (octets(rng, 134 * 40).replace('\x1b', 'x'), 4),
                       (u'\u0436' * (67 * 30), None)):
            mid, k = w.send('a', t, fmt)
            ps = range(1, k + 1)
            rng.shuffle(ps)
            for p in ps:
                w.arrive(mid, p)
    # every reference of a sender, and the parts that arrive between
    if ctx.mine(1):
        w = World(ctx)
        refs = list(range(256))
        rng.shuffle(refs)
        sent = []
        for r in refs:
            t = ucs(rng, 68 + rng.randrange(10)).replace(u'\x1b', u'x')
            sent.append(w.send('a', t + u'\u0436' * (71 - min(71, len(t))), None,
                               r + 256 * rng.choice((0, 0, 1, 7)))[0])
        for mid in sent:
            w.arrive(mid, 1)
        for mid in rng.sample(sent, 12):
            w.arrive(mid, 2)
    # one character: every character of the alphabet, at each end of a part
    from submit import GSMB, GSMX
    for i, ch in enumerate(GSMB + GSMX):
        if ctx.mine(i):
            w = World(ctx)
            pad = gsm(rng, 152, 0)
            for t in (ch, pad + ch + ch + u'a' * 20, pad[1:] + ch + ch + u'b' * 20):
                mid, k = w.send('a', t, None)
                for p in range(k, 0, -1):
                    w.arrive(mid, p)
