# -*- coding: utf-8 -*-
from deliver import *
from messaging.sms.submit import SmsSubmit

NOTHEX = [u' ', u'+', u'-', u'g', u'x', u'G', u'\n', u'.', u'_', u'\x00', u'\u0661', u'\uff11', u'\xb2', u'l', u'O']


def malformed(rng):
    """(pdu text, kind in strict mode or "any")"""
    k = rng.randrange(7)
    octs = deliver(rng)
    if k == 0:
        return hexa(rng, octs)[:-1], 'odd'
    if k == 1:
        s = list(unicode(hexa(rng, octs)))
        for _ in range(rng.choice((1, 1, 2))):
            s[rng.randrange(len(s))] = rng.choice(NOTHEX)
        return u''.join(s), 'not-hex'
    if k == 2:
        # cut inside the header
        top = octs[0] + 1
        top += 3 + (octs[top + 1] + 1) // 2 + 9
        n = rng.randrange(top + 1)
        return hexa(rng, octs[:n]), 'any' if n > octs[0] + 1 and False else 'cut'
    if k == 3:
        m = SmsSubmit('+34600123456', u'hello')
        m.csca = rng.choice((None, '+34600000000'))
        m.request_status = rng.random() < .5
        return m.to_pdu()[0].pdu, 'submit'
    if k == 4:
        octs[octs[0] + 1] = octs[octs[0] + 1] & 0xfc | 1
        return hexa(rng, octs), 'submit'
    if k == 5:
        # anything
        n = rng.choice((1, 2, 5, 12, 20, 30, 60))
        return hexa(rng, [rng.choice((0, 1, 4, 0x40, rng.randrange(256))) for _ in range(n)]), 'any'
    # a well-formed one with one octet changed
    octs[rng.randrange(len(octs))] = rng.randrange(256)
    return hexa(rng, octs), 'any'


def good(rng):
    if rng.random() < .3:
        cut = rng.choice((None, None, None, 'status', 'dt', 'scts'))
        return hexa(rng, report(rng, cut=cut)), 'report'
    return hexa(rng, deliver(rng)), 'deliver'


class Obj(object):
    def __init__(self, ctx, strict, slot=0):
        self.ctx = ctx
        self.slot = slot
        self.strict = strict
        self.m = None

    def assign(self, pdu, kind):
        ctx = self.ctx
        if not self.strict and kind == 'odd':
            kind = 'any'
        new = lambda: SmsDeliver(pdu, strict=self.strict)
        if self.m is None:
            v, e = ctx.run('SmsDeliver', new)
            if e is None:
                self.m = v
            r = decoded(ctx, lambda: v) if e is None else {'ok': False, 'exc': excnames(e)}
        else:
            def put():
                self.m.pdu = pdu
                return self.m
            r = decoded(ctx, put)
        fresh = decoded(ctx, new)
        ctx.emit('assign', pdu=codes(pdu), strict=self.strict, kind=kind, r=r, fresh=fresh, slot=self.slot)

    def look(self):
        if self.m is not None:
            self.ctx.emit('look', slot=self.slot, r=decoded(self.ctx, lambda: self.m))


def gen(ctx):
    rng = ctx.rng
    i = 0
    # every truncation of some messages
    for octs in [deliver(rng) for _ in range(ctx.n(3, 40))]:
        top = octs[0] + 1
        top += 3 + (octs[top + 1] + 1) // 2 + 9
        o = Obj(ctx, True)
        for n in range(len(octs)):
            o.assign(hexa(rng, octs[:n]), 'cut' if n <= top - 1 else 'any')
        o.assign(hexa(rng, octs), 'deliver')
    # every wrong character at every position of some messages
    for octs in [deliver(rng, n=3) for _ in range(ctx.n(2, 12))]:
        s = unicode(hexa(rng, octs))
        o = Obj(ctx, rng.random() < .5)
        for p in range(len(s)):
            c = NOTHEX[(p + ctx.shard) % len(NOTHEX)]
            o.assign(s[:p] + c + s[p + 1:], 'not-hex')
    # every type
    for first in range(256):
        i += 1
        if ctx.mine(i):
            octs = deliver(rng)
            octs[octs[0] + 1] = first
            Obj(ctx, True).assign(hexa(rng, octs), 'submit' if first % 4 == 1 else 'any')
    # odd lengths
    for k in range(ctx.n(20, 200)):
        octs = rng.choice((deliver, report))(rng)
        if k % 4 == 0:
            fmt = rng.choice((4, 8))
            octs = deliver(rng, fmt=fmt, units=units(rng, fmt, rng.randrange(60)) +
                           [rng.choice((0, 0xff, 0xf0, 0x0f, 10, 32))] * rng.randrange(1, 5), header=None)
        s = hexa(rng, octs)
        for strict in (True, False):
            o = Obj(ctx, strict)
            o.assign(s + rng.choice('00ffFF89a\n \x00g' + '123456789abcdefABCDE'), 'odd')
            o.assign(s, 'any')
            o.assign(s[:-1], 'odd')
            o.assign(s + 'F', 'odd')
    o = Obj(ctx, True)
    o.assign('', 'cut')
    o.assign('0', 'odd')
    # histories from the specification: which kinds of PDU, in which order
    for b in ctx.behaviours():
        o = Obj(ctx, rng.random() < .6)
        for k in b:
            o.assign(*of_kind(rng, k))
    # several objects at a time
    for _ in range(ctx.n(25, 600)):
        objs = [Obj(ctx, rng.random() < .5, n + 1) for n in range(rng.randrange(2, 5))]
        for _ in range(rng.randrange(4, 14)):
            k = rng.choice(objs)
            r = rng.random()
            if r < .25:
                s = hexa(rng, rng.choice((deliver, report))(rng))
                k.assign(s + 'F' if r < .2 else s[:-1], 'odd')
            else:
                k.assign(*(good(rng) if r < .75 else malformed(rng)))
            rng.choice(objs).look()
        for k in objs:
            k.look()
    # long random histories
    for _ in range(ctx.n(25, 800)):
        o = Obj(ctx, rng.random() < .5)
        for _ in range(rng.randrange(2, 16)):
            o.assign(*(good(rng) if rng.random() < .6 else malformed(rng)))


def of_kind(rng, k):
    if k == 'odd':
        return hexa(rng, deliver(rng))[:-1], 'odd'
    if k == 'nothex':
        return hexa(rng, deliver(rng))[:-1] + 'g', 'not-hex'
    if k == 'submit':
        octs = deliver(rng)
        octs[octs[0] + 1] = octs[octs[0] + 1] & 0xfc | 1
        return hexa(rng, octs), 'submit'
    if k == 'cut':
        octs = deliver(rng)
        return hexa(rng, octs[:octs[0] + 2 + rng.randrange(9)]), 'cut'
    if k == 'report':
        return hexa(rng, report(rng)), 'report'
    if k == 'short-report':
        return hexa(rng, report(rng, cut='status')), 'report'
    if k == 'plain':
        return hexa(rng, deliver(rng, header=None)), 'deliver'
    if k == 'concat':
        return hexa(rng, deliver(rng, header=element(rng, 'c8'))), 'deliver'
    if k == 'ports':
        return hexa(rng, deliver(rng, header=element(rng, 'p16'))), 'deliver'
    if k == 'no-smsc':
        return hexa(rng, deliver(rng, smsc=[0], header=None)), 'deliver'
    if k == 'bad-date':
        return hexa(rng, deliver(rng, stamp=[0] * 7)), 'any'
    raise ValueError(k)
