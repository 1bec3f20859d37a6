# -*- coding: utf-8 -*-
from common import codes, P, excnames
from c22 import push, block, notification, message
from wsp import result
from deliver import smsc, semi, stamp, hexa, digits, element, userdata, capacity, DCS_OF
from world import look_message, same
from messaging.sms.deliver import SmsDeliver
from messaging.sms.wap import (is_a_wap_push_notification, extract_push_notification,
                               is_mms_notification)


class World(object):
    def __init__(self, ctx):
        self.ctx, self.rng = ctx, ctx.rng
        self.mids = self.pids = 0
        self.senders = {}
        self.refs = {}
        self.packets = {}
        self.got = {}
        self.reused = None
        ctx.emit('new', x=0)

    def sender(self, name):
        """digits and type of number"""
        if name not in self.senders:
            while 1:
                s = (digits(self.rng, self.rng.randrange(3, 15)), self.rng.choice((0x91, 0x81, 0x85, 0xa1)))
                if s not in self.senders.values():
                    break
            self.senders[name] = s
        return self.senders[name]

    def send(self, name, data, n=None, bare=False):
        """cut into n parts, and some that carry nothing of it but their headers"""
        rng = self.rng
        d, toa = self.sender(name)
        extra = [element(rng, 'x') for _ in range(rng.choice((0, 0, 0, 1)))]
        ports = rng.choice((16, 16, 16, 8))
        dest = rng.choice((2948, 2948, 2948, 2805, 0, 65535, rng.randrange(65536))) if ports == 16 \
            else rng.choice((rng.randrange(240, 256), rng.randrange(256)))
        wide = rng.random() < .5
        alone = rng.random() < .7
        room = 140 - 1 - (6 if ports == 16 else 4) - (6 if wide else 5) - sum(map(len, extra))
        least = max(1, -(-len(data) // room))
        n = max(least, min(n or least, len(data), 255))
        cuts = [0]
        for i in range(n):
            left = n - i - 1
            lo = max(cuts[-1] + 1, len(data) - left * room)
            hi = min(cuts[-1] + room, len(data) - left)
            cuts.append(rng.choice((lo, hi, hi, rng.randint(lo, hi))) if lo < hi else hi)
        pieces = [data[cuts[i]:cuts[i + 1]] for i in range(n)]
        if bare and n < 250:
            for _ in range(rng.randrange(1, 4)):
                pieces.insert(rng.randrange(n + 1), [])
                n += 1
        while 1:
            ref = rng.randrange(65536 if wide else 256)
            if (name, ref, n) not in self.refs:
                break
        self.refs[name, ref, n] = 1
        self.mids += 1
        num = ('+' if toa >> 4 & 7 == 1 else '') + ''.join(map(str, d))
        self.ctx.emit('send', mid=self.mids, sender=codes(num), ref=ref, port=dest, pieces=pieces,
                      conc=n > 1 or not alone)
        for i, x in enumerate(pieces):
            if ports == 16:
                es = [[5, 4, dest >> 8, dest & 255, rng.randrange(256), rng.randrange(256)]]
            else:
                es = [[4, 2, dest, rng.randrange(256)]]
            if n > 1 or not alone:
                es.append([8, 4, ref >> 8, ref & 255, n, i + 1] if wide else [0, 3, ref, n, i + 1])
            es += extra
            rng.shuffle(es)
            o = smsc(rng) + [0x40 | 4 * rng.randrange(64)] + [len(d), toa] + semi(d) + \
                [rng.randrange(256), rng.choice([4, 0xf5] + DCS_OF[4])] + stamp(rng) + \
                userdata(rng, 4, x, [y for e in es for y in e])
            self.pids += 1
            s = hexa(rng, o)
            self.ctx.emit('relay', pid=self.pids, mid=self.mids, part=i + 1, pdu=codes(s))
            self.packets[self.mids, i + 1] = (self.pids, s)
        return self.mids, n

    def arrive(self, mid, part):
        if (mid, part) not in self.packets:
            return
        pid, s = self.packets[mid, part]
        ctx = self.ctx
        col = {'some': False}
        seen = []

        def go():
            if self.reused is not None and self.rng.random() < .4:
                m = self.reused
                m.pdu = s
            else:
                m = self.reused = SmsDeliver(s)
            c = m.udh.concat
            v = {'number': m.number, 'text': m.text, 'port': m.udh.ports.dest_port,
                 'ref': c and c.ref, 'cnt': c and c.cnt, 'seq': c and c.seq}
            seen.append(v)
            return dict((k, P(x)) for k, x in v.items())
        v, e = ctx.run('SmsDeliver', go)
        if seen:
            v_ = seen[0]
            if v_['cnt'] is None:
                whole = [v_['text']]
            else:
                key = v_['number'], v_['ref'], v_['cnt']
                d = self.got.setdefault(key, {})
                d[v_['seq']] = v_['text']
                whole = None
                if sorted(d) == list(range(1, v_['cnt'] + 1)):
                    whole = [d[i] for i in sorted(d)]
            if whole is not None:
                col = self.collect(whole)
        ctx.emit('arrive', pid=pid, col=col, r={'ok': True, 'v': v} if e is None else
                 {'ok': False, 'exc': excnames(e)})

    def collect(self, texts):
        ctx = self.ctx
        msg = []

        def join():
            data = ''
            for t in texts:
                data += t
            return data

        def go():
            m = extract_push_notification(join())
            msg.append(m)
            return look_message(m)
        out = {'some': True, 'is': result(*ctx.run('is_push', lambda: is_a_wap_push_notification(join()))),
               'r': result(*ctx.run('extract', go), **{'proj': same}),
               'notif': {'ok': False, 'exc': ['None']}}
        if msg:
            out['notif'] = result(*ctx.run('is_mms', is_mms_notification, msg[0]))
        return out


def data(rng):
    k = rng.randrange(8)
    if k == 0:
        # other things are sent to ports as well
        o = [rng.randrange(256) for _ in range(rng.randrange(3, 300))]
        if o[1] == 6:
            o[1] = 7
        return o
    if k == 1:
        return push(rng, block(rng), message(rng))
    leave = [n for n in ('From', 'Content-Location') if rng.random() < .15]
    return push(rng, block(rng), notification(rng, leave))


PLAN = {1: ('a', 2), 2: ('a', 2), 3: ('b', 2), 4: ('a', 1)}


def short(rng):
    while 1:
        d = data(rng)
        if len(d) <= 100:
            return d


def middle(rng):
    while 1:
        d = data(rng)
        if len(d) <= 220:
            return d


def gen(ctx):
    rng = ctx.rng
    for b in ctx.behaviours():
        w = World(ctx)
        mid = {}
        for op, m, p in b:
            if op == 'send':
                name, n = PLAN[m]
                mid[m], k = w.send(name, (short if n == 1 else middle)(rng), n)
            else:
                w.arrive(mid[m], p)
    for _ in range(ctx.n(25, 1500)):
        w = World(ctx)
        flight = []
        for _ in range(rng.randrange(1, 6)):
            mid, k = w.send(rng.choice('abc'), data(rng), rng.choice((None, None, 2, 3, 5, 20, rng.randrange(2, 256))),
                            rng.random() < .2)
            flight += [(mid, p) for p in range(1, k + 1)] * rng.choice((1, 1, 2))
            while flight and rng.random() < .6:
                w.arrive(*flight.pop(rng.randrange(len(flight))))
        while flight:
            w.arrive(*flight.pop(rng.randrange(len(flight))))
    # one octet per part
    if ctx.mine(1) or not ctx.quick:
        w = World(ctx)
        mid, k = w.send('a', short(rng), 255)
        ps = list(range(1, k + 1))
        rng.shuffle(ps)
        for p in ps:
            w.arrive(mid, p)
