# -*- coding: utf-8 -*-
"""Exchanges of subscribers through a service centre (spec/SmsExchange.tla, spec/C28.tla)."""
from datetime import datetime, timedelta
from common import codes, excnames
from submit import either, number, validity_record, relative, FixedOffset
from deliver import semi, hexa, decoded, stamp
from c11 import text, edges
from messaging.sms.submit import SmsSubmit
from messaging.sms.deliver import SmsDeliver


def tup(t):
    return [t.year, t.month, t.day, t.hour, t.minute, t.second]


class Exchange(object):
    def __init__(self, ctx, people=3):
        self.ctx, self.rng = ctx, ctx.rng
        rng = self.rng
        self.numbers = []
        while len(self.numbers) < people:
            n = number(rng)
            if self.numbers and rng.random() < .3:
                # nearly the number of another
                n = rng.choice(self.numbers)
                n = n[1:] if n[0] == '+' and rng.random() < .4 else n[:-1] + rng.choice('0123456789')
                if len(n.lstrip('+')) < 3:
                    continue
            if n not in self.numbers:
                self.numbers.append(n)
        self.centre = number(rng)
        self.now = datetime(rng.randrange(2000, 2050), rng.randrange(1, 13), rng.randrange(1, 29),
                            rng.randrange(24), rng.randrange(60), rng.randrange(60))
        self.zone = rng.choice((0, 4, 8, -20, 48, -48, 79, -79, rng.randrange(-79, 80)))
        self.out = [None] * people       # what each sends with
        self.inn = [None] * people       # what each receives with
        self.table = {}                  # what each has sent: (who, ref, number) -> message
        self.box = {}                    # what each has collected: (who, number, ref, count)
        self.read = {}                   # message -> what its recipient knows of it
        self.store = {}                  # (message, part) -> octets
        self.packets, self.sent, self.came, self.over = {}, {}, set(), set()
        self.msgs = {}
        self.refs = [rng.randrange(256) for _ in range(people)]
        # references are drawn by one object of each sender, or given
        self.auto = rng.random() < .3
        self.rand = rng.randrange(256)
        self.pid = 0
        self.when = {}
        ctx.emit('world', numbers=[codes(n) for n in self.numbers], centre=codes(self.centre),
                 now=tup(self.now))

    # ---- time
    def tick(self, delta):
        if delta < timedelta(0):
            return
        self.now += timedelta(delta.days, delta.seconds)
        self.ctx.emit('clock', now=tup(self.now))

    def near(self):
        """close to the end of the validity of something stored"""
        ends = [self.ends(m) for m, p in self.store if (m, p) not in self.came and (m, p) not in self.over]
        ends = [e for e in ends if e is not None and e >= self.now]
        if ends and self.rng.random() < .7:
            self.tick(self.rng.choice(ends) + timedelta(0, self.rng.choice((-1, -1, 0, 0, 1, 600))) - self.now)
        else:
            self.tick(timedelta(0, self.rng.choice((1, 60, 3600, 86400, 7 * 86400))))

    # ---- subscribers
    def submit(self, mid, frm, to, t=None, fmt=None, kind='new', about=0, parts=1, v=None):
        ctx, rng = self.ctx, self.rng
        num, csca = self.numbers[to], rng.random() < .5
        if kind == 'answer':
            num = self.read[about]['number']
        centre = self.centre if about == 0 else self.read[about]['csca']
        if kind == 'forward':
            t, fmt = self.read[about]['text'], self.read[about]['fmt']
            spec_text, f = self.msgs[about]['text'], fmt
            if fmt == 0 and rng.random() < .5:
                fmt = None
        else:
            if t is None:
                t, fmt = edges(rng) if parts > 1 and rng.random() < .2 else text(rng, parts)
            spec_text, f = t, fmt
        srr = rng.random() < .8
        explicit = rng.random() < .8
        self.refs[frm] += rng.choice((1, 1, 2, 37))
        ref = self.refs[frm] if explicit else None
        old = self.out[frm]
        used = [x for x in (old,) if x is not None and (self.auto or rng.random() < .6)]
        self.rand += 1

        def go():
            if used:
                m = used[0]
                m.number, m.text = num, t
            else:
                m = SmsSubmit(num, either(rng, t))
                self.out[frm] = m
            m.rand_id = None if self.auto else self.rand
            m.fmt = fmt
            m.csca = centre if csca else None
            m.request_status = srr
            m.validity = v
            m.pid = rng.choice((0, rng.randrange(256)))
            m.ref = ref
            if rng.random() < .2:
                m.klass = rng.randrange(4)
            return m, m.to_pdu()
        r, e = ctx.run('submit', go)
        pdus = [] if e is not None else [p.pdu for p in r[1]]
        vr = validity_record(v)
        ctx.emit('submit', mid=mid, to=to + 1, text=codes(spec_text), fmt=-1 if f is None else f, kind=kind,
                 about=about, srr=srr, validity=vr, ref=-1 if ref is None else ref, csca=csca,
                 ok=e is None, pdus=[codes(p) for p in pdus], **{'from': frm + 1})
        self.msgs[mid] = {'from': frm, 'to': to, 'text': spec_text, 'srr': srr, 'n': len(pdus), 'at': self.now}
        if e is not None:
            return 0
        self.table[frm, r[0].ref & 255, num] = mid
        for i, p in enumerate(pdus):
            self.store[mid, i + 1] = [int(p[j:j + 2], 16) for j in range(0, len(p), 2)]
        return len(pdus)

    # ---- the service centre: it knows the octets only
    def fields(self, mid, part):
        o = self.store[mid, part]
        i = o[0] + 1
        j = i + 4 + (o[i + 2] + 1) // 2
        return o, i, j, o[i], {0: 0, 2: 1}.get(o[i] >> 3 & 3, 7)

    def ends(self, mid):
        o, i, j, first, vp = self.fields(mid, 1)
        at = self.msgs[mid]['at']
        if vp == 0:
            return None
        if vp == 1:
            v = o[j + 2]
            return at + (timedelta(minutes=5 * (v + 1)) if v < 144 else
                         timedelta(hours=12, minutes=30 * (v - 143)) if v < 168 else
                         timedelta(days=v - 166) if v < 197 else timedelta(weeks=v - 192))
        b = [10 * (x % 16) + x // 16 for x in o[j + 2:j + 8]]
        z = o[j + 8]
        q = 10 * (z & 7) + (z >> 4)
        y = b[0] + (1900 if b[0] >= 69 else 2000)
        return datetime(y, *b[1:]) - timedelta(minutes=-15 * q if z & 8 else 15 * q)

    def attempt(self, mid, part):
        """relay, or discard"""
        k = mid, part
        if k not in self.store or k in self.over:
            return
        end, _ = self.ctx.run('validity', self.ends, mid)
        if end is not None and self.now >= end:
            if k not in self.sent:
                self.over.add(k)
                self.when[k] = self.now
                self.ctx.emit('expire', mid=mid, part=part)
            return
        rng = self.rng
        o, i, j, first, vp = self.fields(mid, part)
        s = self.numbers[self.msgs[mid]['from']]
        d = [int(c) for c in s.lstrip('+')]
        c = [int(x) for x in self.centre.lstrip('+')]
        oct_ = [1 + (len(c) + 1) // 2, 0x91 if self.centre[0] == '+' else 0x81] + semi(c) + \
            [(first & 0x40) | rng.choice((0, 4, 0x24))] + \
            [len(d), 0x91 if s[0] == '+' else 0x81] + semi(d) + o[j:j + 2] + \
            self.stamp(self.msgs[mid]['at']) + o[j + 2 + vp:]
        self.pid += 1
        pdu = hexa(rng, oct_)
        self.ctx.emit('relay', pid=self.pid, mid=mid, part=part, pdu=codes(pdu))
        self.sent.setdefault(k, []).append((self.pid, pdu))

    def stamp(self, t):
        q = self.zone
        t = t + timedelta(minutes=15 * q)
        return stamp(self.rng, (t.year % 100, t.month, t.day, t.hour, t.minute, t.second), q)

    def receive(self, who, pdu):
        """a PDU comes to a subscriber"""
        m = self.inn[who]
        again = m is not None and self.rng.random() < .5

        def go():
            if again:
                m.pdu = pdu
                return m
            self.inn[who] = SmsDeliver(pdu)
            return self.inn[who]
        return decoded(self.ctx, go)

    def arrive(self, mid, part, copy=None):
        k = mid, part
        if not self.sent.get(k):
            return
        pid, pdu = self.rng.choice(self.sent[k])
        to = self.msgs[mid]['to']
        r = self.receive(to, pdu)
        self.came.add(k)
        self.when.setdefault(k, self.now)
        self.ctx.emit('arrive', pid=pid, r=r)
        if r['ok']:
            # the recipient's own collection
            m = self.inn[to]
            d = m.data
            known = {'number': d['number'], 'csca': d['csca'], 'fmt': d['fmt']}
            if d.get('cnt') is None:
                self.read[mid] = dict(known, text=d['text'])
            else:
                b = self.box.setdefault((to, d['number'], d['ref'], d['cnt']), {})
                b[d['seq']] = d['text']
                if sorted(b) == range(1, d['cnt'] + 1):
                    t = u'' if d['fmt'] != 4 else ''
                    self.read[mid] = dict(known, text=t.join([b[i] for i in sorted(b)]))

    def report(self, mid, part, held=False):
        k = mid, part
        if k not in self.store or not self.msgs[mid]['srr']:
            return
        if k in self.came:
            fate, st = 'arrived', 0
        elif k in self.over:
            fate, st = 'expired', 0x46
        elif held:
            fate, st = 'held', self.rng.choice((0x30, 0x30, 0x20, 0x21, 0x3f, self.rng.randrange(0x20, 0x40)))
        else:
            return
        rng, m = self.rng, self.msgs[mid]
        o, i, j, first, vp = self.fields(mid, part)
        n = self.numbers[m['to']]
        d = [int(c) for c in n.lstrip('+')]
        c = [int(x) for x in self.centre.lstrip('+')]
        oct_ = [1 + (len(c) + 1) // 2, 0x91 if self.centre[0] == '+' else 0x81] + semi(c) + \
            [rng.choice((2, 6, 0x22)), o[i + 1], len(d), 0x91 if n[0] == '+' else 0x81] + semi(d) + \
            self.stamp(m['at']) + self.stamp(self.when.get(k, self.now)) + [st]
        pdu = hexa(rng, oct_)
        r = self.receive(m['from'], pdu)
        found = 0
        if r['ok']:
            x = self.inn[m['from']]
            found = self.table.get((m['from'], x.data.get('ref'), (x.sr or {}).get('recipient')), 0)
        self.ctx.emit('report', mid=mid, part=part, fate=fate, pdu=codes(pdu), r=r, found=found)


UNITS = [timedelta(0, s) for s in (300, 1800, 3600, 43200, 86400, 2 * 86400, 7 * 86400, 10 * 86400)]


def lasting(x, rng):
    """a validity"""
    k = rng.randrange(3)
    if k == 0:
        return None
    if k == 1:
        return relative(rng)
    d = rng.choice((rng.randrange(1, 90), rng.randrange(300, 86400 * 3), rng.randrange(300, 86400 * 400)))
    end = x.now + timedelta(0, d)
    if not 1970 < end.year < 2068:
        return None
    q = rng.choice((None, 0, 4, -20, 48, -48, rng.randrange(-79, 80)))
    if q is None:
        return end
    return (end + timedelta(minutes=15 * q)).replace(tzinfo=FixedOffset(15 * q, 'zone'))


PLAN = {1: (0, 1, 2), 2: (1, 0, 1), 3: (1, 2, 2)}
VALID = {1: 2, 2: 1, 3: 3}


def gen(ctx):
    rng = ctx.rng
    for b in ctx.behaviours():
        x = Exchange(ctx)
        unit = rng.choice(UNITS)
        count = {}
        for op, m, p in b:
            if op == 'tick':
                x.tick(unit)
            elif op == 'submit':
                frm, to, n = PLAN[m]
                kind = {1: 'new', 2: 'answer', 3: 'forward'}[m]
                if m != 1 and 1 not in x.read:
                    kind = 'new'
                v = unit * VALID[m] - timedelta(0, 0, rng.choice((0, 0, 1)))
                v = rng.choice((v, v, lasting(x, rng)))
                if isinstance(v, timedelta) and v < timedelta(0, 300):
                    v = timedelta(0, 300)
                count[m] = x.submit(m, frm, to, kind=kind, about=0 if kind == 'new' else 1, parts=n, v=v)
            elif op in ('relay', 'expire'):
                x.attempt(m, p)
            elif op == 'arrive':
                x.arrive(m, p)
            else:
                x.report(m, p, op == 'held')
    # many messages among many
    for _ in range(ctx.n(10, 500)):
        people = rng.choice((2, 3, 4, 6))
        x = Exchange(ctx, people)
        mid = 0
        for _ in range(rng.randrange(10, 90)):
            k = rng.random()
            if k < .2 or not mid:
                frm = rng.randrange(people)
                to = rng.randrange(people)
                known = [r for r in x.read if x.msgs[r]['to'] == frm]
                kind = rng.choice(('new', 'answer', 'forward')) if known else 'new'
                about = rng.choice(known) if kind != 'new' else 0
                if kind == 'answer':
                    to = x.msgs[about]['from']
                mid += 1
                x.submit(mid, frm, to, kind=kind, about=about, parts=rng.choice((1, 1, 2, 3)), v=lasting(x, rng))
                continue
            keys = sorted(x.store)
            if not keys:
                continue
            m, p = rng.choice(keys[-8:] if rng.random() < .6 else keys)
            if k < .45:
                x.attempt(m, p)
            elif k < .75:
                x.arrive(m, p)
            elif k < .9:
                x.report(m, p, True)
            else:
                x.near()
