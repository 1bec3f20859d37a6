# -*- coding: utf-8 -*-
"""Conversations through an MMSC (spec/MmsSystem.tla, spec/C26.tla)."""
from world import *
from foreign import NUM, text_string, bounded, date, long_int
import foreign
from c22 import push, block, string
from c18 import newpart
from messaging.sms.wap import extract_push_notification, is_mms_notification


def split(o):
    """the headers of a message and the rest from its content type on"""
    out, i = [], 0
    while i < len(o) and o[i] != 0x84:
        j = i + 1 if o[i] >= 128 else o.index(0, i) + 1
        k = o[j]
        if k >= 128:
            e = j + 1
        elif k >= 32:
            e = o.index(0, j) + 1
        elif k < 31:
            e = j + 1 + k
        else:
            n, e = 0, j + 1
            while 1:
                n, e = n << 7 | o[e] & 127, e + 1
                if o[e - 1] < 128:
                    break
            e += n
        out.append(o[i:e])
        i = e
    return out, o[i:]


class Talk(World):
    def __init__(self, ctx):
        World.__init__(self, ctx)
        self.names = set()
        self.subs, self.notes, self.rets = {}, {}, {}
        self.waiting, self.ids, self.confirmed = {}, {}, set()

    def name(self, hi=10):
        while 1:
            t = token(self.rng, 1, hi)
            if t not in self.names:
                self.names.add(t)
                return t

    # ---- what clients do
    def submit(self, m, stored):
        x = len(self.subs) + 1
        tid = self.name()
        self.sethdr(m, 'Transaction-Id', tid)
        v, e = self.encode(self.msgs[m - 1])
        seen = {'ok': False, 'exc': ['none']}
        if e is None:
            seen, _ = self.decode(v)
        r = result(v, e, octets)
        self.ctx.emit('submit', m=m, x=x, tid=codes(tid), stored=stored, doc=self.doc(m), r=r, seen=seen)
        if r['ok'] and r['v']['k'] == 'a':
            self.subs[x] = {'tid': tid, 'o': r['v']['a'], 'stored': stored, 'mid': self.name(20)}
            self.waiting[tid] = x
        return x

    def answer(self, n, status):
        note = self.notes[n]
        m = MMSMessage()
        m.headers['Message-Type'] = 'm-notifyresp-ind'
        m.headers['Transaction-Id'] = note['m'].headers['Transaction-Id']
        m.headers['Status'] = status
        self.ctx.emit('answer', n=n, status=codes(status), r=result(*self.encode(m), **{'proj': octets}))

    def ack(self, k):
        m = MMSMessage()
        m.headers['Message-Type'] = 'm-acknowledge-ind'
        m.headers['Transaction-Id'] = self.rets[k]['m'].headers['Transaction-Id']
        self.ctx.emit('ack', k=k, r=result(*self.encode(m), **{'proj': octets}))

    def forward(self, m, k):
        new = self.msgs[m - 1]
        parts = self.rets[k]['m'].data_parts

        def go():
            for p in parts:
                new.add_data_part(p)
        r, _ = self.r('add_data_part', go)
        self.parts.extend(parts)
        self.ctx.emit('forward', m=m, k=k, r=r)

    def lookret(self, k):
        self.ctx.emit('lookret', k=k, r=result(*self.ctx.run('look', lambda: look_message(self.rets[k]['m'])),
                                               **{'proj': same}))

    # ---- what the MMSC says
    def head(self, type_, tid):
        o = [0x8c, 128 + type_, 0x98] + text_string(tid)
        return o + [0x8d, 0x90]

    def shuffled(self, hs):
        self.rng.shuffle(hs)
        return [x for h in hs for x in h]

    def confirm(self, x):
        sub, rng = self.subs[x], self.rng
        status = 128 if sub['stored'] else rng.randint(129, 136)
        hs = [[0x92, status], [0x8b] + text_string(sub['mid'])]
        if rng.random() < .4:
            hs.append([0x93] + foreign.estring(rng))
        o = self.head(1, sub['tid']) + self.shuffled(hs)
        r, m = self.decode(array('B', o))
        found = 0
        self.confirmed.add(x)
        if m is not None:
            found = self.waiting.get(m.headers['Transaction-Id'], 0)
            self.ids[m.headers.get('Message-ID')] = found
        self.ctx.emit('confirm', x=x, o=o, mid=codes(sub['mid']), r=r, found=found)

    def notify(self, x):
        rng, sub = self.rng, self.subs[x]
        n = len(self.notes) + 1
        tid, loc = self.name(), 'http://mmsc/' + self.name(30)
        sender = rng.choice(('+34666123456/TYPE=PLMN', 'a@b.c', '1', sized(rng, rng.choice((20, 28, 29, 30, 31))).strip() or 'x'))
        hs = [[0x89] + bounded(rng, [128] + text_string(sender)), [0x8e] + long_int(rng, len(sub['o'])),
              [0x83] + text_string(loc), [0x88] + bounded(rng, [129] + long_int(rng, rng.randrange(10 ** 6))),
              [0x8a, rng.randint(128, 131)]]
        o = push(rng, block(rng), self.head(2, tid) + self.shuffled(hs))
        got = []

        def go():
            m = extract_push_notification(string(o))
            got.append(m)
            return look_message(m)
        r = result(*self.ctx.run('extract_push_notification', go), **{'proj': same})
        f = {'ok': False, 'exc': ['None']}
        if got:
            f = result(*self.ctx.run('is_mms_notification', is_mms_notification, got[0]))
            self.notes[n] = {'m': got[0], 'x': x}
        else:
            self.notes[n] = None
        self.ctx.emit('notify', n=n, x=x, tid=codes(tid), loc=codes(loc), o=o, r=r, notif=f,
                      **{'from': codes(sender)})
        return n

    def retrieve(self, n):
        rng, note = self.rng, self.notes[n]
        sub = self.subs[note['x']]
        k = len(self.rets) + 1
        tid = self.name()
        hs, rest = split(sub['o'])
        keep = [h for h in hs if h[0] - 128 in (NUM['To'], NUM['Cc'], NUM['Subject'])]
        was = [h for h in hs if h[0] == 0x89 and h[-2:] != [1, 129]]
        keep += was or [[0x89] + bounded(rng, [128] + text_string('+1234/TYPE=PLMN'))]
        keep += [[0x8b] + text_string(sub['mid']), [0x85] + date(rng), [0x8f, rng.randint(128, 130)]]
        o = self.head(4, tid) + self.shuffled(keep) + rest
        r, m = self.decode(array('B', o))
        self.rets[k] = {'m': m, 'n': n} if m is not None else None
        self.ctx.emit('retrieve', n=n, k=k, tid=codes(tid), loc=W(note['m'].headers.get('Content-Location')), o=o, r=r)
        return k

    def report(self, x):
        rng, sub = self.rng, self.subs[x]
        status = rng.randrange(5)
        hs = [[0x8b] + text_string(sub['mid']), [0x97] + text_string('+34666'), [0x85] + date(rng),
              [0x95, 128 + status]]
        o = [0x8c, 0x86, 0x8d, 0x90] + self.shuffled(hs)
        r, m = self.decode(array('B', o))
        found = 0 if m is None else self.ids.get(m.headers.get('Message-ID'), 0)
        self.ctx.emit('report', x=x, o=o, mid=codes(sub['mid']), status=codes(
            ('Expired', 'Retrieved', 'Rejected', 'Deferred', 'Unrecognised')[status]), r=r, found=found)


def compose(w):
    rng = w.rng
    m = w.msg()
    w.sethdr(m, 'To', estring(rng))
    for n in ('Cc', 'Subject'):
        if rng.random() < .4:
            w.sethdr(m, n, estring(rng))
    if rng.random() < .5:
        w.sethdr(m, 'From', rng.choice(('', estring(rng))))
    for _ in range(rng.choice((0, 1, 1, 2))):
        add_page(w, m)
    if rng.random() < .4:
        w.addpart(m, newpart(w.ctx, w, rng.choice((0, 3, 40))))
    return m


def add_page(w, m):
    rng = w.rng
    p = w.page()
    if rng.random() < .6:
        w.media('image', p, w.file(data(rng, rng.choice((0, 1, 30, 130)))))
    if rng.random() < .6:
        w.text(p, text(rng), *rng.choice(((), (1, 2000), (100,))))
    if rng.random() < .3:
        w.media('audio', p, w.file(data(rng, 20)))
    w.addpage(m, p)


class Story(object):
    """one behaviour of MmsSystem"""

    def __init__(self, ctx):
        self.w = Talk(ctx)
        self.obj, self.x, self.n, self.k = {}, {}, {}, {}

    def do(self, op, m):
        w, rng = self.w, self.w.rng
        if op in ('submit', 'refused'):
            if m == 3:
                ks = [k for k in self.k.get(1, []) if w.rets[k]]
                if not ks:
                    return
                if rng.random() < .5:
                    obj = compose(w)
                else:
                    obj = w.msg()
                    w.sethdr(obj, 'To', estring(rng))
                w.forward(obj, rng.choice(ks))
                if rng.random() < .3:
                    add_page(w, obj)
            else:
                old = [o for o in self.obj.values() if o]
                obj = rng.choice(old) if m != 1 and old and rng.random() < .4 else compose(w)
            self.obj[m] = obj
            self.x[m] = w.submit(obj, op == 'submit')
        elif m not in self.x or self.x[m] not in w.subs:
            return
        elif op == 'edit':
            k = rng.randrange(3)
            if k == 0:
                add_page(w, self.obj[m])
            elif k == 1:
                w.sethdr(self.obj[m], 'Subject', estring(rng))
            else:
                w.addpart(self.obj[m], newpart(w.ctx, w, 5))
        elif op == 'confirm':
            w.confirm(self.x[m])
        elif op == 'notify':
            self.n.setdefault(m, []).append(w.notify(self.x[m]))
        elif op == 'report':
            if self.x[m] in w.confirmed:
                w.report(self.x[m])
        elif op in ('Deferred', 'Rejected', 'Retrieved'):
            ns = [n for n in self.n.get(m, []) if w.notes[n]]
            if ns:
                w.answer(rng.choice(ns), op)
        elif op == 'retrieve':
            ns = [n for n in self.n.get(m, []) if w.notes[n]]
            if ns:
                self.k.setdefault(m, []).append(w.retrieve(rng.choice(ns)))
        elif op in ('ack', 'look'):
            for k in self.k.get(m, []):
                if w.rets[k] and op == 'ack' and rng.random() < .7:
                    w.ack(k)
                elif w.rets[k]:
                    w.lookret(k)


def gen(ctx):
    for b in ctx.behaviours():
        s = Story(ctx)
        for op, m in b:
            s.do(op, m)
    # many messages, everything late and in between
    rng = ctx.rng
    for _ in range(ctx.n(8, 400)):
        s = Story(ctx)
        w = s.w
        todo = []
        for m in range(10, 10 + rng.randint(2, 6)):
            todo.append([(m, op) for op in ['submit', 'confirm', 'edit', 'notify', 'Deferred', 'notify', 'retrieve', 'ack',
                                            'look', 'Retrieved', 'report', 'retrieve', 'look']])
        while todo:
            q = rng.choice(todo)
            m, op = q.pop(0)
            if not q:
                todo.remove(q)
            if op == 'submit' or rng.random() < .8:
                s.do(op, m)
