# -*- coding: utf-8 -*-
"""Sessions on SmsSubmit objects, shared by C02 to C06 and C11."""
from datetime import datetime, timedelta
from common import codes, P, excnames, result
from messaging.sms.submit import SmsSubmit
from messaging.utils import FixedOffset

ATTR = {'number': 'number', 'csca': 'csca', 'text': 'text', 'fmt': 'fmt',
        'klass': 'klass', 'srr': 'request_status', 'pid': 'pid',
        'validity': 'validity', 'ref': 'ref', 'rand': 'rand_id'}

GSMB = (u"@\xa3$\xa5\xe8\xe9\xf9\xec\xf2\xc7\n\xd8\xf8\r\xc5\xe5\u0394_\u03a6"
        u"\u0393\u039b\u03a9\u03a0\u03a8\u03a3\u0398\u039e\xc6\xe6\xdf\xc9"
        u" !\"#\xa4%&'()*+,-./0123456789:;<=>?\xa1ABCDEFGHIJKLMNOPQRSTUVWXYZ"
        u"\xc4\xd6\xd1\xdc\xa7\xbfabcdefghijklmnopqrstuvwxyz\xe4\xf6\xf1\xfc\xe0")
GSMX = u"\x0c^{}\\[~]|\u20ac"
UCS = u"\u0430\u0431\u4e2d\u6587\u0627\xe1\u01ff\uffff\xff\u0100\ufeff\u200b\x80"


def validity_record(v):
    if v is None:
        return {'k': 'none'}
    if isinstance(v, timedelta):
        s = v.days * 86400 + v.seconds
        assert abs(s) < 2 ** 31
        return {'k': 'rel', 's': int(s), 'us': int(v.microseconds)}
    off = v.utcoffset()
    m = 0 if off is None else (off.days * 86400 + off.seconds) // 60
    return {'k': 'abs', 'd': [v.year, v.month, v.day, v.hour, v.minute, v.second],
            'off': int(m)}


def setting(f, v):
    """how the specification sees a value of a setting"""
    if f == 'validity':
        return validity_record(v)
    if f in ('number', 'text', 'csca'):
        return codes(v or '')
    if f == 'srr':
        return bool(v)
    if f in ('ref', 'rand') and v is not None:
        # what counts is the value modulo 256
        return int(v % 65536)
    if f in ('fmt', 'klass', 'ref', 'rand'):
        return -1 if v is None else v
    return v


def reads(v):
    """how a read back value is projected"""
    if isinstance(v, datetime) or isinstance(v, timedelta):
        return {'k': 'v', 'w': validity_record(v)}
    return P(v)


def pdus(ps):
    out = []
    for p in ps:
        out.append({'pdu': codes(p.pdu), 'length': num(p.length),
                    'cnt': num(p.cnt), 'seq': num(p.seq)})
    return out


def num(n):
    if isinstance(n, (int, long)) and not isinstance(n, bool) and abs(n) < 2 ** 31:
        return int(n)
    return -999


def either(rng, x):
    """a text of ASCII characters as one or the other type of string"""
    if isinstance(x, basestring) and max([ord(c) for c in x] or [0]) < 128 and rng.random() < .5:
        return str(x) if isinstance(x, unicode) else unicode(x)
    return x


class Session(object):
    def __init__(self, ctx, number, text, **extra):
        self.ctx = ctx
        self.x = extra
        v, e = ctx.run('SmsSubmit()', SmsSubmit, either(ctx.rng, number), either(ctx.rng, text))
        self.ok = e is None
        self.obj = v
        ctx.emit('new', number=codes(number), text=codes(text),
                 r={'ok': True} if e is None else {'ok': False, 'exc': excnames(e)}, **extra)

    def set(self, f, v):
        """a valid setting"""
        if f == 'srr' and self.ctx.rng.random() < .4:
            # a flag
            v = int(v)
        _, e = self.ctx.run('set ' + f, setattr, self.obj, ATTR[f], either(self.ctx.rng, v))
        a, e2 = self.ctx.run('get ' + f, getattr, self.obj, ATTR[f])
        r = {'ok': True} if e is None else {'ok': False, 'exc': excnames(e)}
        self.ctx.emit('set', f=f, v=setting(f, v), r=r,
                      want=reads(v), after=reads(a) if e2 is None else {'k': 'exc'}, **self.x)

    def bad(self, f, v):
        """a setting that must be refused"""
        old, _ = self.ctx.run('get ' + f, getattr, self.obj, ATTR[f])
        _, e = self.ctx.run('set ' + f, setattr, self.obj, ATTR[f], v)
        a, e2 = self.ctx.run('get ' + f, getattr, self.obj, ATTR[f])
        r = {'ok': True} if e is None else {'ok': False, 'exc': excnames(e)}
        self.ctx.emit('bad', f=f, what=P(v), r=r, before=reads(old),
                      after=reads(a) if e2 is None else {'k': 'exc'}, **self.x)

    def enc(self):
        v, e = self.ctx.run('to_pdu', self.obj.to_pdu)
        r = None
        if e is None:
            r, e = self.ctx.run('pdus', pdus, v)
        if e is None:
            self.ctx.emit('enc', r={'ok': True, 'pdus': r}, **self.x)
            return v
        self.ctx.emit('enc', r={'ok': False, 'exc': excnames(e)}, **self.x)
        return None


# ---------------------------------------------------------------- generators
def number(rng, plus=None):
    n = rng.choice((3, 4, 9, 10, 11, 11, 12, 19, 20, rng.randrange(3, 21)))
    d = ''.join([rng.choice('0123456789') for _ in range(n)])
    if plus is None:
        plus = rng.random() < .5
    return ('+' if plus else '') + d


def gsm(rng, septets, ext=.2):
    """a text of exactly that many septets"""
    out = []
    n = septets
    while n:
        if n > 1 and rng.random() < ext:
            out.append(rng.choice(GSMX))
            n -= 2
        else:
            out.append(rng.choice(GSMB))
            n -= 1
    return u''.join(out)


def edited(rng, t, same=False):
    """nearly the same text"""
    t = t or u'a'
    k = rng.randrange(4 if same else 7)
    i = rng.choice((0, len(t) - 1, rng.randrange(len(t)), rng.randrange(len(t))))
    c = rng.choice(u'abcxyz019 ' if max([ord(x) for x in t]) < 128 else GSMB + u'\u0436')
    if k < 2:
        return t[:i] + c + t[i + 1:]
    if k == 2:
        # two characters change places
        return t[:i] + t[i + 1:i + 2] + t[i:i + 1] + t[i + 2:]
    if k == 3:
        return t.swapcase() if max([ord(x) for x in t]) < 128 else t[::-1]
    if k == 4:
        return t[:i] + t[i + 1:]
    if k == 5:
        return t[:i] + c + t[i:]
    return t + c


def ucs(rng, n, plain=.5):
    t = [rng.choice(GSMB) if rng.random() < plain else
         rng.choice(UCS) if rng.random() < .7 else
         unichr(rng.choice((rng.randrange(32, 0xd800), rng.randrange(0xe000, 0x10000))))
         for _ in range(n)]
    if n:
        t[rng.randrange(n)] = u'\u0436'
        if rng.random() < .1:
            t[0] = rng.choice((u'\ufeff', u'\ufffe', u'\uffff'))
    return u''.join(t)


def octets(rng, n):
    return ''.join([chr(rng.randrange(256)) for _ in range(n)])


def relative(rng):
    k = rng.randrange(6)
    s = [rng.randrange(300, 43200), rng.randrange(43200, 86401),
         rng.randrange(86400, 30 * 86400 + 1), rng.randrange(30 * 86400, 63 * 604800),
         rng.randrange(1, 126) * 302400, rng.choice((300, 43200, 86400, 30 * 86400,
                                                      31 * 86400, 63 * 604800))][k]
    us = 0
    if s < 63 * 604800:
        us = rng.choice((0, 0, 1, 999999, rng.randrange(1000000)))
    return timedelta(s // 86400, s % 86400, us)


def absolute(rng):
    y = rng.choice((1970, 1999, 2000, 2008, 2009, 2010, 2038, 2068, 2069, rng.randrange(1970, 2070)))
    m = rng.randrange(1, 13)
    d = rng.randrange(1, 29) if rng.random() < .7 else \
        rng.choice((29, 30, 31))
    h = rng.choice((0, 9, 10, 12, 19, 20, 23, rng.randrange(24)))
    args = (h, rng.randrange(60), rng.randrange(60), rng.choice((0, 0, 999999)))
    q = rng.choice((None, 0, 0, 1, -1, 4, -4, 48, -48, 56, -40, 32, -32, 40, -20,
                    rng.randrange(-79, 80)))
    tz = None if q is None else FixedOffset(15 * q, 'zone')
    while True:
        try:
            return datetime(y, m, d, *args, **{'tzinfo': tz})
        except ValueError:
            d -= 1


def validity(rng):
    return rng.choice((lambda r: None, relative, absolute))(rng)


def sized(rng, fmt, k):
    """a text for an alphabet, of about k parts"""
    cap, part = {0: (160, 153), 4: (140, 134), 8: (70, 67)}[fmt]
    n = rng.choice((cap, cap - 1, 1, 0, rng.randrange(cap))) if k == 1 else \
        rng.choice((cap + 1, part * k, part * k - 1, part * (k - 1) + 1, part * (k - 1) + rng.randrange(1, part)))
    if fmt == 0:
        return gsm(rng, n, rng.choice((0, 0, .1)))
    return octets(rng, n).replace('\x1b', 'x') if fmt == 4 else ucs(rng, n).replace(u'\x1b', u'x')


def mixed(ctx, count):
    """every setting has some value, in any combination"""
    rng = ctx.rng
    for _ in range(count):
        fmt = rng.choice((0, 4, 8))
        text = sized(rng, fmt, rng.choice((1, 1, 1, 2, 3)))
        s = Session(ctx, number(rng), text)
        if s.obj is None:
            continue
        pairs = [('csca', rng.choice((None, number(rng), number(rng)))), ('klass', rng.choice((None, 0, 1, 2, 3))),
                 ('srr', rng.random() < .5), ('pid', rng.choice((0, rng.randrange(256), rng.choice((64, 127, 255))))),
                 ('ref', rng.choice((None, rng.randrange(256), 0, rng.randrange(65536)))),
                 ('rand', rng.choice((None, rng.randrange(256), 0, rng.randrange(65536)))),
                 ('validity', validity(rng)), ('fmt', fmt if fmt == 4 else rng.choice((fmt, None)))]
        rng.shuffle(pairs)
        for f, v in pairs:
            # what is not set at all is as good
            if v is None and (f == 'klass' or rng.random() < .5):
                continue
            s.set(f, v)
        s.enc()
        if rng.random() < .3:
            s.set(*rng.choice([p for p in pairs if p[1] is not None and p[0] != 'fmt']))
            s.enc()
