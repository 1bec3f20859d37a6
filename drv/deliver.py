# -*- coding: utf-8 -*-
"""Received PDUs: a builder, and the observation of decoded messages."""
from common import codes, P, result, excnames
from messaging.sms.deliver import SmsDeliver
from messaging.sms.udh import UserDataHeader


# ---------------------------------------------------------------- observation
def dates(x):
    return P(x)


def udh(u):
    if u is None:
        return {'some': False, 'concat': P(None), 'ports': P(None), 'ies': []}
    c, p = u.concat, u.ports
    return {'some': True,
            'concat': P(None if c is None else (c.ref, c.cnt, c.seq, c.eight_bits)),
            'ports': P(None if p is None else (p.dest_port, p.orig_port, p.eight_bits)),
            'ies': [[int(k), [int(x) for x in v]] for k, v in sorted(u.headers.items())]}


NAMES = ('text', 'number', 'csca', 'pid', 'dcs', 'fmt', 'date', 'sr', 'type')


def observe(m):
    data = m.data
    d = dict((n, P(data.get(n))) for n in NAMES)
    a = dict((n, P(getattr(m, n))) for n in NAMES)
    for n in ('ref', 'cnt', 'seq'):
        d[n] = P(data.get(n))
        c = m.udh and m.udh.concat
        a[n] = P(None if c is None else getattr(c, n))
    sr = m.sr
    if sr is None:
        s = {'some': False}
    else:
        s = {'some': True, 'recipient': P(sr['recipient']), 'scts': P(sr['scts']),
             'dt': P(sr['dt']), 'status': P(sr['status'])}
    return {'d': d, 'a': a, 'udh': udh(m.udh), 'sr': s}


def decoded(ctx, fn):
    v, e = ctx.run('SmsDeliver', fn)
    if e is None:
        v, e = ctx.run('observe', observe, v)
    return result(v, e, lambda x: x)


def emit(ctx, octs, upper=None):
    pdu = hexa(ctx.rng, octs, upper)
    ctx.emit('dec', pdu=codes(pdu), r=decoded(ctx, lambda: SmsDeliver(pdu)))


def hexa(rng, octs, upper=None):
    s = ''.join(['%02x' % o for o in octs])
    k = rng.randrange(4) if upper is None else upper
    if k == 0:
        s = s.upper()
    elif k == 1:
        s = ''.join([rng.choice((c, c.upper())) for c in s])
    return unicode(s) if k == 2 else s


# ---------------------------------------------------------------- builder
def semi(digits):
    d = list(digits)
    if len(d) % 2:
        d.append(15)
    return [d[i] + 16 * d[i + 1] for i in range(0, len(d), 2)]


def digits(rng, n):
    return [rng.randrange(10) for _ in range(n)]


def pack7(septets, offset=0):
    """septets placed after offset bits"""
    n = (offset + 7 * len(septets) + 7) // 8
    out = [0] * n
    bit = offset
    for s in septets:
        for k in range(7):
            if s >> k & 1:
                out[bit // 8] |= 1 << (bit % 8)
            bit += 1
    return out


TONS = [0x80, 0x90, 0xa0, 0xb0, 0xc0, 0xe0, 0xf0, 0x00, 0x10, 0x20]


def smsc(rng, n=None):
    if n is None:
        n = rng.choice((0, 11, 11, 12, rng.randrange(1, 21)))
    if n == 0:
        return [0]
    d = semi(digits(rng, n))
    return [1 + len(d), rng.choice((0x91, 0x91, 0x81, rng.choice(TONS) + rng.randrange(16)))] + d


def address(rng, n=None, toa=None):
    """length, type and value of a numeric address"""
    if n is None:
        n = rng.choice((11, 12, 3, rng.randrange(1, 21)))
    if toa is None:
        toa = rng.choice((0x91, 0x91, 0x81, rng.choice(TONS) + rng.randrange(16)))
    return [n, toa] + semi(digits(rng, n))


def alnum(rng, septets):
    k = len(septets)
    return [(7 * k + 3) // 4, 0xd0 + rng.choice((0, 0, 1, 9))] + pack7(septets)


def bcd(n):
    return n // 10 + 16 * (n % 10)


def zone(q):
    return bcd(abs(q)) | (8 if q < 0 else 0)


def stamp(rng, date=None, q=None):
    if date is None:
        m = rng.choice((1, 2, 3, 9, 10, 12, rng.randrange(1, 13)))
        y = rng.choice((0, 9, 10, 11, 68, 69, 99, 12, rng.randrange(100)))
        top = [31, 28 if y % 4 else 29, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][m - 1]
        d = rng.choice((1, top, rng.randrange(1, top + 1)))
        date = (y, m, d, rng.choice((0, 23, rng.randrange(24))),
                rng.choice((0, 59, rng.randrange(60))), rng.choice((0, 59, rng.randrange(60))))
    if q is None:
        q = rng.choice((0, 4, 8, -20, -32, 40, 48, -48, 56, 79, -79, 1, -1, rng.randrange(-79, 80)))
    return [bcd(x) for x in date] + [zone(q)]


def fmt_of(dcs):
    """None when the coding is reserved or compressed"""
    g = dcs >> 4
    a = dcs >> 2 & 3
    if g in (0, 1, 4, 5):
        return None if a == 3 else 4 * a
    if g in (12, 13):
        return 0
    if g == 14:
        return 8
    if g == 15:
        return None if a > 1 else 4 * a
    return None


DCS = [d for d in range(256) if fmt_of(d) is not None]
DCS_OF = dict((f, [d for d in DCS if fmt_of(d) == f]) for f in (0, 4, 8))


def userdata(rng, fmt, units, header=None):
    """UDL and user data; header: octets without the length, or None"""
    h = [] if header is None else [len(header)] + header
    if fmt == 0:
        hs = (8 * len(h) + 6) // 7
        body = pack7(units, 7 * hs)
        body[:len(h)] = h
        return [hs + len(units)] + body
    if fmt == 8:
        units = [x for u in units for x in (u >> 8, u & 255)]
    return [len(h) + len(units)] + h + units


def units(rng, fmt, n):
    if fmt == 0:
        return [rng.choice((27, 0, 127, rng.randrange(128), rng.randrange(128), rng.randrange(128),
                            rng.randrange(128))) for _ in range(n)]
    if fmt == 4:
        return [rng.randrange(256) for _ in range(n)]
    out = [rng.choice((rng.randrange(0xd800), rng.randrange(0xe000, 0x10000), rng.randrange(256), 0))
           for _ in range(n)]
    if n and rng.random() < .15:
        out[0] = rng.choice((0xfeff, 0xfffe, 0xffff, 0xefbb, 0x2b2f))
    return out


def capacity(fmt, header):
    h = 0 if header is None else len(header) + 1
    if fmt == 0:
        return 160 - (8 * h + 6) // 7
    return (140 - h) // (2 if fmt == 8 else 1)


def element(rng, kind=None):
    k = kind or rng.choice(('c8', 'c16', 'p8', 'p16', 'x', 'x', 'x'))
    if k == 'c8':
        return [0, 3] + [rng.choice((0, 1, 255, rng.randrange(256))) for _ in range(3)]
    if k == 'c16':
        return [8, 4] + [rng.choice((0, 1, 255, rng.randrange(256))) for _ in range(4)]
    if k == 'p8':
        return [4, 2] + [rng.randrange(256) for _ in range(2)]
    if k == 'p16':
        return [5, 4] + [rng.choice((0, 255, rng.randrange(256))) for _ in range(4)]
    n = rng.choice((0, 1, 2, 3, 4, 5, 10, rng.randrange(20)))
    i = rng.choice([x for x in range(256) if x not in (0, 4, 5, 8)])
    return [i, n] + [rng.randrange(256) for _ in range(n)]


def header(rng, most=100):
    out = []
    for _ in range(rng.choice((1, 1, 2, 3, 4, 5))):
        e = element(rng)
        if len(out) + len(e) <= most:
            out += e
    return out


def deliver(rng, **kw):
    """octets of a well-formed DELIVER"""
    fmt = kw.get('fmt', rng.choice((0, 0, 4, 8)))
    dcs = kw.get('dcs', None)
    if dcs is None:
        dcs = rng.choice((fmt, fmt, rng.choice(DCS_OF[fmt])))
    else:
        fmt = fmt_of(dcs)
    head = kw.get('header', rng.choice((None, None, header(rng))))
    first = kw.get('first', rng.choice((0, 4, 0x24, 4 * rng.randrange(64))))
    first &= ~0x40
    if head is not None:
        first |= 0x40
    cap = capacity(fmt, head)
    n = kw.get('n', rng.choice((0, 1, 2, 7, 8, cap, cap - 1, rng.randrange(cap + 1))))
    us = kw.get('units', units(rng, fmt, max(0, min(n, cap))))
    return kw.get('smsc', smsc(rng)) + [first] + \
        kw.get('address', rng.choice((address(rng), alnum(rng, units(rng, 0, rng.randrange(1, 12)))))) + \
        [kw.get('pid', rng.randrange(256)), dcs] + kw.get('stamp', stamp(rng)) + \
        userdata(rng, fmt, us, head)


def badstamp(rng):
    s = stamp(rng)
    k = rng.randrange(6)
    if k == 0:
        return [0] * 7
    if k == 1:
        return [255] * 7
    i = rng.randrange(6)
    s[i] = rng.choice((0xff, 0xaa, bcd(99), bcd(60), bcd(0), 0x0a, 0xa0))
    return s


def report(rng, **kw):
    cut = kw.get('cut', None)
    out = kw.get('smsc', smsc(rng)) + [kw.get('first', rng.choice((2, 6, 0x22, 4 * rng.randrange(64) + 2)))] + \
        [kw.get('mr', rng.randrange(256))] + kw.get('address', address(rng))
    scts = kw.get('scts', rng.choice((stamp(rng), stamp(rng), badstamp(rng))))
    dt = kw.get('dt', rng.choice((stamp(rng), stamp(rng), badstamp(rng))))
    if cut == 'scts':
        return out
    out = out + scts
    if cut == 'dt':
        return out
    out = out + dt
    if cut == 'status':
        return out
    return out + [kw.get('status', rng.choice((0, 0, 1, 0x30, 0x31, 0x40, 0x46, 0x60, rng.randrange(256))))] \
        + rng.choice(([], [], [0], [7, 0, 0, 3, 1, 2, 3]))
