# -*- coding: utf-8 -*-
"""MMS PDUs as other encoders may write them: every legal encoding of
WAP-209 and WAP-230, chosen at random."""
from ctypes_ import *
import c15

NUM = dict([(n, i + 1) for i, n in enumerate('''Bcc Cc Content-Location Content-Type Date Delivery-Report
Delivery-Time Expiry From Message-Class Message-ID Message-Type MMS-Version Message-Size Priority Read-Reply
Report-Allowed Response-Status Response-Text Sender-Visibility Status Subject To Transaction-Id'''.split())])
CHARSETS = [106, 3, 4, 4, 4, 5, 17, 1000, 2026, 12]
PARAMS = {'Q': 0, 'Charset': 1, 'Level': 2, 'Type': 3, 'Name': 5, 'Filename': 6, 'Differences': 7, 'Padding': 8,
          'Type2': 9, 'Start': 10, 'Start-info': 11}


def plain(rng):
    """text an Encoded-string-value can start with"""
    while 1:
        t = sized(rng) if rng.random() < .2 else text(rng, high=False)
        if t[:1] >= ' ':
            return t


def latin(rng):
    while 1:
        t = text(rng)
        if t[:1] >= ' ':
            return t


def estring(rng):
    k = rng.randrange(5)
    if k < 2:
        return text_string(rng.choice((plain, latin))(rng))
    if k == 2:
        return [0] if rng.random() < .3 else text_string('')
    cs = rng.choice(CHARSETS)
    if k == 3:
        o = [128]
        t = plain(rng)
    else:
        o = integer(rng, cs)
        t = latin(rng) if cs == 4 else plain(rng)
    o = o + text_string(t)
    return value_length(rng, len(o)) + o


def seconds(rng):
    return rng.choice((0, 1, 59, 86399, 86400, 951782400, 951868800, 1078012800, 4107542400, 2 ** 31 - 1, 2 ** 31,
                       2 ** 32 - 1, 2 ** 32, rng.getrandbits(30), rng.getrandbits(32), rng.randrange(2 * 10 ** 11)))


def date(rng):
    n = seconds(rng)
    o = bigbytes(n) or [0]
    if len(o) < 5 and rng.random() < .2:
        o = [0] + o
    return [len(o)] + o


def bounded(rng, o):
    return value_length(rng, len(o)) + o


def token_(rng, n, fallback):
    if fallback and rng.random() < .2:
        return [rng.randint(128 + n, 255)]
    return [128 + rng.randrange(n)]


def header_value(rng, name):
    if name in ('Bcc', 'Cc', 'Response-Text', 'Subject', 'To'):
        return estring(rng)
    if name in ('Content-Location', 'Message-ID', 'Transaction-Id'):
        return text_string(text(rng, high=name != 'Content-Location'))
    if name == 'Date':
        return date(rng)
    if name in ('Delivery-Report', 'Read-Reply', 'Report-Allowed'):
        return [rng.choice((128, 129))]
    if name == 'Delivery-Time':
        if rng.random() < .5:
            return bounded(rng, [128] + long_int(rng, number(rng)))
        return bounded(rng, [129] + integer(rng, number(rng)))
    if name == 'Expiry':
        if rng.random() < .5:
            return bounded(rng, [128] + date(rng))
        return bounded(rng, [129] + integer(rng, number(rng)))
    if name == 'From':
        if rng.random() < .25:
            return bounded(rng, [129])
        return bounded(rng, [128] + estring(rng))
    if name == 'Message-Class':
        if rng.random() < .3:
            return codes(token(rng)) + [0]
        return [rng.randint(128, 131)]
    if name == 'Message-Type':
        return token_(rng, 7, True)
    if name == 'MMS-Version':
        return version(rng)
    if name == 'Message-Size':
        return long_int(rng, number(rng))
    if name == 'Priority':
        return token_(rng, 3, False)
    if name == 'Response-Status':
        return token_(rng, 9, True)
    if name == 'Sender-Visibility':
        return token_(rng, 2, False)
    if name == 'Status':
        return token_(rng, 5, True)
    raise KeyError(name)


def version(rng):
    if rng.random() < .6:
        return [128 | rng.randint(1, 7) << 4 | rng.randint(0, 15)]
    return text_string(rng.choice(('1.0', '1.15', '10.2', '1.2.3', '', token(rng))))


# ---- content types ---------------------------------------------------------
def media_octets(rng, alone=False):
    k = rng.randrange(4)
    if k < 2:
        n = rng.randrange(len(MEDIA))
        if alone or rng.random() < .7:
            return [128 | n]
        return [1, n] if rng.random() < .8 else [2, 0, n]
    if k == 2:
        t = rng.choice(MEDIA)
    else:
        t = rng.choice((rng.choice(OTHER_MEDIA), token(rng) + '/' + token(rng)))
    return codes(t) + [0]


def text_value(rng):
    k = rng.randrange(4)
    if k == 0:
        return [0]
    if k < 3:
        return codes(token(rng)) + [0]
    return [34] + codes(text(rng)) + [0]


def param(rng, name):
    if name not in PARAMS:
        o = codes(name) + [0]
        k = rng.randrange(4)
        if k == 0:
            return o + integer(rng, number(rng))
        if k == 1:
            return o + [0]
        return o + text_value(rng)
    n = PARAMS[name]
    o = [128 | n] if rng.random() < .85 else [1, n]
    k = rng.randrange(8)
    if name == 'Q':
        return o + (uintvar(rng.randint(1, 1099)))
    if name == 'Charset':
        return o + ([128] if k == 0 else integer(rng, rng.choice(CHARSETS + [2, 127, 128, 300])))
    if name == 'Level':
        return o + version(rng)
    if name == 'Type':
        return o + integer(rng, number(rng))
    if name == 'Type2':
        return o + ([128 | rng.randrange(128)] if k < 4 else codes(rng.choice(OTHER_MEDIA + MEDIA)) + [0])
    if name == 'Differences':
        return o + ([128 | rng.randrange(len(FIELDS))] if k < 4 else codes(token(rng)) + [0])
    if name == 'Padding':
        return o + [128 | rng.randrange(128)]
    return o + text_string(text(rng))


def content_type(rng):
    if rng.random() < .35:
        return media_octets(rng, True)
    o = media_octets(rng)
    names = rng.sample(sorted(PARAMS), rng.choice((0, 1, 1, 2, 3, 5)))
    if 'Type' in names and 'Type2' in names:
        names.remove('Type2')
    names += list(set([token(rng, 2) for _ in range(rng.choice((0, 0, 1, 2)))])
                  - set(PARAMS) - set(names))
    rng.shuffle(names)
    for n in names:
        o += param(rng, n)
    return bounded(rng, o)


# ---- part headers -----------------------------------------------------------
def part_header(rng, odd):
    k = rng.randrange(6)
    if odd and k == 0:
        # encodings whose meaning the library does not know
        return rng.choice((
            [128 | FIELDS.index('Content-Language'), 128 | rng.randrange(128)],
            [128 | FIELDS.index('Date')] + date(rng),
            [128 | FIELDS.index('Content-Disposition'), 4, 129, 134, 97, 0],
            [0xc5, 4, 129, 133, 97, 0],
            [0xc0] + codes('"<%s>' % token(rng)) + [0],
            [128 | FIELDS.index('Age')] + integer(rng, number(rng)),
            [128 | FIELDS.index('Content-Range'), 3, 1, 2, 3],
            [128 | FIELDS.index('Accept-Charset')] + integer(rng, 106)))
    if k == 1:
        return [128] + content_type(rng)
    if k == 2:
        return [128 | FIELDS.index('Pragma')] + \
            rng.choice(([128], bounded(rng, param(rng, token(rng, 2)))))
    if k == 3:
        return codes(token(rng, 2)) + [0] + text_string(text(rng))
    n = rng.choice([i for i, f in enumerate(FIELDS) if f not in ('Accept', 'Content-Type', 'Pragma')])
    return [128 | n] + text_string(text(rng))


def distinct(hs):
    """headers with names of their own"""
    out, seen = [], set()
    for h in hs:
        key = h[0] if h[0] >= 128 else tuple(h[:h.index(0)])
        if key not in seen:
            seen.add(key)
            out.append(h)
    return out


def part(rng, size=None):
    odd = rng.random() < .25
    ct = content_type(rng)
    hs = distinct([part_header(rng, odd) for _ in range(rng.choice((0, 0, 1, 2, 4)))])
    if size is None:
        size = rng.choice((0, 1, 2, 10, 126, 127, 128, 129, 300))
    d = [rng.randrange(256) for _ in range(size)]
    h = ct + [x for y in hs for x in y]
    return uintvar(len(h), rng.choice((0, 0, 0, 1))) + uintvar(size, rng.choice((0, 0, 0, 1))) + h + d


def body(rng, n=None):
    if n is None:
        n = rng.choice((0, 1, 1, 2, 3, 5))
    out = uintvar(n)
    for _ in range(n):
        out += part(rng)
    return out


def one_header(rng, name):
    return [128 | NUM[name]] + header_value(rng, name)


def message(rng, names=None, ct=None, apps=None):
    if names is None:
        names = rng.sample([n for n in sorted(NUM) if n != 'Content-Type'], rng.choice((0, 1, 3, 5, 9, 23)))
        if rng.random() < .6:
            first = [n for n in ('Message-Type', 'Transaction-Id', 'MMS-Version')]
            names = first + [n for n in names if n not in first]
    hs = [one_header(rng, n) for n in names]
    if apps is None:
        apps = rng.choice((0, 0, 0, 1, 2))
    for _ in range(apps):
        n = rng.choice(('X-Mms-Foo', 'X-Foo', token(rng, 2)))
        if n not in NUM:
            hs.insert(rng.randint(0, len(hs)), codes(n) + [0] + text_string(text(rng)))
    out = [x for h in distinct(hs) for x in h]
    if ct is None:
        ct = rng.random() < .7
    if ct:
        out += [0x84] + content_type(rng) + body(rng)
    return out
