# -*- coding: utf-8 -*-
"""Content types with parameters."""
from wsp import *

TEXTP = ['Name', 'Filename', 'Start', 'Start-info']
UNTYPED = ['charset', 'name', 'type', 'Comment', 'Domain', 'Path', 'Creation-date', 'Size', 'Max-Age',
           'SEC', 'MAC', 'Secure', 'boundary', 'x', 'X-Foo', 'q', 'padding']


def media(rng):
    k = rng.randrange(5)
    if k < 3:
        return rng.choice(MEDIA)
    if k == 3:
        return rng.choice(OTHER_MEDIA)
    return token(rng) + '/' + token(rng)


def sized(rng, n=None):
    n = length(rng) if n is None else n
    return ''.join([rng.choice('abcdefgh-. ') for _ in range(n)])


def value(rng, name):
    if name == 'Level':
        return rng.choice(('1.0', '1.14', '7', '2.9', '1.15', '1.2.3', '8.0', '0.0', '1.05', text(rng, high=False)))
    if name == 'Type':
        return rng.choice((rng.randint(0, 127), rng.choice(MEDIA), rng.choice(OTHER_MEDIA), 'application/smil'))
    if name == 'Padding':
        return rng.randint(0, 127)
    k = rng.randrange(6)
    if name in TEXTP:
        return sized(rng) if k == 0 else rng.choice(('<0000>', text(rng), token(rng)))
    if k == 0:
        return number(rng)
    if k == 1:
        return rng.choice((0, 127, 128, 255, 256, 65535, 2 ** 31 - 1))
    if k == 2:
        return sized(rng)
    if k == 3:
        return token(rng)
    return text(rng)


def params(rng, n=None):
    if n is None:
        n = rng.choice((0, 0, 1, 1, 2, 3, 4, 6, 12))
    out = {}
    for _ in range(n):
        k = rng.randrange(3)
        name = rng.choice(TEXTP + ['Level', 'Type', 'Padding']) if k == 0 else \
            rng.choice(UNTYPED) if k == 1 else token(rng)
        if name not in ('Q', 'Charset', 'Differences'):
            out[name] = value(rng, name)
    return out


def pairs(d):
    return [[codes(k), W(v)] for k, v in sorted(d.items())]


def WC(v):
    """a (media, parameters) pair"""
    return W(v)
