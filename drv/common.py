# -*- coding: utf-8 -*-
# Runs under the interpreter of the code under test (Jython 2.7).
"""Driver side of the checks: calls the real code and records what it did.

A property module offers gen(ctx); it calls the library through its public
interface only and emits one event per call or session step.  Values are
projected to the tagged records that spec/Obs.tla describes.
"""
import os
import sys
import threading
import time
import random
from datetime import datetime, timedelta
from array import array

LIMIT = 2 ** 31


class Raw(object):
    """JSON text to be copied verbatim"""
    def __init__(self, s):
        self.s = s


def js(x):
    if x is True:
        return 'true'
    if x is False:
        return 'false'
    t = type(x)
    if t is int:
        return str(x)
    if t is list or t is tuple:
        return '[' + ','.join([js(y) for y in x]) + ']'
    if t is dict:
        assert x, 'empty record'
        return '{' + ','.join(['"%s":%s' % (k, js(v)) for k, v in sorted(x.items())]) + '}'
    if t is Raw:
        return x.s
    if t is str or t is unicode:
        for c in x:
            o = ord(c)
            if o < 32 or o > 126 or c in '"\\':
                raise ValueError('unsafe string %r' % x)
        return '"%s"' % x
    if t is long and abs(x) < LIMIT:
        return str(int(x))
    raise ValueError('cannot write %r' % (x,))


def codes(s):
    return [ord(c) for c in s]


def bigbytes(n):
    out = []
    while n:
        out.insert(0, int(n & 255))
        n >>= 8
    return out


def P(x, depth=0):
    """projects a value of the code under test"""
    if x is None:
        return {'k': 'none'}
    if isinstance(x, bool):
        return {'k': 'b', 'b': bool(x)}
    if isinstance(x, (int, long)):
        if abs(x) < LIMIT:
            return {'k': 'i', 'v': int(x)}
        return {'k': 'I', 'big': bigbytes(abs(x)), 'neg': x < 0}
    if isinstance(x, basestring):
        return {'k': 's', 'c': codes(x)}
    if isinstance(x, float):
        if not abs(x) < 2000:
            return {'k': 'o', 'o': 'float'}
        return {'k': 'f', 'f': int(round(x * 1000000))}
    if isinstance(x, datetime):
        return {'k': 'd' if x.tzinfo is None else 'dz',
                'd': [x.year, x.month, x.day, x.hour, x.minute,
                      x.second, x.microsecond]}
    if isinstance(x, array):
        return {'k': 'a', 'a': [int(y) for y in x]}
    if depth > 6:
        return {'k': 'o', 'o': 'deep'}
    if isinstance(x, tuple):
        return {'k': 't', 't': [P(y, depth + 1) for y in x]}
    if isinstance(x, list):
        return {'k': 'l', 'l': [P(y, depth + 1) for y in x]}
    if isinstance(x, dict):
        items = [[P(k, depth + 1), P(v, depth + 1)] for k, v in x.items()]
        items.sort(key=js)
        return {'k': 'm', 'm': items}
    return {'k': 'o', 'o': type(x).__name__}


def excnames(e):
    out = []
    for c in getattr(e, '__class__', type(e)).__mro__ \
            if hasattr(getattr(e, '__class__', None), '__mro__') else [type(e)]:
        n = c.__name__
        if n not in ('object', 'BaseException', 'type'):
            out.append(n)
    return out or ['Exception']


# properties whose quick checks can afford more
MORE = dict([(p, 4) for p in ('C06', 'C10', 'C15', 'C16', 'C17', 'C20', 'C21', 'C22', 'C23', 'C24', 'C25')] +
            [(p, 3) for p in ('C05', 'C08', 'C09', 'C14')])


class Ctx(object):
    def __init__(self, prop, seed, tier, shard, nshards, out, scratch,
                 behaviours):
        self.prop = prop
        self.seed = seed
        self.tier = tier
        self.shard = shard
        self.nshards = nshards
        self.rng = random.Random(seed * 1000003 + shard * 7919 + 17)
        self.common = random.Random(seed)      # same in every shard
        self.f = open(out, 'wb')
        self.scratch = scratch
        self.behaviours_file = behaviours
        self.deadline = None
        self.doing = 'nothing'
        self.count = 0
        self.t = 0
        self.lock = threading.Lock()
        th = threading.Thread(target=self._watch)
        th.setDaemon(True)
        th.start()

    quick = property(lambda self: self.tier == 'quick')

    def n(self, quick, thorough):
        """amount of work per shard"""
        return quick * MORE.get(self.prop, 1) if self.tier == 'quick' else thorough

    def mine(self, i):
        return i % self.nshards == self.shard

    def _watch(self):
        while True:
            time.sleep(0.5)
            d = self.deadline
            if d is not None and time.time() > d:
                with self.lock:
                    self.f.write('{"op":"timeout","what":%s}\n' % js(self.doing))
                    self.f.flush()
                    os._exit(3)

    def emit(self, op, **fields):
        fields['op'] = op
        with self.lock:
            self.f.write(js(fields) + '\n')
        self.count += 1

    def run(self, what, fn, *args, **kw):
        """(value, None) or (None, exception)"""
        self.doing = what
        self.deadline = time.time() + 30
        try:
            try:
                return fn(*args, **kw), None
            except (KeyboardInterrupt, SystemExit):
                raise
            except Exception, e:
                return None, e
            except:                       # Java exceptions, old-style classes
                return None, sys.exc_info()[1]
        finally:
            self.deadline = None

    def call(self, what, fn, *args, **kw):
        """the projected result of a call"""
        v, e = self.run(what, fn, *args, **kw)
        if e is not None:
            return {'ok': False, 'exc': excnames(e)}
        return {'ok': True, 'v': P(v)}

    def behaviours(self):
        """behaviours printed by TLC, one JSON value per line"""
        import json
        with open(self.behaviours_file) as f:
            for i, line in enumerate(f):
                if self.mine(i):
                    yield json.loads(line)


def result(v, e, proj=P):
    if e is not None:
        return {'ok': False, 'exc': excnames(e)}
    return {'ok': True, 'v': proj(v)}
