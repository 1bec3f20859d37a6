# -*- coding: utf-8 -*-
import glob
import os
from array import array
from foreign import *
from world import look_message, same
from messaging.sms.wap import (is_a_wap_push_notification, extract_push_notification,
                               is_mms_notification)


def string(o):
    return array('B', o).tostring()


def recognise(ctx, x, o=None):
    r = result(*ctx.run('is_a_wap_push_notification', is_a_wap_push_notification, x))
    if o is None:
        ctx.emit('is', bytes=False, r=r)
    else:
        ctx.emit('is', bytes=True, s=o, r=r)


SEEN = []


def extract(ctx, o, legal=True):
    got = []

    def go():
        m = extract_push_notification(string(o))
        got.append(m)
        return look_message(m)
    r = result(*ctx.run('extract_push_notification', go), **{'proj': same})
    n = {'ok': False, 'exc': ['None']}
    if got:
        n = result(*ctx.run('is_mms_notification', is_mms_notification, got[0]))
    ctx.emit('extract', s=o, r=r, legal=legal, notif=n)
    # those extracted before stay what they are
    rng = ctx.rng
    if got and legal and len(o) < 2000:
        SEEN.append((got[0], o))
        if len(SEEN) > 20:
            del SEEN[rng.randrange(20)]
        if rng.random() < .1:
            m, o = rng.choice(SEEN)
            ctx.emit('extract', s=o, r=result(*ctx.run('look', look_message, m), **{'proj': same}), legal=True,
                     notif=result(*ctx.run('is_mms_notification', is_mms_notification, m)))


CTYPE = codes('application/vnd.wap.mms-message') + [0]


def block(rng, n=None):
    """a header block of n octets"""
    k = rng.randrange(4)
    if n is None:
        if k == 0:
            return CTYPE + [0xaf, 0x84]
        if k == 1:
            return [0xbe, 0xaf, 0x84, 0x8d] + [128 | rng.randrange(128)]
        n = rng.choice((0, 1, 2, 5, rng.randint(0, 140)))
    o = (CTYPE * (n // len(CTYPE) + 1))[:n] if k == 2 else [rng.randrange(256) for _ in range(n)]
    if k == 3:
        # what looks like the message it precedes
        o = ([0x8c, 0x82, 0x98, 49, 0, 0x8d, 0x90] * (n // 7 + 1))[:n]
    return o


def notification(rng, leave=()):
    names = ['Message-Type', 'Transaction-Id', 'MMS-Version']
    rest = ['From', 'Subject', 'Message-Class', 'Message-Size', 'Expiry', 'Content-Location', 'Delivery-Report',
            'Date', 'To']
    rest = [n for n in rest if rng.random() < .7]
    for n in ('From', 'Content-Location'):
        if n not in rest:
            rest.append(n)
    rng.shuffle(rest)
    return message(rng, [n for n in names + rest if n not in leave], False)


def push(rng, b, m, pad=None):
    if pad is None:
        pad = rng.choice((0, 0, 0, 1, 2))
    return [rng.randrange(256), 6] + uintvar(len(b), pad) + b + m


def gen(ctx):
    rng = ctx.rng
    i = 0
    for b in range(256):
        if ctx.mine(b):
            for tail in ([], [0], [rng.randrange(256) for _ in range(9)]):
                o = [rng.randrange(256), b] + tail
                recognise(ctx, string(o), o)
            o = push(rng, block(rng), notification(rng))
            o[1] = b
            recognise(ctx, string(o), o)
            extract(ctx, o)
            o[0] = 6
            recognise(ctx, string(o), o)
            extract(ctx, o)
            recognise(ctx, chr(b), [b])
    if ctx.mine(0):
        recognise(ctx, '', [])
        recognise(ctx, string([6, 6]), [6, 6])
        extract(ctx, [6, 5, 0])
        for x in (1, None, [1, 6], array('B', [1, 6]), (1, 6), 1.5, {}, True):
            recognise(ctx, x)
    # every header length around the lengths of the length, padded and not
    for n in list(range(0, 300)) + [16382, 16383, 16384, 16385]:
        i += 1
        if ctx.mine(i):
            for pad in (0, 1, 3):
                extract(ctx, push(rng, block(rng, n), notification(rng), pad))
    for _ in range(ctx.n(120, 8000)):
        leave = [n for n in ('From', 'Content-Location') if rng.random() < .35]
        o = push(rng, block(rng), notification(rng, leave))
        recognise(ctx, string(o), o)
        extract(ctx, o)
        # other messages may be pushed as well
        extract(ctx, push(rng, block(rng), message(rng)))
    # senders and places that are empty are there nevertheless
    for f in ([0x89] + bounded(rng, [128, 0]), [0x89] + bounded(rng, [129]), []):
        for c in ([0x83, 0], [0x83, 97, 0], []):
            i += 1
            if ctx.mine(i):
                for m in (f + c, c + f, c + [0x96, 120, 0] + f):
                    extract(ctx, push(rng, block(rng), m))
    for n in range(0, 40):
        if ctx.mine(n):
            extract(ctx, push(rng, block(rng), notification(rng))[:n], False)
