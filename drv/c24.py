# -*- coding: utf-8 -*-
from array import array
from foreign import *
from messaging.mms.message import MMSMessage
from messaging.mms.iterator import PreviewIterator
from messaging.sms import SmsDeliver
from messaging.sms.wap import extract_push_notification

CAREFUL = '''short_integer long_integer integer_value delta_seconds_value date_value token_text extension_media
short_length value_length well_known_media well_known_parameter no_value accept_value pragma_value boolean_value
priority_value sender_visibility_value compact_value constrained_encoding constrained_media quoted_string'''.split()
OTHERS = '''uint_8 uint_var text_string uri_value version_value q_value well_known_charset text_value untyped_value
typed_value media_type encoded_string_value delivery_time_value from_value message_class_value message_type_value
response_status_value status_value expiry_value parameter typed_parameter untyped_parameter well_known_header
application_header header content_type_value content_general_form field_name mms_header'''.split()
ALL = CAREFUL + OTHERS


class Session(object):
    def __init__(self, ctx, s):
        self.ctx, self.s = ctx, s
        self.it = PreviewIterator(ctx.rng.choice((list, iter, lambda x: array('B', x)))(s))
        ctx.emit('new', s=s, f='')

    def attempt(self, name):
        r = result(*self.ctx.run('decode_' + name, decoder(name), self.it))
        self.ctx.emit('try', f=name, r=r)
        return r

    def look(self):
        # what preview delivers from where it stands
        self.ctx.emit('look', f='', seen=drain(self.it.preview))
        self.it.reset_preview()

    def take(self):
        self.ctx.emit('take', f='', r=self.ctx.call('next', self.it.next))

    def drain(self):
        self.ctx.emit('drain', f='', rest=drain(self.it.next))


def single(ctx, name, s, look):
    x = Session(ctx, s)
    r = x.attempt(name)
    if not r['ok'] and look:
        x.look()
    x.drain()


def octets_(rng):
    n = rng.choice((0, 1, 1, 2, 3, rng.randint(0, 12), rng.randint(0, 40)))
    return [rng.choice((0, 1, 2, 30, 31, 32, 34, 47, 127, 128, 129, 130, 255, rng.randrange(256), rng.randrange(32),
                        rng.randrange(128, 200), rng.randrange(97, 123))) for _ in range(n)]


def almost(rng):
    """something legal, or nearly so"""
    k = rng.randrange(7)
    if k == 0:
        o = content_type(rng)
    elif k == 1:
        o = part_header(rng, True)
    elif k == 2:
        o = header_value(rng, rng.choice([n for n in sorted(NUM) if n != 'Content-Type']))
    elif k == 3:
        o = bounded(rng, param(rng, rng.choice(sorted(PARAMS) + [token(rng, 2)])))
    elif k == 4:
        o = media_octets(rng)
    elif k == 5:
        # a length that promises too much or too little
        o = param(rng, rng.choice(sorted(PARAMS) + [token(rng, 2)]))
        o = value_length(rng, max(0, len(o) + rng.choice((-3, -2, -1, 1, 2, 200)))) + o
    else:
        o = long_int(rng, number(rng))
    k = rng.randrange(5)
    if k == 0 and o:
        o[rng.randrange(len(o))] = rng.randrange(256)
    elif k == 1:
        o = o[:rng.randint(0, len(o))]
    return o + (octets_(rng) if rng.random() < .5 else [])


def damage(rng, o):
    o = list(o)
    for _ in range(rng.choice((0, 1, 1, 2, 5))):
        k = rng.randrange(4)
        j = rng.randint(0, len(o))
        if k == 0:
            o[j:j + 1] = [rng.randrange(256)]
        elif k == 1:
            o[j:j] = rng.choice(([255] * rng.randint(1, 6), [128] * 5, [rng.randrange(256)]))
        elif k == 2:
            del o[j:j + rng.choice((1, 2, 10))]
        else:
            o = o[:j]
    return o


def whole(ctx, what, fn, o):
    v, e = ctx.run(what, fn)
    ctx.emit('whole', f=what, n=len(o), r={'ok': e is None})


def gen(ctx):
    rng = ctx.rng
    i = 0
    for name in ALL:
        for b in range(256):
            i += 1
            if ctx.mine(i):
                for tail in ([], [rng.randrange(256)], octets_(rng)):
                    single(ctx, name, [b] + tail, rng.random() < .5)
    for name in CAREFUL:
        for _ in range(ctx.n(40, 3000)):
            single(ctx, name, rng.choice((octets_, almost))(rng), rng.random() < .5)
    for _ in range(ctx.n(500, 30000)):
        x = Session(ctx, rng.choice((octets_, almost, almost))(rng))
        if rng.random() < .1:
            x.take()
        ok = False
        for _ in range(rng.randint(1, 8)):
            r = x.attempt(rng.choice(CAREFUL if rng.random() < .8 else ALL))
            if rng.random() < .1:
                x.look()
            elif rng.random() < .1:
                x.take()
            if not r['ok'] and 'DecodeError' not in r['exc']:
                break
        x.drain()
    # anything at all comes to an end
    for _ in range(ctx.n(150, 20000)):
        o = damage(rng, message(rng))
        whole(ctx, 'from_data', lambda: MMSMessage.from_data(array('B', o)), o)
        p = damage(rng, [1, 6] + uintvar(rng.choice((0, 3, 2 ** 35))) + o)
        whole(ctx, 'push', lambda: extract_push_notification(array('B', p).tostring()), p)
        o = octets_(rng)
        whole(ctx, 'from_data', lambda: MMSMessage.from_data(array('B', o)), o)
        o = [0x84, 163] + uintvar(rng.choice((1, 3, 200, 2 ** 14, 2 ** 31, 2 ** 40))) + \
            uintvar(rng.choice((0, 2, 2 ** 20, 2 ** 33))) + uintvar(rng.choice((0, 2, 2 ** 20, 2 ** 33))) + octets_(rng)
        whole(ctx, 'from_data', lambda: MMSMessage.from_data(array('B', o)), o)
        h = ''.join(['%02X' % b for b in octets_(rng) + octets_(rng) + octets_(rng)])
        whole(ctx, 'SmsDeliver', lambda: SmsDeliver(h), h)
