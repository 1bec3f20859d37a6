# -*- coding: utf-8 -*-
"""The objects a user composes an MMS from, and what they look like."""
import mimetypes
import os
from array import array

from ctypes_ import *
from messaging.mms.mms_pdu import MMSDecoder, MMSEncoder
from messaging.mms.message import DataPart, MMSMessage, MMSMessagePage

EXT = ['jpg', 'jpeg', 'gif', 'png', 'wbmp', 'bmp', 'amr', 'mid', 'mp3', 'txt', 'html', 'smil', 'vcf', 'xyz',
       'tar.gz', 'unknown', '', '3gp', 'JPG', 'dat']

NAMES = ['my pic', ' x', 'A_b-', 'IMG_00', "it's ", 'a&b<c>', '"q"', '.hid', 'a+b=', 'x;y,', '100%', '50%20', 'a.b.c', '~',
         '(1)', '[x]', '#', '@', 'a\\b', '$', '!', '0', 'p' * 60]


def raw(x):
    """octets of data, or its projection where there are none"""
    if isinstance(x, array):
        x = x.tostring()
    if isinstance(x, basestring):
        return [ord(c) for c in x]
    return ['not data', type(x).__name__]


def pm(d):
    """a dictionary as sorted pairs of projections"""
    items = [[W(k), W(v)] for k, v in d.items()]
    items.sort(key=js)
    return items


def look_part(p):
    return {'headers': pm(p.headers), 'data': raw(p.data), 'len': len(p)}


def look_list(parts):
    seen = [look_part(p) for p in parts]
    return seen


def look_own(parts):
    """what is seen of a list that is its reader's to change"""
    seen = look_list(parts)
    if parts:
        parts.reverse()
        parts.append(parts[0])
        del parts[0]
    parts.append(DataPart())
    return seen


def item(x):
    if x is None:
        return []
    part, b, e = x
    return [{'part': look_part(part), 'b': P(b), 'e': P(e)}]


def look_page(p):
    return {'img': item(p.image), 'aud': item(p.audio), 'txt': item(p.text), 'dur': P(p.duration),
            'n': P(p.number_of_parts()), 'list': [item(x)[0] for x in p.data_parts]}


def look_composed(m):
    return {'headers': pm(m.headers), 'pages': [look_page(p) for p in m.pages], 'ct': P(m.content_type)}


def look_message(m):
    return {'headers': pm(m.headers), 'parts': look_list(m.data_parts)}


def dom(text):
    """what a reader of XML finds in a document"""
    from java.io import StringReader
    from javax.xml.parsers import DocumentBuilderFactory
    from org.xml.sax import InputSource
    b = DocumentBuilderFactory.newInstance().newDocumentBuilder()
    b.setErrorHandler(None)
    doc = b.parse(InputSource(StringReader(text)))

    def elements(n, name=None):
        out = []
        kids = n.getChildNodes()
        for i in range(kids.getLength()):
            k = kids.item(i)
            if k.getNodeType() == 1 and name in (None, k.getTagName()):
                out.append(k)
        return out

    def attr(n, a):
        return P(n.getAttribute(a)) if n.hasAttribute(a) else P(None)

    def whole(t):
        return int(t) if t.isdigit() and len(t) < 9 else -1

    root = doc.getDocumentElement()
    out = {'root': codes(root.getTagName()), 'w': P(None), 'h': P(None), 'regions': [], 'pars': []}
    for head in elements(root, 'head'):
        for layout in elements(head, 'layout'):
            for r in elements(layout, 'root-layout'):
                out['w'], out['h'] = attr(r, 'width'), attr(r, 'height')
            out['regions'] += [{'id': attr(r, 'id'), 'box': [whole(r.getAttribute(a)) for a in
                                                            ('left', 'top', 'width', 'height')]}
                               for r in elements(layout, 'region')]
    for body in elements(root, 'body'):
        for par in elements(body):
            out['pars'].append({'dur': attr(par, 'duration') if par.getTagName() == 'par' else P(None),
                                'items': [{'tag': codes(k.getTagName()), 'src': attr(k, 'src'),
                                           'region': attr(k, 'region'), 'begin': attr(k, 'begin'),
                                           'end': attr(k, 'end')} for k in elements(par)]})
    return out


def same(x):
    return x


class World(object):
    """keeps the real objects and tells the trace what it does to them"""
    def __init__(self, ctx):
        self.ctx = ctx
        if not hasattr(ctx, 'codecs'):
            ctx.codecs = MMSEncoder(), MMSDecoder()
        self.encoder, self.decoder = ctx.codecs
        self.rng = ctx.rng
        self.files, self.parts, self.pages, self.msgs = [], [], [], []
        self.newer = {}
        # codecs may be made for each message or kept
        self.kept = self.rng.choice((0, 1, .5))
        self.wide = self.rng.choice((0, 0, .2, .5, 1))
        ctx.emit('reset')
        self.dir = os.path.join(ctx.scratch, 'm')
        if not os.path.isdir(self.dir):
            os.mkdir(self.dir)

    def u(self, x):
        """texts may come as either kind of string"""
        if self.rng.random() < self.wide:
            if isinstance(x, str) and max([ord(c) for c in x] or [0]) < 128:
                return unicode(x)
            if isinstance(x, tuple):
                return tuple([self.u(y) for y in x])
            if isinstance(x, dict):
                return dict([(self.u(k), self.u(v)) for k, v in x.items() if k != 'Level'] +
                            [(k, v) for k, v in x.items() if k == 'Level'])
            if type(x) is int:
                return long(x)
        return x

    def r(self, what, fn, *a):
        v, e = self.ctx.run(what, fn, *a)
        return ({'ok': False, 'exc': excnames(e)} if e is not None else {'ok': True}), v

    # ---- files
    def file(self, data, name=None):
        if name is None:
            name = '%s%d.%s' % (self.rng.choice(('a', 'b', 'pic') if self.rng.random() < .7 else NAMES),
                                len(self.files), self.rng.choice(EXT))
        name = name.rstrip('.') if name.endswith('.') else name
        d = os.path.join(self.dir, 'd%d' % len(self.files))
        if not os.path.isdir(d):
            os.mkdir(d)
        path = os.path.join(d, name)
        with open(path, 'wb') as f:
            f.write(''.join([chr(c) for c in data]))
        self.files.append(path)
        self.ctx.emit('file', name=codes(name), data=data,
                      type=codes(mimetypes.guess_type(name)[0] or 'application/octet-stream'))
        return len(self.files)

    def newest(self, f):
        while f in self.newer:
            f = self.newer[f]
        return f

    def rewrite(self, f, data):
        """other data in a file; who has the old data keeps it once it was read"""
        f = self.newest(f)
        for d in range(len(self.parts)):
            self.lookpart(d + 1)
        for p in range(len(self.pages)):
            self.look(p + 1)
        path = self.files[f - 1]
        with open(path, 'wb') as h:
            h.write(''.join([chr(c) for c in data]))
        self.files.append(path)
        self.newer[f] = len(self.files)
        name = os.path.basename(path)
        self.ctx.emit('file', name=codes(name), data=data,
                      type=codes(mimetypes.guess_type(name)[0] or 'application/octet-stream'))
        return len(self.files)

    def arg(self, a):
        """(what is passed, how it is told)"""
        if isinstance(a, int):
            a = self.newest(a)
            return self.u(self.files[a - 1]), {'k': 'file', 'f': a}
        if a == 'missing':
            return os.path.join(self.dir, 'nowhere', 'x.jpg'), {'k': 'missing'}
        if a == 'directory':
            return self.dir, {'k': 'missing'}
        return a[0], {'k': 'other'}

    # ---- parts
    def part(self, a=None):
        if a is None:
            r, v = self.r('DataPart', DataPart)
            self.ctx.emit('part', arg={'k': 'none'}, r=r)
        else:
            x, told = self.arg(a)
            r, v = self.r('DataPart', DataPart, x)
            self.ctx.emit('part', arg=told, r=r)
            if told['k'] != 'file':
                return None
        self.parts.append(v)
        return len(self.parts)

    def load(self, d, a):
        x, told = self.arg(a)
        r, _ = self.r('from_file', self.parts[d - 1].from_file, x)
        self.ctx.emit('load', d=d, arg=told, r=r)

    def data(self, d, data, media, params):
        s = ''.join([chr(c) for c in data])
        if self.rng.random() < .3:
            s = array('B', data)
        if not params and self.rng.random() < .5:
            r, _ = self.r('set_data', self.parts[d - 1].set_data, s, self.u(media))
        else:
            r, _ = self.r('set_data', self.parts[d - 1].set_data, s, self.u(media), self.u(dict(params)))
        self.ctx.emit('data', d=d, data=data, media=codes(media), params=pairs(params), r=r)

    def ptext(self, d, t):
        r, _ = self.r('set_text', self.parts[d - 1].set_text, self.u(t))
        self.ctx.emit('ptext', d=d, data=codes(t), r=r)

    def ctype(self, d, media):
        r, _ = self.r('content_type', setattr, self.parts[d - 1], 'content_type', self.u(media))
        self.ctx.emit('ctype', d=d, media=codes(media), r=r)

    def phdr(self, d, name, v):
        r, _ = self.r('headers', self.parts[d - 1].headers.__setitem__, self.u(name),
                      v if name.endswith('Version') else self.u(v))
        self.ctx.emit('phdr', d=d, name=codes(name), v=W(v), r=r)

    def lookpart(self, d):
        self.ctx.emit('lookpart', d=d, r=result(*self.ctx.run('part', look_part, self.parts[d - 1]),
                                                **{'proj': same}))

    # ---- pages
    def page(self):
        self.pages.append(MMSMessagePage())
        self.ctx.emit('page')
        return len(self.pages)

    def media(self, kind, p, a, *times):
        x, told = self.arg(a)
        b, e = (list(times) + [0, 0])[:2]
        r, _ = self.r('add_' + kind, getattr(self.pages[p - 1], 'add_' + kind), str(x) if told['k'] == 'file' else x, *times)
        self.ctx.emit(kind, p=p, arg=told, b=P(b), e=P(e), r=r)

    def text(self, p, t, *times):
        b, e = (list(times) + [0, 0])[:2]
        r, _ = self.r('add_text', self.pages[p - 1].add_text, t, *times)
        self.ctx.emit('text', p=p, arg=P(t) if isinstance(t, str) else {'k': 'other'}, b=P(b), e=P(e), r=r)

    def duration(self, p, v):
        r, _ = self.r('set_duration', self.pages[p - 1].set_duration, v)
        self.ctx.emit('duration', p=p, v=P(v), r=r)

    WHICH = {'img': 'image', 'aud': 'audio', 'txt': 'text'}

    def itemhdr(self, p, which, name, v):
        x = getattr(self.pages[p - 1], self.WHICH[which])
        if x is not None:
            r, _ = self.r('headers', x[0].headers.__setitem__, self.u(name),
                      v)
            self.ctx.emit('itemhdr', p=p, which=which, name=codes(name), v=W(v), r=r)

    def itemdrop(self, p, which, name):
        x = getattr(self.pages[p - 1], self.WHICH[which])
        if x is not None and name in x[0].headers:
            r, _ = self.r('headers', x[0].headers.pop, name)
            self.ctx.emit('itemdrop', p=p, which=which, name=codes(name), r=r)

    def look(self, p):
        self.ctx.emit('look', p=p, r=result(*self.ctx.run('page', look_page, self.pages[p - 1]),
                                            **{'proj': same}))

    # ---- messages
    def msg(self):
        m = MMSMessage()
        h = dict(m.headers)
        media, ps = h.pop('Content-Type')
        self.msgs.append(m)
        self.ctx.emit('msg', hdrs=pairs(h), ct={'media': codes(media), 'params': pairs(ps)})
        return len(self.msgs)

    def sethdr(self, m, name, v):
        r, _ = self.r('headers', self.msgs[m - 1].headers.__setitem__, self.u(name),
                      v if name.endswith('Version') else self.u(v))
        self.ctx.emit('sethdr', m=m, name=codes(name), v=W(v), r=r)

    def delhdr(self, m, name):
        if name in self.msgs[m - 1].headers:
            r, _ = self.r('headers', self.msgs[m - 1].headers.pop, name)
            self.ctx.emit('delhdr', m=m, name=codes(name), r=r)

    def setct(self, m, media, ps):
        r, _ = self.r('headers', self.msgs[m - 1].headers.__setitem__, 'Content-Type', self.u((media, dict(ps))))
        self.ctx.emit('setct', m=m, media=codes(media), params=pairs(ps), r=r)

    def addpage(self, m, p):
        r, _ = self.r('add_page', self.msgs[m - 1].add_page, self.pages[p - 1])
        self.ctx.emit('addpage', m=m, p=p, r=r)

    def addpart(self, m, d):
        r, _ = self.r('add_data_part', self.msgs[m - 1].add_data_part, self.parts[d - 1])
        self.ctx.emit('addpart', m=m, d=d, r=r)

    def size(self, m, w, h):
        self.msgs[m - 1].width, self.msgs[m - 1].height = w, h
        self.ctx.emit('size', m=m, w=w, h=h, r={'ok': True})

    def doc(self, m):
        v, e = self.ctx.run('smil', self.msgs[m - 1].smil)
        return [] if e is not None else raw(v)

    def encode(self, m):
        if self.rng.random() < self.kept:
            return self.ctx.run('encode', self.encoder.encode, m)
        return self.ctx.run('encode', m.encode)

    def decode(self, o):
        """what is seen of a PDU, and the message"""
        got = []

        def go():
            if self.rng.random() < self.kept:
                m = self.decoder.decode_data(o)
            else:
                m = MMSMessage.from_data(o)
            got.append(m)
            return look_message(m)
        r = result(*self.ctx.run('decode', go), **{'proj': same})
        return r, got[-1] if got else None

    def enc(self, m):
        v, e = self.encode(self.msgs[m - 1])
        seen = {'ok': False, 'exc': ['none']}
        if e is None:
            seen, _ = self.decode(v)
        self.ctx.emit('enc', m=m, doc=self.doc(m), r=result(v, e, octets), seen=seen)

    def list(self, m):
        self.ctx.emit('list', m=m, doc=self.doc(m),
                      r=result(*self.ctx.run('data_parts', lambda: look_own(self.msgs[m - 1].data_parts)),
                               **{'proj': same}))

    def smil(self, m):
        v, e = self.ctx.run('smil', self.msgs[m - 1].smil)
        d = {'ok': False, 'exc': ['none']}
        if e is None:
            d = result(*self.ctx.run('dom', dom, v), **{'proj': same})
        self.ctx.emit('smil', m=m, r=result(v, e), dom=d)


    def lookmsg(self, m):
        self.ctx.emit('lookmsg', m=m, r=result(*self.ctx.run('message', look_composed, self.msgs[m - 1]),
                                               **{'proj': same}))

    # ---- the files messages are kept in
    def path(self, f):
        return os.path.join(self.dir, 'message%d.mms' % f)

    def stored(self, f):
        if not os.path.exists(self.path(f)):
            return {'k': 'none'}
        with open(self.path(f), 'rb') as h:
            return {'k': 'a', 'a': raw(h.read())}

    def nofiles(self):
        for f in (1, 2):
            if os.path.exists(self.path(f)):
                os.unlink(self.path(f))

    def tofile(self, m, f):
        r, _ = self.r('to_file', self.msgs[m - 1].to_file, self.path(f))
        o = self.stored(f)
        seen = {'ok': False, 'exc': ['none']}
        if o['k'] == 'a':
            seen = result(*self.ctx.run('from_data', lambda: look_message(
                MMSMessage.from_data(array('B', o['a'])))), **{'proj': same})
        self.ctx.emit('tofile', m=m, f=f, r=r, stored=o, seen=seen, doc=self.doc(m))

    def fromfile(self, f):
        o = self.stored(f)
        load = MMSMessage.from_file
        if self.rng.random() < self.kept:
            load = self.decoder.decode_file
        a = result(*self.ctx.run('from_file', lambda: look_message(load(self.path(f)))),
                   **{'proj': same})
        b = result(*self.ctx.run('from_data', lambda: look_message(MMSMessage.from_data(array('B', o['a'])))),
                   **{'proj': same})
        self.ctx.emit('fromfile', f=f, a=a, b=b, stored=self.stored(f))

    def adopt(self, f):
        o = self.stored(f)
        m, e = self.ctx.run('from_file', MMSMessage.from_file, self.path(f))
        if e is not None:
            return None
        self.msgs.append(m)
        self.parts.extend(m.data_parts)
        self.ctx.emit('adopt', f=f, stored=o)
        return len(self.msgs)

    def receive(self, m):
        """the message again, as its receiver has it"""
        v, e = self.encode(self.msgs[m - 1])
        if e is not None:
            return None
        o = array('B', v)
        got, e = self.ctx.run('from_data', MMSMessage.from_data, v)
        parts = []
        if e is None:
            parts, e = self.ctx.run('data_parts', lambda: list(got.data_parts))
        self.ctx.emit('receive', o=raw(o), r={'ok': e is None})
        if e is not None:
            return None
        self.msgs.append(got)
        ds = []
        for p in parts:
            self.parts.append(p)
            ds.append(len(self.parts))
        return len(self.msgs), ds

    def away(self, *looks):
        """looks while the files are not there; afterwards they are back"""
        paths = [p for p in sorted(set(self.files)) if os.path.exists(p)]
        self.ctx.emit('away')
        for p in paths:
            os.rename(p, p + '.away')
        try:
            for look in looks:
                look()
        finally:
            for p in paths:
                os.rename(p + '.away', p)
        self.ctx.emit('back')

    def touch(self):
        """other media at the same place"""
        for path in self.files:
            with open(path, 'wb') as h:
                h.write('replaced')
        self.ctx.emit('touch')


def data(rng, n=None):
    if n is None:
        n = rng.choice((0, 1, 2, 5, 20, 60, 126, 127, 128, 129, 130))
    return [rng.randrange(256) for _ in range(n)]


def estring(rng, hi=30):
    """a legal value of a header with an Encoded-string-value"""
    while 1:
        t = sized(rng) if rng.random() < .15 else text(rng, hi)
        if t[:1] >= ' ':
            return t
        if not t:
            return 'x'
