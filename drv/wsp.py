# -*- coding: utf-8 -*-
"""Shared by the drivers of the WSP and MMS properties."""
from array import array
from datetime import datetime

from common import P, bigbytes, codes, js, excnames
from messaging.mms.iterator import PreviewIterator
from messaging.mms.wsp_pdu import Decoder, Encoder
from messaging.mms.mms_pdu import MMSDecoder, MMSEncoder

MEDIA = '''*/* text/* text/html text/plain text/x-hdml text/x-ttml text/x-vCalendar text/x-vCard
text/vnd.wap.wml text/vnd.wap.wmlscript text/vnd.wap.wta-event multipart/* multipart/mixed
multipart/form-data multipart/byterantes multipart/alternative application/* application/java-vm
application/x-www-form-urlencoded application/x-hdmlc application/vnd.wap.wmlc
application/vnd.wap.wmlscriptc application/vnd.wap.wta-eventc application/vnd.wap.uaprof
application/vnd.wap.wtls-ca-certificate application/vnd.wap.wtls-user-certificate
application/x-x509-ca-cert application/x-x509-user-cert image/* image/gif image/jpeg image/tiff
image/png image/vnd.wap.wbmp application/vnd.wap.multipart.* application/vnd.wap.multipart.mixed
application/vnd.wap.multipart.form-data application/vnd.wap.multipart.byteranges
application/vnd.wap.multipart.alternative application/xml text/xml application/vnd.wap.wbxml
application/x-x968-cross-cert application/x-x968-ca-cert application/x-x968-user-cert
text/vnd.wap.si application/vnd.wap.sic text/vnd.wap.sl application/vnd.wap.slc text/vnd.wap.co
application/vnd.wap.coc application/vnd.wap.multipart.related application/vnd.wap.sia
text/vnd.wap.connectivity-xml application/vnd.wap.connectivity-wbxml application/pkcs7-mime
application/vnd.wap.hashed-certificate application/vnd.wap.signed-certificate
application/vnd.wap.cert-response application/xhtml+xml application/wml+xml text/css
application/vnd.wap.mms-message application/vnd.wap.rollover-certificate
application/vnd.wap.locc+wbxml application/vnd.wap.loc+xml application/vnd.syncml.dm+wbxml
application/vnd.syncml.dm+xml application/vnd.syncml.notification application/vnd.wap.xhtml+xml
application/vnd.wv.csp.cir application/vnd.oma.dd+xml application/vnd.oma.drm.message
application/vnd.oma.drm.content application/vnd.oma.drm.rights+xml
application/vnd.oma.drm.rights+wbxml'''.split()
OTHER_MEDIA = ['application/smil', 'audio/amr', 'audio/mid', 'video/3gpp', 'x-foo/x-bar', 'image/bmp',
               'text/x-python', 'application/octet-stream', 'a', 'a/b', 'text/plainx', 'TEXT/PLAIN',
               'image/svg+xml', 'text/Plain', '*/x']
FIELDS = '''Accept Accept-Charset Accept-Encoding Accept-Language Accept-Ranges Age Allow
Authorization Cache-Control Connection Content-Base Content-Encoding Content-Language Content-Length
Content-Location Content-MD5 Content-Range Content-Type Date Etag Expires From Host If-Modified-Since
If-Match If-None-Match If-Range If-Unmodified-Since Location Last-Modified Max-Forwards Pragma
Proxy-Authenticate Proxy-Authorization Public Range Referer Retry-After Server Transfer-Encoding
Upgrade User-Agent Vary Via Warning WWW-Authenticate Content-Disposition X-Wap-Application-Id
X-Wap-Content-URI X-Wap-Initiator-URI Accept-Application Bearer-Indication Push-Flag Profile
Profile-Diff Profile-Warning'''.split()
LATER_FIELDS = ['Expect', 'TE', 'Trailer', 'X-Wap-Tod', 'Content-ID', 'Set-Cookie', 'Cookie',
                'Encoding-Version', 'X-WAP-Security']


def W(x, depth=0):
    """projection with whole numbers as octets"""
    if isinstance(x, bool):
        return P(x)
    if isinstance(x, (int, long)):
        if x < 0:
            return {'k': 'neg', 'n': bigbytes(-x)}
        return {'k': 'n', 'n': bigbytes(x)}
    if depth < 7:
        if isinstance(x, tuple):
            return {'k': 't', 't': [W(y, depth + 1) for y in x]}
        if isinstance(x, list):
            return {'k': 'l', 'l': [W(y, depth + 1) for y in x]}
        if isinstance(x, dict):
            items = [[W(k, depth + 1), W(v, depth + 1)] for k, v in x.items()]
            items.sort(key=js)
            return {'k': 'm', 'm': items}
    return P(x)


def octets(x):
    """a sequence of octets, or whatever it is"""
    if isinstance(x, (list, array)):
        for y in x:
            if isinstance(y, bool) or not isinstance(y, (int, long)) or not 0 <= y <= 255:
                break
        else:
            return {'k': 'a', 'a': [int(y) for y in x]}
    return W(x)


def result(v, e, proj=W):
    if e is not None:
        return {'ok': False, 'exc': excnames(e)}
    return {'ok': True, 'v': proj(v)}


def drain(nxt, limit=200000):
    out = []
    try:
        while len(out) < limit:
            out.append(int(nxt()))
    except StopIteration:
        pass
    return out


def decoder(name):
    if hasattr(Decoder, 'decode_' + name):
        return getattr(Decoder, 'decode_' + name)
    return getattr(MMSDecoder, 'decode_' + name)


def scribble(x):
    """what a caller may do with a value that it got"""
    if isinstance(x, dict):
        x.clear()
        x['Scribble'] = 1
    elif isinstance(x, list):
        x.append(85)
        x.reverse()
    elif isinstance(x, array):
        x.append(85)
    elif isinstance(x, tuple):
        for y in x:
            scribble(y)


def again(ctx, fn):
    """fn, now and then after a use of an earlier result of the same call"""
    def twice(*args):
        scribble(fn(*args))
        return fn(*args)
    return twice if ctx.rng.random() < .15 else fn


def dec(ctx, name, s, **extra):
    """decodes and looks at what is left"""
    make = array('B', s) if ctx.rng.random() < .5 else list(s)
    if ctx.rng.random() < .1:
        try:
            scribble(decoder(name)(PreviewIterator(make[:])))
        except Exception:
            pass
    it = PreviewIterator(make)
    fn = decoder(name)
    r = result(*ctx.run('decode_' + name, fn, it))
    rest = drain(it.next)
    ctx.emit('dec', f=name, s=s, r=r, rest=rest, **extra)
    return r


TOKENCH = [c for c in map(chr, range(33, 127)) if c not in '()<>@,;:\\"/[]?={}']


def token(rng, lo=1, hi=12):
    n = rng.randint(lo, hi)
    if rng.random() < .7:
        return ''.join([rng.choice('abcXYZ019-_.') for _ in range(n)])
    return ''.join([rng.choice(TOKENCH) for _ in range(n)])


def text(rng, hi=30, high=True):
    """TEXT"""
    k = rng.randrange(7)
    n = rng.choice((0, 1, 2, rng.randint(0, hi), rng.randint(0, hi)))
    if k < 3:
        return ''.join([rng.choice('abc XYZ,.;/<>@"\'\\=()[]{}?:!') for _ in range(n)])
    if k == 3:
        return token(rng)
    if k == 4 and high:
        return ''.join([chr(rng.choice((rng.randint(128, 255), rng.randint(32, 126))))
                        for _ in range(n)])
    if k == 5:
        return ''.join([rng.choice('ab\t\r\n x') for _ in range(n)])
    return ''.join([chr(rng.randint(32, 126)) for _ in range(n)])


def length(rng):
    """text lengths around the one and two octet value lengths"""
    return rng.choice((0, 1, 5, 26, 27, 28, 29, 30, 31, 32, 33, 100, 124, 125, 126, 127, 128, 129, 130, 200))


def number(rng):
    k = rng.randrange(6)
    if k == 0:
        return rng.choice((0, 1, 2, 126, 127, 128, 129, 255, 256, 257))
    if k == 1:
        b = rng.randint(1, 30)
        return (1 << (8 * b)) - rng.choice((1, 1, 2))
    if k == 2:
        return (1 << rng.randint(0, 238)) + rng.choice((0, 0, 1, -1))
    if k == 3:
        return rng.randint(0, 2 ** 16)
    if k == 4:
        return rng.getrandbits(rng.randint(1, 240))
    return rng.randint(0, 2 ** 31 - 1)


# ---------------------------------------------------- encodings of our own
def uintvar(n, pad=0):
    out = [n & 127]
    n >>= 7
    while n:
        out.insert(0, 128 | n & 127)
        n >>= 7
    return [128] * pad + out


def value_length(rng, n, quoted=None):
    if quoted is None:
        quoted = rng.random() < .25
    if n <= 30 and not quoted:
        return [n]
    return [31] + uintvar(n, rng.choice((0, 0, 0, 1)))


def long_int(rng, n, pad=True):
    o = bigbytes(n) or [0]
    if pad and rng.random() < .2 and len(o) < 30:
        o = [0] * rng.choice((1, 1, 2, 30 - len(o))) + o
    o = o[-30:]
    return [len(o)] + o


def integer(rng, n):
    if n < 128 and rng.random() < .6:
        return [128 | n]
    return long_int(rng, n)


def text_string(t):
    o = [ord(c) for c in t]
    if o and o[0] >= 128:
        o.insert(0, 127)
    return o + [0]
