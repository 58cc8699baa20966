"""Workload generators: archives, payloads, headers."""
import copy
import os
import zlib

from wv import refwarc
from wv.refwarc import Rec

BLK = 16384
VERSIONS = ['WARC/1.0', 'WARC/1.1', 'WARC/0.17', 'WARC/0.18']


def randbytes(rng, n):
    return rng.getrandbits(8 * n).to_bytes(n, 'little') if n else b''


TRICKY = [
    b'', b'\n', b'\r\n', b'\r\n\r\n', b'\r', b'WARC/1.0\r\n', b'WARC/1.0', b'\x00', b'\x1f\x8b', b'0\r\n\r\n',
    b'WARC/1.0\r\nWARC-Type: resource\r\nContent-Length: 3\r\n\r\nabc\r\n\r\n',
    b'HTTP/1.1 200 OK\r\nContent-Length: 2\r\n\r\nok', b'filedesc://x 0.0.0.0 20200101000000 text/plain 9\n',
    b'http://example.com/ 127.0.0.1 20200101000000 text/html 5\nhello', b'\n\n\n', b' ', b'\xff\xfe',
    b'\xc3\xa9', b'\xe9', b'--', b'abc\r\n', b'\r\nabc', b'\r\n\r\nWARC/1.0\r\n',
]


def payload(rng, big=False):
    """a block or body: structured, random, empty, boundary sized"""
    k = rng.random()
    if k < .08:
        return b''
    if k < .35:
        return b''.join(rng.choice(TRICKY) if rng.random() < .7 else randbytes(rng, rng.randrange(40))
                        for _ in range(rng.randrange(1, 9)))
    if k < .5:
        line = rng.choice([b'The quick brown fox\r\n', b'x', b'a\n', b'0123456789', b'\r\n'])
        return line * rng.randrange(1, 400)
    if k < .62:
        return randbytes(rng, rng.randrange(1, 600))
    if k < .72:
        return refwarc.gz(randbytes(rng, rng.randrange(300)))
    if k < .82:
        # around multiples of the usual buffer size
        n = BLK * rng.randrange(1, 4) + rng.randrange(-3, 4)
        return _fill(rng, n)
    if k < .88 and big:
        return _fill(rng, rng.randrange(100000, 900000))
    return _fill(rng, rng.randrange(1, 30000))


def _fill(rng, n):
    unit = rng.choice([randbytes(rng, 1021), b'a', b'ab\r\n', b'<p>hello world</p>\n', None])
    if unit is None:
        return randbytes(rng, n)
    return (unit * (n // len(unit) + 1))[:n]


WORDS = ['alpha', 'Beta', 'x', '0', '12', 'a:b', 'a=b', '"q"', 'b;c', 'http://h/', '-', '<u>', '%20',
         'GET', '{"a": 1}', '\u00e9t\u00e9', '\u65e5\u672c', '\U0001f600', 'tab\tin', 'sp  ace', ',', "it's", '~', '\\', '\u0416']
ASCII_WORDS = [w for w in WORDS if all(ord(c) < 128 for c in w)]


def value(rng, ascii_only=False, empty=True, maxwords=4):
    if empty and rng.random() < .05:
        return ''
    words = ASCII_WORDS if ascii_only else WORDS
    if rng.random() < .02:
        return ' '.join(rng.choice(words) for _ in range(rng.randrange(2000, 5000)))
    return ' '.join(rng.choice(words) for _ in range(rng.randrange(1, maxwords + 1)))


def token(rng):
    a = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_.!#$%&*+^`|~'
    return 'X-' + ''.join(rng.choice(a) for _ in range(rng.randrange(1, 14)))


def recase(rng, name):
    k = rng.random()
    if k < .7:
        return name
    if k < .8:
        return name.lower()
    if k < .9:
        return name.upper()
    return ''.join(rng.choice([c.lower(), c.upper()]) for c in name)


def uuid(rng):
    h = '%032x' % rng.getrandbits(128)
    return '<urn:uuid:%s-%s-%s-%s-%s>' % (h[:8], h[8:12], h[12:16], h[16:20], h[20:])


def warc_date(rng, micros=False):
    s = '%04d-%02d-%02dT%02d:%02d:%02d' % (rng.randrange(1996, 2040), rng.randrange(1, 13), rng.randrange(1, 29),
                                          rng.randrange(24), rng.randrange(60), rng.randrange(60))
    if micros:
        s += '.%06d' % rng.randrange(1000000)
    return s + 'Z'


def http_url(rng):
    if rng.random() < .01:
        return 'http://example.com/long?' + 'x' * rng.choice([200, 1100, 2100, 5000, 9000, 20000])
    return rng.choice(['http://', 'https://']) + rng.choice(
        ['example.com', 'h', 'www.example.org:8080', '127.0.0.1', '[::1]:81']) + rng.choice(
        ['/', '/a/b?c=d&e', '/%20x', '/caf\u00e9', '/a;b', '/' + 'p' * rng.randrange(60), '', '/%s' % rng.getrandbits(30)]) + (
        rng.choice(':;,.?#=&%/\\\'"()[]{}|^`~!*+@_-<') if rng.random() < .04 else '')


def other_url(rng):
    return rng.choice(['dns:example.com', 'urn:uuid:12', 'ftp://h/f', 'file:///x', 'whois://h/q', 'metadata://a/b',
                       'httpx://h/', 'HTTP://EXAMPLE.COM/'])


def odd_url(rng, u):
    """as some programs write it: in brackets, with spaces, with stray brackets"""
    k = rng.randrange(8)
    if k < 3:
        return '<%s>' % u if rng.random() < .8 else rng.choice(['< %s >', '<%s >', '< %s>', '<%s  >']) % u
    if k == 3:
        return rng.choice(['<<%s>', '<%s>>']) % u
    if k == 4:
        return rng.choice(['<%s', '%s>', '>%s<', '<%s/a>b']) % u
    if k == 5:
        return '<%s/a b>' % u
    return u + rng.choice(['/a b', '/a  b  c', '?x=<y>', '#a <b>', '/%20 '  'x'])


def norm_uri(uri):
    """documented corrections of WARC-Target-URI"""
    if uri is None:
        return None
    if uri.startswith('<') and uri.endswith('>'):
        uri = uri[1:-1]
    return uri.replace(' ', '%20')


STATUS = ['200 OK', '404 Not Found', '301 Moved Permanently', '204', '500 Internal  Error', '206 Partial Content', '999 x:y', '200 ']
METHODS = ['GET', 'HEAD', 'POST', 'PUT', 'DELETE', 'TRACE', 'OPTIONS', 'CONNECT', 'PATCH', 'PROPFIND', 'get', 'GETX']


def http_headers(rng, ascii_only=False, content_coding=False):
    """header list of an HTTP message; no coding headers unless wanted"""
    out = []
    names = ['Content-Type', 'Server', 'Date', 'Set-Cookie', 'Location', 'ETag', 'Vary', 'Host', 'User-Agent', 'Accept']
    for _ in range(rng.choice([0, 1, 2, 3, 5, 8])):
        n = recase(rng, rng.choice(names)) if rng.random() < .7 else token(rng)
        out.append((n, value(rng, ascii_only)))
    if out and rng.random() < .3:
        out.append(rng.choice(out))
    return out


def http_head(rng, rtype, ascii_only=True, eol=b'\r\n'):
    """(first line str, headers, header bytes)"""
    if rtype == 'request':
        first = '%s %s %s' % (rng.choice(METHODS), rng.choice(['/', '/a?b=c', '*', 'http://h/x']), rng.choice(['HTTP/1.1', 'HTTP/1.0']))
    else:
        first = '%s %s' % (rng.choice(['HTTP/1.1', 'HTTP/1.0']), rng.choice(STATUS).strip())
    hdrs = http_headers(rng, ascii_only)
    return first, hdrs, encode_http_head(first, hdrs, eol)


def encode_http_head(first, hdrs, eol=b'\r\n', enc='utf-8'):
    return first.encode(enc) + eol + b''.join(
        n.encode(enc) + b': ' + v.encode(enc) + eol for n, v in hdrs) + eol


RTYPES = ['warcinfo', 'response', 'resource', 'request', 'metadata', 'revisit', 'conversion', 'continuation', 'x-custom']
CUSTOM = ['x-custom', 'x-custom', 'X-Custom', 'Screenshot', 'warcinfo-x', 'revisits', 'responses', 'WACZ', 'arc_header', 'a/b']
CTYPES = {'warcinfo': 'application/warc-fields', 'response': 'application/http; msgtype=response',
          'request': 'application/http; msgtype=request', 'revisit': 'application/http; msgtype=response',
          'metadata': 'application/warc-fields'}


def record(rng, big=False, rtype=None, http_ascii=True, digests=None, version=None, extra=True, names_recased=True,
           block=None, url=None):
    """a well-formed record of the model (independently encoded)"""
    rtype = rtype or rng.choice(RTYPES + ['response', 'response', 'request'])
    if rtype == 'x-custom':
        rtype = rng.choice(CUSTOM)
    version = version or rng.choice(VERSIONS)
    rc = (lambda n: recase(rng, n)) if names_recased else (lambda n: n)
    h = [(rc('WARC-Type'), rtype)]
    http = None
    if url is None:
        if rtype in ('response', 'request', 'revisit') and rng.random() < .8:
            url = http_url(rng)
        elif rtype == 'warcinfo':
            url = None
        elif rng.random() < .9:
            url = rng.choice([http_url, other_url])(rng)
        if url and rng.random() < .05:
            url = odd_url(rng, url)
    if block is None:
        body = payload(rng, big)
        if rtype in ('response', 'request', 'revisit') and url and norm_uri(url).startswith(('http:', 'https:')):
            if rtype == 'revisit' and rng.random() < .3:
                block = b''
            elif rng.random() < .03:
                block = b''
            else:
                http = http_head(rng, rtype, http_ascii)
                if rtype == 'revisit':
                    body = b''
                block = http[2] + body
        else:
            block = body
    h.append((rc('WARC-Record-ID'), uuid(rng)))
    if url:
        h.append((rc('WARC-Target-URI'), url))
    h.append((rc('WARC-Date'), warc_date(rng, version == 'WARC/1.1' and rng.random() < .5)))
    ct = CTYPES.get(rtype, 'application/octet-stream')
    if rng.random() < .06:
        ct = rng.choice(['text/plain; charset="a,b"', 'multipart/mixed; boundary="x; y"', 'Text/HTML;Charset=UTF-8', 'a/b, c/d', '*/*', 'x', 'text/plain;  a = b ;c', 'application/http;msgtype=response'])
    if rng.random() < .92:
        h.append((rc('Content-Type'), ct))
    if digests:
        for name, val in digests(block, http, rtype):
            h.append((rc(name), val))
    if extra:
        for _ in range(rng.choice([0, 0, 1, 2, 4])):
            h.append((token(rng) if rng.random() < .6 else 'WARC-' + token(rng), value(rng)))
        if rng.random() < .1:
            h.append(rng.choice([x for x in h if x[0].lower().startswith('x-')] or [('X-Dup', 'a')]))
            if rng.random() < .5:
                h.append((h[-1][0], value(rng)))
    h.append((rc('Content-Length'), str(len(block))))
    if rng.random() < .5:
        head, rest = h[:1], h[1:]
        rng.shuffle(rest)
        h = (head + rest) if rng.random() < .7 else (rest[:1] + head + rest[1:])
    return Rec(version, h, block, http)


def archive(rng, n=None, big=False, **kw):
    n = n if n is not None else rng.choice([1, 1, 2, 3, 4, 6, 9])
    out = [record(rng, big, **kw) for _ in range(n)]
    if out and rng.random() < .12:
        repeat(rng, out)
    return out


def many(rng, ctx):
    """an archive of many small records"""
    ctx.ev('many_records')
    base = [record(rng, rtype='resource', block=randbytes(rng, rng.randrange(6)), extra=False) for _ in range(6)]
    base += [record(rng, rtype=rng.choice(['response', 'request', 'metadata'])) for _ in range(3)]
    base = [m for m in base if len(m.block) < 3000]
    return [copy.copy(rng.choice(base)) for _ in range(rng.choice([101, 130, 257, 300, 513, 700, 1025, 1200]))]


def repeat(rng, out):
    """the same record twice, or another of the same id or the same URL and date"""
    i = rng.randrange(len(out))
    m = out[i]
    k = rng.random()
    if k < .6:
        new = copy.copy(m)
    else:
        new = record(rng)
        same = ('warc-record-id',) if k < .8 else ('warc-date', 'warc-type')
        new.headers = [(n, v if n.lower() not in same or n.lower() == 'warc-type' else m.get(n, v)) for n, v in new.headers]
    out.insert(i + 1 if rng.random() < .7 else len(out), new)


def encode(rng, recs, gzipped, seps=False):
    """-> (bytes, [(offset, length)]): independent encoding and the extents of each record"""
    out = []
    ext = []
    pos = 0
    for i, r in enumerate(recs):
        data = r.encode()
        if gzipped:
            level = rng.choice([0, 1, 6, 9])
            m = refwarc.gz(data, level)
            ext.append((pos, len(m)))
        else:
            if seps:
                # any number of blank lines (at least one) between records
                sep = rng.choice([b'\r\n', b'\r\n\r\n', b'\n', b'\n\n', b'\r\n' * rng.randrange(1, 7), b'\r\n\n'])
                if rng.random() < .01:
                    sep = rng.choice([b'\r\n', b'\n']) * rng.choice([20, 50, 300, 8200])
                data = r.encode(sep=sep)
                ext.append((pos, len(data) - len(sep)))
            else:
                ext.append((pos, len(data) - 4))
            m = data
        out.append(m)
        pos += len(m)
    return b''.join(out), ext


# ---------------------------------------------------------------- coded HTTP bodies
def content_code(rng, kind, data):
    """content coding of data with a random level / strategy"""
    if kind == 'gzip':
        level = rng.choice([0, 1, 6, 9])
        c = zlib.compressobj(level, zlib.DEFLATED, 16 + zlib.MAX_WBITS, rng.choice([1, 8, 9]), rng.choice([0, 2, 3]))
        out = _flushy(rng, c, data)
        if rng.random() < .15:
            # optional fields of the gzip header
            extra = rng.choice([b'', b'ab', b'x' * 100, b'x' * 17000, b'x' * 60000])
            name = rng.choice([b'', b'a.txt', b'n' * 300, b'n' * 20000])
            comment = rng.choice([b'', b'', b'c' * 50])
            flags = (4 if extra else 0) | (8 if name else 0) | (16 if comment else 0)
            out = (out[:3] + bytes([flags]) + out[4:10] + (bytes([len(extra) & 255, len(extra) >> 8]) + extra if extra else b'')
                   + (name + b'\0' if name else b'') + (comment + b'\0' if comment else b'') + out[10:])
        return out
    if kind == 'deflate':
        c = zlib.compressobj(rng.choice([0, 1, 6, 9]), zlib.DEFLATED, rng.choice([9, 12, 15]))
        return _flushy(rng, c, data)
    if kind == 'deflate_raw':
        while True:
            c = zlib.compressobj(rng.choice([1, 6, 9]), zlib.DEFLATED, -zlib.MAX_WBITS)
            out = _flushy(rng, c, data)
            # a raw deflate stream that also starts like a zlib header is ambiguous by nature
            if len(out) < 2 or (out[0] & 15) != 8 or (out[0] * 256 + out[1]) % 31:
                return out
            data = data[:-1] or b'xyzzy'
    if kind == 'br':
        import brotli
        return brotli.compress(data, quality=rng.choice([0, 1, 5, 9]), lgwin=rng.choice([10, 16, 22]))
    return data


def _flushy(rng, c, data):
    """compress with occasional sync flushes, as servers that stream do"""
    if rng.random() < .6:
        return c.compress(data) + c.flush()
    out = []
    pos = 0
    while pos < len(data):
        n = rng.randrange(1, max(2, len(data) // 2 + 1))
        out.append(c.compress(data[pos:pos + n]))
        if rng.random() < .5:
            out.append(c.flush(zlib.Z_SYNC_FLUSH))
        pos += n
    return b''.join(out) + c.flush()


def chunked(rng, data, big=False):
    k = rng.random()
    if k < .2:
        sizes = [1] if len(data) < 3000 else [997]
    elif k < .4:
        sizes = [rng.randrange(1, 50) for _ in range(rng.randrange(1, 6))] if len(data) < 30000 else [8191]
    elif k < .6:
        sizes = [rng.choice([16383, 16384, 16385, 4096, 8192])]
    elif k < .75:
        sizes = None
    else:
        sizes = [rng.randrange(1, max(2, len(data))) for _ in range(4)]
    exts = rng.choice([None, None, None, [';a=b', ''], ['; ext'], [';x="y z"', ';q'], [';sig=' + 'ab' * rng.choice([26, 30, 40, 500]), '']])
    trailers = rng.choice([(), (), (), [('X-T%d' % i, 'v') for i in range(rng.choice([3, 9, 30]))], [('X-Trailer', 'v')], [('ETag', '"a"'), ('X-Sum', '1:2')],
                          [('X-Sum', '')], [('X-Long', 'y' * rng.choice([100, 16000])), ('X-Sum', 'a b')]])
    return refwarc.chunk(data, sizes, exts, trailers, upper=rng.random() < .3, pad=rng.choice([0, 0, 0, 1, 6]), colon=rng.choice([': ', ': ', ':', ':\t']))


CODINGS = ['gzip', 'deflate', 'deflate_raw', 'br']


def coded_body(rng, content=None, force=None):
    """-> (content, raw body, [(header, value)], description)"""
    content = payload(rng) if content is None else content
    hdrs = []
    kind = force or rng.choice([None, None, 'unknown'] + CODINGS * 2)
    if kind == 'deflate_raw':
        raw = content_code(rng, kind, content)
        # content may have been altered to avoid an ambiguous stream
        d = zlib.decompressobj(-zlib.MAX_WBITS)
        content = d.decompress(raw)
        hdrs.append((recase(rng, 'Content-Encoding'), recase(rng, 'deflate')))
    elif kind == 'unknown':
        raw = content
        hdrs.append((recase(rng, 'Content-Encoding'), rng.choice(['identity', 'utf-8', 'x-foo', 'none', '', 'gzip, br', 'x-gzip', 'gzip;q=1'])))
    elif kind:
        raw = content_code(rng, kind, content)
        hdrs.append((recase(rng, 'Content-Encoding'), recase(rng, kind)))
    else:
        raw = content
    ch = rng.random() < .5
    if ch:
        raw = chunked(rng, raw)
        hdrs.append((recase(rng, 'Transfer-Encoding'), recase(rng, 'chunked')))
    rng.shuffle(hdrs)
    return content, raw, hdrs, (kind, 'chunked' if ch else None)


def coded_record(rng, content=None, rtype='response', force=None, corrupt=False):
    """http record with a coded body -> (Rec, content, description)"""
    content, raw, ch, desc = coded_body(rng, content, force)
    if corrupt and raw:
        raw = mutate(rng, raw)
    first, hdrs, _ = http_head(rng, rtype)
    hdrs = [h for h in hdrs if h[0].lower() not in ('content-encoding', 'transfer-encoding')]
    for h in ch:
        hdrs.insert(rng.randrange(len(hdrs) + 1), h)
    head = encode_http_head(first, hdrs)
    m = record(rng, rtype=rtype, block=head + raw, url='http://example.com/%d' % rng.getrandbits(20))
    m.http = (first, hdrs, head)
    return m, content, desc


def mutate(rng, data, n=None):
    b = bytearray(data)
    for _ in range(n or rng.randrange(1, 4)):
        k = rng.random()
        i = rng.randrange(len(b)) if b else 0
        if not b:
            break
        if k < .4:
            b[i] = rng.randrange(256)
        elif k < .55:
            del b[i:i + rng.randrange(1, 9)]
        elif k < .7:
            b[i:i] = rng.choice(TRICKY) + bytes([rng.randrange(256)])
        elif k < .8:
            b[i:i] = b[i:i + rng.randrange(1, 30)]
        elif k < .9:
            del b[i:]
        else:
            b[i] ^= 1 << rng.randrange(8)
    return bytes(b)


# ---------------------------------------------------------------- digests for generated records
def make_digests(rng, algo=None, enc=None, which=None):
    """-> function(block, http, rtype) giving correct digest headers"""
    def f(block, http, rtype):
        out = []
        a = algo or rng.choice(['sha1', 'sha256', 'md5'])
        e = enc or rng.choice(['b32', 'b32', 'hex', 'b64'])
        w = which if which is not None else rng.choice(['b', 'p', 'bp'])
        if 'b' in w:
            out.append(('WARC-Block-Digest', refwarc.digest(block, a, e)))
        if 'p' in w:
            out.append(('WARC-Payload-Digest', refwarc.digest(block[len(http[2]):] if http else block, a, e)))
        return out
    return f
