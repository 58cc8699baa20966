"""Independent reference: WARC/ARC encoding, strict WARC parsing, gzip members,
HTTP chunking and digests.  Nothing here uses warcio."""
import base64
import hashlib
import re
import zlib

CRLF = b'\r\n'


class Bad(Exception):
    """the strict parser refuses these bytes"""


# ---------------------------------------------------------------- model
class Rec(object):
    """One record of the model: what a reader has to report."""
    def __init__(self, version, headers, block, http=None):
        self.version = version          # 'WARC/1.0'
        self.headers = headers          # [(name, value)] str, includes Content-Length
        self.block = block              # bytes
        self.http = http                # None or (first line str, [(n, v)], header bytes)

    def get(self, name, default=None):
        for n, v in self.headers:
            if n.lower() == name.lower():
                return v
        return default

    @property
    def rtype(self):
        return self.get('WARC-Type')

    @property
    def body(self):
        """block without HTTP headers (if it has them)"""
        return self.block[len(self.http[2]):] if self.http else self.block

    def encode(self, sep=b'\r\n\r\n', eol=CRLF):
        return self.head(eol) + self.block + sep

    def head(self, eol=CRLF):
        out = [self.version.encode('ascii') + eol]
        for n, v in self.headers:
            out.append(n.encode('utf-8') + b':' + (b' ' if v else b'') + v.encode('utf-8') + eol)
        out.append(eol)
        return b''.join(out)

    def brief(self):
        return {'version': self.version, 'headers': self.headers, 'block_len': len(self.block),
                'block_head': self.block[:80], 'http': bool(self.http)}


def gz(data, level=6, extra=None):
    """one gzip member"""
    c = zlib.compressobj(level, zlib.DEFLATED, 16 + zlib.MAX_WBITS)
    return c.compress(data) + c.flush()


def gzip_members(data):
    """[(start, end, decompressed)], Bad if it is not a whole number of members"""
    out = []
    pos = 0
    while pos < len(data):
        d = zlib.decompressobj(16 + zlib.MAX_WBITS)
        try:
            plain = d.decompress(data[pos:])
            plain += d.flush()
        except zlib.error as e:
            raise Bad('gzip member at %d: %s' % (pos, e))
        if not d.eof:
            raise Bad('gzip member at %d is incomplete' % pos)
        end = len(data) - len(d.unused_data)
        out.append((pos, end, plain))
        pos = end
    return out


# ---------------------------------------------------------------- strict parser
TOKEN = re.compile(rb"^[!#$%&'*+\-.^_`|~0-9A-Za-z]+$")


def parse_record(data, pos):
    """strict parse of one record -> (Rec, start of block, end incl. CRLFCRLF)"""
    eol = data.find(CRLF, pos)
    if eol < 0:
        raise Bad('no version line at %d' % pos)
    version = data[pos:eol]
    if not re.match(rb'^WARC/\d+\.\d+$', version):
        raise Bad('bad version line at %d: %r' % (pos, version[:60]))
    headers = []
    p = eol + 2
    while True:
        eol = data.find(CRLF, p)
        if eol < 0:
            raise Bad('headers not terminated at %d' % pos)
        line = data[p:eol]
        p = eol + 2
        if not line:
            break
        if b'\n' in line or b'\r' in line:
            raise Bad('bare CR or LF in header line %r' % line[:80])
        name, sep, value = line.partition(b':')
        if not sep or not name or name != name.strip():
            raise Bad('bad header line %r' % line[:80])
        try:
            headers.append((name.decode('utf-8'), value.strip(b' \t').decode('utf-8')))
        except UnicodeDecodeError:
            raise Bad('header line not utf-8: %r' % line[:80])
    cl = [v for n, v in headers if n.lower() == 'content-length']
    if len(cl) != 1 or not re.match(r'^\d+$', cl[0]):
        raise Bad('Content-Length: %r' % cl)
    n = int(cl[0])
    block = data[p:p + n]
    if len(block) != n:
        raise Bad('block has %d of %d bytes' % (len(block), n))
    if data[p + n:p + n + 4] != b'\r\n\r\n':
        raise Bad('block not followed by CRLF CRLF but %r' % data[p + n:p + n + 40])
    return Rec(version.decode('ascii'), headers, block), p, p + n + 4


def parse_warc(data, gzipped):
    """strict parse -> [(Rec, offset, length)]; gzip: exactly one record per member"""
    out = []
    if gzipped:
        for start, end, plain in gzip_members(data):
            rec, _, stop = parse_record(plain, 0)
            if stop != len(plain):
                raise Bad('gzip member at %d has %d bytes after its record'
                          % (start, len(plain) - stop))
            out.append((rec, start, end - start))
    else:
        pos = 0
        while pos < len(data):
            rec, _, stop = parse_record(data, pos)
            out.append((rec, pos, stop - pos))
            pos = stop
    return out


def split_http(block):
    """(first line, [(n, v)], header bytes, body) of an HTTP message, latin-1"""
    end = block.find(b'\r\n\r\n')
    if end < 0:
        if block.endswith(CRLF):
            end = len(block) - 2
            head = block
        else:
            raise Bad('no end of http headers in %r' % block[:80])
        hlen = len(block)
    else:
        head = block[:end + 2]
        hlen = end + 4
    lines = head.split(CRLF)[:-1]
    hdrs = []
    for line in lines[1:]:
        n, sep, v = line.partition(b':')
        if not sep:
            raise Bad('bad http header line %r' % line)
        hdrs.append((n.decode('latin-1'), v.strip().decode('latin-1')))
    return lines[0].decode('latin-1'), hdrs, block[:hlen], block[hlen:]


# ---------------------------------------------------------------- digests
def digest(data, algo='sha1', enc='b32'):
    d = hashlib.new(algo, data).digest()
    if enc == 'b32':
        v = base64.b32encode(d).decode()
    elif enc == 'b64':
        v = base64.b64encode(d).decode()
    elif enc == 'b64url':
        v = base64.urlsafe_b64encode(d).decode()
    elif enc == 'hex':
        v = d.hex()
    elif enc == 'HEX':
        v = d.hex().upper()
    elif enc == 'Hex':
        v = ''.join(c.upper() if i % 3 else c for i, c in enumerate(d.hex()))
    else:
        raise ValueError(enc)
    return algo + ':' + v


# ---------------------------------------------------------------- HTTP transfer coding
def chunk(data, sizes, exts=None, trailers=(), upper=False, pad=0, colon=': '):
    """chunked coding of data, cut into the given sizes (the rest is one chunk)"""
    out = []
    pos = 0
    i = 0
    while pos < len(data):
        n = sizes[i % len(sizes)] if sizes else len(data)
        n = max(1, min(n, len(data) - pos))
        h = ('%X' if upper else '%x') % n
        h = '0' * pad + h
        if exts:
            h += exts[i % len(exts)]
        out.append(h.encode() + CRLF + data[pos:pos + n] + CRLF)
        pos += n
        i += 1
    out.append(b'0' + CRLF)
    for n, v in trailers:
        out.append((n + colon + v).encode() + CRLF)
    out.append(CRLF)
    return b''.join(out)


def size_lines(raw):
    """where the size lines of a well-formed chunked body are: [(start, end with CRLF)]"""
    out = []
    pos = 0
    while True:
        end = raw.find(CRLF, pos) + 2
        n = int(raw[pos:end].split(b';')[0], 16)
        out.append((pos, end))
        if not n:
            return out
        pos = end + n + 2


def deflate_raw(data, level=6):
    c = zlib.compressobj(level, zlib.DEFLATED, -zlib.MAX_WBITS)
    return c.compress(data) + c.flush()


# ---------------------------------------------------------------- ARC
def arc_record(url, ip, date, ctype, block):
    return ('%s %s %s %s %d\n' % (url, ip, date, ctype, len(block))).encode('utf-8') + block


def arc_header(filename, date, body=b''):
    version = b'1 0 warcio-verif\n'
    spec = b'URL IP-address Archive-date Content-type Archive-length\n'
    block = version + spec + body
    return ('filedesc://%s 0.0.0.0 %s text/plain %d\n' % (filename, date, len(block))).encode('utf-8'), version + spec, body
