"""ARC archives: model and independent encoding."""
import copy

from wv import gen, refwarc

SPEC = b'URL IP-address Archive-date Content-type Archive-length\n'
CTYPES = ['text/html', 'text/plain', 'image/jpeg', 'application/x-javascript', 'no-type', 'text/dns', 'unk',
          'application/http;msgtype=response', 'alexa/dat', '-']
IPS = ['127.0.0.1', '0.0.0.0', '207.241.224.11', '::1', '-', '2001:db8::1']


class Arc(object):
    """one ARC record of the model"""
    def __init__(self, url, ip, date, ctype, block, http=None, version=None, spec=SPEC, enc='utf-8', eol=b'\n'):
        self.url, self.ip, self.date, self.ctype, self.block, self.http = url, ip, date, ctype, block, http
        self.version = version              # first line of the block of a file header
        self.spec = spec
        self.enc = enc
        self.eol = eol

    @property
    def is_header(self):
        return self.version is not None

    @property
    def total(self):
        """Archive-length"""
        return len(self.block) + (len(self.version) + len(self.spec) if self.is_header else 0)

    @property
    def body(self):
        return self.block[len(self.http[2]):] if self.http else self.block

    def line(self):
        return ('%s %s %s %s %d' % (self.url, self.ip, self.date, self.ctype, self.total)).encode(self.enc) + self.eol

    def encode(self):
        out = self.line()
        if self.is_header:
            out += self.version + self.spec
        return out + self.block

    def brief(self):
        return {'line': self.line(), 'block_len': len(self.block), 'http': bool(self.http)}


def date14(rng):
    return '%04d%02d%02d%02d%02d%02d' % (rng.choice([1996, 1999, 2000, 2004, 2012, 2013, rng.randrange(1996, 2036), rng.randrange(1900, 3000)]),
                                         rng.randrange(1, 13), rng.randrange(1, 29), rng.randrange(24), rng.randrange(60), rng.randrange(60))


def file_header(rng, empty=True):
    body = rng.choice([b'', b'\n', b'<?xml version="1.0"?>\n<arcmetadata>\n</arcmetadata>\n', b'abc', 'caf\u00e9\n'.encode(),
                       gen.payload(rng)])
    ver = rng.choice([b'1 0 LiveWeb Capture\n', b'1 1 InternetArchive\n', b'1 0 \n', '1 0 Biblioth\u00e8que\n'.encode(),
                      b'1 0 caf\xe9\n', b'1 1 %s\n' % (b'x' * rng.randrange(200))])
    spec = SPEC if rng.random() < .9 else SPEC.replace(b'\n', b'\r\n')
    name = rng.choice(['live.arc.gz', 'IA-001102.arc', 'a b.arc', 'caf\u00e9.arc.gz', 'x', 'dir/x.arc', '/data//x.arc', '//a//b//c.arc.gz', 'http://h/x.arc', 'filedesc://y.arc',
                       'n' * rng.choice([180, 200, 201, 255, 1000]) + '.arc'])
    return Arc('filedesc://' + name, rng.choice(IPS), date14(rng), rng.choice(['text/plain', 'text/plain', 'no-type']), body, version=ver, spec=spec)


def url(rng):
    k = rng.random()
    if k < .8:
        u = gen.http_url(rng)
        if rng.random() < .1:
            u += ' with space'
        if rng.random() < .05:
            # text of Windows, read as latin-1
            u += rng.choice(['?t=l\x92eau', '?t=\x93a\x94', '?t=\x80\x9f', '?t=\x7f', '?t=\xa0\xff'])
        if rng.random() < .03:
            u += rng.choice(['?a\tb', '\tx', '?a\t\tb c'])
        if rng.random() < .03:
            u += '?q=' + 'x' * rng.choice([1000, 2100, 5000, 16384, 40000])
        return u
    return rng.choice(['dns:example.com', 'dns:www.x.org', 'ftp://h/f', 'urn:x:y', 'whois://h/q', 'metadata://a/b'])


def record(rng, big=False):
    u = url(rng)
    http = None
    k = rng.random()
    if u.startswith('http') and k < .85:
        first, hdrs, head = gen.http_head(rng, 'response', ascii_only=rng.random() < .7, eol=rng.choice([b'\r\n', b'\r\n', b'\n']))
        http = (first, hdrs, head)
        block = head + gen.payload(rng, big)
    elif u.startswith('http'):
        block = b''
    else:
        block = gen.payload(rng, big)
    a = Arc(u, rng.choice(IPS), date14(rng), rng.choice(CTYPES), block, http)
    if rng.random() < (.7 if '?t=' in u else .05):
        try:
            a.line().decode('ascii')
        except UnicodeDecodeError:
            try:
                a.url.encode('latin-1')
                a.enc = 'latin-1'
            except UnicodeEncodeError:
                pass
    if rng.random() < .05:
        a.eol = b'\r\n'
    return a


def archive(rng, big=False, n=None):
    n = n if n is not None else rng.choice([0, 1, 1, 2, 3, 5, 8])
    out = [record(rng, big) for _ in range(n)]
    if not out or rng.random() < .75:
        out.insert(0, file_header(rng))
    if rng.random() < .05:
        # several archives, one after another
        out.append(file_header(rng))
        out += [record(rng) for _ in range(rng.randrange(3))]
    if rng.random() < .1:
        # the same record again
        i = rng.randrange(len(out))
        if not out[i].is_header:
            out.insert(i + 1, copy.copy(out[i]))
    return out


def encode(rng, recs, gzipped, last=True):
    """-> (bytes, extents)"""
    out, ext, pos = [], [], 0
    for i, r in enumerate(recs):
        data = r.encode()
        if gzipped:
            sep = rng.choice([b'\n', b'\n', b'\n', b'', b'\n\n', b'\r\n'])
            m = refwarc.gz(data + sep, rng.choice([0, 1, 6, 9]))
            ext.append((pos, len(m)))
        else:
            sep = rng.choice([b'\n', b'\n', b'\n', b'\n\n', b'\r\n', b'\n\n\n\n'])
            if i == len(recs) - 1 and last and rng.random() < .4:
                sep = b''
            ext.append((pos, len(data)))
            m = data + sep
        out.append(m)
        pos += len(m)
    return b''.join(out), ext


def model_http(a):
    if not a.http:
        return None
    first, hdrs, _ = a.http
    proto, _, rest = first.partition(' ')
    return (proto, rest.strip(), list(hdrs))
