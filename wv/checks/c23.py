"""C23 header blocks survive parsing and serialising; lookup ignores case"""
import io

from wv import gen
from wv.common import Source, Pipe, policies
from warcio.bufferedreaders import BufferedReader, DecompressingBufferedReader
from warcio.limitreader import LimitReader
from warcio.statusandheaders import StatusAndHeaders, StatusAndHeadersParser, StatusAndHeadersParserException

PROP = 'C23'
QUICK, THOROUGH = 60000, 900000
RULE = ('case = one header block: built, changed by a random sequence of operations next to a list model, serialised, parsed from '
        'several kinds of streams followed by other bytes, and independently encoded blocks (line ends, folded lines, odd lines, '
        'truncations) parsed; non-trivial = headers were compared; distinct by headers and operations')
NEED = {'operations': 60000, 'lookups': 30000, 'found_other_case': 5000, 'duplicates': 2000, 'removed': 3000, 'replaced': 5000,
        'round_trips': 8000, 'parsed': 15000, 'folded': 2000, 'no_colon': 1000, 'cut_blocks': 1500, 'rest_checked': 15000,
        'rejected': 300, 'empty_values': 1000, 'filters': 1500, 'bytes_input': 800, 'dict_input': 800, 'ranges': 1500,
        'latin1': 500}

NAMES = ['Content-Type', 'Content-Length', 'content-length', 'X', 'x', 'WARC-Type', 'Set-Cookie', 'Location', 'X-A', 'X-Ab', 'Range',
         'Content-Range', 'Accept-Ranges', '\u0416', '\u00dcber', '\ufeffX', 'ETag']
PROTOS = [('HTTP/1.1', ['HTTP/1.0', 'HTTP/1.1']), ('HTTP/1.0', ['HTTP/1.0', 'HTTP/1.1']), ('WARC/1.0', ['WARC/1.1', 'WARC/1.0', 'WARC/0.18']),
          ('GET', ['GET', 'HEAD', 'POST']), ('POST', ['GET', 'HEAD', 'POST'])]


class Model(object):
    def __init__(self, items):
        self.l = list(items)

    def find(self, name):
        for i, (n, v) in enumerate(self.l):
            if n.lower() == name.lower():
                return i
        return None


def value(rng, ctx):
    v = gen.value(rng) if rng.random() < .8 else rng.choice(['', '0', 'a: b', ':', 'x:y', 'a\tb', '=', ';', '"', "a  b"])
    if not v:
        ctx.ev('empty_values')
    return v


def name(rng):
    return gen.recase(rng, rng.choice(NAMES)) if rng.random() < .8 else gen.token(rng)


def statusline(rng, proto):
    if proto in ('GET', 'POST'):
        return rng.choice(['/ HTTP/1.1', '/a/b?c HTTP/1.0', '* HTTP/1.1', 'http://h/x HTTP/1.1'])
    if proto.startswith('WARC'):
        return ''
    if rng.random() < .1:
        return rng.choice(['0 Zero', '000', '-1 Minus', '+5 Plus', '0x10', '1e3 x', '007 James', 'OK', '2.5'])
    return rng.choice(gen.STATUS).strip()


def operations(rng, ctx, h, m, log):
    st = h.statusline
    for _ in range(rng.choice([1, 3, 8, 20])):
        n = name(rng)
        i = m.find(n)
        if i is not None and m.l[i][0] != n:
            ctx.ev('found_other_case')
        k = rng.randrange(12)
        ctx.ev('operations')
        where = 'after ' + repr(log[-6:])
        if k < 4:
            want = m.l[i][1] if i is not None else None
            ctx.ev('lookups')
            ctx.equal(h.get_header(n), want, 'get_header(%r) %s' % (n, where))
            ctx.equal(h[n], want, '[%r] %s' % (n, where))
            d = object()
            ctx.equal(h.get(n, d), d if i is None else want, 'get(%r, default) %s' % (n, where))
            ctx.equal(h.get_header(n, 'dflt'), 'dflt' if i is None else want, 'get_header(%r, default) %s' % (n, where))
            ctx.equal(n in h, i is not None, '%r in headers %s' % (n, where))
        elif k < 6:
            v = value(rng, ctx)
            log.append(('add', n, v))
            h.add_header(n, v)
            if i is not None:
                ctx.ev('duplicates')
            m.l.append((n, v))
        elif k < 8:
            v = value(rng, ctx)
            log.append(('replace', n, v))
            if k == 7:
                h[n] = v
            else:
                ctx.equal(h.replace_header(n, v), m.l[i][1] if i is not None else None, 'replace_header(%r) result %s' % (n, where))
            if i is None:
                m.l.append((n, v))
            else:
                ctx.ev('replaced')
                m.l[i] = (m.l[i][0], v)
        elif k < 10:
            log.append(('remove', n))
            if k == 9:
                del h[n]
            else:
                ctx.equal(h.remove_header(n), i is not None, 'remove_header(%r) result %s' % (n, where))
            if i is not None:
                ctx.ev('removed')
                # of several headers of the name, the last one
                i = max(j for j, (a, _) in enumerate(m.l) if a.lower() == n.lower())
                del m.l[i]
        elif k == 10 and rng.random() < .3:
            log.append(('range',))
            ctx.ev('ranges')
            a, b, t = rng.randrange(1000), rng.randrange(1, 1000), rng.choice([2000, '*', 10 ** 12])
            ctx.expect(h.add_range(a, b, t) is h, 'add_range() result')
            st = '206 Partial Content'
            for nn, v in (('Content-Range', 'bytes %d-%d/%s' % (a, a + b - 1, t)), ('Content-Length', str(b)), ('Accept-Ranges', 'bytes')):
                i = m.find(nn)
                if i is None:
                    m.l.append((nn, v))
                else:
                    m.l[i] = (m.l[i][0], v)
        elif k == 11 and rng.random() < .3:
            log.append(('status',))
            code = st.split(' ')[0]
            ctx.equal(h.get_statuscode(), code, 'get_statuscode()')
            try:
                ok = int(code) > 0
            except ValueError:
                ok = False
            ctx.equal(h.validate_statusline('204 Was Bad'), ok, 'validate_statusline()')
            if not ok:
                st = '204 Was Bad'
        ctx.equal(list(h.headers), m.l, 'headers ' + 'after ' + repr(log[-6:]))
        ctx.equal(h.statusline, st, 'status line after ' + repr(log[-6:]))


def text(proto, st, hdrs):
    first = proto + (' ' if proto and st else '') + st
    return (first + '\r\n' if first else '') + ''.join('%s: %s\r\n' % nv for nv in hdrs)


def stream_of(rng, data):
    """-> (stream with readline, function giving the bytes not yet consumed)"""
    k = rng.randrange(5)
    if k == 0:
        s = io.BytesIO(data)
        return s, s.read
    if k == 1:
        s = BufferedReader(Source(data, policies(rng)), block_size=rng.choice([1, 7, 64, 512, 16384]))
        return s, lambda: b''.join(iter(lambda: s.read(1000), b''))
    if k == 2:
        s = DecompressingBufferedReader(Pipe(data, policies(rng)), block_size=rng.choice([2, 64, 512, 16384])) if len(data) > 1 and data[0] not in (0x1f,) else io.BytesIO(data)
        return s, lambda: b''.join(iter(lambda: s.read(1000), b''))
    if k == 3:
        s = io.BufferedReader(Source2(data))
        return s, s.read
    s = LimitReader(io.BytesIO(data), len(data))
    return s, lambda: b''.join(iter(lambda: s.read(1000), b''))


class Source2(io.RawIOBase):
    def __init__(self, data):
        self.b = io.BytesIO(data)

    def readable(self):
        return True

    def readinto(self, buf):
        d = self.b.read(min(len(buf), 100))
        buf[:len(d)] = d
        return len(d)


def parse(rng, ctx, data, parser, rest, what):
    s, left = stream_of(rng, data)
    first = rng.random() < .3
    h = parser.parse(s, s.readline()) if first else parser.parse(s)
    ctx.ev('parsed')
    ctx.equal(left(), rest, what + ': bytes left after the header block')
    ctx.ev('rest_checked')
    return h


def case(rng, ctx, idx):
    log = []
    proto, plist = rng.choice(PROTOS)
    st = statusline(rng, proto)
    items = [(name(rng), value(rng, ctx)) for _ in range(rng.choice([0, 1, 2, 4, 9]))]
    given = list(items)
    k = rng.random()
    if k < .1:
        ctx.ev('bytes_input')
        items = [(n, v) for n, v in items if all(ord(c) < 256 for c in n + v)]
        given = [(n.encode('latin-1') if rng.random() < .7 else n, v.encode('latin-1') if rng.random() < .7 else v) for n, v in items]
    elif k < .2:
        ctx.ev('dict_input')
        given = dict(items)
        items = list(given.items())
    elif k < .25:
        given = iter(list(items))
    keep = list(given) if isinstance(given, list) else dict(given) if isinstance(given, dict) else None
    if proto in ('GET', 'POST') and rng.random() < .7:
        h = StatusAndHeaders(proto + ' ' + st, given, is_http_request=True)
    else:
        h = StatusAndHeaders(st, given, protocol=proto)
    ctx.equal(h.protocol, proto, 'protocol')
    ctx.equal(h.statusline, st, 'status line')
    ctx.equal(list(h.headers), items, 'headers as built')
    m = Model(items)
    operations(rng, ctx, h, m, log)
    if keep is not None:
        ctx.equal(list(given) if isinstance(given, list) else given, keep, 'headers given to the constructor')
    st = h.statusline

    # serialising
    want = text(proto, st, m.l)
    ctx.equal(h.to_str(), want, 'to_str()')
    ctx.equal(str(h), want, 'str()')
    ctx.equal(h.to_bytes(), want.encode('utf-8') + b'\r\n', 'to_bytes()')
    if all(ord(c) < 128 for c in want):
        ctx.equal(h.to_ascii_bytes(), want.encode('ascii') + b'\r\n', 'to_ascii_bytes()')
        ctx.equal(list(h.headers), m.l, 'headers after to_ascii_bytes()')
    if rng.random() < .3:
        ctx.ev('filters')
        drop = name(rng).lower()
        f = lambda nv: None if nv[0].lower() == drop else (nv[0].upper(), nv[1] + '!')
        ctx.equal(h.to_bytes(f), (text(proto, st, [f(nv) for nv in m.l if f(nv)]) + '\r\n').encode('utf-8'), 'to_bytes(filter)')
        ctx.equal(list(h.headers), m.l, 'headers after to_bytes(filter)')
    other = StatusAndHeaders(st, list(m.l), protocol=proto)
    if other:
        ctx.expect(h == other and not h != other, 'equal headers compare as different')
    ctx.expect(bool(h) == bool(st or m.l), 'bool(headers)')
    if m.l:
        wrong = StatusAndHeaders(st, m.l[:-1] + [(m.l[-1][0], m.l[-1][1] + 'x')], protocol=proto)
        ctx.expect(h != wrong and not h == wrong, 'different headers compare as equal')
        for wrong in (StatusAndHeaders(st + '1', list(m.l), protocol=proto), StatusAndHeaders(st, list(m.l), protocol=proto + '1'),
                      StatusAndHeaders(st, m.l[:-1], protocol=proto), StatusAndHeaders(st, m.l + m.l[-1:], protocol=proto),
                      StatusAndHeaders(st, list(m.l), protocol='')):
            ctx.expect(h != wrong and not h == wrong, 'different header blocks compare as equal')

    # round trip
    rest = rng.choice([b'', b'\r\n', b'body', b'X: y\r\n\r\n', b'\n\n', b' folded?\r\n', gen.randbytes(rng, 50), b'HTTP/1.1 200 OK\r\n\r\n'])
    parser = StatusAndHeadersParser(plist, verify=rng.random() < .7)
    got = parse(rng, ctx, h.to_bytes() + rest, parser, rest, 'round trip')
    ctx.ev('round_trips')
    ctx.equal((got.protocol, got.statusline, list(got.headers)), (proto, st, m.l), 'serialised and parsed again')
    if h:
        ctx.expect(got == h, 'parsed headers compare as different')
    ctx.equal(got.to_bytes(), h.to_bytes(), 'serialised after parsing')
    ctx.nontrivial(proto, st, tuple(m.l), len(log))
    ctx.sample = {'headers': [list(x) for x in m.l[:5]], 'operations': [repr(x) for x in log[:8]]}

    # blocks of others: line ends, folding, odd lines
    eol = lambda: rng.choice([b'\r\n', b'\r\n', b'\n'])
    data = (proto + (' ' + st if st else '')).encode() + eol()
    want = []
    latin = rng.random() < .1
    for _ in range(rng.choice([0, 1, 2, 5])):
        n, v = name(rng), value(rng, ctx)
        enc = 'utf-8'
        if latin:
            n, v, enc = 'X-L', rng.choice(['caf\u00e9', '\u00e9', 'a\u00ffb', 'plain']), 'latin-1'
            ctx.ev('latin1')
        if rng.random() < .12:
            # a line without a colon is no header
            ctx.ev('no_colon')
            data += rng.choice([b'no colon here', b'-', b'GET / HTTP/1.1']) + eol()
            while rng.random() < .2:
                data += b' folded: part' + eol()
            continue
        data += n.encode(enc) + rng.choice([b'', b'', b'', b' ', b'\t ']) + b':' + rng.choice([b' ', b'', b'  ', b'\t']) + v.encode(enc) + rng.choice([b'', b'', b' ', b'\t']) + eol()
        while rng.random() < .15:
            ctx.ev('folded')
            f = rng.choice([' ', '\t', '   ']) + rng.choice(['more', 'a: b', 'x;y=z', ':', '"q"'])
            data += f.encode(enc) + rng.choice([b'', b' ']) + eol()
            v += f
        want.append((n, v))
    end = eol()
    if rng.random() < .15:
        # ends at the end of the stream
        ctx.ev('cut_blocks')
        if rng.random() < .5 and want and data.endswith(b'\r\n'):
            data = data[:-2]
        got = parse(rng, ctx, data, parser, b'', 'block without an end')
    else:
        got = parse(rng, ctx, data + end + rest, parser, rest, 'block')
    ctx.equal((got.protocol, got.statusline, list(got.headers)), (proto, st, want), 'parsed block')
    if all(c < 128 for c in data) and got.total_len:
        ctx.expect(got.total_len in (len(data), len(data + end)), 'total_len is %d of a block of %d bytes' % (got.total_len, len(data + end)))

    # what is no header block at all
    if rng.random() < .1:
        ctx.ev('rejected')
        strict = StatusAndHeadersParser(plist, verify=True)
        line = rng.choice([b'nonsense', b'<html>', b'HTTPS', b'\x00\xff', b'WARC', b'PUTT / HTTP'])
        try:
            strict.parse(io.BytesIO(line + b'\r\nX: y\r\n\r\n'))
            ctx.expect(False, 'status line %r accepted for %r' % (line, plist))
        except StatusAndHeadersParserException as e:
            ctx.equal(e.statusline.rstrip(), line.decode('latin-1'), 'rejected status line in the error')
        try:
            strict.parse(io.BytesIO(b''))
            ctx.expect(False, 'header block read from an empty stream')
        except EOFError:
            pass
        empty = strict.parse(io.BytesIO(b'\r\nabc'))
        ctx.expect(not empty and not empty.headers, 'empty line is not an empty header block')
