"""C30 bodies that are not well-formed chunked data are reported, or passed on"""
import io

from wv import gen, refwarc
from wv.common import Source, policies, quiet
from wv.checks.c11 import drain
from warcio.archiveiterator import ArchiveIterator
from warcio.bufferedreaders import BufferedReader, ChunkedDataReader, ChunkedDataException
from warcio.limitreader import LimitReader

PROP = 'C30'
QUICK, THOROUGH = 40000, 1400000
RULE = ('case = a chunked body: well-formed, cut off at any byte, or with a bad size line, a bare newline, garbage after the last chunk or '
        'a missing chunk end; read by a reader that raises and one that does not, over sources with short reads; non-trivial = the '
        'outcome was compared with that of the model; distinct by body')
NEED = {'strict_well_formed': 5000, 'strict_cut': 5000, 'strict_reported': 10000, 'passed_on': 8000, 'bad_size': 4000, 'bare_newline': 2000,
        'bad_end': 2000, 'bad_trailer': 1000, 'no_terminator': 1500, 'first_line': 2000, 'short_sources': 3000, 'records': 2000, 'source_left': 3000, 'coded': 2000, 'large_chunk_cut': 400}

BAD = b"ghijklmnopqrsuvwyzGHIJKLMNOPQ!#$%&'()*,./<=>?@[]^`{|}~\x80\xc3\xff\x00\x01\x7f"


def parts(rng, content):
    """-> [bytes of chunk as coded, bytes of chunk]"""
    out = []
    pos = 0
    k = rng.random()
    while pos < len(content):
        n = 1 if k < .15 and len(content) < 300 else rng.randrange(1, 60) if k < .5 and len(content) < 30000 else rng.randrange(1, len(content) + 1)
        piece = content[pos:pos + n]
        pos += len(piece)
        size = ('%x' if rng.random() < .7 else '%X') % len(piece)
        if rng.random() < .1:
            size = '0' * rng.randrange(1, 8) + size
        if rng.random() < .1:
            size += rng.choice([';a=b', '; x', ';n="v w"', ';', ' ', '   ', ' ;a=b'])
        out.append((size.encode() + b'\r\n' + piece + b'\r\n', piece))
    return out


def bad_line(rng):
    """no size line"""
    if rng.random() < .3:
        # sizes in other programming languages, or far too large
        s = b'%x' % rng.choice([0, 1, 5, 16, 255, 4096])
        return rng.choice([b'-' + s, b'+' + s, b'0x' + s, b'0X' + s, b'1_' + s, b'_' + s, s + b'_', s + b'h', s + b' 1', b'- ' + s, b'%x' % (2 ** 31 + 1), b'f' * 40, s + b'.0',
                           b'0o7', b'x' + s, s + b'L']) + rng.choice([b'', b';x=y', b' '])
    first = bytes([rng.choice(BAD)])
    rest = rng.choice([b'', b'5', b'ff', b' 5', b'hello world', b'<html>', b';a=b', gen.randbytes(rng, rng.randrange(40)).replace(b'\n', b'.'),
                       b'x' * rng.choice([60, 64, 70, 300, 16383, 16384, 40000]) if rng.random() < .1 else b'y'])
    return first + rest


def trailers(rng):
    return b''.join(rng.choice([b'X-Sum: 1\r\n', b'ETag: "a"\r\n', b'X:\r\n', b'a: b: c\r\n']) for _ in range(rng.randrange(1, 4)))


def rest_of(rng):
    return rng.choice([b'', b'rest', b'\r\n', b'\r\n5\r\nhello\r\n0\r\n\r\n', b'5\r\nhello\r\n', b'0\r\n\r\n', b'a\nb\n', gen.payload(rng)])


def make(rng, ctx, content):
    """-> (kind, body, what a reader that does not raise returns (None: not said), what has to be delivered at most before an error)"""
    ps = parts(rng, content)
    kind = rng.choice(['ok', 'ok', 'cut', 'cut', 'size', 'size', 'newline', 'end', 'trailer', 'terminator'])
    whole = b''.join(p for p, _ in ps)
    if kind == 'ok':
        return kind, whole + b'0\r\n' + (trailers(rng) if rng.random() < .2 else b'') + b'\r\n', content, content
    if kind == 'cut':
        if rng.random() < .15:
            # cut off within a chunk that is large, but not too large
            k = rng.randrange(len(ps) + 1)
            before, good = b''.join(p for p, _ in ps[:k]), b''.join(c for _, c in ps[:k])
            part = gen.payload(rng)
            size = rng.choice([2 ** 31, 2 ** 31 - 1, 2 ** 31 - 5, 2 ** 30, 2 ** 26])
            ctx.ev('large_chunk_cut')
            return kind, before + b'%x\r\n' % size + part, good + part, good + part
        body = whole + b'0\r\n' + (trailers(rng) if rng.random() < .3 else b'') + b'\r\n'
        if ps and rng.random() < .3:
            a, b = rng.choice(refwarc.size_lines(body)[1:])
            return kind, body[:rng.randrange(a, b)], None, content
        return kind, body[:rng.choice([rng.randrange(len(body)), max(0, len(body) - rng.randrange(1, 12))])], None, content
    k = rng.randrange(len(ps) + 1) if rng.random() < .8 else 0
    before, good = b''.join(p for p, _ in ps[:k]), b''.join(c for _, c in ps[:k])
    if not k:
        ctx.ev('first_line')
    if kind == 'size':
        ctx.ev('bad_size')
        tail = bad_line(rng)
        # a size that is only too large has to be a whole line
        huge = not tail.split(b';')[0].strip().strip(b'0123456789abcdef')
        tail += (b'\r\n' if huge else rng.choice([b'\r\n', b'\r\n', b'\n', b''])) + rest_of(rng)
    elif kind == 'newline':
        # a size without the carriage return
        ctx.ev('bare_newline')
        tail = rng.choice([b'5', b'ff', b'0', b'A', b'5;a=b', b'']) + b'\n' + rest_of(rng)
    elif kind == 'end':
        ctx.ev('bad_end')
        before, good = whole, content
        g = bad_line(rng).replace(b':', b'.') + rng.choice([b'\r\n', b'\n']) + rest_of(rng)
        if not ps and rng.random() < .5:
            # no chunk at all before it: not the start of a trailer field that was cut off
            g = bad_line(rng).replace(b':', b'.')
        tail = b'0\r\n' + g
    elif kind == 'trailer':
        ctx.ev('bad_trailer')
        before, good = whole, content
        tail = b'0\r\n' + trailers(rng) + rng.choice([b'no field\r\n', b'\n', b'oops\n', b'5\r\n', b'<html>\r\n']) + rest_of(rng)
    else:
        # bytes in place of the end of a chunk: reported; otherwise two bytes may be lost
        ctx.ev('no_terminator')
        if not ps:
            return 'cut', b'', None, b''
        k = rng.randrange(len(ps))
        p, c = ps[k]
        end = rng.choice([b'XY', b'\n\n', b'\r\r', b'\n\r', b'0\r', b'ab'])
        body = b''.join(q for q, _ in ps[:k]) + p[:-2] + end + b''.join(q for q, _ in ps[k + 1:]) + rng.choice([b'0\r\n\r\n', b'', b'rest'])
        return kind, body, None, b''.join(d for _, d in ps[:k])
    return kind, before + tail, good + tail, good


class Src(Source):
    """short reads, but whole lines (as a file)"""
    def readline(self, n=-1):
        pol, self.policy = self.policy, None
        try:
            return Source.readline(self, n)
        finally:
            self.policy = pol


def pieces(rng, r, out):
    how = rng.randrange(4)
    while True:
        if how == 0:
            b = r.read(rng.choice([1, 2, 7, 100, 16384, 50000]))
        elif how == 1:
            b = r.readline()
        elif how == 2:
            b = r.read(16384)
        else:
            b = r.read(rng.choice([3, 1000])) if rng.random() < .5 else r.readline(rng.choice([5, 1000]))
        if not b:
            return
        out.append(b)


def source(rng, ctx, body):
    k = rng.randrange(4)
    if k == 0:
        return io.BytesIO(body)
    if k == 1:
        pol = policies(rng) if len(body) < 40000 else None
        if pol:
            ctx.ev('short_sources')
        return Src(body, pol)
    if k == 2:
        return BufferedReader(Src(body, policies(rng) if len(body) < 40000 else None), block_size=rng.choice([1, 3, 64, 16384]) if len(body) < 40000 else 16384)
    return LimitReader(io.BytesIO(body + b'WARC/1.0\r\n'), len(body))


def case(rng, ctx, idx):
    content = gen.payload(rng)
    coding = rng.choice([None, None, None, 'gzip', 'deflate', 'br'])
    raw = gen.content_code(rng, coding, content) if coding else content
    if coding:
        ctx.ev('coded')
    kind, body, want, at_most = make(rng, ctx, raw)
    where = 'body of %d bytes (%s%s)' % (len(body), kind, ', ' + coding if coding else '')

    # a reader that raises
    out = []
    extra = rng.choice([b'', b'HTTP/1.1 200 OK\r\n\r\n', b'\r\n', b'5\r\nhello\r\n0\r\n\r\n']) if kind == 'ok' else b''
    src = source(rng, ctx, body + extra)
    raised = None
    with quiet():
        r = ChunkedDataReader(src, raise_exceptions=True, decomp_type=coding)
        try:
            pieces(rng, r, out)
        except ChunkedDataException as e:
            raised = e
        got = b''.join(out)
    if kind == 'ok':
        ctx.expect(raised is None, '%s: well-formed, but refused: %r' % (where, raised), body=body)
        ctx.equal(got, content, where + ': content')
        ctx.ev('strict_well_formed')
        with quiet():
            left = b''.join(iter(lambda: src.read(1000), b''))
        ctx.equal(left, extra, where + ': bytes left in the source after the end')
        ctx.ev('source_left')
    else:
        ctx.expect(raised is not None, '%s: not well-formed, but read without an error: %r' % (where, got[-60:]), body=body)
        ctx.ev('strict_reported')
        if kind == 'cut':
            ctx.ev('strict_cut')
        if not coding:
            ctx.expect(at_most.startswith(got), '%s: before the error, delivered %d bytes ending with %r' % (where, len(got), got[-60:]), body=body)
        else:
            ctx.expect(content.startswith(got), '%s: before the error, delivered %d bytes ending with %r' % (where, len(got), got[-60:]), body=body)
    ctx.nontrivial(kind, coding, body[:20000])
    ctx.sample = {'kind': kind, 'body_head': body[:80], 'coding': coding, 'raised': str(raised)[:80]}

    # one that does not
    if want is None or coding and kind != 'ok':
        return
    if coding:
        want = content
    if rng.random() < .3:
        ctx.ev('records')
        head = b'HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n' + (b'Content-Encoding: %s\r\n' % coding.encode() if coding else b'') + b'\r\n'
        m = gen.record(rng, rtype='response', block=head + body, url='http://example.com/')
        data, _ = gen.encode(rng, [m], rng.random() < .5)
        with quiet():
            rec = next(iter(ArchiveIterator(io.BytesIO(data))))
            got, how = drain(rng, rec.content_stream(), len(body) > 100000)
    else:
        with quiet():
            got, how = drain(rng, ChunkedDataReader(source(rng, ctx, body), decomp_type=coding, **({'raise_exceptions': False} if rng.random() < .5 else {})), len(body) > 100000)
    if got != want:
        k = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
        ctx.expect(False, '%s, %s: %d bytes instead of %d, first difference at %d: %r instead of %r'
                   % (where, how, len(got), len(want), k, got[k:k + 60], want[k:k + 60]), body=body)
    ctx.counters['assertions'] += 1
    if kind != 'ok':
        ctx.ev('passed_on')
