"""C15 arbitrary input never hangs or crashes the reader"""
import io
import os
import random
import sys
import time
import zlib

from wv import core, gen, refwarc
from wv.common import quiet, Source, Pipe, TellRaises, policies, captured_stdout
from warcio.archiveiterator import ArchiveIterator, WARCIterator, ARCIterator
from warcio.bufferedreaders import BufferedReader, DecompressingBufferedReader, ChunkedDataReader
from warcio.limitreader import LimitReader
from warcio.statusandheaders import StatusAndHeadersParser
from warcio.indexer import Indexer
from warcio.recordbuilder import RecordBuilder
from warcio.warcwriter import BufferWARCWriter

PROP = 'C15'
QUICK, THOROUGH = 24000, 800000
CPU_LIMIT = 60
RULE = ('case = one arbitrary or mutated input (WARC, ARC, gzip, coded HTTP bodies, random bytes, spliced tokens) consumed in one '
        'way (iterate, verify, decode, index, rewrite, or through the stream readers alone) from one kind of source, under budgets for source reads, records and '
        'bytes delivered, exceptions classified; scaling cases run 30 input families at two sizes and compare CPU time; '
        'non-trivial = the input was consumed to its end or to an error; distinct by input')
NEED = {'normal_ends': 4000, 'errors': 1500, 'records': 15000, 'mutated_warc': 4000, 'mutated_arc': 1000, 'random': 1000,
        'tokens': 2000, 'bombs': 100, 'unseekable': 3000, 'content_streams': 3000, 'indexed': 800, 'rewritten': 800, 'scaled': 20, 'readers': 800,
        'damaged_coded': 200}
# what stands for a defect of the library and not for an error in the input
CRASHES = (RecursionError, MemoryError, NameError, AttributeError, TypeError, IndexError, KeyError, AssertionError, SystemError,
           NotImplementedError, StopIteration, RuntimeError, ZeroDivisionError)

TOKENS = [b'WARC/1.0\r\n', b'WARC/1.1\r\n', b'WARC/0.17\n', b'WARC/', b'warc/1.0\r\n', b'WARC-Type: response\r\n', b'WARC-Type: revisit\r\n',
          b'WARC-Type: request\r\n', b'WARC-Type: \r\n', b'Content-Length: 10\r\n', b'Content-Length: 0\r\n', b'Content-Length: -5\r\n',
          b'Content-Length: 99999999999999999999\r\n', b'Content-Length: abc\r\n', b'Content-Length:\r\n', b'Content-Length: 1e3\r\n',
          b'Content-Length: ' + b'9' * 5000 + b'\r\n', 'Content-Length: ١٢\r\n'.encode(), b'Content-Length: 1_0\r\n',
          b'WARC-Target-URI: http://x/\r\n', b'WARC-Target-URI: <http://x y/>\r\n', b'WARC-Target-URI: <>\r\n', b'WARC-Target-URI: \r\n',
          b'WARC-Payload-Digest: sha1:ABC\r\n', b'WARC-Block-Digest: :\r\n', b'WARC-Block-Digest: sha1:\r\n', b'WARC-Block-Digest: x\r\n',
          b'WARC-Block-Digest: shake_128:AA\r\n', b'WARC-Payload-Digest: sha1:\xc3\xa9\r\n', b'WARC-Segment-Number: 2\r\n',
          b'WARC-Date: x\r\n', b'\r\n', b'\r\n\r\n', b'\n', b'\r', b' ', b'\t', b' cont\r\n', b':\r\n', b': x\r\n', b'x\r\n',
          b'HTTP/1.1 200 OK\r\n', b'HTTP/1.0\r\n', b'HTTP/1.1 \r\n', b'GET / HTTP/1.1\r\n', b'GET\r\n', b'Transfer-Encoding: chunked\r\n',
          b'Content-Encoding: gzip\r\n', b'Content-Encoding: br\r\n', b'Content-Encoding: deflate\r\n', b'Content-Encoding: x\r\n',
          b'Content-Encoding: deflate_alt\r\n', b'5\r\nhello\r\n', b'0\r\n\r\n', b'0\r\n', b'-1\r\n', b'-5\r\nhello\r\n', b'ffffffff\r\n', b'7fffffff\r\n', b'80000000\r\nab',
          b'0x5\r\nhello\r\n', b' 5 \r\nhello\r\n', b'5;x\r\nhello\r\n', b'+5\r\nhello\r\n', b'1_0\r\n0123456789\r\n', b'\x1f\x8b', b'\x1f\x8b\x08\x00', b'\x1f\x8b\x08\x08\x00\x00\x00\x00\x00\x00',
          b'filedesc://x 0.0.0.0 20200101000000 text/plain 76\n1 0 x\nURL IP-address Archive-date Content-type Archive-length\n',
          b'filedesc://', b'filedesc:// 0 0 0 0\n', b'http://x/ 1.1.1.1 20200101000000 text/html 5\nhello\n', b'http://x/ 1.1.1.1 2020 text/html -5\n',
          b'http://x/ 1.1.1.1 99999999999999 text/html 5\nhello', b'http://x/ 1.1.1.1 \xc3\xa9 text/html 5\nhello', b'a b c d e\n', b'a b c d\n', b'    \n', b'1 2 3 4 5',
          b'http://x/ 1.1.1.1 20200230000000 no-type 0\n', '\u0661\u0662 b c d e\n'.encode(), b'\xff\xfe', b'\xc3', b'\x00' * 20, b'a' * 70, b'%', b'{', b'\x85', b'\x1c', b'\x0b\x0c']


def make(rng, ctx):
    """-> (data, upper bound of decompressed size or None)"""
    k = rng.random()
    if k < .04:
        # damaged coded text in small chunks: a decompressor that failed, and more data
        ctx.ev('damaged_coded')
        out = []
        for _ in range(rng.choice([1, 2, 4])):
            kind = rng.choice(['br', 'br', 'br', 'gzip', 'deflate'])
            text = bytes(rng.choices(b'abcdefgh ', k=rng.choice([500, 5000, 20000])))
            raw = bytearray(gen.content_code(rng, kind, text))
            for _ in range(rng.choice([1, 3, 10])):
                raw[rng.randrange(len(raw))] ^= 1 << rng.randrange(8)
            out.append(http(CH + b'Content-Encoding: ' + kind.encode() + b'\r\n',
                            refwarc.chunk(bytes(raw), [rng.randrange(1, 300) for _ in range(50)])))
        return b''.join(out)
    if k < .4:
        ctx.ev('mutated_warc')
        recs = [gen.coded_record(rng, corrupt=rng.random() < .3)[0] if rng.random() < .4 else gen.record(rng, digests=gen.make_digests(rng) if rng.random() < .3 else None)
                for _ in range(rng.choice([1, 1, 2, 4]))]
        gz = rng.random() < .5
        plain = rng.random() < .5
        if gz and plain:
            # mutated inside valid gzip members
            return b''.join(refwarc.gz(gen.mutate(rng, r.encode()), rng.choice([0, 9])) for r in recs)
        data, _ = gen.encode(rng, recs, gz)
        return gen.mutate(rng, data, rng.choice([1, 1, 2, 5, 30]))
    if k < .5:
        ctx.ev('mutated_arc')
        head, spec, body = refwarc.arc_header('x', '20200101000000', b'body\n')
        data = (head + spec + body + b'\n') if rng.random() < .6 else b''
        for _ in range(rng.randrange(1, 4)):
            data += refwarc.arc_record(gen.http_url(rng), '1.2.3.4', '2020', 'text/html', gen.http_head(rng, 'response')[2] + gen.payload(rng)[:500]) + b'\n'
        data = gen.mutate(rng, data, rng.choice([1, 2, 5]))
        return refwarc.gz(data) if rng.random() < .3 else data
    if k < .58:
        ctx.ev('random')
        d = gen.randbytes(rng, rng.choice([0, 1, 2, 3, 10, 100, 5000, 40000]))
        return rng.choice([d, refwarc.gz(d), b'WARC/1.0\r\n' + d, b'\x1f\x8b' + d, b'\x1f\x8b\x08\x00' + d])
    if k < .62:
        ctx.ev('bombs')
        unit = rng.choice([b'\0', b'\r\n', b'WARC/1.0\r\n\r\n', b'a: b\r\n', b'0\r\n', b' x\r\n', b'1\r\na\r\n', refwarc.gz(b''), refwarc.gz(b'\r\n'), b'{', b'\xc3\xa9'])
        d = rng.choice([b'', b'WARC/1.0\r\n', b'WARC/1.0\r\nContent-Length: 5\r\n']) + unit * rng.choice([1000, 20000])
        return rng.choice([d, refwarc.gz(d), refwarc.gz(refwarc.gz(d)), refwarc.gz(b'\0' * 3000000)])
    ctx.ev('tokens')
    d = b''.join(rng.choice(TOKENS) for _ in range(rng.choice([1, 2, 3, 5, 10, 30])))
    if rng.random() < .5:
        d = rng.choice([b'WARC/1.0\r\n', b'WARC/1.0\r\nContent-Length: %d\r\nWARC-Type: %s\r\nWARC-Target-URI: http://x/\r\n\r\n'
                        % (rng.choice([0, 5, 100, 10000]), rng.choice([b'response', b'request', b'revisit', b'resource', b'warcinfo'])),
                        b'filedesc://x 0.0.0.0 20200101000000 text/plain 76\n']) + d
    if rng.random() < .3:
        d = refwarc.gz(d) + (rng.choice(TOKENS) if rng.random() < .3 else b'')
    return d


def size_bound(data):
    """the most bytes a reader can get out of the input (as one decompression)"""
    best = len(data)
    if data[:2] == b'\x1f\x8b':
        total = 0
        pos = 0
        while pos < len(data):
            d = zlib.decompressobj(16 + zlib.MAX_WBITS)
            n = 0
            try:
                for i in range(pos, len(data), 4096):
                    n += len(d.decompress(data[i:i + 4096]))
                    if d.eof:
                        break
            except zlib.error:
                # what was before the error may have been delivered, the rest not
                total += n + 1040 * 8192 + len(data) - pos
                break
            total += n
            if not d.eof:
                break
            used = i + 4096 - pos - len(d.unused_data) if i + 4096 <= len(data) else len(data) - pos - len(d.unused_data)
            pos += max(1, used)
            if data[pos:pos + 2] != b'\x1f\x8b':
                total += len(data) - pos
                break
        best = max(best, total)
    return best


class Meter(object):
    """what one consumption may use"""
    def __init__(self, ctx, src, bound, where):
        self.ctx, self.src, self.bound, self.where = ctx, src, bound, where
        self.records = 0
        self.bytes = 0

    def record(self, rec):
        self.records += 1
        self.ctx.ev('records')
        self.ctx.expect(self.records <= self.bound + 2, '%s: %d records out of at most %d bytes' % (self.where, self.records, self.bound))

    def body(self, n):
        self.bytes += n
        self.ctx.expect(self.bytes <= self.bound, '%s: records hold %d bytes, the input at most %d' % (self.where, self.bytes, self.bound))

    def end(self):
        s = self.src
        n = len(s.data)
        self.ctx.expect(s.eof_reads <= 60 + 12 * self.records + n, '%s: %d reads after the end of the input, %d records' % (self.where, s.eof_reads, self.records))
        self.ctx.expect(s.reads <= 200 + 3 * n + s.eof_reads, '%s: %d reads of a source of %d bytes' % (self.where, s.reads, n))


def consume(rng, ctx, s, meter):
    opts = {'arc2warc': rng.random() < .3, 'verify_http': rng.random() < .3, 'no_record_parse': rng.random() < .3,
            'ensure_http_headers': rng.random() < .2, 'check_digests': rng.choice([False, False, True, 'raise', 'log'])}
    if rng.random() < .3:
        opts['block_size'] = rng.choice([1, 2, 100, 16384, 70000])
    cls = rng.choice([ArchiveIterator] * 5 + [WARCIterator, ARCIterator])
    how = rng.choice(['raw', 'raw', 'content', 'content', 'lines', 'none', 'meta', 'mixed'])
    it = cls(s, **opts)
    for rec in it:
        meter.record(rec)
        h = how if how != 'mixed' else rng.choice(['raw', 'content', 'lines', 'none', 'meta'])
        if h == 'raw':
            meter.body(len(rec.raw_stream.read()))
        elif h == 'lines':
            while True:
                b = rec.raw_stream.readline()
                meter.body(len(b))
                if not b:
                    break
        elif h == 'content':
            ctx.ev('content_streams')
            cs = rec.content_stream()
            n = 0
            k = rng.choice([1000, 16384, None])
            while True:
                b = cs.read(k)
                n += len(b)
                if not b:
                    break
                ctx.expect(n <= 3 * 10 ** 9, 'content without end')
        elif h == 'meta':
            it.get_record_offset()
            it.get_record_length()
            rec.rec_headers.to_bytes()
            str(rec.rec_headers)
            if rec.http_headers:
                rec.http_headers.to_ascii_bytes()
                rec.http_headers.get_statuscode()
    return '%s %s %s' % (cls.__name__, how, opts)


def index(rng, ctx, s, meter):
    ctx.ev('indexed')
    out = io.StringIO()
    fields = rng.choice(['offset,length', 'offset,warc-type,warc-target-uri', 'http:status,offset,http:content-type,length,filename', 'mime'])
    Indexer(fields, [], None, verify_http=rng.random() < .3).process_one(s, out, 'name')
    n = out.getvalue().count('\n')
    meter.records = n
    ctx.expect(n <= meter.bound + 2, '%s: index of %d lines' % (meter.where, n))
    return 'index'


def rewrite(rng, ctx, s, meter):
    ctx.ev('rewritten')
    w = BufferWARCWriter(gzip=rng.random() < .5)
    try:
        for rec in ArchiveIterator(s, arc2warc=True, check_digests=rng.random() < .3):
            meter.record(rec)
            w.write_record(rec)
    finally:
        w.out.close()
    return 'rewrite'


def build(rng, ctx, s, meter):
    """arbitrary payload given to the record builder"""
    b = RecordBuilder()
    kw = {}
    if rng.random() < .3:
        kw['length'] = len(s.data)
    rec = b.create_warc_record('http://example.com/', rng.choice(['response', 'request', 'revisit', 'resource']), payload=s, **kw)
    meter.record(rec)
    w = BufferWARCWriter(gzip=False)
    try:
        w.write_record(rec)
    finally:
        w.out.close()
    return 'build'


def readers(rng, ctx, s, meter):
    """the stream readers and the header parser, straight on arbitrary bytes"""
    ctx.ev('readers')
    k = rng.randrange(5)
    bs = rng.choice([16384, 16384, 1, 100, 70000])
    if k == 0:
        r = DecompressingBufferedReader(s, block_size=bs, read_all_members=True)
    elif k == 1:
        r = DecompressingBufferedReader(s, block_size=bs)
    elif k == 2:
        r = BufferedReader(s, block_size=bs, decomp_type=rng.choice(['deflate', 'br', 'deflate_alt', None]))
    elif k == 3:
        r = ChunkedDataReader(s if hasattr(s, 'readline') else BufferedReader(s), raise_exceptions=rng.random() < .5, decomp_type=rng.choice([None, None, 'gzip', 'deflate', 'br']))
    else:
        p = StatusAndHeadersParser(rng.choice([['WARC/1.0', 'WARC/1.1'], ['HTTP/1.0', 'HTTP/1.1'], []]), rng.random() < .5)
        h = p.parse(DecompressingBufferedReader(s, block_size=bs))
        meter.bytes = h.total_len
        h.to_bytes()
        str(h)
        return 'parser'
    if rng.random() < .3:
        r = LimitReader(r, rng.choice([10, 10000, 1 << 40]))
    n = 0
    line = rng.random() < .3
    while True:
        b = (r.readline if line else r.read)(rng.choice([1, 100, 16384, 70000]))
        n += len(b)
        if not b and not (k == 1 and hasattr(r, 'read_next_member') and r.read_next_member()):
            break
        ctx.expect(n <= 3 * 10 ** 9, 'stream without end')
        if not line and n > 200000:
            r.read()
    return 'readers %d' % k


def case(rng, ctx, idx):
    if idx % 1500 < 8:
        return scaling(rng, ctx, idx)
    data = make(rng, ctx)
    bound = size_bound(data)
    pol = policies(rng) if len(data) < 3000 and rng.random() < .4 else None
    kind = rng.choice(['seekable', 'seekable', 'pipe', 'tellraises'])
    if kind == 'seekable':
        s = src = Source(data, pol)
    else:
        s = (Pipe if kind == 'pipe' else TellRaises)(data, pol)
        src = s.src
        ctx.ev('unseekable')
    src.eof_budget = 5000 + 20 * bound
    where = '%d bytes, %s' % (len(data), kind)
    meter = Meter(ctx, src, bound, where)
    use = rng.choice([consume] * 6 + [index, rewrite, readers])
    if use is not consume and rng.random() < .2 and kind == 'seekable':
        use = build
    try:
        with quiet():
            use(rng, ctx, s, meter)
        ctx.ev('normal_ends')
    except (core.Violation, core.NonTermination):
        raise
    except CRASHES as e:
        import traceback
        ctx.expect(False, '%s, %s: %s: %s' % (where, use.__name__, type(e).__name__, e), data=data, traceback=traceback.format_exc())
    except Exception as e:
        ctx.ev('errors')
        ctx.ev('error_' + type(e).__name__)
    meter.end()
    ctx.nontrivial(data[:20000], len(data), use.__name__)
    ctx.sample = {'bytes': len(data), 'head': data[:80], 'source': kind, 'use': use.__name__, 'records': meter.records}


# ---------------------------------------------------------------- scaling
def rec(block, extra=b'', t=b'response'):
    return (b'WARC/1.0\r\nWARC-Type: ' + t + b'\r\nWARC-Target-URI: http://x/\r\n' + extra + b'Content-Length: %d\r\n\r\n' % len(block)
            + block + b'\r\n\r\n')


def http(h, b):
    return rec(b'HTTP/1.1 200 OK\r\n' + h + b'\r\n' + b)


CH = b'Transfer-Encoding: chunked\r\n'
MB = 1 << 20
FAMILIES = {
    'zeros': (10 * MB, lambda n: b'\0' * n),
    'zeros gzip': (10 * MB, lambda n: refwarc.gz(b'\0' * n)),
    'blank lines': (MB, lambda n: b'\r\n' * (n // 2)),
    'blank lines after a record': (MB, lambda n: rec(b'abc', t=b'resource') + b'\r\n' * (n // 2)),
    'continuation lines': (MB, lambda n: rec(b'abc', b'X: a\r\n' + b' b\r\n' * (n // 4), t=b'resource')),
    'header lines': (MB, lambda n: rec(b'abc', b'X: a\r\n' * (n // 6), t=b'resource')),
    'lines without colon': (MB, lambda n: rec(b'abc', b'X\r\n' * (n // 3), t=b'resource')),
    'http continuation lines': (MB, lambda n: http(b'X: a\r\n' + b' b\r\n' * (n // 4), b'')),
    'long header': (10 * MB, lambda n: rec(b'abc', b'X: ' + b'a' * n + b'\r\n', t=b'resource')),
    'long http header': (10 * MB, lambda n: http(b'X: ' + b'a' * n + b'\r\n', b'')),
    'http without end': (10 * MB, lambda n: rec(b'a' * n)),
    'small chunks': (MB // 2, lambda n: http(CH, b'1\r\na\r\n' * (n // 6) + b'0\r\n\r\n')),
    'gzip in small chunks': (MB // 2, lambda n: http(CH + b'Content-Encoding: gzip\r\n', refwarc.chunk(refwarc.gz(random.Random(1).randbytes(n // 8)), [1]))),
    'gzip header in small chunks': (MB // 32, lambda n: http(CH + b'Content-Encoding: gzip\r\n', refwarc.chunk(b'\x1f\x8b\x08\x08\0\0\0\0\0\0' + b'n' * n + b'\0' + refwarc.gz(b'abc')[10:], [1]))),
    'one big chunk': (10 * MB, lambda n: http(CH, refwarc.chunk(b'a\n' * (n // 2), [n]))),
    'chunk trailers': (MB, lambda n: http(CH, b'1\r\na\r\n0\r\n' + b'a:b\r\n' * (n // 5))),
    'not chunked': (10 * MB, lambda n: http(CH, b'f' * n)),
    'empty members': (MB, lambda n: refwarc.gz(b'') * (n // 20)),
    'small members': (MB, lambda n: refwarc.gz(rec(b'abc', t=b'resource')) * (n // 90)),
    'small records': (MB, lambda n: rec(b'abc', t=b'resource') * (n // 90)),
    'one member': (4 * MB, lambda n: refwarc.gz(rec(b'abc', t=b'resource') * (n // 90))),
    'arc records': (MB, lambda n: b'http://x/ 1.1.1.1 20200101000000 text/html 0\n' * (n // 45)),
    'arc spaces': (10 * MB, lambda n: b'http://x/' + b' ' * n + b'\n'),
    'colons': (10 * MB, lambda n: rec(b'abc', b':' * n + b'\r\n', t=b'resource')),
    'spaces in uri': (4 * MB, lambda n: rec(b'abc', b'WARC-Target-URI: ' + b' x' * (n // 2) + b'\r\n', t=b'resource')),
    'non-ascii header': (2 * MB, lambda n: http(b'X: ' + 'é'.encode() * (n // 2) + b'\r\n', b'')),
    'non-ascii parameters': (MB, lambda n: http(b'X: ' + 'a="é"; '.encode() * (n // 8) + b'\r\n', b'')),
    'equal signs': (MB, lambda n: http(b'X: ' + 'é;'.encode() + b'="' * (n // 2) + b'\r\n', b'')),
    'body lines': (4 * MB, lambda n: rec(b'a\n' * (n // 2), t=b'resource')),
    'deflate': (10 * MB, lambda n: http(b'Content-Encoding: deflate\r\n', zlib.compress(b'a' * n))),
    'mislabelled gzip': (10 * MB, lambda n: http(b'Content-Encoding: gzip\r\n', b'\x1f\x8b\x08\x08\0\0\0\0\0\0' + b'a' * n)),
    'digests': (10 * MB, lambda n: rec(b'a' * n, b'WARC-Block-Digest: ' + refwarc.digest(b'a' * n).encode() + b'\r\n', t=b'resource')),
}


def cost(data, mode):
    t = time.process_time()
    n = 0
    try:
        with quiet():
            if mode == 'members':
                s = DecompressingBufferedReader(io.BytesIO(data), read_all_members=True)
                while True:
                    b = s.read(16384)
                    n += len(b)
                    if not b:
                        break
            elif mode == 'content':
                for r in ArchiveIterator(io.BytesIO(data), check_digests=True):
                    n += 1
                    s = r.content_stream()
                    while s.read(16384):
                        pass
                    if r.http_headers:
                        r.http_headers.to_ascii_bytes()
            elif mode == 'lines':
                for r in ArchiveIterator(io.BytesIO(data)):
                    n += 1
                    s = r.content_stream()
                    while s.readline():
                        pass
            else:
                out = io.StringIO()
                Indexer('offset,length,http:status', [], None).process_one(io.BytesIO(data), out, 'x')
                n = out.getvalue().count('\n')
    except (core.Violation, core.NonTermination) + CRASHES:
        raise
    except Exception:
        pass
    return time.process_time() - t, n


def scaling(rng, ctx, idx):
    """four times the input must not take far more than four times the work"""
    names = sorted(FAMILIES)
    name = names[(idx // 1500 * 8 + idx % 1500) % len(names)]
    mode = rng.choice(['content', 'content', 'lines', 'index'])
    if 'members' in name and rng.random() < .4:
        mode = 'members'
    base, f = FAMILIES[name]
    small, large = f(base), f(base * 4)
    worst = None
    for attempt in range(3):
        a = cost(small, mode)[0]
        b, n = cost(large, mode)
        ctx.ev('scaled')
        if b < 3 or b < 10 * max(a, .05):
            worst = None
            break
        worst = (a, b)
        if core.Guard.fired:
            break
    ctx.expect(worst is None, '%s (%s): %.1f s of CPU for %d bytes, %.1f s for %d bytes' % ((name, mode) + (worst and (worst[0], len(small), worst[1], len(large)) or (0, 0, 0, 0))))
    ctx.nontrivial(name, mode)
