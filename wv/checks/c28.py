"""C28 memory is bounded and no file is leaked"""
import contextlib
import gc
import io
import os
import shutil
import socket
import sys
import threading
import tracemalloc
import warnings
import zlib

from wv import arc, gen, refwarc
from wv.core import Inconclusive, Violation
from wv.common import Source

from warcio.capture_http import capture_http
import http.client as httplib
from warcio.archiveiterator import ArchiveIterator
from warcio.bufferedreaders import BufferedReader, DecompressingBufferedReader, ChunkedDataReader
from warcio.cli import main as cli_main
from warcio.exceptions import ArchiveLoadFailed
from warcio.limitreader import LimitReader
from warcio.recordbuilder import RecordBuilder
from warcio.statusandheaders import StatusAndHeaders
from warcio.warcwriter import WARCWriter, BufferWARCWriter

PROP = 'C28'
QUICK, THOROUGH = 420, 9000
CPU_LIMIT = 300
MB = 1 << 20
RULE = ('case = either one operation (reading in some way, index, check, extract, recompress, writing, copying, capturing) run on '
        'a small and on a several times larger input of the same kind (one big record or many, random or highly compressible, plain or '
        'gzip, transfer or content coded), peaks of traced memory compared; or an operation ended normally, by an injected error or by '
        'giving up, after which open files are counted with the garbage collector off; non-trivial = one comparison or count; distinct by '
        'operation, kind of input and fault')
NEED = {'memory_pairs': 80, 'leak_runs': 80, 'ended_by_error': 40, 'ended_early': 8, 'temp_files_seen': 8, 'captures': 6, 'big_records': 30,
        'many_records': 15, 'compressible': 10, 'writes': 12, 'commands': 20, 'regrouped': 4}
ASSUMPTIONS = ['memory is what Python allocates (tracemalloc), not the fixed state of zlib', 'sizes up to 24 MB (96 MB if highly compressible)']

SMALL, LARGE = 3 * MB, 11 * MB
CSMALL, CLARGE = 40 * MB, 96 * MB       # highly compressible: one read of compressed input is worth up to 16 MB
SLACK = 1 * MB
CEILING = 6 * MB
CCEILING = 80 * MB


# ------------------------------------------------------------------ inputs, made piece by piece
_noise = []


def noise():
    if not _noise:
        _noise.append(os.urandom(1 * MB + 13))
    return _noise[0]


def pieces(kind, size, start=0):
    left = size
    i = 0
    while left > 0:
        if kind == 'zeros':
            p = bytes(min(left, MB))
        elif kind == 'lines':
            p = (b'line %d of many, with some text\n' % i * 4000)[:left]
        elif kind == 'long line':
            p = b'x' * min(left, MB)
        else:
            p = noise()[start:start + left]
            start = 0
        i += 1
        left -= len(p)
        yield p


class Inp(object):
    pass


def make_input(rng, path, spec, size):
    """an archive of about size bytes at path; -> offset of the last record, its size"""
    how, content, coding, gz, kind = spec
    with open(path, 'wb') as raw:
        pos = [0]

        class G(object):
            def __init__(self):
                self.c = zlib.compressobj(1, zlib.DEFLATED, 31) if gz else None

            def write(self, d):
                d = self.c.compress(d) if gz else d
                pos[0] += raw.write(d)

            def end(self):
                if gz:
                    pos[0] += raw.write(self.c.flush())
        single = gz == 'one'
        g = G()
        if kind == 'arc':
            head = arc.file_header(rng) if hasattr(arc, 'file_header') else None
            g.write(head.encode() + b'\n' if hasattr(head, 'encode') else head)
            if gz and not single:
                g.end()
        n = 1 if how == 'big' else size // 3000
        for i in range(n):
            offset = pos[0]
            if gz and not single:
                g = G()
            each = size if how == 'big' else 2600
            ctype = b'application/http; msgtype=response'
            head = b'HTTP/1.1 200 OK\r\nContent-Type: text/plain\r\n'
            if 'chunked' in coding:
                head += b'Transfer-Encoding: chunked\r\n'
            if 'gzip' in coding:
                head += b'Content-Encoding: gzip\r\n'
            head += b'\r\n'
            if kind == 'resource':
                head, ctype = b'', b'text/plain'
            total = len(head)
            enc = zlib.compressobj(1, zlib.DEFLATED, 31) if 'gzip' in coding else None

            def body():
                for p in pieces(content, each, i * 2711 % 1000000):
                    if enc:
                        p = enc.compress(p)
                    if p and 'chunked' in coding:
                        for k in range(0, len(p), 50000):
                            q = p[k:k + 50000]
                            yield b'%x\r\n' % len(q) + q + b'\r\n'
                    elif p:
                        yield p
                if enc:
                    p = enc.flush()
                    yield b'%x\r\n' % len(p) + p + b'\r\n' if 'chunked' in coding else p
                if 'chunked' in coding:
                    yield b'0\r\n\r\n'
            # coded twice: once for the length
            parts = list(body()) if how != 'big' or coding else None
            length = total + (sum(map(len, parts)) if parts is not None else each)
            url = b'http://example.com/%d' % i
            if kind == 'arc':
                g.write(b'%s 127.0.0.1 20200101000000 text/plain %d\n' % (url, length))
            else:
                g.write(b'WARC/1.0\r\nWARC-Type: %s\r\nWARC-Record-ID: <urn:uuid:%032d>\r\nWARC-Date: 2020-01-01T00:00:00Z\r\nWARC-Target-URI: %s\r\n'
                        b'Content-Type: %s\r\nContent-Length: %d\r\n\r\n' % (b'resource' if kind == 'resource' else b'response', i, url, ctype, length))
            g.write(head)
            for p in parts if parts is not None else pieces(content, each, i * 2711 % 1000000):
                g.write(p)
            g.write(b'\n' if kind == 'arc' else b'\r\n\r\n')
            if gz and not single:
                g.end()
        if single:
            g.end()
    return offset


def input_spec(rng):
    how = rng.choice(['big', 'big', 'many'])
    content = rng.choice(['noise', 'noise', 'lines', 'zeros', 'long line']) if how == 'big' else 'noise'
    kind = rng.choice(['http', 'http', 'http', 'resource', 'arc'])
    coding = rng.choice([(), (), ('chunked',), ('gzip',), ('chunked', 'gzip')]) if kind != 'resource' else ()
    gz = rng.choice([False, True, True, 'one'])
    return how, content, coding, gz, kind


def compressible(spec):
    return spec[1] != 'noise'


# ------------------------------------------------------------------ operations
class Null(io.RawIOBase):
    """output that keeps nothing"""
    def __init__(self):
        super().__init__()
        self.n = 0

    def writable(self):
        return True

    def write(self, b):
        self.n += len(b)
        return len(b)


@contextlib.contextmanager
def null_stdout():
    old = sys.stdout, sys.stderr
    null = Null()
    sys.stdout = io.TextIOWrapper(io.BufferedWriter(null), encoding='utf-8')
    sys.stderr = io.StringIO()
    try:
        yield null
    finally:
        keep = sys.stdout
        sys.stdout, sys.stderr = old
        try:
            keep.flush()
        except Exception:
            pass


def drain(stream, n=16384):
    total = 0
    while True:
        d = stream.read(n)
        if not d:
            return total
        total += len(d)


class Op(object):
    """name, run(source path, tmp, offset)"""
    def __init__(self, rng, ctx):
        self.rng = rng
        self.n = rng.choice([1000, 8192, 16384, 100000])
        self.name = rng.choice(['iterate', 'skip', 'raw', 'content', 'readline', 'part', 'digests', 'stream', 'index', 'check', 'extract', 'payload',
                                'headers', 'recompress', 'copy', 'copy unparsed', 'convert', 'index', 'check', 'extract', 'payload', 'recompress'])
        self.args = rng.random() < .5

    def __call__(self, path, tmp, offset):
        return getattr(self, 'do_' + self.name.replace(' ', '_'))(path, tmp, offset)

    def each(self, path, f, **kw):
        count = 0
        with open(path, 'rb') as fh:
            try:
                for rec in ArchiveIterator(fh, **kw):
                    f(rec)
                    count += 1
            except ArchiveLoadFailed as e:
                if 'non-chunked gzip' not in str(e):
                    raise
        return count

    def do_iterate(self, path, tmp, offset):
        return self.each(path, lambda rec: None)

    def do_skip(self, path, tmp, offset):
        count = 0
        with open(path, 'rb') as fh:
            it = ArchiveIterator(fh, no_record_parse=self.args)
            try:
                for rec in it:
                    it.get_record_offset()
                    it.get_record_length()
                    count += 1
            except ArchiveLoadFailed as e:
                if 'non-chunked gzip' not in str(e):
                    raise
        return count

    def do_raw(self, path, tmp, offset):
        return self.each(path, lambda rec: drain(rec.raw_stream, self.n))

    def do_content(self, path, tmp, offset):
        return self.each(path, lambda rec: drain(rec.content_stream(), self.n))

    def do_readline(self, path, tmp, offset):
        def lines(rec):
            while rec.content_stream_().readline(self.n):
                pass

        def f(rec):
            s = rec.content_stream() if self.args else rec.raw_stream
            while s.readline(self.n):
                pass
        return self.each(path, f)

    def do_part(self, path, tmp, offset):
        return self.each(path, lambda rec: rec.content_stream().read(self.n))

    def do_digests(self, path, tmp, offset):
        return self.each(path, lambda rec: drain(rec.content_stream(), self.n), check_digests='log')

    def do_stream(self, path, tmp, offset):
        with open(path, 'rb') as fh:
            return drain(DecompressingBufferedReader(fh, read_all_members=True, block_size=self.rng.choice([1024, 16384])), self.n)

    def do_convert(self, path, tmp, offset):
        return self.each(path, lambda rec: drain(rec.raw_stream, self.n), arc2warc=True)

    def do_copy(self, path, tmp, offset):
        w = WARCWriter(Null(), gzip=self.args)
        return self.each(path, w.write_record, arc2warc=True)

    def do_copy_unparsed(self, path, tmp, offset):
        w = WARCWriter(Null(), gzip=self.args)
        return self.each(path, w.write_record, arc2warc=True, no_record_parse=True)

    def cli(self, *args):
        with null_stdout():
            try:
                cli_main(list(args))
            except SystemExit as e:
                return e.code or 0
            except (StopIteration, ArchiveLoadFailed, OSError, EOFError):
                return 1        # damaged or missing input
        return 0

    def do_index(self, path, tmp, offset):
        return self.cli('index', '-f', 'offset,length,warc-type' + (',http:status' if self.args else ''), '-o', os.path.join(tmp, 'index.out'), path)

    def do_check(self, path, tmp, offset):
        return self.cli(*['check'] + (['-v'] if self.args else []) + [path])

    def do_extract(self, path, tmp, offset):
        return self.cli('extract', path, str(offset))

    def do_payload(self, path, tmp, offset):
        return self.cli('extract', '--payload', path, str(offset))

    def do_headers(self, path, tmp, offset):
        return self.cli('extract', '--headers', path, str(offset))

    def do_recompress(self, path, tmp, offset):
        return self.cli(*['recompress'] + (['-v'] if self.args else []) + [path, os.path.join(tmp, 'recompressed.out')])


class Gen(object):
    """payload produced as it is read"""
    def __init__(self, content, size, head=b''):
        self.it = pieces(content, size)
        self.buf = head
        self.pos = 0

    def read(self, n=-1):
        while len(self.buf) < n:
            p = next(self.it, None)
            if p is None:
                break
            self.buf += p
        d, self.buf = self.buf[:n], self.buf[n:]
        return d

    def readline(self, n=-1):
        n = 16384 if n is None or n < 0 else n
        while len(self.buf) < n:
            p = next(self.it, None)
            if p is None:
                break
            self.buf += p
        i = self.buf.find(b'\n', 0, n)
        return self.read(i + 1 if i >= 0 else n)


def write_op(rng):
    """writing records from payloads not held in memory"""
    content = rng.choice(['noise', 'zeros', 'lines'])
    known = rng.random() < .5
    gzip = rng.random() < .5
    http = rng.choice([None, 'object', 'parsed'])
    buffered = rng.random() < .2
    from_file = known and rng.random() < .5
    many = rng.random() < .2
    name = 'write %s, length %s, %s, http %s%s%s%s' % (content, 'known' if known else 'unknown', 'gzip' if gzip else 'plain', http,
                                                     ', buffer' if buffered else '', ', file' if from_file else '', ', many' if many else '')

    def run(size, tmp):
        w = BufferWARCWriter(gzip=gzip) if buffered else WARCWriter(Null(), gzip=gzip)
        n, each = (size // 4000, 4000) if many else (1, size)
        for i in range(n):
            head = b'HTTP/1.1 200 OK\r\nX: y\r\n\r\n' if http == 'parsed' else b''
            kw = {}
            if http == 'object':
                kw['http_headers'] = StatusAndHeaders('200 OK', [('X', 'y')], protocol='HTTP/1.1')
            f = None
            if from_file:
                with open(os.path.join(tmp, 'payload'), 'wb') as o:
                    o.write(head)
                    for p in pieces(content, each):
                        o.write(p)
                f = open(os.path.join(tmp, 'payload'), 'rb')
            try:
                rec = w.create_warc_record('http://example.com/', 'response' if http else 'resource', payload=f or Gen(content, each, head),
                                           length=each + len(head) if known else None, **kw)
                w.write_record(rec)
            finally:
                if f:
                    f.close()
        if buffered:
            w.out.close()
    return name, run


class Big(object):
    """server sending and taking as much as asked for, piece by piece"""
    def __init__(self):
        self.s = socket.socket()
        self.s.bind(('127.0.0.1', 0))
        self.s.listen(16)
        self.port = self.s.getsockname()[1]
        threading.Thread(target=self.run, daemon=True).start()

    def run(self):
        while True:
            try:
                c, _ = self.s.accept()
            except OSError:
                return
            threading.Thread(target=self.serve, args=(c,), daemon=True).start()

    def serve(self, c):
        try:
            with c, c.makefile('rb') as f:
                line = f.readline().split()
                n = 0
                while True:
                    h = f.readline()
                    if h in (b'\r\n', b''):
                        break
                    if h.lower().startswith(b'content-length:'):
                        n = int(h.split(b':')[1])
                while n > 0:
                    d = f.read(min(n, 65536))
                    if not d:
                        return
                    n -= len(d)
                what, size = line[1].strip(b'/').split(b'/')
                size = int(size)
                if what == b'cut':
                    c.sendall(b'HTTP/1.1 200 OK\r\nContent-Length: %d\r\n\r\n' % (size * 2))
                elif what == b'none':
                    return
                elif what == b'chunked':
                    c.sendall(b'HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n')
                else:
                    c.sendall(b'HTTP/1.1 200 OK\r\nContent-Length: %d\r\nConnection: close\r\n\r\n' % size)
                data = noise()[:65536]
                while size > 0:
                    d = data[:size]
                    c.sendall(b'%x\r\n%s\r\n' % (len(d), d) if what == b'chunked' else d)
                    size -= len(d)
                if what == b'chunked':
                    c.sendall(b'0\r\n\r\n')
        except (OSError, ValueError):
            pass


def capture_op(rng, ctx):
    what = rng.choice(['data', 'chunked', 'upload'])
    to = rng.choice(['file', 'writer', 'default'])
    gzip = rng.random() < .5

    def run(size, tmp):
        out = os.path.join(tmp, 'capture.warc') if to == 'file' else WARCWriter(Null(), gzip=gzip) if to == 'writer' else None
        with capture_http(out, **({} if to == 'writer' else {'gzip': gzip})) as w:
            c = httplib.HTTPConnection('127.0.0.1', ctx.state['server'].port, timeout=60)
            if what == 'upload':
                c.request('POST', '/data/10', Gen('noise', size), {'Content-Length': str(size)})
            else:
                c.request('GET', '/%s/%d' % (what, size))
            r = c.getresponse()
            got = drain(r, 8192)
            if got != (10 if what == 'upload' else size):
                raise Inconclusive('server sent %d' % got)
            r.close()
            c.close()
        if to == 'default':
            w.out.close()
    return 'capture %s to %s%s' % (what, to, ', gzip' if gzip else ''), run


def setup(ctx):
    ctx.state['server'] = Big()
    ctx.state['n'] = 0


def case(rng, ctx, idx):
    if idx % 70 == 5 or rng.random() < .42:
        memory(rng, ctx, idx % 70 == 5)
    else:
        leaks(rng, ctx)


# ------------------------------------------------------------------ memory
def peak(f):
    gc.collect()
    tracemalloc.start(1)
    try:
        base = tracemalloc.get_traced_memory()[0]
        tracemalloc.reset_peak()
        f()
        return tracemalloc.get_traced_memory()[1] - base
    finally:
        tracemalloc.stop()


def memory(rng, ctx, regroup=False):
    tmp = os.path.join(ctx.tmp, 'm%d' % ctx.state['n'])
    ctx.state['n'] += 1
    os.mkdir(tmp)
    noise()
    try:
        k = rng.random() if not regroup else 0
        small, large, slack, ceiling = SMALL, LARGE, SLACK, CEILING
        if k < .62:
            spec = input_spec(rng)
            op = Op(rng, ctx)
            if regroup:
                # a file that has to be written down before it can be recompressed
                spec = ('many', 'noise', rng.choice([(), ('chunked',)]), 'one', rng.choice(['http', 'arc']))
                op.name = 'recompress'
                ctx.ev('regrouped')
            comp = compressible(spec)
            if comp:
                small, large, slack, ceiling = CSMALL, CLARGE, 8 * MB, CCEILING
                ctx.ev('compressible')
            if op.name in ('index', 'check', 'extract', 'payload', 'headers', 'recompress'):
                ctx.ev('commands')
            ctx.ev('big_records' if spec[0] == 'big' else 'many_records')
            name = '%s (%s) of %s' % (op.name, op.n, spec)
            path = os.path.join(tmp, 'in')

            def measure(size):
                offset = make_input(rng, path, spec, size)
                return peak(lambda: op(path, tmp, 0 if op.rng.random() < .1 or spec[3] == 'one' else offset))
        elif k < .85:
            ctx.ev('writes')
            name, run = write_op(rng)
            ceiling = CEILING + 2 * MB

            def measure(size):
                return peak(lambda: run(size, tmp))
        else:
            ctx.ev('captures')
            name, run = capture_op(rng, ctx)

            def measure(size):
                return peak(lambda: run(size, tmp))
        a = measure(small)
        b = measure(large)
        if b - a > slack:
            b = min(b, measure(large))      # once more: other threads
        ctx.ev('peak_small_kb', a >> 10)
        ctx.ev('peak_large_kb', b >> 10)
        ctx.ev('memory_pairs')
        ctx.expect(b - a <= slack, '%s: peak of %d kB with %d MB, %d kB with %d MB' % (name, a >> 10, small >> 20, b >> 10, large >> 20))
        ctx.expect(b <= ceiling, '%s: peak of %d kB with %d MB' % (name, b >> 10, large >> 20))
        ctx.nontrivial('memory', name)
        ctx.sample = {'operation': name, 'peaks_kB': [a >> 10, b >> 10], 'sizes_MB': [small >> 20, large >> 20]}
    finally:
        shutil.rmtree(tmp)


# ------------------------------------------------------------------ open files
def open_files():
    out = []
    for n in os.listdir('/proc/self/fd'):
        try:
            t = os.readlink('/proc/self/fd/' + n)
        except OSError:
            continue
        if t.startswith('/') and not t.startswith(('/dev/', '/proc/')):
            out.append((int(n), t))
    return out


class Fault(OSError):
    pass


class FaultySource(Source):
    """fails at some read, and says so"""
    def __init__(self, data, at, unseekable=False):
        super().__init__(data)
        self.at = at
        self.un = unseekable

    def read(self, n=-1):
        if self.at is not None and self.reads + 1 >= self.at:
            self.reads += 1
            raise Fault('injected error')
        return super().read(n)

    def seek(self, *a):
        if self.un:
            raise io.UnsupportedOperation('seek')
        return super().seek(*a)

    def tell(self):
        if self.un:
            raise io.UnsupportedOperation('tell')
        return super().tell()


class FaultySink(object):
    def __init__(self, at):
        self.at, self.n = at, 0
        self.most_open = 0

    def write(self, b):
        self.n += 1
        self.most_open = max(self.most_open, len(open_files()))
        if self.at is not None and self.n >= self.at:
            raise Fault('injected error')
        return len(b)

    def flush(self):
        pass


def leaks(rng, ctx):
    tmp = os.path.join(ctx.tmp, 'k%d' % ctx.state['n'])
    ctx.state['n'] += 1
    os.mkdir(tmp)
    hold = []           # what the caller still has in hand
    gc.collect()
    gc.disable()
    before = open_files()
    most = [0]
    try:
        with warnings.catch_warnings(record=True) as caught:
            warnings.simplefilter('always', ResourceWarning)
            kind = rng.choice(['write', 'write', 'write', 'copy', 'copy', 'command', 'command', 'read', 'capture'])
            name = kind
            failed = False
            try:
                name = getattr(sys.modules[__name__], 'leak_' + kind)(rng, ctx, tmp, hold, most)
            except Fault:
                failed = True
            except (Violation, Inconclusive):
                raise
            except (httplib.HTTPException, OSError, ValueError, AssertionError, EOFError, ArchiveLoadFailed):
                failed = True
            if failed:
                ctx.ev('ended_by_error')
            # a record, or a connection, still in hand after an error may keep what it has buffered
            if failed:
                del hold[:]
                gc.collect()
            after = [f for f in open_files() if f not in before]
            ctx.expect(not after, '%s: files left open: %s' % (name, after), steps=str(getattr(ctx, 'steps', None)))
        warned = [str(w.message) for w in caught if issubclass(w.category, ResourceWarning) and 'socket' not in str(w.message)]
        ctx.expect(failed or not warned, '%s: files were not closed but left to the garbage collector: %s' % (name, warned[:3]), steps=str(getattr(ctx, 'steps', None)))
        ctx.ev('leak_runs')
        if most[0] > len(before):
            ctx.ev('temp_files_seen')
        ctx.nontrivial('leak', str(ctx.steps))
        ctx.sample = {'operation': str(ctx.steps)}
    finally:
        gc.enable()
        del hold[:]
        shutil.rmtree(tmp)


def leak_write(rng, ctx, tmp, hold, most):
    """records of payloads of which a temporary file is needed (or not), to an output that may fail"""
    ctx.ev('writes')
    sink = FaultySink(rng.choice([None, None, 1, 2, 3, 4, 5, 8]))
    w = WARCWriter(sink, gzip=rng.random() < .5)
    for _ in range(rng.choice([1, 2, 3])):
        size = rng.choice([10, 1000, 600000, 700000, 1200000])
        at = rng.choice([None, None, None, 1, 2, 40])
        http = rng.choice([None, 'object', 'parsed'])
        data = noise()[:size] if http != 'parsed' else b'HTTP/1.1 200 OK\r\n\r\n' + noise()[:size]
        src = FaultySource(data, at, rng.random() < .5)
        known = rng.random() < .5
        ctx.steps = ('write', size, at, http, known, src.un, sink.at, w.gzip)
        kw = {'http_headers': StatusAndHeaders('200 OK', [('X', 'y')], protocol='HTTP/1.1')} if http == 'object' else {}
        kw['warc_headers_dict'] = rng.choice([{}, {'WARC-Payload-Digest': 'sha1:X'}, {'WARC-Payload-Digest': 'sha1:X', 'WARC-Block-Digest': 'sha1:Y'}])
        rec = w.create_warc_record('http://example.com/', 'response' if http else 'resource', payload=src, length=len(data) if known else None, **kw)
        hold.append(rec)
        most[0] = max(most[0], len(open_files()))
        try:
            w.write_record(rec)
        finally:
            most[0] = max(most[0], sink.most_open)
    return 'write'


def leak_copy(rng, ctx, tmp, hold, most):
    """records from one archive to another, reading or writing may fail"""
    ctx.ev('writes')
    spec = ('many', 'noise', rng.choice([(), ('chunked',)]), rng.choice([False, True, 'one']), rng.choice(['http', 'resource', 'arc']))
    if rng.random() < .6:
        spec = ('big',) + spec[1:]
    path = os.path.join(tmp, 'in')
    make_input(rng, path, spec, rng.choice([9000, 700000, 1500000]))
    with open(path, 'rb') as f:
        data = f.read()
    src = FaultySource(data, rng.choice([None, None, 1, 2, 5, 30, 60]), rng.random() < .3)
    sink = FaultySink(rng.choice([None, None, 1, 2, 3, 5, 8]))
    w = WARCWriter(sink, gzip=rng.random() < .5)
    unparsed = rng.random() < .3
    ctx.steps = ('copy', spec, src.at, sink.at, src.un, unparsed)
    it = ArchiveIterator(src, arc2warc=True, no_record_parse=unparsed)
    hold.append(it)
    for rec in it:
        hold.append(rec)
        if rng.random() < .3:
            rec.length = None       # to be computed again
        try:
            w.write_record(rec)
        finally:
            most[0] = max(most[0], sink.most_open)
    return 'copy'


def leak_read(rng, ctx, tmp, hold, most):
    """given up, failed or closed in the middle"""
    spec = input_spec(rng)
    path = os.path.join(tmp, 'in')
    make_input(rng, path, spec, rng.choice([3000, 50000]))
    how = rng.choice(['break', 'close', 'generator', 'error', 'end'])
    ctx.steps = ('read', how, spec)
    ctx.ev('ended_early')
    with open(path, 'rb') as f:
        it = ArchiveIterator(f)
        hold.append(it)
        for rec in it:
            hold.append(rec)
            s = rec.content_stream()
            s.read(10)
            if how == 'break':
                break
            if how == 'close':
                s.close()
                rec.raw_stream.close()
                it.close()
                break
            if how == 'error':
                raise Fault()
            if how == 'end':
                drain(s)
    return 'read'


def leak_command(rng, ctx, tmp, hold, most):
    ctx.ev('commands')
    spec = input_spec(rng)
    path = os.path.join(tmp, 'in')
    offset = make_input(rng, path, spec, rng.choice([3000, 700000]))
    with open(path, 'rb') as f:
        data = f.read()
    k = rng.random()
    damage = None
    if k < .5:
        damage = rng.choice(['cut', 'junk', 'mutate', 'text', 'missing', 'header'])
        if damage == 'cut':
            data = data[:rng.randrange(1, len(data))]
        elif damage == 'junk':
            data += b'junk that is no record\r\n' * 5
        elif damage == 'mutate':
            i = rng.randrange(len(data))
            data = data[:i] + bytes([data[i] ^ 1]) + data[i + 1:]
        elif damage == 'header':
            data = b'\x1f\x8b\x08\x00' + data
        else:
            data = b'not an archive\n'
    if damage == 'missing':
        os.unlink(path)
    else:
        with open(path, 'wb') as f:
            f.write(data)
    op = Op(rng, ctx)
    op.name = rng.choice(['index', 'check', 'extract', 'payload', 'headers', 'recompress', 'recompress'])
    out = None
    ctx.steps = (op.name, op.args, spec, damage)
    if rng.random() < .2 and op.name in ('index', 'recompress'):
        # output that can not be opened
        os.mkdir(os.path.join(tmp, 'index.out'))
        os.mkdir(os.path.join(tmp, 'recompressed.out'))
        ctx.steps += ('no output',)
    ctx.expect(op(path, tmp, offset) in (0, 1), 'exit status')
    return op.name


def leak_capture(rng, ctx, tmp, hold, most):
    """good and failed exchanges, connections still in hand"""
    ctx.ev('captures')
    to = rng.choice(['file', 'writer'])
    ctx.steps = ('capture', to)
    with capture_http(os.path.join(tmp, 'capture.warc') if to == 'file' else WARCWriter(Null())) as w:
        hold.append(w)
        for _ in range(rng.choice([1, 2])):
            what = rng.choice(['data', 'chunked', 'cut', 'none', 'part'])
            size = rng.choice([10, 50000, 700000])
            up = rng.choice([0, 50000])
            ctx.steps += ((what, size, up),)
            c = httplib.HTTPConnection('127.0.0.1', ctx.state['server'].port, timeout=30)
            hold.append(c)
            try:
                if up:
                    c.request('POST', '/%s/%d' % (what, size), noise()[:up])
                else:
                    c.request('GET', '/%s/%d' % (what if what != 'part' else 'data', size))
                r = c.getresponse()
                hold.append(r)
                if what == 'part':
                    r.read(5)
                else:
                    drain(r)
                r.close()
            except (OSError, httplib.HTTPException):
                ctx.ev('ended_by_error')
            c.close()
    return 'capture'
