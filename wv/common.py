"""Monitors shared by the checks: comparing what warcio reports with the model."""
import contextlib
import io
import sys

from wv.core import Violation, Inconclusive, short
from wv.gen import norm_uri


# ---------------------------------------------------------------- sources
class Source(io.RawIOBase):
    """Monitored byte source. Not a subclass trick: only what a plain file offers.

    policy(n) -> how many bytes the source delivers for a read of n (at least 1).
    Records every call; refuses an unreasonable number of reads after the end.
    """
    def __init__(self, data, policy=None, start=0):
        self.data = data
        self.pos = start
        self.policy = policy
        self.reads = 0
        self.eof_reads = 0
        self.seeks = []
        self.max_asked = 0
        self.closed_ = False
        self.eof_budget = 100000

    def readable(self):
        return True

    def seekable(self):
        return True

    def tell(self):
        return self.pos

    def seek(self, off, whence=0):
        self.seeks.append((off, whence))
        if whence == 1:
            off += self.pos
        elif whence == 2:
            off += len(self.data)
        self.pos = off
        return off

    def read(self, n=-1):
        self.reads += 1
        left = len(self.data) - self.pos
        if n is None or n < 0:
            n = left
        self.max_asked = max(self.max_asked, n)
        if left <= 0:
            if n:
                self.eof_reads += 1
                if self.eof_reads > self.eof_budget:
                    raise Violation('reader keeps reading after the end of input (%d reads)' % self.eof_reads)
            return b''
        if self.policy and n > 1:
            n = max(1, min(n, self.policy(n)))
        out = self.data[self.pos:self.pos + n]
        self.pos += len(out)
        return out

    def readline(self, n=-1):
        end = self.data.find(b'\n', self.pos)
        end = len(self.data) if end < 0 else end + 1
        if n is not None and n >= 0:
            end = min(end, self.pos + n)
        return self.read(end - self.pos)

    def close(self):
        self.closed_ = True


class Pipe(object):
    """Unseekable source: read() only, like a socket or a pipe; a missing method is an error."""
    def __init__(self, data, policy=None):
        self.src = Source(data, policy)

    def read(self, n=-1):
        return self.src.read(n)


class TellRaises(Pipe):
    """has tell/seek that fail, as sys.stdin.buffer on a pipe has"""
    errors = (io.UnsupportedOperation('underlying stream is not seekable'), OSError(29, 'Illegal seek'), NotImplementedError(),
              ValueError('tell on a stream'), AttributeError('tell'), RuntimeError('no tell'))

    def tell(self):
        raise self.errors[len(self.src.data) % len(self.errors)]

    def seek(self, *a):
        raise io.UnsupportedOperation('underlying stream is not seekable')

    def seekable(self):
        return False


def policies(rng):
    k = rng.randrange(6)
    if k == 0:
        return None
    if k == 1:
        return lambda n: 1
    if k == 2:
        m = rng.randrange(2, 40)
        return lambda n: m
    if k == 3:
        import random as _r
        r = _r.Random(rng.getrandbits(64))
        return lambda n: r.randrange(1, n + 1)
    if k == 4:
        import random as _r
        r = _r.Random(rng.getrandbits(64))
        return lambda n: r.choice([1, 2, 3, 7, n, n, n])
    m = rng.choice([511, 512, 1024, 4096, 16383, 16384, 16385])
    return lambda n: m


# ---------------------------------------------------------------- reading
def model_headers(m):
    out = []
    first = True
    for n, v in m.headers:
        if n.lower() == 'warc-target-uri' and first:
            v = norm_uri(v)
            first = False
        out.append((n, v))
    return out


def http_summary(h):
    if h is None:
        return None
    return (h.protocol, h.statusline, list(h.headers))


def model_http(m):
    if not m.http:
        return None
    first, hdrs, _ = m.http
    proto, _, rest = first.partition(' ')
    return (proto, rest.strip(), list(hdrs))


def expect_record(ctx, rec, m, where, body=True, stream=True, http=True):
    """every externally visible part of one read record against the model"""
    ctx.equal(rec.format, 'warc', where + ': format')
    ctx.equal(rec.rec_type, m.rtype, where + ': type')
    ctx.equal(rec.rec_headers.protocol, m.version, where + ': version')
    ctx.equal(list(rec.rec_headers.headers), model_headers(m), where + ': record headers')
    ctx.equal(rec.length, len(m.block), where + ': length')
    ctx.equal(rec.content_type, m.get('Content-Type'), where + ': content type')
    if http:
        ctx.equal(http_summary(rec.http_headers), model_http(m), where + ': http headers')
        want = m.body
        if m.http:
            ctx.equal(rec.payload_length, len(m.body), where + ': payload length')
    else:
        ctx.expect(rec.http_headers is None, where + ': http headers parsed although not asked to')
        want = m.block
    if body:
        ctx.equal(rec.raw_stream.read(), want, where + ': block bytes')
        ctx.equal(rec.raw_stream.read(), b'', where + ': read after end of record')
        ctx.equal(rec.raw_stream.readline(), b'', where + ': readline after end of record')
        ctx.ev('bytes_compared', len(want))
    ctx.ev('records_compared')


def snapshot(rec, body=None):
    """everything observable of a record, as a plain value"""
    return (rec.format, rec.rec_type, rec.rec_headers.protocol, tuple(rec.rec_headers.headers), rec.length,
            rec.content_type, http_summary(rec.http_headers) and (rec.http_headers.protocol, rec.http_headers.statusline,
                                                                  tuple(rec.http_headers.headers)),
            rec.raw_stream.read() if body is None else body)


@contextlib.contextmanager
def quiet():
    """stderr of the code under test (it prints warnings), captured"""
    old = sys.stderr
    sys.stderr = buf = io.StringIO()
    try:
        yield buf
    finally:
        sys.stderr = old


class OutCapture(object):
    """sys.stdout with a .buffer, as a CLI tool sees it"""
    def __init__(self):
        self.raw = io.BytesIO()
        self.text = io.TextIOWrapper(self.raw, encoding='utf-8', write_through=True, newline='')


@contextlib.contextmanager
def captured_stdout():
    cap = OutCapture()
    old, olderr = sys.stdout, sys.stderr
    sys.stdout = cap.text
    sys.stderr = io.StringIO()
    try:
        yield cap
    finally:
        cap.text.flush()
        cap.err = sys.stderr.getvalue()
        sys.stdout, sys.stderr = old, olderr


@contextlib.contextmanager
def patched_stdin(data):
    class In(object):
        pass
    old = sys.stdin
    fake = In()
    fake.buffer = io.BufferedReader(PipeRaw(data))
    sys.stdin = fake
    try:
        yield
    finally:
        sys.stdin = old


class PipeRaw(io.RawIOBase):
    """unseekable raw stream"""
    def __init__(self, data):
        self.b = io.BytesIO(data)

    def readable(self):
        return True

    def readinto(self, buf):
        d = self.b.read(min(len(buf), 8192))
        buf[:len(d)] = d
        return len(d)


def run_cli(args):
    """warcio's command line entry point -> (exit code, stdout bytes)"""
    from warcio.cli import main
    code = 0
    with captured_stdout() as out:
        try:
            main(args=list(args))
        except SystemExit as e:
            code = e.code if e.code is not None else 0
    return code, out.raw.getvalue()


def run_cli_process(args, data=None, timeout=60, extra_env=None):
    """the command line in a process of its own -> (exit code, stdout, stderr)"""
    import os
    import subprocess
    from wv import core
    env = dict(os.environ, PYTHONPATH=core.REPO, PYTHONDONTWRITEBYTECODE='1', **(extra_env or {}))
    p = subprocess.run([sys.executable, '-B', '-c', 'from warcio.cli import main; main()'] + list(args), input=data,
                       stdin=None if data is not None else subprocess.DEVNULL, capture_output=True, env=env, timeout=timeout)
    return p.returncode, p.stdout, p.stderr
