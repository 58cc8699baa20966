"""C29 separate readers and writers do not interfere

Jobs are small programs that use the library's objects. Each is run alone, then many at once: steps interleaved in one
thread (also from inside another's read and write calls), in threads that a scheduler switches at lines or bytecodes of
the library, and in threads left to themselves; then alone again. What each job observed must not differ.
"""
import hashlib
import io
import os
import random
import re
import subprocess
import sys
import threading
import time

from wv import arc, core, gen, refwarc, writing
from wv.core import Inconclusive, Violation
from wv.common import Source, norm_uri, policies, quiet
from warcio import timeutils, utils
from warcio.archiveiterator import ArchiveIterator
from warcio.bufferedreaders import BufferedReader, DecompressingBufferedReader, ChunkedDataReader
from warcio.cli import main as cli_main
from warcio.digestverifyingreader import DigestChecker, DigestVerifyingReader
from warcio.exceptions import ArchiveLoadFailed
from warcio.limitreader import LimitReader
from warcio.recordbuilder import RecordBuilder
from warcio.recordloader import ArcWarcRecordLoader
from warcio.statusandheaders import StatusAndHeaders, StatusAndHeadersParser
from warcio.warcwriter import BufferWARCWriter, WARCWriter

PROP = 'C29'
QUICK, THOROUGH = 2500, 40000
CPU_LIMIT = 120
RULE = ('case = 2 to 6 jobs (reading, writing, copying, converting, building, parsing, stacked readers, digests, dates, commands on files) '
        'run alone, interleaved in one thread, in scheduled threads and in free threads, and alone again in another order; what every '
        'job observed is compared; non-trivial = an interleaving with at least two switches; distinct by jobs and interleaving')
NEED = {'jobs': 900, 'runs_compared': 4000, 'steps_interleaved': 10000, 'nested_steps': 400, 'scheduled_switches': 10000, 'free_runs': 80,
        'scheduled_runs': 60, 'fresh_processes': 8, 'ids_compared': 5000, 'observations': 20000}
ASSUMPTIONS = ['thread interleavings are sampled: switches at randomly chosen lines or bytecodes of the library']

LIB = os.path.join(core.REPO, 'warcio') + os.sep


# ------------------------------------------------------------------ hooks of sources and sinks
class Hooks(object):
    pump = None         # called from inside reads and writes of a job


def pump():
    p = Hooks.pump
    if p:
        p()


class Src(Source):
    def read(self, n=-1):
        pump()
        out = Source.read(self, n)
        pump()
        return out


class Sink(writing.Sink):
    def write(self, b):
        pump()
        return writing.Sink.write(self, b)


class Scratch(object):
    """what writing.build wants of a context"""
    def __init__(self, tmp):
        self.tmp = tmp
        self.state = {'wrap_source': Wrapped}

    def ev(self, *a):
        pass


class Wrapped(object):
    """any payload source, with a hook in its reads"""
    def __init__(self, src):
        self.src = src

    def read(self, n=-1):
        pump()
        return self.src.read(n)

    def __getattr__(self, name):
        return getattr(self.src, name)


# ------------------------------------------------------------------ observing
ADDR = re.compile(r'0x[0-9a-f]{6,}')


def seen(x):
    """a plain value that can be compared and digested"""
    if isinstance(x, (bytes, bytearray)):
        return ('b', len(x), hashlib.sha1(x).hexdigest(), bytes(x[:60]), bytes(x[-20:]))
    if isinstance(x, (list, tuple)):
        return tuple(seen(i) for i in x)
    if isinstance(x, StatusAndHeaders):
        return ('headers', x.protocol, x.statusline, tuple((n, v) for n, v in x.headers), x.total_len)
    if isinstance(x, BaseException):
        return ('raised', type(x).__name__, ADDR.sub('0x', str(x)))
    if x is None or isinstance(x, (int, float, str)):
        return x
    return ADDR.sub('0x', repr(x))


def some_input(rng):
    """-> (bytes, is_arc)"""
    if rng.random() < .3:
        recs = arc.archive(rng, n=rng.choice([1, 2, 3]))
        data, _ = arc.encode(rng, recs, rng.random() < .5)
        return data, True
    recs = []
    for _ in range(rng.choice([1, 2, 3, 4])):
        if rng.random() < .35:
            recs.append(gen.coded_record(rng)[0])
        else:
            recs.append(gen.record(rng, digests=gen.make_digests(rng) if rng.random() < .4 else None))
    data, _ = gen.encode(rng, recs, rng.random() < .5)
    if rng.random() < .15:
        data = gen.mutate(rng, data, 1)
    return data, False


def consume(rng, stream, obs):
    """read a stream in a random way, yielding between the calls"""
    k = rng.randrange(5)
    if k == 0:
        obs.append(seen(stream.read()))
        yield
        return
    for _ in range(rng.randrange(1, 25)):
        if k == 1 or k == 4 and rng.random() < .5:
            got = stream.readline()
        elif k == 2:
            got = stream.read(rng.choice([1, 2, 5, 100, 1000, 5000, 16384, 20000]))
        else:
            got = stream.read(rng.randrange(1, 300))
        obs.append(seen(got))
        yield
        if not got:
            return


# ------------------------------------------------------------------ jobs: generators; obs collects what they saw
def job_read(rng, tmp, obs):
    data, is_arc = some_input(rng)
    if rng.random() < .5:
        src = Src(data, policies(rng) if len(data) < 20000 else None)
    else:
        src = io.BytesIO(data)
    kw = {'check_digests': rng.choice([False, True, 'log', 'raise'])}
    if rng.random() < .3:
        kw['arc2warc'] = True
    if rng.random() < .3:
        kw['no_record_parse'] = True
    if rng.random() < .3:
        kw['ensure_http_headers'] = True
    if rng.random() < .3:
        kw['block_size'] = rng.choice([64, 1000, 4096])
    it = ArchiveIterator(src, **kw)
    yield
    for rec in it:
        h = rec.rec_headers
        obs.append(seen([rec.format, rec.rec_type, rec.content_type, rec.length, h.protocol, h.statusline, rec.http_headers]))
        obs.append(seen([(n, v) for n, v in h.headers if not (kw.get('arc2warc') and n == 'WARC-Record-ID')]))
        yield
        if rng.random() < .3:
            obs.append(seen([it.get_record_offset(), h.get_header('warc-target-uri'), h.get_header('x-none', 'd')]))
            yield
        if rng.random() < .2:
            continue
        stream = rec.content_stream() if rng.random() < .5 else rec.raw_stream
        for _ in consume(rng, stream, obs):
            yield
        if rng.random() < .5:
            obs.append(seen([it.get_record_offset(), it.get_record_length()]))
        obs.append(seen([getattr(rec.digest_checker, 'passed', None), getattr(rec.digest_checker, 'problems', None)]))
        yield
    obs.append(seen([it.err_count, it.offset]))


def fix_ids(rng, rec):
    """identifiers made by the library are random: replaced"""
    for n, v in (('WARC-Record-ID', gen.uuid(rng)), ('WARC-Date', gen.warc_date(rng))):
        rec.rec_headers.replace_header(n, v)


def job_write(rng, tmp, obs):
    scratch = Scratch(tmp)
    buf = rng.random() < .4
    filt = writing.header_filter(rng) if rng.random() < .3 else None
    kw = {'gzip': rng.random() < .5, 'warc_version': rng.choice([None, '1.0', '1.1', 'WARC/0.18']), 'header_filter': filt}
    sink = Sink()
    w = BufferWARCWriter(**kw) if buf else WARCWriter(sink, **kw)
    try:
        for _ in range(rng.choice([1, 2, 3])):
            pair = rng.random() < .25
            rec, e = writing.build(rng, scratch, w, filt=filt, kinds=['http_obj'] if pair else None)
            fix_ids(rng, rec)
            yield
            if pair:
                req, e = writing.build(rng, scratch, w, filt=filt, kinds=['http_obj'])
                fix_ids(rng, req)
                yield
                w.write_request_response_pair(req, rec)
            else:
                w.write_record(rec)
            yield
            obs.append(seen(rec.rec_headers))
            obs.append(seen(w.get_contents() if buf else sink.value()))
    finally:
        writing.drop_files(scratch)
        if buf:
            w.out.close()


def job_copy(rng, tmp, obs):
    data, is_arc = some_input(rng)
    convert = is_arc or rng.random() < .3
    it = ArchiveIterator(Src(data), arc2warc=convert, no_record_parse=rng.random() < .5)
    sink = Sink()
    w = WARCWriter(sink, gzip=rng.random() < .5)
    yield
    for rec in it:
        if convert:
            # a damaged WARC file may go on as ARC
            fix_ids(rng, rec)
        yield
        w.write_record(rec)
        obs.append(seen(sink.value()))
        yield


def job_pipe(rng, tmp, obs):
    """records of one archive as payloads of another"""
    data, is_arc = some_input(rng)
    b = BufferWARCWriter(gzip=rng.random() < .5)
    try:
        for rec in ArchiveIterator(Src(data)):
            yield
            s = rec.content_stream() if rng.random() < .5 else rec.raw_stream
            new = b.create_warc_record('urn:x:1', rng.choice(['resource', 'conversion']), payload=s,
                                       warc_headers_dict={'WARC-Record-ID': gen.uuid(rng), 'WARC-Date': gen.warc_date(rng)})
            yield
            b.write_record(new)
            obs.append(seen(b.get_contents()))
            yield
    finally:
        b.out.close()


def job_build(rng, tmp, obs):
    scratch = Scratch(tmp)
    b = RecordBuilder(warc_version=rng.choice(['1.0', '1.1', None, 'WARC/0.17']), header_filter=rng.choice([None, None, lambda h: h]))
    yield
    try:
        for _ in range(rng.randrange(1, 6)):
            rec, e = writing.build(rng, scratch, b)
            yield
            fix_ids(rng, rec)
            obs.append(seen([rec.rec_type, rec.rec_headers, rec.http_headers, rec.length, rec.content_type]))
            yield
            if rng.random() < .6:
                obs.append(seen(rec.content_stream().read()))
            yield
    finally:
        writing.drop_files(scratch)


def job_headers(rng, tmp, obs):
    """containers and parsers"""
    hs = []
    for _ in range(rng.randrange(2, 25)):
        k = rng.randrange(9)
        name = rng.choice(['A', 'a', 'B', 'Content-Length', 'X-Y'])
        if not hs or k == 0:
            kw = {}
            if rng.random() < .5:
                kw['protocol'] = 'HTTP/1.1'
            hs.append(StatusAndHeaders(rng.choice(['200 OK', '', '206 Partial', 'x']), gen.http_headers(rng), **kw))
        elif k == 1:
            p = StatusAndHeadersParser(rng.choice([['HTTP/1.0', 'HTTP/1.1'], ['GET', 'POST'], ['WARC/1.0']]), verify=rng.random() < .7)
            head = gen.http_head(rng, rng.choice(['response', 'request']), rng.random() < .5)[2]
            yield
            try:
                hs.append(p.parse(Src(head + b'rest')))
            except Exception as e:
                obs.append(seen(e))
        h = rng.choice(hs) if hs else None
        if h is None:
            continue
        yield
        try:
            if k == 2:
                h.add_header(name, gen.value(rng))
            elif k == 3:
                obs.append(seen(h.replace_header(name, gen.value(rng))))
            elif k == 4:
                obs.append(seen(h.remove_header(name)))
            elif k == 5:
                obs.append(seen([h.get_header(name), h[name] if name in h else None, name in h, h.get_statuscode()]))
            elif k == 6:
                h.add_range(rng.randrange(99), rng.randrange(99), rng.randrange(999))
            elif k == 7:
                h[name] = gen.value(rng)
            else:
                obs.append(seen([h.validate_statusline('204 None'), h.statusline]))
        except Exception as e:
            obs.append(seen(e))
        obs.append(seen(h))
        obs.append(seen([str(h), h.to_bytes() if rng.random() < .3 else None]))
        if rng.random() < .2:
            obs.append(seen(h.to_ascii_bytes(rng.choice([None, writing.header_filter(rng)]))))
    yield


def job_readers(rng, tmp, obs):
    """stacks of readers"""
    content = gen.payload(rng)
    k = rng.randrange(7)
    n = rng.choice([len(content), rng.randrange(len(content) + 1)])
    pol = policies(rng) if len(content) < 10000 else None
    size = rng.choice([10, 100, 4096, 16384])
    if k == 0:
        r = LimitReader(Src(content, pol), n)
    elif k == 1:
        r = BufferedReader(Src(content, pol), size)
    elif k == 2:
        r = DecompressingBufferedReader(Src(gen.content_code(rng, 'gzip', content), pol), size, decomp_type='gzip')
    elif k == 3:
        kind = rng.choice(['br', 'deflate', 'gzip'])
        r = ChunkedDataReader(Src(gen.chunked(rng, gen.content_code(rng, kind, content)), pol), size, decomp_type=kind)
    elif k == 4:
        r = ChunkedDataReader(Src(gen.chunked(rng, content), pol), size, raise_exceptions=rng.random() < .5)
    elif k == 5:
        r = DigestVerifyingReader(Src(content, pol), n, DigestChecker(), record_type='resource',
                                  block_digest=refwarc.digest(content[:n] if rng.random() < .5 else b'!'))
        r.begin_payload()
    else:
        members = refwarc.gz(content[:n]) + refwarc.gz(content[n:])
        r = DecompressingBufferedReader(Src(members, pol), size)
    yield
    try:
        for _ in consume(rng, r, obs):
            yield
        if k in (2, 6) and hasattr(r, 'read_next_member') and r.read_next_member():
            for _ in consume(rng, r, obs):
                yield
        if hasattr(r, 'digest_checker'):
            obs.append(seen([r.digest_checker.passed, r.digest_checker.problems]))
        obs.append(seen(r.tell()))
    except Exception as e:
        obs.append(seen(e))


def job_values(rng, tmp, obs):
    """digests, dates and other small helpers"""
    ds = [utils.Digester(rng.choice(['sha1', 'sha256', 'md5'])) for _ in range(rng.choice([1, 2]))]
    for _ in range(rng.randrange(2, 12)):
        d = rng.choice(ds)
        d.update(gen.randbytes(rng, rng.randrange(300)))
        yield
        obs.append(seen(str(d)))
        iso = gen.warc_date(rng, rng.random() < .5)
        dt = timeutils.iso_date_to_datetime(iso, tz_aware=rng.random() < .3)
        yield
        obs.append(seen([repr(dt), timeutils.datetime_to_iso_date(dt, use_micros=rng.random() < .5), timeutils.datetime_to_timestamp(dt),
                         timeutils.datetime_to_http_date(dt)]))
        ts = arc.date14(rng)
        obs.append(seen([timeutils.timestamp_to_iso_date(ts), timeutils.timestamp_to_http_date(ts), timeutils.timestamp_to_sec(ts),
                         timeutils.pad_timestamp(ts[:rng.randrange(4, 15)]), repr(timeutils.timestamp_to_datetime(ts[:rng.choice([4, 6, 8, 14])]))]))
        obs.append(seen(utils.headers_to_str_headers([(b'a', b'b'), ('c', 'd')])))
        yield


def job_loader(rng, tmp, obs):
    """one loader and one decompressing reader driven by hand"""
    data, is_arc = some_input(rng)
    loader = ArcWarcRecordLoader(verify_http=rng.random() < .5, arc2warc=False)
    r = DecompressingBufferedReader(Src(data), block_size=rng.choice([100, 16384]))
    yield
    try:
        rec = loader.parse_record_stream(r, known_format=rng.choice([None, None, 'arc' if is_arc else 'warc']))
        obs.append(seen([rec.format, rec.rec_type, rec.rec_headers, rec.http_headers, rec.length]))
        yield
        for _ in consume(rng, rec.raw_stream, obs):
            yield
    except Exception as e:
        obs.append(seen(e))


def job_command(rng, tmp, obs):
    """commands with named output"""
    data, is_arc = some_input(rng)
    base = os.path.join(tmp, 'j%x' % rng.getrandbits(60))
    inp, out = base + '.in', base + '.out'
    with open(inp, 'wb') as f:
        f.write(data)
    try:
        yield
        k = rng.randrange(3)
        if k == 0 and is_arc:
            k = 1
        code = 0
        try:
            if k == 0:
                cli_main(args=['recompress', inp, out])
            elif k == 1:
                cli_main(args=['index', '-f', rng.choice(['offset,length,warc-type', 'warc-target-uri,http:status', 'offset,http:server', 'filename,digest']),
                               '-o', out, inp])
            else:
                cli_main(args=['check', '-v', inp])
        except SystemExit as e:
            code = e.code
        yield
        obs.append(seen(code if not isinstance(code, str) else ADDR.sub('0x', code)))
        if os.path.exists(out):
            with open(out, 'rb') as f:
                got = f.read()
            obs.append(seen(got.replace(base.encode(), b'BASE').replace(os.path.basename(base).encode(), b'BASE')))
    finally:
        for p in (inp, out):
            if os.path.exists(p):
                os.unlink(p)


JOBS = {'read': job_read, 'write': job_write, 'copy': job_copy, 'pipe': job_pipe, 'build': job_build, 'headers': job_headers,
        'readers': job_readers, 'values': job_values, 'loader': job_loader, 'command': job_command}
MIX = ['read'] * 4 + ['write'] * 3 + ['copy', 'copy', 'pipe', 'build', 'build', 'headers', 'headers', 'readers', 'readers', 'values', 'loader', 'command']


class Job(object):
    def __init__(self, spec, tmp):
        self.spec = spec
        self.obs = []
        self.gen = JOBS[spec[0]](random.Random(spec[1]), tmp, self.obs)
        self.busy = False
        self.done = False

    def step(self):
        """run to the next yield; False when finished"""
        self.busy = True
        try:
            next(self.gen)
            return True
        except StopIteration:
            pass
        except (Inconclusive, core.NonTermination, GeneratorExit):
            raise
        except Exception as e:
            self.obs.append(seen(e))
        finally:
            self.busy = False
        self.done = True
        return False

    def run(self):
        while self.step():
            pass
        return self.obs


def alone(specs, tmp):
    return [Job(s, tmp).run() for s in specs]


# ------------------------------------------------------------------ one thread
def interleaved(specs, tmp, rng, ctx):
    jobs = [Job(s, tmp) for s in specs]
    trail = []
    depth = [0]

    def nested():
        # from inside a read or write of a job: another one goes on
        if depth[0] >= len(jobs) - 1 or rng.random() > p:
            return
        idle = [i for i, j in enumerate(jobs) if not j.busy and not j.done]
        if not idle:
            return
        i = rng.choice(idle)
        depth[0] += 1
        try:
            trail.append(-i - 1)
            ctx.ev('nested_steps')
            jobs[i].step()
        finally:
            depth[0] -= 1

    p = rng.choice([0, .02, .2, .6])
    if p:
        Hooks.pump = nested
    try:
        while True:
            live = [i for i, j in enumerate(jobs) if not j.done]
            if not live:
                break
            i = rng.choice(live)
            for _ in range(rng.choice([1, 1, 1, 2, 5])):
                trail.append(i)
                ctx.ev('steps_interleaved')
                if not jobs[i].done and not jobs[i].step():
                    break
    finally:
        Hooks.pump = None
    return [j.obs for j in jobs], trail


# ------------------------------------------------------------------ scheduled threads
class Scheduler(object):
    """one thread runs at a time; at chosen lines (or bytecodes) of the library it hands over to another"""
    def __init__(self, n, rng, p, opcodes):
        self.rng = rng
        self.p = p
        self.opcodes = opcodes
        self.locks = [threading.Semaphore(0) for _ in range(n)]
        self.live = set(range(n))
        self.current = None
        self.switches = 0
        self.events = 0
        self.trail = []
        self.free = False       # somebody blocked on something else: control given up
        self.ids = {}
        self.countdown = 1

    def draw(self):
        self.countdown = max(1, int(self.rng.expovariate(self.p)))

    def tracer(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(LIB):
            return None
        if self.opcodes:
            frame.f_trace_opcodes = True
            frame.f_trace_lines = False
        return self.local

    def local(self, frame, event, arg):
        if event == 'line' or event == 'opcode':
            self.events += 1
            self.countdown -= 1
            if self.countdown <= 0:
                self.draw()
                self.hand_over()
        return self.local

    def hand_over(self):
        if self.free:
            return
        me = self.ids.get(threading.get_ident())
        others = sorted(self.live - {me})
        if me is None or not others:
            return
        nxt = self.rng.choice(others)
        self.switches += 1
        if len(self.trail) < 3000:
            self.trail.append(nxt)
        self.current = nxt
        self.locks[nxt].release()
        self.wait(me)

    def wait(self, me):
        waited = 0
        while not self.locks[me].acquire(timeout=.5):
            waited += .5
            if self.free:
                return
            if waited >= 10:
                # a lock inside the code under test, say: let everybody run
                self.free = True
                return

    def start(self, me, body):
        self.ids[threading.get_ident()] = me
        self.wait(me)
        sys.settrace(self.tracer)
        try:
            body()
        finally:
            sys.settrace(None)
            self.live.discard(me)
            if self.live and not self.free:
                nxt = self.rng.choice(sorted(self.live))
                self.locks[nxt].release()

    def run(self, bodies):
        ts = [threading.Thread(target=self.start, args=(i, b), daemon=True) for i, b in enumerate(bodies)]
        for t in ts:
            t.start()
        self.draw()
        self.locks[0].release()
        for t in ts:
            t.join(60)
        if any(t.is_alive() for t in ts):
            raise Inconclusive('a scheduled thread did not finish')


def scheduled(specs, tmp, rng, ctx):
    jobs = [Job(s, tmp) for s in specs]
    opcodes = rng.random() < .35
    s = Scheduler(len(jobs), rng, rng.choice([.5, .1, .03, .01]) * (.3 if opcodes else 1), opcodes)
    s.run([j.run for j in jobs])
    ctx.ev('scheduled_runs')
    if opcodes:
        ctx.ev('bytecode_runs')
    if s.free:
        ctx.ev('control_given_up')
    ctx.ev('scheduled_switches', s.switches)
    ctx.ev('library_lines_traced', s.events)
    return [j.obs for j in jobs], s.trail


# ------------------------------------------------------------------ free threads
def free(specs, tmp, rng, ctx):
    jobs = [Job(s, tmp) for s in specs]
    old = sys.getswitchinterval()
    seeds = [rng.getrandbits(32) for _ in jobs]
    gate = threading.Barrier(len(jobs))

    def body(i):
        r = random.Random(seeds[i])
        gate.wait(20)
        while jobs[i].step():
            if r.random() < .3:
                time.sleep(0)

    sys.setswitchinterval(rng.choice([1e-6, 1e-5, 1e-4]))
    Hooks.pump = lambda: time.sleep(0)
    try:
        ts = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(len(jobs))]
        for t in ts:
            t.start()
        for t in ts:
            t.join(60)
        if any(t.is_alive() for t in ts):
            raise Inconclusive('a thread did not finish')
    finally:
        sys.setswitchinterval(old)
        Hooks.pump = None
    ctx.ev('free_runs')
    return [j.obs for j in jobs]


# ------------------------------------------------------------------ identifiers
def identifiers(rng, ctx):
    """the identifiers of records made at the same time differ"""
    n = rng.choice([2, 4])
    made = [[] for _ in range(n)]
    builders = [rng.choice([RecordBuilder, BufferWARCWriter])(warc_version=rng.choice(['1.0', '1.1'])) for _ in range(n)]

    def body(i):
        for k in range(30):
            rec = builders[i].create_warc_record('urn:x:%d' % k, 'metadata') if k % 3 else builders[i].create_warcinfo_record('x', {})
            made[i].append(rec.rec_headers.get_header('WARC-Record-ID'))

    if rng.random() < .5:
        s = Scheduler(n, rng, .05, False)
        s.run([lambda i=i: body(i) for i in range(n)])
        ctx.ev('scheduled_switches', s.switches)
    else:
        for k in range(30):
            for i in range(n):
                rec = builders[i].create_warc_record('urn:x:%d' % k, 'metadata')
                made[i].append(rec.rec_headers.get_header('WARC-Record-ID'))
    for b in builders:
        if hasattr(b, 'out'):
            b.out.close()
    every = [x for l in made for x in l]
    ctx.ev('ids_compared', len(every))
    ctx.expect(all(every), 'records without an identifier')
    ctx.equal(len(set(every)), len(every), 'different identifiers of records')


# ------------------------------------------------------------------ a case
FRESH = '''
import sys
sys.path.insert(0, %r); sys.path.insert(0, %r)
from wv.checks import c29
c29.fresh(%r, %r)
'''


def digest_of(observed):
    return hashlib.sha1(repr(observed).encode('utf-8', 'surrogateescape')).hexdigest()


def fresh(specs, tmp):
    with quiet():
        out = sys.stdout
        sys.stdout = io.TextIOWrapper(io.BytesIO())
        try:
            res = [digest_of(o) for o in alone(specs, tmp)]
        finally:
            sys.stdout = out
    print(' '.join(res))


def compare(ctx, specs, got, want, how):
    for s, g, w in zip(specs, got, want):
        ctx.ev('runs_compared')
        ctx.counters['assertions'] += 1
        if g != w:
            k = next((k for k in range(min(len(g), len(w))) if g[k] != w[k]), min(len(g), len(w)))
            raise Violation('a %s job behaves differently %s: observation %d is %s, alone %s'
                            % (s[0], how, k, core.short(g[k] if k < len(g) else '(none)'), core.short(w[k] if k < len(w) else '(none)')),
                            jobs=specs, job=s)


def case(rng, ctx, idx):
    if rng.random() < .12:
        identifiers(rng, ctx)
        return
    n = rng.choice([2, 2, 3, 3, 4, 6])
    kind = rng.choice(MIX)
    specs = [(kind if rng.random() < .3 else rng.choice(MIX), rng.getrandbits(64)) for _ in range(n)]
    if rng.random() < .1:
        # the very same work, several times
        specs = [specs[0] for _ in specs]
        if specs[0][0] == 'command':
            specs = [('copy', specs[0][1]) for _ in specs]
    ctx.ev('jobs', n)
    stdout = sys.stdout
    sys.stdout = io.TextIOWrapper(io.BytesIO(), write_through=True)
    try:
        with quiet():
            want = alone(specs, ctx.tmp)
            ctx.ev('observations', sum(len(o) for o in want))
            got, trail = interleaved(specs, ctx.tmp, rng, ctx)
            compare(ctx, specs, got, want, 'interleaved with others in one thread')
            k = rng.random()
            if k < .45:
                got, strail = scheduled(specs, ctx.tmp, rng, ctx)
                trail = trail + ['s'] + strail
                compare(ctx, specs, got, want, 'beside others in threads')
            elif k < .8:
                got = free(specs, ctx.tmp, rng, ctx)
                compare(ctx, specs, got, want, 'beside others in free threads')
            again = alone(specs[::-1], ctx.tmp)[::-1]
            compare(ctx, specs, again, want, 'after others')
            if rng.random() < .035:
                p = subprocess.run([sys.executable, '-B', '-c', FRESH % (core.VERIF, core.REPO, specs, ctx.tmp)], capture_output=True,
                                   env=dict(os.environ, PYTHONHASHSEED=str(rng.randrange(1000))), timeout=120)
                if p.returncode:
                    raise Inconclusive('fresh process: ' + p.stderr.decode('utf-8', 'replace')[-800:])
                compare(ctx, specs, p.stdout.decode().split(), [digest_of(o) for o in want], 'in this process than in a fresh one')
                ctx.ev('fresh_processes')
    finally:
        sys.stdout = stdout
    if sum(1 for a, b in zip(trail, trail[1:]) if a != b) >= 2:
        ctx.nontrivial(specs, trail)
        ctx.sample = {'jobs': specs, 'interleaving': trail[:60]}
