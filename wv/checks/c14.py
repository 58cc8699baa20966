"""C14 write failures surface and leave earlier records intact"""
import errno
import io
import os
import random
import subprocess
import sys

from wv import core, gen, refwarc, writing
from wv.common import quiet, Source
from warcio.archiveiterator import ArchiveIterator
from warcio.warcwriter import WARCWriter

PROP = 'C14'
QUICK, THOROUGH = 2500, 30000
RULE = ('case = one session (records built from random payload sources, or copied from an archive, through one writer) run once '
        'to count its calls of the output, the payload sources and the header filter, then once per such call with a fault '
        'injected there; after each the exception and the surviving bytes are checked; non-trivial = faults were injected '
        'and seen; distinct by session')
NEED = {'faults': 8000, 'out_faults': 2000, 'src_faults': 1000, 'flush_faults': 400, 'filter_faults': 40, 'partial_writes': 400,
        'disk_full': 500, 'earlier_records_checked': 6000, 'went_on': 300, 'copy_faults': 300, 'cli_faults': 4}


class Fault(Exception):
    pass


class Stop(BaseException):
    pass


def fault(rng):
    return rng.choice([lambda: Fault('injected'), lambda: OSError(errno.EIO, 'injected'), lambda: ValueError('injected'),
                       lambda: EOFError('injected'), lambda: KeyboardInterrupt('injected'), lambda: Stop('injected'), lambda: MemoryError('injected')])()


class Injector(object):
    """counts the calls of one run; raises at the chosen one"""
    def __init__(self, kind=None, at=None, exc=None, part=0.0):
        self.counts = {'out': 0, 'flush': 0, 'src': 0, 'filter': 0}
        self.kind, self.at, self.exc, self.part = kind, at, exc, part
        self.fired = False

    def hit(self, kind):
        """-> is this the call to fail"""
        n = self.counts[kind]
        self.counts[kind] += 1
        if kind == self.kind and n == self.at:
            self.fired = True
            return True
        return False


class FaultySink(writing.Sink):
    def __init__(self, inj):
        writing.Sink.__init__(self)
        self.inj = inj

    def write(self, b):
        if self.inj.hit('out'):
            b = bytes(b)
            writing.Sink.write(self, b[:int(len(b) * self.inj.part)])
            raise self.inj.exc
        return writing.Sink.write(self, b)

    def flush(self):
        if self.inj.hit('flush'):
            raise self.inj.exc
        return writing.Sink.flush(self)


class SeekableSink(FaultySink):
    """a file that can be repositioned: what is in it, whatever was done to get there"""
    def __init__(self, inj):
        FaultySink.__init__(self, inj)
        self.b = io.BytesIO()

    def write(self, b):
        hit = self.inj.hit('out')
        b = bytes(b)
        self.b.write(b[:int(len(b) * self.inj.part)] if hit else b)
        self.size = len(self.b.getvalue())
        if hit:
            raise self.inj.exc
        return len(b)

    def seekable(self):
        return True

    readable = writable = seekable

    def seek(self, *a):
        return self.b.seek(*a)

    def tell(self):
        return self.b.tell()

    def truncate(self, *a):
        return self.b.truncate(*a)

    def read(self, *a):
        return self.b.read(*a)

    def value(self):
        return self.b.getvalue()


class FaultySource(object):
    def __init__(self, stream, inj):
        self.stream, self.inj = stream, inj

    def read(self, *a):
        if self.inj.hit('src'):
            raise self.inj.exc
        return self.stream.read(*a)

    def readline(self, *a):
        if self.inj.hit('src'):
            raise self.inj.exc
        return self.stream.readline(*a)

    def __getattr__(self, name):
        return getattr(self.stream, name)


class Capped(io.RawIOBase):
    """a disk with room for so many bytes"""
    def __init__(self, room):
        self.room = room
        self.data = b''

    def writable(self):
        return True

    def write(self, b):
        b = bytes(b)[:self.room - len(self.data)]
        if not b:
            raise OSError(errno.ENOSPC, 'No space left on device')
        self.data += b
        return len(b)


def steps_of(rng):
    return [(rng.getrandbits(60), rng.random() < .2) for _ in range(rng.choice([1, 2, 3, 4]))]


def run(ctx, steps, gz, use_filter, inj, out, value, on_fail, filt_seed):
    """-> [Exp] of the records written completely; on_fail(exception, exps, size before) decides whether to go on"""
    real = writing.header_filter(random.Random(filt_seed)) if use_filter else None

    def filt(h):
        if inj.hit('filter'):
            raise inj.exc
        return real(h)

    w = WARCWriter(out, gzip=gz, header_filter=filt if use_filter else None)
    ctx.state['wrap_source'] = lambda s: FaultySource(s, inj)
    exps = []
    for seed, pair in steps:
        r = random.Random(seed)
        before = len(value())
        new = []
        try:
            if pair:
                resp, e1 = writing.build(r, ctx, w, filt=real, kinds=['http_obj', 'http_parsed'])
                req, e2 = writing.build(r, ctx, w, filt=real, kinds=['http_obj', 'http_parsed'])
                new = [e1, e2]
                w.write_request_response_pair(req, resp)
            else:
                rec, e1 = writing.build(r, ctx, w, filt=real)
                new = [e1]
                w.write_record(rec)
        except BaseException as e:
            if isinstance(e, (core.Violation, core.NonTermination)):
                raise
            if not on_fail(e, exps, new, before):
                break
            continue
        exps += new
        if inj.fired and inj.kind != 'done':
            ctx.expect(False, 'write returned normally although its %s call %d had raised %r' % (inj.kind, inj.at, inj.exc))
    ctx.state.pop('wrap_source', None)
    writing.drop_files(ctx)
    return exps


def check_prefix(ctx, data, gz, exps, where, exact=True):
    """the records written before are still there, complete and readable"""
    try:
        recs = refwarc.parse_warc(data, gz)
    except refwarc.Bad as e:
        ctx.expect(False, '%s: bytes of the records written before are damaged: %s' % (where, e), data=data[-2000:])
    ctx.equal(len(recs), len(exps), where + ': records written before')
    for i, ((m, _, _), e) in enumerate(zip(recs, exps)):
        ctx.equal((m.rtype, m.block), (e.rtype, e.block), '%s: record %d (%s)' % (where, i, e.how))
        ctx.ev('earlier_records_checked')


def readable(ctx, data, exps, where):
    """the whole file, with what was written of the failed record, read back"""
    n = 0
    try:
        for rec in ArchiveIterator(io.BytesIO(data), no_record_parse=True):
            if n < len(exps):
                ctx.equal(rec.raw_stream.read(), exps[n].block, '%s: record %d read back' % (where, n))
            n += 1
    except Exception as e:
        if not type(e).__module__.startswith('warcio'):
            raise
    ctx.expect(n >= len(exps), '%s: only %d of %d complete records can be read back' % (where, n, len(exps)))


def case(rng, ctx, idx):
    if idx % 100 == 7:
        return cli(rng, ctx)
    if rng.random() < .15:
        return copy(rng, ctx)
    with quiet():
        steps = steps_of(rng)
        gz = rng.random() < .5
        use_filter = rng.random() < .2
        fseed = rng.getrandbits(30)
        inj0 = Injector()
        make_sink = rng.choice([FaultySink, SeekableSink])
        sink = make_sink(inj0)

        def never(e, *a):
            raise e
        total = run(ctx, steps, gz, use_filter, inj0, sink, sink.value, never, fseed)
        points = [(k, i) for k in ('out', 'flush', 'src', 'filter') for i in range(inj0.counts[k])]
        if len(points) > 40:
            points = rng.sample(points, 40)
        for kind, at in points:
            inj = Injector(kind, at, fault(rng), rng.choice([0, 0, .5, 1]))
            sink = make_sink(inj)
            where = '%s archive, %r injected into %s call %d of %d' % ('gzip' if gz else 'plain', inj.exc, kind, at, inj0.counts[kind])
            went = []

            def on_fail(e, exps, new, before):
                ctx.expect(e is inj.exc, '%s: caller saw %r' % (where, e))
                data = sink.value()
                done = list(exps)
                if len(new) == 2 and len(data) > before:
                    # the response may be complete already
                    try:
                        if len(refwarc.parse_warc(data, gz)) == len(exps) + 1:
                            done.append(new[0])
                            before = len(data)
                    except refwarc.Bad:
                        pass
                check_prefix(ctx, data[:before], gz, done, where)
                if exps:
                    readable(ctx, data, exps, where)
                ctx.ev('faults')
                ctx.ev({'out': 'out_faults', 'flush': 'flush_faults', 'src': 'src_faults', 'filter': 'filter_faults'}[kind])
                if kind == 'out' and inj.part:
                    ctx.ev('partial_writes')
                inj.kind = 'done'
                exps[:] = done
                went.append(len(data) == before and kind == 'src')
                return went[0]

            exps = run(ctx, steps, gz, use_filter, inj, sink, sink.value, on_fail, fseed)
            ctx.expect(went, where + ': the fault did not reach the caller')
            if went[0]:
                # nothing of the failed record was written: the output holds all the others
                check_prefix(ctx, sink.value(), gz, exps, where + ', went on')
                ctx.ev('went_on')
        # a disk that fills up, behind a buffered file
        size = sink.size or 1
        for _ in range(4):
            room = rng.choice([rng.randrange(size + 1), rng.randrange(size + 1), 0, max(0, size - 1)])
            raw = Capped(room)
            out = io.BufferedWriter(raw, rng.choice([1, 100, 8192]))
            inj = Injector()
            where = '%s archive, disk full at byte %d' % ('gzip' if gz else 'plain', room)

            def on_full(e, exps, new, before):
                ctx.expect(isinstance(e, OSError) and e.errno == errno.ENOSPC, '%s: caller saw %r' % (where, e))
                done = list(exps)
                if len(new) == 2:
                    try:
                        r = refwarc.parse_warc(raw.data, gz)
                        if len(r) == len(exps) + 1:
                            done.append(new[0])
                            before = len(raw.data)
                    except refwarc.Bad:
                        pass
                check_prefix(ctx, raw.data[:before], gz, done, where)
                if exps:
                    readable(ctx, raw.data, exps, where)
                ctx.ev('disk_full')
                ctx.ev('faults')
                inj.fired = True
                inj.kind = 'done'
                return False

            exps = run(ctx, steps, gz, use_filter, inj, out, lambda: raw.data, on_full, fseed)
            if not inj.fired:
                check_prefix(ctx, raw.data, gz, exps, where + ' (not reached)')
            raw.room = 1 << 40
            try:
                out.close()
            except OSError:
                pass
    ctx.nontrivial([s for s, _ in steps], gz)
    ctx.sample = {'gzip': gz, 'records': [e.brief() for e in total], 'calls': inj0.counts}


def copy(rng, ctx):
    """records of an archive written again while the source of the archive fails"""
    recs = gen.archive(rng, rng.choice([1, 2, 3, 5]))
    gz = rng.random() < .5
    data, _ = gen.encode(rng, recs, rng.random() < .5)
    bs = rng.choice([64, 512, 4096, 16384])
    with quiet():
        src = Source(data)
        base = writing.Sink()
        w = WARCWriter(base, gzip=gz)
        for rec in ArchiveIterator(src, block_size=bs):
            w.write_record(rec)
        for at in rng.sample(range(src.reads), min(12, src.reads)):
            inj = Injector('src', at, fault(rng))
            while isinstance(inj.exc, EOFError):
                # that is the end of the archive
                inj.exc = fault(rng)
            sink = writing.Sink()
            w = WARCWriter(sink, gzip=gz)
            sizes = [0]
            where = 'copy of %d records, %r injected into read %d of %d of the source' % (len(recs), inj.exc, at, src.reads)
            try:
                for rec in ArchiveIterator(FaultySource(Source(data), inj), block_size=bs):
                    w.write_record(rec)
                    sizes.append(sink.size)
            except BaseException as e:
                if isinstance(e, (core.Violation, core.NonTermination)):
                    raise
                ctx.expect(e is inj.exc, '%s: caller saw %r' % (where, e))
            else:
                ctx.expect(False, where + ': the fault did not reach the caller')
            try:
                out = refwarc.parse_warc(sink.value()[:sizes[-1]], gz)
            except refwarc.Bad as e:
                ctx.expect(False, '%s: bytes of the records written before are damaged: %s' % (where, e))
            ctx.equal(len(out), len(sizes) - 1, where + ': records before')
            for (m, _, _), want in zip(out, recs):
                ctx.equal((m.rtype, m.get('WARC-Record-ID')), (want.rtype, want.get('WARC-Record-ID')), where)
            ctx.ev('copy_faults')
            ctx.ev('faults')
            ctx.ev('src_faults')
            ctx.ev('earlier_records_checked', len(out))
    ctx.nontrivial(data[:5000], bs)


def cli(rng, ctx):
    """commands whose output device is full say so"""
    data, _ = gen.encode(rng, gen.archive(rng, 3), rng.random() < .5)
    path = os.path.join(ctx.tmp, 'in.warc')
    with open(path, 'wb') as f:
        f.write(data)
    env = dict(os.environ, PYTHONPATH=core.REPO)
    kind = rng.randrange(4)
    args, out = [(['recompress', path, '/dev/full'], None), (['index', path, '-o', '/dev/full'], None), (['index', path], '/dev/full'),
                 (['extract', path, '0'], '/dev/full')][kind]
    with open(out, 'wb') if out else open(os.devnull, 'wb') as fh:
        p = subprocess.run([sys.executable, '-B', '-c', 'from warcio.cli import main; main()'] + args, env=env, stdin=subprocess.DEVNULL,
                           stdout=fh if out else subprocess.PIPE, stderr=subprocess.PIPE, timeout=100)
    ctx.expect(p.returncode != 0, '%s%s exits with 0 although its output device is full' % (args, ' to ' + out if out else ''))
    if kind == 0:
        ctx.expect(b'No Errors' not in p.stdout and b'Fixed' not in p.stdout, 'recompress to a full device claims success', out=p.stdout)
    ctx.ev('cli_faults')
    ctx.ev('faults')
    os.unlink(path)
    ctx.nontrivial('cli', kind, data[:2000])
