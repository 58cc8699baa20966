"""C03 results do not depend on how the source delivers its bytes"""
import io

from wv import gen, refwarc
from wv.common import Source, Pipe, TellRaises, policies, expect_record, quiet
from warcio.archiveiterator import ArchiveIterator

PROP = 'C03'
QUICK, THOROUGH = 6000, 160000
RULE = ('case = one archive read from a monitored source with a random short-read schedule, block size and kind (file, '
        'read-only object, object whose tell/seek raise); non-trivial = at least one short read was delivered or the '
        'source could not seek; distinct by archive, schedule results and source kind')
NEED = {'source_reads': 20000, 'short_reads': 5000, 'unseekable': 500, 'records_compared': 3000, 'one_byte_sources': 300}


class ReadOnly(object):
    """exactly one method, like a socket file or urllib3 response"""
    def __init__(self, data, policy, log):
        self.data, self.policy, self.pos, self.log = data, policy, 0, log

    def read(self, n=-1):
        left = len(self.data) - self.pos
        want = left if n is None or n < 0 else min(n, left)
        if self.policy and want > 1:
            want = max(1, min(want, self.policy(want)))
        out = self.data[self.pos:self.pos + want]
        self.pos += len(out)
        self.log.append((n, len(out)))
        return out


class Full(ReadOnly):
    """tell works, seeking and everything else is recorded as a violation by the caller"""
    def __init__(self, *a):
        ReadOnly.__init__(self, *a)
        self.forbidden = []

    def tell(self):
        return self.pos

    def __getattr__(self, name):
        if name.startswith('__') or name == 'forbidden':
            raise AttributeError(name)
        self.forbidden.append(name)
        raise AttributeError(name)


class NoTell(ReadOnly):
    def tell(self):
        # whatever a source without positions raises
        raise TellRaises.errors[len(self.data) % len(TellRaises.errors)]

    def seek(self, *a):
        raise io.UnsupportedOperation('not seekable')


def case(rng, ctx, idx):
    if rng.random() < .5:
        recs = gen.archive(rng, n=rng.choice([1, 2, 3, 5]), big=False)
    else:
        recs = [gen.record(rng, block=gen.payload(rng)[:rng.choice([0, 3, 50, 700])]) if rng.random() < .6
                else gen.coded_record(rng, content=gen.payload(rng)[:300])[0] for _ in range(rng.choice([1, 2, 4, 8]))]
        for m in recs:
            if m.http is None and m.rtype in ('response', 'request', 'revisit') and (gen.norm_uri(m.get('WARC-Target-URI')) or '').startswith(('http:', 'https:')):
                # block replaced above: no http head, use another type
                m.headers = [(n, 'resource' if n.lower() == 'warc-type' else v) for n, v in m.headers]
    gzipped = rng.random() < .6
    data, extents = gen.encode(rng, recs, gzipped, seps=rng.random() < .5)
    pol = policies(rng)
    if len(data) > 150000:
        pol = rng.choice([None, lambda n: 8191, lambda n: min(n, 60000)])
    bs = rng.choice([None, None, 1, 2, 3, 7, 64, 511, 1000, 16383, 16385, 100000, 1 << 20])
    if bs and len(data) // bs > 20000:
        bs = 512
    log = []
    kind = rng.choice([ReadOnly, Full, NoTell])
    src = kind(data, pol, log)
    if bs == 1 or (pol and pol(2) == 1 and pol(16384) == 1):
        ctx.ev('one_byte_sources')
    kw = {'block_size': bs} if bs else {}
    if rng.random() < .3:
        kw['check_digests'] = True
    where0 = '%s, block_size %s' % (kind.__name__, bs)
    with quiet():
        it = ArchiveIterator(src, **kw)
        i = 0
        for rec in it:
            ctx.expect(i < len(recs), 'more records than the archive has (%s)' % where0, data=data)
            m = recs[i]
            where = 'record %d (%s, %s)' % (i, where0, 'gzip' if gzipped else 'plain')
            k = rng.random()
            if k < .6:
                expect_record(ctx, rec, m, where)
            elif k < .8:
                expect_record(ctx, rec, m, where, body=False)
                parts = []
                while True:
                    b = rec.raw_stream.readline() if rng.random() < .5 else rec.raw_stream.read(rng.choice([1, 100, 5000]))
                    if not b:
                        break
                    parts.append(b)
                ctx.equal(b''.join(parts), m.body, where + ': body in pieces')
            else:
                expect_record(ctx, rec, m, where, body=False)
            if rng.random() < .7:
                ctx.equal((it.get_record_offset(), it.get_record_length()), extents[i], where + ': offset, length')
                ctx.ev('extents_compared')
            i += 1
    ctx.equal(i, len(recs), 'number of records (%s, %s)' % (where0, 'gzip' if gzipped else 'plain'), data=data)
    ctx.equal(src.pos, len(data), 'bytes read of the source')
    if kind is Full:
        ctx.equal(sorted(set(src.forbidden)), [], 'methods of the source used besides read and tell')
    at_end = sum(1 for n, got in log if not got and n)
    ctx.expect(at_end <= 50 + 4 * len(recs), 'source read %d times after its end' % at_end)
    short = sum(1 for n, got in log if got and n is not None and n > got)
    ctx.ev('source_reads', len(log))
    ctx.ev('short_reads', short)
    if kind is not Full:
        ctx.ev('unseekable')
    if short or kind is not Full:
        ctx.nontrivial(data[:100000], kind.__name__, bs, [g for _, g in log[:500]])
        ctx.sample = {'gzip': gzipped, 'kind': kind.__name__, 'block_size': bs, 'reads': log[:30], 'bytes': len(data)}
