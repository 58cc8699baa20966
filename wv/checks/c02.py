"""C02 later records do not depend on how earlier ones were consumed"""
import io

from wv import gen, refwarc
from wv.common import expect_record, quiet, model_http, model_headers, http_summary
from warcio.archiveiterator import ArchiveIterator

PROP = 'C02'
QUICK, THOROUGH = 24000, 400000
RULE = ('case = an archive (plain or gzip, coded and corrupted HTTP bodies, digests) and one random history of reading '
        'operations on its records (reads of all sizes, readline, decoded stream, read-to-end, offset/length queries, '
        'nothing); non-trivial = at least one record that follows a partly consumed one was compared; distinct by '
        'archive and history')
NEED = {'compared_after_partial': 2000, 'partial_reads': 2000, 'content_stream_partial': 500, 'offset_asked': 500,
        'line_reads': 500, 'untouched': 500, 'stale_reads': 500, 'drained': 60}
SIZES = [0, 1, 2, 3, 10, 100, 1000, 16383, 16384, 16385, 40000, -1, None]


def consume(rng, ctx, it, rec, m, body, hist, extent):
    """a random history on one record -> was it left partly unread"""
    pos = 0
    ended = False
    s = rec.raw_stream
    if rng.random() < .2:
        ctx.ev('untouched')
        hist.append('none')
        return True
    for _ in range(rng.choice([1, 1, 2, 3, 6, 30])):
        op = rng.choice(['read', 'read', 'readline', 'content', 'offset', 'length', 'to_end', 'tell'])
        if op in ('read', 'readline'):
            n = rng.choice(SIZES)
            hist.append((op, n))
            got = (s.read if op == 'read' else s.readline)(*([] if n is None and rng.random() < .5 else [n]))
            want = b'' if ended else body[pos:]
            if op == 'readline':
                ctx.ev('line_reads')
                e = want.find(b'\n')
                want = want if e < 0 else want[:e + 1]
            if n is not None and n >= 0:
                want = want[:n]
            ctx.equal(got, want, 'bytes at %d of the body after %s' % (pos, hist[-6:]))
            pos += len(got)
            ctx.ev('partial_reads')
        elif op == 'content':
            cs = rec.content_stream()
            k = rng.choice([1, 10, 1000, 20000])
            for _ in range(rng.choice([1, 1, 3])):
                (cs.read if rng.random() < .7 else cs.readline)(k)
            hist.append(('content', k))
            ctx.ev('content_stream_partial')
            return True
        elif op == 'to_end':
            it.read_to_end(*([rec] if rng.random() < .5 else []))
            ended = True
            hist.append(op)
        elif op == 'tell':
            s.tell()
        else:
            hist.append(op)
            ctx.ev('offset_asked')
            got = it.get_record_offset() if op == 'offset' else it.get_record_length()
            ctx.equal(got, extent[0 if op == 'offset' else 1], op)
            ended = True
    return not ended and pos < len(body)


def drained(rng, ctx):
    """a big record left with the reader's buffer used up exactly: skipping goes on from the file itself"""
    block = gen.randbytes(rng, 1021) * rng.randrange(1100, 3000)
    first = gen.record(rng, rtype='resource')
    wrong = rng.random() < .5
    big = gen.record(rng, rtype='resource', block=block)
    big.headers.insert(1, ('WARC-Block-Digest', refwarc.digest(block + (b'!' if wrong else b''), 'sha1', 'b32')))
    last = gen.record(rng, rtype='resource')
    recs = [first, big, last]
    data, extents = gen.encode(rng, recs, False)
    bs = rng.choice([16384, 16384, 4096, 65536])
    start = data.index(block)
    bound = (start // bs + rng.randrange(1, 20)) * bs
    stop = rng.choice([bound, bound, bound + rng.choice([-1, 1, 100])]) - start
    stop = max(0, min(stop, len(block) - 1))
    with quiet():
        it = ArchiveIterator(io.BytesIO(data), check_digests=True, block_size=bs)
        next(it)
        rec = next(it)
        got = 0
        while got < stop:
            b = rec.raw_stream.read(min(stop - got, rng.choice([bs, 1000000, 5000])))
            ctx.equal(b, block[got:got + len(b)], 'bytes of a big body')
            ctx.expect(b, 'big body ended early at %d' % got)
            got += len(b)
        where = 'big plain record read up to %d of %d (block size %d, body at %d)' % (stop, len(block), bs, start)
        if rng.random() < .5:
            ctx.equal((it.get_record_offset(), it.get_record_length()), extents[1], where + ': extent')
        third = next(it)
        ctx.equal(rec.digest_checker.passed, not wrong, where + ': digest verdict')
        expect_record(ctx, third, last, where + ', next record', http=True)
        ctx.equal((it.get_record_offset(), it.get_record_length()), extents[2], where + ': extent of the next')
    ctx.ev('drained')
    ctx.nontrivial(data[:5000], stop, bs)
    ctx.sample = {'drained': where}


def case(rng, ctx, idx):
    if idx % 150 == 7:
        return drained(rng, ctx)
    n = rng.choice([2, 2, 3, 4, 6, 10])
    digests = gen.make_digests(rng) if rng.random() < .3 else None
    recs = []
    for _ in range(n):
        if rng.random() < .4:
            recs.append(gen.coded_record(rng, corrupt=rng.random() < .3)[0])
        else:
            recs.append(gen.record(rng, digests=digests))
    gzipped = rng.random() < .5
    data, extents = gen.encode(rng, recs, gzipped, seps=rng.random() < .4)
    kw = {}
    http = True
    if rng.random() < .2:
        kw['no_record_parse'], http = True, False
    if rng.random() < .3:
        kw['check_digests'] = True
    if rng.random() < .3:
        kw['block_size'] = rng.choice([1024, 4096, 65536, 100, 16385])
    hist = []
    stale = []
    after_partial = False
    with quiet():
        it = ArchiveIterator(io.BytesIO(data), **kw)
        i = 0
        for rec in it:
            ctx.expect(i < n, 'more records than the archive has, after history %s' % hist[-8:], data=data)
            m = recs[i]
            if stale and rng.random() < .3:
                # the body of an earlier record is over, reading on must not take bytes of this one
                old = rng.choice(stale)
                for _ in range(rng.randrange(1, 3)):
                    got = (old.raw_stream.read if rng.random() < .6 else old.raw_stream.readline)(rng.choice([1, 100, -1]))
                    ctx.equal(got, b'', 'read of an earlier record after iteration went on')
                ctx.ev('stale_reads')
                hist.append('stale')
            stale.append(rec)
            where = 'record %d (%s) after history %s' % (i, kw, hist[-8:])
            if after_partial:
                ctx.ev('compared_after_partial')
            if rng.random() < .3 or i == n - 1:
                expect_record(ctx, rec, m, where, http=http)
                hist.append('full')
                after_partial = False
                if rng.random() < .5:
                    ctx.equal((it.get_record_offset(), it.get_record_length()), extents[i], where + ': extent')
            else:
                expect_record(ctx, rec, m, where, http=http, body=False)
                after_partial = consume(rng, ctx, it, rec, m, m.body if http else m.block, hist, extents[i])
            hist.append('|')
            i += 1
    ctx.equal(i, n, 'number of records after history %s' % hist[-12:], data=data)
    ctx.nontrivial(data[:100000], hist)
    ctx.sample = {'gzip': gzipped, 'options': kw, 'history': hist[:40], 'records': [m.brief() for m in recs[:2]]}
