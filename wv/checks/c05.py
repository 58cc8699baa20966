"""C05 gzip archives not grouped per record are refused, never misread"""
import io

from wv import arc, gen, refwarc
from wv.common import Source, policies, expect_record, quiet
from warcio.archiveiterator import ArchiveIterator
from warcio.exceptions import ArchiveLoadFailed

PROP = 'C05'
QUICK, THOROUGH = 20000, 300000
RULE = ('case = records grouped at random into gzip members so that at least one member holds more than one record, with '
        'members empty or of blank lines in between, read with a random block size and delivery; non-trivial = the load error was observed '
        'and the records before it compared; distinct by archive, grouping and block size')
NEED = {'refused': 1500, 'records_before_error': 1500, 'empty_members': 300, 'blank_members': 200, 'single_member': 300, 'well_grouped': 200}


def encode(rng, ctx, r, odd):
    if odd and rng.random() < .5:
        # more blank lines, or a line too much, after the block
        ctx.ev('odd_separators')
        return r.encode(sep=rng.choice([b'\r\n', b'\n', b'\r\n\r\n\r\n', b'too much\r\n\r\n', b'x\r\n\r\n\r\n']))
    return r.encode()


def nothing(rng, ctx):
    """content of a member without a record"""
    if rng.random() < .3:
        ctx.ev('blank_members')
        return rng.choice([b'\r\n', b'\r\n\r\n', b'\n', b'\r\n' * 50, b' \r\n'])
    return b''


def arc_case(rng, ctx):
    """the same of ARC archives"""
    recs = arc.archive(rng, n=rng.choice([2, 3, 5]))
    groups, left = [], list(recs)
    while left:
        k = rng.choice([1, 1, 2, 3, len(left)])
        groups.append(left[:k])
        left = left[k:]
    bad = any(len(g) > 1 for g in groups)
    sep = rng.choice([b'\n', b'\n', b'\n\n', b'\r\n'])
    data = b''.join(refwarc.gz(b''.join(r.encode() + sep for r in g)) for g in groups)
    where = 'ARC, groups %s' % [len(g) for g in groups]
    kw = {}
    if rng.random() < .3:
        kw['arc2warc'] = True
    seen, failed = 0, None
    with quiet():
        try:
            for rec in ArchiveIterator(Source(data), **kw):
                ctx.expect(seen < len(recs), 'more records than the archive has (%s)' % where, data=data)
                ctx.equal(rec.raw_stream.read(), recs[seen].body, '%s: block of record %d' % (where, seen))
                ctx.equal(rec.length, len(recs[seen].block), '%s: length of record %d' % (where, seen))
                seen += 1
        except ArchiveLoadFailed as e:
            failed = str(e)
    ctx.expect((failed is not None) == bad, 'load error %r after %d of %d records (%s)' % (failed, seen, len(recs), where), data=data)
    if bad:
        ctx.ev('refused')
        ctx.nontrivial(data[:100000])
    else:
        ctx.equal(seen, len(recs), 'number of records (%s)' % where, data=data)
        ctx.ev('well_grouped')
    ctx.ev('arc')


def case(rng, ctx, idx):
    if rng.random() < .1:
        return arc_case(rng, ctx)
    odd = rng.random() < .15
    n = rng.choice([2, 2, 3, 4, 6, 9])
    if rng.random() < .003:
        n = rng.choice([130, 260, 520, 1030])
        ctx.ev('many_records')
    recs = [gen.record(rng, big=False) if rng.random() < .7 else gen.record(rng, rtype='resource', block=gen.payload(rng)[:20])
            for _ in range(n)]
    # random grouping
    groups = []
    left = list(range(n))
    mode = rng.random()
    while left:
        k = n if mode < .3 else rng.choice([1, 1, 2, 3])
        groups.append(left[:k])
        left = left[k:]
    bad = any(len(g) > 1 for g in groups)
    if len(groups) == 1:
        ctx.ev('single_member')
    members = []
    empties = 0
    for g in groups:
        while rng.random() < .12:
            members.append(refwarc.gz(nothing(rng, ctx)))
            empties += 1
        members.append(refwarc.gz(b''.join(encode(rng, ctx, recs[i], odd) for i in g), rng.choice([0, 1, 6, 9])))
    if rng.random() < .1:
        members.append(refwarc.gz(nothing(rng, ctx)))
        empties += 1
    ctx.ev('empty_members', empties)
    data = b''.join(members)
    bs = rng.choice([None, None, 1, 7, 100, 512, 1000, 16383, 16385, 1 << 20])
    if bs and len(data) // bs > 20000:
        bs = 1000
    pol = policies(rng) if rng.random() < .3 and len(data) < 60000 else None
    kw = {'block_size': bs} if bs else {}
    if rng.random() < .3:
        kw['no_record_parse'] = True
    if rng.random() < .2:
        kw['check_digests'] = True
    if rng.random() < .2:
        kw['arc2warc'] = True
    read = rng.choice(['full', 'none', 'some'])
    seen = 0
    failed = None
    where0 = 'groups %s, %d empty members, %s' % ([len(g) for g in groups], empties, kw)
    with quiet():
        it = ArchiveIterator(Source(data, pol), **kw)
        try:
            for rec in it:
                ctx.expect(seen < n, 'more records than the archive has (%s)' % where0, data=data)
                where = 'record %d (%s)' % (seen, where0)
                expect_record(ctx, rec, recs[seen], where, http='no_record_parse' not in kw, body=(read == 'full'))
                if read == 'some':
                    rec.raw_stream.read(rng.choice([1, 100, 16384]))
                seen += 1
                ctx.ev('records_before_error')
        except ArchiveLoadFailed as e:
            failed = str(e)
    if bad:
        ctx.expect(failed is not None, 'archive with several records in one gzip member ended normally after %d of %d '
                   'records (%s)' % (seen, n, where0), data=data)
        ctx.expect('recompress' in failed, 'load error does not name the remedy: %r (%s)' % (failed, where0))
        ctx.ev('refused')
    else:
        ctx.expect(failed is None, 'archive with one record per gzip member refused: %s (%s)' % (failed, where0), data=data)
        ctx.equal(seen, n, 'number of records (%s)' % where0, data=data)
        ctx.ev('well_grouped')
    if bad:
        ctx.nontrivial(data[:100000], bs)
        ctx.sample = {'groups': [len(g) for g in groups], 'empty_members': empties, 'options': kw, 'yielded': seen,
                      'error': (failed or '')[:200]}
