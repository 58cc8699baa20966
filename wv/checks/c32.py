"""C32 damage to compressed data does not go unnoticed"""
import io
import os
import re

from wv import arc, gen, refwarc
from wv.common import Source, Pipe, policies, expect_record, quiet, run_cli
from warcio.archiveiterator import ArchiveIterator
from warcio.exceptions import ArchiveLoadFailed

PROP = 'C32'
QUICK, THOROUGH = 18000, 300000
RULE = ('case = a gzip archive of which bytes were flipped, overwritten, removed, inserted or repeated so that a member can not be '
        'decompressed any more, read with any block size, source and options, or given to check, recompress or index; non-trivial = the '
        'load error (nonzero exit status) was observed and the records before the damage compared; distinct by archive')
NEED = {'damaged': 4000, 'load_errors': 3000, 'records_before': 5000, 'first_member': 500, 'in_header': 150, 'in_trailer': 150,
        'in_data': 2000, 'beyond_one_read': 1000, 'unharmed': 150, 'warc': 2500, 'arc': 600, 'commands': 800, 'many_records': 20, 'unseekable': 300}


def models(rng, ctx):
    if rng.random() < .25:
        recs = arc.archive(rng, n=rng.choice([1, 2, 4]))
        ctx.ev('arc')
    else:
        recs = []
        if rng.random() < .01:
            ctx.ev('warc')
            return gen.many(rng, ctx)
        for _ in range(rng.choice([1, 2, 3, 3, 5, 8])):
            k = rng.random()
            if k < .6:
                recs.append(gen.record(rng))
            else:
                size = rng.choice([10, 1000, 16384, 20000, 70000] + ([400000] if k > .97 else []))
                block = gen.randbytes(rng, size) if rng.random() < .7 else (gen.randbytes(rng, 50) * (size // 50 + 1))[:size]
                recs.append(gen.record(rng, rtype=rng.choice(['resource', 'metadata', 'conversion']), block=block))
        ctx.ev('warc')
    return recs


def place(rng, ctx, ext):
    """where the damage starts"""
    i = rng.randrange(len(ext))
    off, n = ext[i]
    k = rng.random()
    if k < .15:
        ctx.ev('in_header')
        return off + rng.randrange(10)
    if k < .3:
        ctx.ev('in_trailer')
        return off + n - 1 - rng.randrange(8)
    ctx.ev('in_data')
    return off + rng.randrange(n)


def damage(rng, data, i):
    b = bytearray(data)
    n = rng.choice([1, 1, 2, 3, 8, 100, 512, 4096])
    k = rng.randrange(8)
    if k < 3:
        b[i] ^= 1 << rng.randrange(8)
    elif k == 3:
        n = len(b[i:i + n])
        b[i:i + n] = bytes(n) if rng.random() < .5 else gen.randbytes(rng, n)
    elif k == 4:
        del b[i:i + n]
    elif k == 5:
        b[i:i] = rng.choice([gen.randbytes(rng, n), bytes(n), b'\xff' * n])
    elif k == 6:
        b[i:i] = b[i:i + n]
    else:
        j = rng.randrange(len(b))
        b[i:i + n] = b[j:j + n]
    return bytes(b)


def judge(data, bad):
    """-> ('same' if nothing changed, 'incomplete' if just its end is missing, 'damaged', 'other'), length of what is the same"""
    before = len(os.path.commonprefix([data, bad]))
    try:
        same = [p for _, _, p in refwarc.gzip_members(data)] == [p for _, _, p in refwarc.gzip_members(bad)]
    except refwarc.Bad as e:
        if 'incomplete' in str(e):
            return 'incomplete', before
        # what does not look like a member at all might as well be records that are not compressed
        pos = int(re.search(r'at (\d+)', str(e)).group(1))
        return 'damaged' if sum(x == y for x, y in zip(bad[pos:], b'\x1f\x8b\x08')) >= 2 else 'other', before
    return 'same' if same else 'other', before


def case(rng, ctx, idx):
    recs = models(rng, ctx)
    if isinstance(recs[0], arc.Arc):
        data, ext = arc.encode(rng, recs, True)
    else:
        data, ext = gen.encode(rng, recs, True)
    for _ in range(20):
        bad = damage(rng, data, place(rng, ctx, ext))
        kind, common = judge(data, bad)
        if kind in ('damaged', 'same') and bad != data:
            break
    else:
        return
    intact = sum(1 for o, n in ext if o + n <= common)
    if kind == 'same':
        # fields of a gzip header that do not matter
        intact = len(ext)
        ctx.ev('unharmed')
    else:
        ctx.ev('damaged')
        if intact == 0:
            ctx.ev('first_member')
        if common > 16384:
            ctx.ev('beyond_one_read')
    where = '%s archive of %d members, %s at %d of %d, member %d' % (
        'ARC' if isinstance(recs[0], arc.Arc) else 'WARC', len(ext), kind, common, len(bad), intact)
    if rng.random() < .15:
        return commands(rng, ctx, recs, bad, kind, where)
    opts = {}
    if rng.random() < .5:
        opts['block_size'] = rng.choice([1, 7, 100, 512, 1000, 16383, 16385, 1 << 20])
        if opts['block_size'] < 100 and len(bad) > 20000:
            opts['block_size'] = 1000
    if rng.random() < .25:
        opts['no_record_parse'] = True
    if rng.random() < .25:
        opts['check_digests'] = True
    if rng.random() < .25:
        opts['arc2warc'] = True
    src = Source(bad)
    k = rng.random()
    if k < .2 and len(bad) < 60000:
        src = Source(bad, policies(rng))
    elif k < .35:
        src = Pipe(bad)
        ctx.ev('unseekable')
    elif k < .5:
        src = io.BytesIO(bad)
    where += ' (%s)' % opts
    style = rng.choice(['full', 'full', 'none', 'some'])
    seen, failed = 0, None
    with quiet():
        it = ArchiveIterator(src, **opts)
        try:
            for rec in it:
                if seen < intact:
                    compare(ctx, rec, recs[seen], '%s: record %d' % (where, seen), opts, style, rng)
                elif style == 'full':
                    rec.raw_stream.read()
                elif style == 'some':
                    rec.raw_stream.read(rng.choice([1, 100, 20000]))
                seen += 1
        except (ArchiveLoadFailed, OverflowError) as e:
            # (OverflowError: a damaged Content-Length of more than 18 digits)
            failed = e
    if kind == 'same':
        ctx.expect(failed is None, 'load error %s of a readable archive (%s)' % (failed, where), data=bad[:3000])
        ctx.equal(seen, len(recs), 'number of records (%s)' % where)
    else:
        ctx.expect(failed is not None, 'iteration of a damaged archive ended normally after %d records (%s)' % (seen, where), data=bad[:3000])
        ctx.expect(seen >= intact, 'load error after %d records, %d are intact (%s): %s' % (seen, intact, where, failed), data=bad[:3000])
        ctx.ev('load_errors')
        ctx.ev('records_before', intact)
    ctx.nontrivial(bad[:200000], sorted(opts))
    ctx.sample = {'archive': where, 'yielded': seen, 'error': str(failed)[:200]}


def compare(ctx, rec, m, where, opts, style, rng):
    if not isinstance(m, arc.Arc):
        expect_record(ctx, rec, m, where, http='no_record_parse' not in opts, body=style == 'full')
    else:
        ctx.equal(rec.length, len(m.block), where + ': length')
        if style == 'full':
            ctx.equal(rec.raw_stream.read(), m.block if 'no_record_parse' in opts else m.body, where + ': block bytes')
            ctx.ev('bytes_compared', len(m.body))
    if style == 'some':
        rec.raw_stream.read(rng.choice([1, 100, 16384]))


def commands(rng, ctx, recs, bad, kind, where):
    src = os.path.join(ctx.tmp, rng.choice(['in.warc.gz', 'in.arc.gz', 'in']))
    dst = os.path.join(ctx.tmp, 'out.warc.gz')
    with open(src, 'wb') as fh:
        fh.write(bad)
    args = rng.choice([['check', src], ['check', '-v', src], ['recompress', src, dst], ['recompress', '-v', src, dst], ['index', src],
                       ['index', '-f', 'warc-type,offset,length', src]])
    try:
        code, out = run_cli(args)
    except (ArchiveLoadFailed, OverflowError):
        # left to the interpreter, which ends with status 1
        code, out = 1, b''
    where = '%s of %s' % (' '.join(args[:-1] if args[0] != 'recompress' else args[:-2]), where)
    if kind == 'same':
        if args[0] != 'check':
            ctx.equal(code or 0, 0, 'exit status (%s)' % where, output=out[-2000:])
    else:
        ctx.expect(code not in (0, None), 'exit status %r (%s)' % (code, where), output=out[-2000:], data=bad[:3000])
        ctx.expect(b'No Errors Found' not in out and b'recompressed to file' not in out, 'success reported (%s)' % where, output=out[-2000:])
    for f in (src, dst):
        if os.path.exists(f):
            os.unlink(f)
    ctx.ev('commands')
    ctx.nontrivial(bad[:200000], args[:2])
