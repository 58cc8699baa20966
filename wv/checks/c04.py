"""C04 reported offset and length locate every record exactly"""
import io
import os

from wv import gen, refwarc
from wv.common import expect_record, quiet, Source, policies
from warcio.archiveiterator import ArchiveIterator

PROP = 'C04'
QUICK, THOROUGH = 16000, 240000
RULE = ('case = one archive (gzip with random levels and member header fields, or plain with random blank-line '
        'separators), read from a start offset with a random block size, asking for offsets at random moments; then every '
        'extent is opened again by seek and as a slice; non-trivial = extents of at least one record were compared with the '
        'encoder and re-read; distinct by archive and options')
NEED = {'extents_compared': 4000, 'reread_by_seek': 3000, 'reread_by_slice': 3000, 'nonzero_start': 300,
        'member_with_header_fields': 300, 'far_positions': 300, 'gigabytes': 1}


def fancy_gz(rng, data):
    """gzip member with optional header fields (name, comment, extra, header crc)"""
    import struct
    import zlib
    flags = 0
    extra = b''
    if rng.random() < .4:
        flags |= 4
        f = b'sl' + struct.pack('<H', 8) + gen.randbytes(rng, 8)
        extra += struct.pack('<H', len(f)) + f
    if rng.random() < .5:
        flags |= 8
        extra += b'name.warc\x00'
    if rng.random() < .3:
        flags |= 16
        extra += b'a comment\x00'
    head = b'\x1f\x8b\x08' + bytes([flags]) + struct.pack('<I', rng.getrandbits(32)) + b'\x02\xff' + extra
    c = zlib.compressobj(rng.choice([0, 1, 6, 9]), zlib.DEFLATED, -15)
    return (head + c.compress(data) + c.flush() + struct.pack('<II', zlib.crc32(data), len(data) & 0xffffffff))


def encode(rng, ctx, recs, gzipped):
    if gzipped and rng.random() < .4:
        out, ext, pos = [], [], 0
        for r in recs:
            m = fancy_gz(rng, r.encode(sep=rng.choice([b'\r\n\r\n', b'\r\n\r\n', b'\r\n', b'\n\n', b'\r\n' * 5])))
            ext.append((pos, len(m)))
            out.append(m)
            pos += len(m)
            ctx.ev('member_with_header_fields')
        return b''.join(out), ext
    return gen.encode(rng, recs, gzipped, seps=rng.random() < .5)


class Far(Source):
    """a file whose position is far on, as in an archive of many gigabytes"""
    base = 0

    def tell(self):
        return Source.tell(self) + self.base

    def seek(self, off, whence=0):
        if whence == 0:
            return Source.seek(self, off - self.base) + self.base
        return Source.seek(self, off, whence) + self.base


class Gigabytes(object):
    """unseekable source of pieces: bytes, or a number of zeros"""
    zeros = bytes(1 << 16)

    def __init__(self, parts):
        self.parts = list(parts)
        self.pos = 0

    def read(self, n=-1):
        while self.parts:
            p = self.parts[0]
            if isinstance(p, bytes):
                out = p[self.pos:self.pos + n]
            else:
                out = self.zeros[:min(n, p - self.pos)]
            if out:
                self.pos += len(out)
                return out
            del self.parts[0]
            self.pos = 0
        return b''


def gigabytes(rng, ctx):
    """records beyond 2 and 4 GB, in an archive of more than 4 GB"""
    n = (1 << 32) + rng.randrange(1000)
    a, b, c = (gen.record(rng, rtype='resource', block=gen.payload(rng)[:2000]) for _ in range(3))
    head = b'WARC/1.0\r\nWARC-Type: resource\r\nWARC-Target-URI: urn:zeros\r\nContent-Length: %d\r\n\r\n' % n
    sep = b'\r\n\r\n'
    parts = [a.encode(), head, n, sep, b.encode(), c.encode()]
    sizes = [len(a.encode()) - 4, len(head) + n, len(b.encode()) - 4, len(c.encode()) - 4]
    offs = [0, len(a.encode())]
    offs += [offs[1] + len(head) + n + 4]
    offs += [offs[2] + len(b.encode())]
    how = rng.randrange(3)
    with quiet():
        it = ArchiveIterator(Gigabytes(parts), block_size=1 << 16)
        for i, rec in enumerate(it):
            where = 'record %d of an archive of more than 4 GB' % i
            ctx.expect(i < 4, where + ': there are four')
            if i == 1:
                ctx.equal(rec.length, n, where + ': length')
                if how:
                    k = 0
                    while True:
                        d = rec.raw_stream.read(1 << 20)
                        k += len(d)
                        if not d:
                            break
                    ctx.equal(k, n, where + ': bytes read')
            else:
                expect_record(ctx, rec, (a, None, b, c)[i], where)
            ctx.equal((it.get_record_offset(), it.get_record_length()), (offs[i], sizes[i]), where + ': offset, length')
        ctx.equal(i, 3, 'last record of an archive of more than 4 GB')
        ctx.equal(it.err_count, 0, 'errors in an archive of more than 4 GB')
    ctx.ev('gigabytes')
    ctx.nontrivial('gigabytes', n, a.encode())


def case(rng, ctx, idx):
    if idx % 6000 == 11:
        return gigabytes(rng, ctx)
    recs = gen.archive(rng, big=rng.random() < .03, n=rng.choice([1, 2, 3, 4, 6, 12])) if rng.random() < .995 else gen.many(rng, ctx)
    gzipped = rng.random() < .55
    data, ext = encode(rng, ctx, recs, gzipped)
    if gzipped:
        # the encoder's own extents tile the file
        assert sum(n for _, n in ext) == len(data)
    kw = {}
    if rng.random() < .5:
        kw['block_size'] = rng.choice([1, 13, 512, 1024, 16383, 16384, 16385, 65536])
        if kw['block_size'] < 100 and len(data) > 100000:
            kw['block_size'] = 512
    if rng.random() < .3:
        kw['no_record_parse'] = True
    if rng.random() < .2:
        kw['check_digests'] = True
    if rng.random() < .2:
        kw['arc2warc'] = True
    http = not kw.get('no_record_parse')
    first = rng.randrange(len(recs)) if rng.random() < .3 else 0
    junk = b''
    if rng.random() < .1:
        junk = b'J' * rng.randrange(1, 2000)     # archive embedded in a larger file, opened at its start
    fh = Source(junk + data, policies(rng) if rng.random() < .3 and len(data) < 100000 else None, start=len(junk) + ext[first][0])
    if first or junk:
        ctx.ev('nonzero_start')
    base = 0
    if rng.random() < .15:
        base = rng.choice([(1 << 31) - 50, (1 << 32) - 50, (1 << 32) + 7, 5 << 30, 1 << 40, (1 << 53) + 1])
        fh = Far(fh.data, fh.policy, fh.pos)
        fh.base = base
        ctx.ev('far_positions')
    got = []
    with quiet():
        it = ArchiveIterator(fh, **kw)
        i = first
        for rec in it:
            ctx.expect(i < len(recs), 'more records than the archive has', data=data)
            where = 'record %d of %d (%s, start at record %d, %s)' % (i, len(recs), 'gzip' if gzipped else 'plain', first, kw)
            want = (ext[i][0] + len(junk) + base, ext[i][1])
            when = rng.randrange(5)
            if when == 0:
                expect_record(ctx, rec, recs[i], where, http=http)
            elif when == 1:
                rec.raw_stream.read(rng.choice([0, 1, 50, 20000]))
            elif when == 2:
                rec.content_stream().read(rng.choice([1, 50]))
            elif when == 3:
                it.read_to_end()
            if rng.random() < .5:
                pair = (it.get_record_offset(), it.get_record_length())
            else:
                n = it.get_record_length()
                pair = (it.get_record_offset(), n)
            ctx.equal(pair, want, where + ': offset, length')
            # asking again does not change the answer
            ctx.equal((it.get_record_offset(), it.get_record_length()), want, where + ': offset, length asked again')
            ctx.ev('extents_compared')
            got.append((pair[0] - base, pair[1]))
            i += 1
    ctx.equal(i, len(recs), 'records from record %d on' % first, data=data)
    whole = junk + data
    for k in range(first, len(recs)) if len(recs) < 5 else rng.sample(range(first, len(recs)), min(3, len(recs) - first)):
        off, n = got[k - first]
        where = 'record %d re-read at offset %d length %d (%s)' % (k, off, n, 'gzip' if gzipped else 'plain')
        with quiet():
            fh = io.BytesIO(whole)
            fh.seek(off)
            it = ArchiveIterator(fh)
            rec = next(it)
            expect_record(ctx, rec, recs[k], where + ' by seek')
            ctx.equal((it.get_record_offset(), it.get_record_length()), (off, n), where + ': offset, length')
            ctx.ev('reread_by_seek')
            rs = list(ArchiveIterator(io.BytesIO(whole[off:off + n])))
            ctx.equal(len(rs), 1, where + ': records in the slice')
            rec = next(ArchiveIterator(io.BytesIO(whole[off:off + n])))
            expect_record(ctx, rec, recs[k], where + ' as slice')
            ctx.ev('reread_by_slice')
    ctx.nontrivial(data[:100000], sorted(kw.items()), first)
    ctx.sample = {'gzip': gzipped, 'options': kw, 'extents': ext[:6], 'start': first}
