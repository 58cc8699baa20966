"""C16 ARC archives are read exactly"""
import io

from wv import arc, gen
from wv.common import quiet, http_summary, Source, Pipe, policies
from warcio.archiveiterator import ArchiveIterator, ARCIterator, WARCIterator
from warcio.exceptions import ArchiveLoadFailed

PROP = 'C16'
QUICK, THOROUGH = 28000, 400000
RULE = ('case = one ARC archive from an independent encoder (file headers with and without body, plain or gzip members, '
        'separators, URLs with spaces and non-ASCII text, line ends, HTTP heads in several forms) read with random options, '
        'sources and ways of consuming; non-trivial = at least one record compared field by field; distinct by archive and options')
NEED = {'records_compared': 10000, 'file_headers': 3000, 'http_records': 5000, 'gzip_archives': 2000, 'plain_archives': 2000,
        'extents_compared': 3000, 'reread': 1500, 'short_sources': 1000, 'url_with_space': 300, 'non_ascii_line': 500, 'other_format': 500}


def expect(ctx, rec, a, where, http=True, ensure=False, read=True):
    ctx.equal(rec.format, 'arc', where + ': format')
    ctx.equal(rec.rec_type, 'arc_header' if a.is_header else 'response', where + ': type')
    ctx.equal(list(rec.rec_headers.headers), [('uri', a.url), ('ip-address', a.ip), ('archive-date', a.date),
                                              ('content-type', a.ctype), ('length', str(a.total))], where + ': header fields')
    ctx.equal(rec.content_type, a.ctype, where + ': content type')
    ctx.equal(rec.length, len(a.block), where + ': length')
    if http and a.http:
        ctx.equal(http_summary(rec.http_headers), arc.model_http(a), where + ': http headers')
        want = a.body
        ctx.ev('http_records')
    else:
        if ensure:
            ctx.equal(http_summary(rec.http_headers), ('HTTP/1.0', '200 OK', [
                ('Content-Type', a.ctype), ('Content-Length', str(len(a.block)))]), where + ': default http headers')
        else:
            ctx.expect(rec.http_headers is None, where + ': http headers parsed of a record without them')
        want = a.block
    if read:
        got = rec.raw_stream.read() if read == 1 else b''.join(iter(rec.raw_stream.readline, b'')) if read == 2 else b''.join(
            iter(lambda: rec.raw_stream.read(1000), b''))
        ctx.equal(got, want, where + ': block bytes')
        ctx.equal(rec.raw_stream.read(10), b'', where + ': after the end')
    ctx.ev('records_compared')
    ctx.ev('file_headers' if a.is_header else 'content_records')


def other_format(rng, ctx):
    """records of the other kind in an archive, or an archive of the other kind, are refused, not read as something else"""
    gz = rng.random() < .5
    recs = arc.archive(rng)
    a, _ = arc.encode(rng, recs, gz)
    ms = gen.archive(rng, n=rng.choice([1, 2, 3]))
    w, _ = gen.encode(rng, ms, gz)
    k = rng.choice(['arc in warc', 'warc in arc', 'arc as warc', 'warc as arc'])
    kw = {'no_record_parse': True} if rng.random() < .3 else {}
    if k == 'arc in warc':
        data, n, cls = w + a, len(ms), rng.choice([ArchiveIterator, WARCIterator])
    elif k == 'warc in arc':
        # (a line that follows a record directly would belong to it)
        data, n, cls = a + (b'' if gz else b'\n') + w, len(recs), rng.choice([ArchiveIterator, ARCIterator])
    else:
        data, n, cls = (a, 0, WARCIterator) if k == 'arc as warc' else (w, 0, ARCIterator)
    i = 0
    try:
        with quiet():
            for rec in cls(io.BytesIO(data), **kw):
                i += 1
                if rng.random() < .5:
                    rec.raw_stream.read()
    except ArchiveLoadFailed:
        pass
    else:
        ctx.expect(False, '%s (%s): no error, %d records' % (k, cls.__name__, i), data=data)
    ctx.equal(i, n, '%s (%s): records before the first one of the other kind' % (k, cls.__name__), data=data)
    ctx.ev('other_format')
    ctx.nontrivial(data[:50000], k)


def case(rng, ctx, idx):
    if rng.random() < .06:
        return other_format(rng, ctx)
    recs = arc.archive(rng, big=rng.random() < .03)
    if rng.random() < .002:
        recs = arc.archive(rng, n=rng.choice([130, 260, 520, 1030]))
        ctx.ev('many_records')
    gz = rng.random() < .5
    data, ext = arc.encode(rng, recs, gz)
    ctx.ev('gzip_archives' if gz else 'plain_archives')
    for a in recs:
        if ' ' in a.url:
            ctx.ev('url_with_space')
        if not a.line().isascii():
            ctx.ev('non_ascii_line')
    kw = {}
    http = True
    if rng.random() < .2:
        kw['no_record_parse'] = True
        http = False
    if rng.random() < .15:
        kw['ensure_http_headers'] = True
    if rng.random() < .15:
        kw['check_digests'] = rng.choice([True, 'raise'])
    if rng.random() < .15:
        kw['verify_http'] = True
    if rng.random() < .3:
        kw['block_size'] = rng.choice([1, 13, 1024, 16383, 65536]) if len(data) < 100000 else 4096
    cls = rng.choice([ArchiveIterator, ArchiveIterator, ARCIterator])
    pol = policies(rng) if rng.random() < .3 and len(data) < 100000 else None
    if pol:
        ctx.ev('short_sources')
    fh = Source(data, pol) if rng.random() < .7 else Pipe(data, pol)
    ask = rng.random() < .5
    how = rng.choice(['compare', 'compare', 'compare', 'some'])
    i = 0
    with quiet() as err:
        it = cls(fh, **kw)
        for rec in it:
            where = 'record %d of %d (%s, %s, %s)' % (i, len(recs), 'gzip' if gz else 'plain', cls.__name__, kw)
            ctx.expect(i < len(recs), where + ': more records than the archive has', data=data)
            a = recs[i]
            first = ask and rng.random() < .3
            if first:
                ctx.equal((it.get_record_offset(), it.get_record_length()), ext[i], where + ': extent')
                ctx.ev('extents_compared')
            expect(ctx, rec, a, where, http, kw.get('ensure_http_headers'),
                   read=0 if first else rng.choice([1, 2, 3]) if how == 'compare' else rng.choice([0, 1]))
            if ask:
                ctx.equal((it.get_record_offset(), it.get_record_length()), ext[i], where + ': extent')
                ctx.ev('extents_compared')
            i += 1
    ctx.equal(i, len(recs), 'number of records (%s, %s)' % ('gzip' if gz else 'plain', kw), data=data)
    ctx.expect('WARNING' not in err.getvalue(), 'warnings about a well-formed archive: ' + err.getvalue(), data=data)
    if rng.random() < .4:
        k = rng.randrange(len(recs))
        off, n = ext[k]
        with quiet():
            f = io.BytesIO(data)
            f.seek(off)
            it = ArchiveIterator(f)
            expect(ctx, next(iter(it)), recs[k], 'record %d re-read at %d' % (k, off))
            ctx.equal((it.get_record_offset(), it.get_record_length()), (off, n), 'extent of record re-read at %d' % off)
            rs = 0
            for rec in ArchiveIterator(io.BytesIO(data[off:off + n])):
                expect(ctx, rec, recs[k], 'record %d re-read as slice %d+%d' % (k, off, n))
                rs += 1
            ctx.equal(rs, 1, 'records in the slice')
        ctx.ev('reread')
    ctx.nontrivial(data[:100000], sorted(kw.items()), cls.__name__)
    ctx.sample = {'gzip': gz, 'options': kw, 'records': [a.brief() for a in recs[:4]]}
