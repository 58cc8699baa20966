"""C17 ARC records converted to WARC keep everything they say"""
import calendar
import io
import os
import re

from wv import arc, gen, refwarc
from wv.common import quiet, http_summary, expect_record, Source, Pipe, policies
from warcio.archiveiterator import ArchiveIterator
from warcio.warcwriter import BufferWARCWriter

PROP = 'C17'
QUICK, THOROUGH = 24000, 350000
RULE = ('case = one ARC archive (or ARC and WARC records mixed) from an independent encoder, read with conversion to WARC: '
        'every converted record compared field by field with the ARC record, then written and parsed strictly; '
        'non-trivial = at least one converted record compared; distinct by archive and options')
NEED = {'converted': 15000, 'warcinfo': 4000, 'responses': 12000, 'written': 10000, 'mixed_archives': 1000,
        'short_dates': 1000, 'reread': 3000, 'http_heads_rewritten': 500}

UUID = re.compile(r'^<urn:uuid:[0-9a-f]{8}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{12}>$')


def iso(date):
    """date of an ARC record (4 to 14 digits in whole fields, completed to the last instant) in ISO form"""
    y = int(date[:4])
    mo = int(date[4:6]) if len(date) >= 6 else 12
    d = int(date[6:8]) if len(date) >= 8 else calendar.monthrange(y, mo)[1]
    h = int(date[8:10]) if len(date) >= 10 else 23
    mi = int(date[10:12]) if len(date) >= 12 else 59
    s = int(date[12:14]) if len(date) >= 14 else 59
    return '%04d-%02d-%02dT%02d:%02d:%02dZ' % (y, mo, d, h, mi, s)


def want_uri(a):
    return a.url.replace(' ', '%20')


def check_headers(ctx, hdrs, a, where, length=None, skip=()):
    by = {}
    for n, v in hdrs:
        if n in skip:
            continue
        ctx.expect(n not in by, where + ': header %s twice' % n, headers=hdrs)
        by[n] = v
    want = {'WARC-IP-Address': a.ip, 'WARC-Date': iso(a.date), 'WARC-Record-ID': by.get('WARC-Record-ID')}
    if a.is_header:
        want.update({'WARC-Type': 'warcinfo', 'WARC-Filename': a.url[len('filedesc://'):]})
    else:
        want.update({'WARC-Type': 'response', 'WARC-Target-URI': want_uri(a)})
    for n in want:
        ctx.equal(by.get(n), want[n], '%s: %s' % (where, n), headers=hdrs)
    ctx.expect(UUID.match(by['WARC-Record-ID'] or ''), where + ': record id %r' % by['WARC-Record-ID'])
    ctx.equal(sorted(set(by) - set(want)), ['Content-Length', 'Content-Type'], where + ': other headers')
    if a.http:
        ctx.expect(by['Content-Type'].split(';')[0].strip() == 'application/http' and 'msgtype=response' in by['Content-Type'], where + ': content type %r of an HTTP response' % by['Content-Type'])
    elif a.is_header:
        ctx.equal(by['Content-Type'], a.ctype, where + ': content type')
    if length is not None:
        ctx.equal(by['Content-Length'], str(length), where + ': Content-Length')
    return by['WARC-Record-ID']


def check_converted(ctx, rec, a, where, http, ids, read=True):
    ctx.equal(rec.format, 'warc', where + ': format')
    ctx.equal(rec.rec_type, 'warcinfo' if a.is_header else 'response', where + ': type')
    ctx.equal(rec.rec_headers.protocol, 'WARC/1.0', where + ': version')
    rid = check_headers(ctx, rec.rec_headers.headers, a, where)
    ctx.expect(rid not in ids, where + ': record id repeated')
    ids.add(rid)
    ctx.equal(rec.length, len(a.block), where + ': length')
    body = a.block
    if http and a.http:
        ctx.equal(http_summary(rec.http_headers), arc.model_http(a), where + ': http headers')
        body = a.body
    else:
        ctx.expect(rec.http_headers is None, where + ': http headers of a record without them')
    if read:
        ctx.equal(rec.raw_stream.read(), body, where + ': block bytes')
    ctx.ev('converted')
    ctx.ev('warcinfo' if a.is_header else 'responses')


def ascii_head(ctx, a):
    """HTTP header bytes as they have to be written, or None if they are not representable one to one"""
    first, hdrs, head = a.http
    new = gen.encode_http_head(first.strip() if first.split(' ', 1)[1:] != [''] else first, hdrs)
    if not new.isascii():
        return None
    if new != head:
        ctx.ev('http_heads_rewritten')
    return new


def check_written(ctx, m, a, where):
    """strictly parsed record against the ARC record"""
    if a.http:
        head = ascii_head(ctx, a)
        if head is None:
            # non-ASCII headers are re-encoded when written (C24); the body must be the same
            end = m.block.find(b'\r\n\r\n') + 4
            ctx.expect(m.block[:end].isascii(), where + ': http headers')
            ctx.equal(m.block[end:], a.body, where + ': written body')
        else:
            ctx.equal(m.block, head + a.body, where + ': written block')
    else:
        ctx.equal(m.block, a.block, where + ': written block')
    check_headers(ctx, m.headers, a, where, len(m.block), skip=('WARC-Block-Digest', 'WARC-Payload-Digest'))
    ctx.equal(m.get('WARC-Block-Digest'), refwarc.digest(m.block), where + ': block digest')
    if not a.is_header:
        ctx.equal(m.get('WARC-Payload-Digest'), refwarc.digest(a.body), where + ': payload digest')
    ctx.ev('written')


def case(rng, ctx, idx):
    recs = arc.archive(rng, big=rng.random() < .03)
    if rng.random() < .001:
        recs = arc.archive(rng, n=rng.choice([130, 260, 520, 1030]))
        ctx.ev('many_records')
    for a in recs:
        if rng.random() < .15:
            a.date = a.date[:rng.choice([4, 6, 8, 10, 12])]
            ctx.ev('short_dates')
        elif rng.random() < .05:
            a.date = rng.choice(['20000229235959', '19000228000000', '20001231235959', '19700101000000', '29991231235959', '20160229120000'])
    mixed = rng.random() < .2
    gz = rng.random() < .5
    if mixed:
        ctx.ev('mixed_archives')
        warcs = gen.archive(rng, n=rng.choice([1, 2]))
        items = recs + warcs
        rng.shuffle(items)
        parts = []
        for m in items:
            p = m.encode() if isinstance(m, refwarc.Rec) else m.encode() + b'\n'
            parts.append(refwarc.gz(p) if gz else p)
        data = b''.join(parts)
    else:
        items = recs
        data, ext = arc.encode(rng, recs, gz)
    kw = {}
    http = rng.random() > .15
    if not http:
        kw['no_record_parse'] = True
    if rng.random() < .15:
        kw['check_digests'] = True
    if rng.random() < .2:
        kw['verify_http'] = not mixed
    pol = policies(rng) if rng.random() < .2 and len(data) < 100000 else None
    fh = Source(data, pol) if rng.random() < .7 else Pipe(data, pol)
    ids = set()
    i = 0
    with quiet() as err:
        it = ArchiveIterator(fh, arc2warc=True, **kw)
        for rec in it:
            where = 'record %d of %d (%s, %s)' % (i, len(items), 'gzip' if gz else 'plain', kw)
            ctx.expect(i < len(items), where + ': more records than the archive has', data=data)
            if isinstance(items[i], refwarc.Rec):
                expect_record(ctx, rec, items[i], where, http=http)
            else:
                check_converted(ctx, rec, items[i], where, http, ids, read=rng.random() < .8)
                if not mixed and rng.random() < .3:
                    ctx.equal((it.get_record_offset(), it.get_record_length()), ext[i], where + ': extent')
            i += 1
        ctx.equal(i, len(items), 'number of records (%s)' % ('gzip' if gz else 'plain'), data=data)
        ctx.expect('WARNING' not in err.getvalue(), 'warnings about a well-formed archive: ' + err.getvalue(), data=data)
        # writing them gives a valid archive with the same content
        if rng.random() < .7 and not mixed:
            ogz = rng.random() < .5
            w = BufferWARCWriter(gzip=ogz, warc_version=rng.choice([None, '1.1']))
            try:
                for rec in ArchiveIterator(Source(data), arc2warc=True, **({} if http else {'no_record_parse': True})):
                    w.write_record(rec)
                out = w.get_contents()
            finally:
                w.out.close()
            try:
                parsed = refwarc.parse_warc(out, ogz)
            except refwarc.Bad as e:
                ctx.expect(False, 'written archive is malformed: %s' % e, data=data, output=out)
            ctx.equal(len(parsed), len(recs), 'records written', data=data)
            for k, ((m, _, _), a) in enumerate(zip(parsed, recs)):
                where = 'record %d of %d converted and written (%s)' % (k, len(recs), kw)
                if not http and a.http:
                    # not parsed: the block is copied
                    ctx.equal(m.block, a.block, where + ': block')
                    check_headers(ctx, m.headers, a, where, len(a.block), skip=('WARC-Block-Digest', 'WARC-Payload-Digest'))
                else:
                    check_written(ctx, m, a, where)
            for k, rec in enumerate(ArchiveIterator(io.BytesIO(out), check_digests='raise')):
                where = 'record %d of %d converted, written and read' % (k, len(recs))
                a = recs[k]
                ctx.equal(rec.rec_type, 'warcinfo' if a.is_header else 'response', where + ': type')
                got = rec.raw_stream.read()
                ctx.equal(got, a.body if rec.http_headers else a.block, where + ': payload')
                if a.http and http and ascii_head(ctx, a) is not None:
                    ctx.equal(http_summary(rec.http_headers), arc.model_http(a), where + ': http headers')
                ctx.ev('reread')
    ctx.nontrivial(data[:100000], sorted(kw.items()))
    ctx.sample = {'gzip': gz, 'options': kw, 'mixed': mixed, 'records': [a.brief() for a in items[:3]]}
