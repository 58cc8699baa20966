"""C13 a truncated archive still yields every complete record"""
import io
import zlib

from wv import gen, refwarc
from wv.common import expect_record, quiet, Source, Pipe, policies, norm_uri
from warcio.archiveiterator import ArchiveIterator
from warcio.exceptions import ArchiveLoadFailed
from warcio.warcwriter import BufferWARCWriter

PROP = 'C13'
QUICK, THOROUGH = 1000, 20000
RULE = ('case = one archive (independently encoded WARC or ARC, or written by the library; plain or gzip) cut off at every byte '
        '(every byte of archives up to 4000 bytes, else around all record, header and member ends and at random), each cut read '
        'back; non-trivial = cuts inside a record with complete records before it were read; distinct by archive')
NEED = {'cuts': 80000, 'complete_compared': 60000, 'partial_records': 20000, 'parts_compared': 10000, 'long_lengths': 30, 'load_errors': 1000, 'normal_ends': 20000,
        'gzip': 50, 'plain': 50, 'arc': 30, 'written': 30, 'header_cuts': 10000, 'every_byte': 100}
LIMIT = 4000


def arc_model(rng):
    """-> [(fields, rtype, http model or None, body, bytes)]"""
    out = []
    if rng.random() < .6:
        date = '%d' % rng.randrange(19960101000000, 20300101000000)
        head, spec, body = refwarc.arc_header('x.arc', date, rng.choice([b'', b'<xml/>\n', b'hello']))
        line = head.decode()
        out.append((line.rstrip().rsplit(' ', 4), 'arc_header', head + spec + body, len(head + spec), body))
    for _ in range(rng.randrange(1, 4)):
        url = gen.http_url(rng).replace(' ', '')
        first, hdrs, hh = gen.http_head(rng, 'response')
        block = hh + gen.payload(rng)[:rng.choice([50, 300, 2000])]
        data = refwarc.arc_record(url, '127.0.0.1', '20200101000000', rng.choice(['text/html', 'a/b']), block)
        n = len(data) - len(block)
        out.append((data[:n].decode().rstrip().rsplit(' ', 4), 'response', data, n, block))
    return out


def is_start(got, want):
    """is the header list got the start of want (the last one cut)"""
    for i, (n, v) in enumerate(got):
        if i >= len(want):
            return False
        wn, wv = want[i]
        wv = norm_uri(wv) if wn.lower() == 'warc-target-uri' else wv
        if (n, v) == (wn, wv):
            continue
        if i != len(got) - 1 or n != wn:
            return False
        raw = want[i][1]
        # cut inside the value (surrounding blanks go, and utf-8 cut in the middle falls back to latin-1)
        return any(v in (norm_uri(c), c, norm_uri(c.rstrip()), c.rstrip()) for c in starts(raw))
    return True


def starts(v):
    b = v.encode('utf-8')
    out = []
    for i in range(len(b) + 1):
        try:
            out.append(b[:i].decode('utf-8'))
        except UnicodeDecodeError:
            out.append(b[:i].decode('latin-1'))
    return out


def iterate(rng, ctx, data, opts, src):
    s = io.BytesIO(data)
    if src == 'pipe':
        s = Pipe(data)
    elif src == 'short':
        s = Source(data, policies(rng))
    return ArchiveIterator(s, **opts)


def unzip(data):
    try:
        return zlib.decompressobj(31).decompress(data)
    except zlib.error:
        return b''


def warc_case(rng, ctx, data, ext, recs, gz, parse):
    """ends: where each record is complete"""
    if gz:
        ends = [o + n for o, n in ext]
    else:
        ends = [o + n for o, n in ext]
    heads = [o + len(r.head()) for (o, n), r in zip(ext, recs)]
    cuts = pick_cuts(rng, ctx, data, [o for o, n in ext] + ends + (heads if not gz else []))
    for c in cuts:
        opts = {'no_record_parse': not parse, 'check_digests': rng.choice([False, False, False, True, 'log'])}
        if rng.random() < .3:
            opts['block_size'] = rng.choice([1, 7, 64, 512, 16385])
        src = rng.choice(['bytes', 'bytes', 'bytes', 'pipe', 'short'])
        where0 = '%s archive of %d bytes cut at %d, %s, %s' % ('gzip' if gz else 'plain', len(data), c, opts, src)
        it = iterate(rng, ctx, data[:c], opts, src)
        done = sum(e <= c for e in ends)
        ctx.ev('cuts')
        n = 0
        # what there is of the cut record
        avail = None
        if done < len(recs):
            cut = data[ext[done][0]:c]
            if gz:
                cut = unzip(cut)
            h = cut.find(b'\r\n\r\n')
            avail = cut[h + 4:] if h >= 0 else None
        err = None
        how = rng.randrange(3)
        try:
            for rec in it:
                where = '%s: record %d of %d' % (where0, n, len(recs))
                if n < done:
                    if how or not parse:
                        expect_record(ctx, rec, recs[n], where, http=parse)
                        ctx.ev('complete_compared')
                    else:
                        ctx.equal(list(rec.rec_headers.headers)[:1], [(recs[n].headers[0][0], norm_uri(recs[n].headers[0][1])
                                  if recs[n].headers[0][0].lower() == 'warc-target-uri' else recs[n].headers[0][1])], where + ': first header')
                else:
                    ctx.expect(n == done and n < len(recs), where + ': a record that is not in the archive')
                    m = recs[n]
                    hh = list(rec.rec_headers.headers)
                    ctx.expect(rec.format == 'warc' and rec.rec_headers.protocol == m.version, where + ': version')
                    ctx.expect(is_start(hh, m.headers), where + ': headers %r are not the start of %r' % (hh[-2:], m.headers))
                    if len(hh) < len(m.headers):
                        ctx.ev('header_cuts')
                    body = rec.raw_stream.read() if how else rec.raw_stream.read(100)
                    if rec.http_headers is None:
                        ctx.expect(m.block.startswith(body), where + ': body of cut record is not the start of the block', got=body)
                    else:
                        ctx.expect(m.http is not None and is_start(rec.http_headers.headers, m.http[1]), where + ': http headers of cut record',
                                   got=rec.http_headers.headers)
                        ctx.expect(m.body.startswith(body), where + ': body of cut record is not the start of the body', got=body)
                    if avail is not None:
                        ctx.equal(rec.length, len(m.block), where + ': stated length of the cut record')
                        got = body
                        if rec.http_headers is not None:
                            got = m.http[2][:len(avail)] + body
                        if how:
                            ctx.equal(got, avail[:len(m.block)], where + ': bytes of the cut record that are there')
                        ctx.ev('parts_compared')
                    ctx.ev('partial_records')
                n += 1
        except ArchiveLoadFailed as e:
            err = e
            ctx.ev('load_errors')
        else:
            ctx.ev('normal_ends')
        ctx.expect(n >= done, '%s: %d complete records, only %d yielded (then %s)' % (where0, done, n, err or 'a normal end'))
        if avail is not None:
            ctx.expect(n == done + 1, '%s: the cut record %d, whose header is complete, is not yielded (%s)' % (where0, done, err or 'a normal end'))
        if c == len(data):
            ctx.expect(err is None, where0 + ': whole archive: ' + str(err))


def pick_cuts(rng, ctx, data, marks):
    if len(data) <= LIMIT:
        ctx.ev('every_byte')
        return range(len(data) + 1)
    near = {m + d for m in marks for d in range(-4, 60)}
    near |= {gen.BLK * k + d for k in range(len(data) // gen.BLK + 1) for d in (-1, 0, 1)}
    near |= {rng.randrange(len(data)) for _ in range(100)} | {len(data)}
    return sorted(x for x in near if 0 <= x <= len(data))


def arc_case(rng, ctx):
    model = arc_model(rng)
    gz = rng.random() < .5
    arc2warc = rng.random() < .3
    ctx.ev('arc')
    out, ends = [], []
    pos = 0
    for fields, rtype, data, hlen, block in model:
        sep = b'\n'
        enc = refwarc.gz(data + sep) if gz else data + sep
        ends.append(pos + (len(enc) if gz else len(data)))
        out.append(enc)
        pos += len(enc)
    data = b''.join(out)
    ctx.ev('gzip' if gz else 'plain')
    for c in pick_cuts(rng, ctx, data, ends):
        done = sum(e <= c for e in ends)
        ctx.ev('cuts')
        where0 = 'ARC archive (%s, %s) cut at %d of %d' % ('gzip' if gz else 'plain', 'arc2warc' if arc2warc else 'arc', c, len(data))
        n, err = 0, None
        it = iterate(rng, ctx, data[:c], {'no_record_parse': True, 'arc2warc': arc2warc}, rng.choice(['bytes', 'pipe']))
        try:
            for rec in it:
                where = '%s: record %d of %d' % (where0, n, len(model))
                ctx.expect(n <= done and n < len(model), where + ': a record that is not in the archive')
                fields, rtype, _, hlen, block = model[n]
                got = [v for _, v in rec.rec_headers.headers]
                body = rec.raw_stream.read()
                if n < done:
                    if not arc2warc:
                        ctx.equal(got, fields, where + ': fields')
                        ctx.equal(rec.rec_type, rtype, where + ': type')
                    ctx.equal(body, block, where + ': block')
                    ctx.ev('complete_compared')
                else:
                    if not arc2warc:
                        ctx.expect(got[:-1] == fields[:-1] and fields[-1].startswith(got[-1]), where + ': fields of the cut record', got=got)
                    ctx.expect(block.startswith(body), where + ': body of the cut record', got=body)
                    ctx.ev('partial_records')
                n += 1
        except ArchiveLoadFailed as e:
            err = e
            ctx.ev('load_errors')
        else:
            ctx.ev('normal_ends')
        ctx.expect(n >= done, '%s: %d complete records, only %d yielded (then %s)' % (where0, done, n, err or 'a normal end'))
    ctx.nontrivial(data[:5000])


def small(rng):
    while True:
        recs = gen.archive(rng, rng.choice([1, 2, 3, 4]), digests=gen.make_digests(rng) if rng.random() < .4 else None)
        if rng.random() < .12 or sum(len(r.block) for r in recs) < LIMIT:
            return [r for r in recs if sum(len(v) for _, v in r.headers) < 5000
                    and (not r.http or len(r.http[2]) < 5000)] or small(rng)


def long_lengths(rng, ctx):
    """a record stating more bytes than any buffer, process or disk holds, cut off"""
    n = rng.choice([1 << 31, 3 << 30, 1 << 32, (1 << 32) + 17, 5 * 10 ** 9, 1 << 40, (1 << 41) + 3, 1 << 53, (1 << 62) + 1])
    arc = rng.random() < .3
    block = gen.payload(rng)[:3000]
    kw = {'check_digests': rng.choice([False, True])}
    if arc:
        data = b'urn:a 1.2.3.4 20200101000000 text/plain %d\n' % n
    else:
        data = b'WARC/1.0\r\nWARC-Type: %s\r\nWARC-Target-URI: urn:a\r\nWARC-Block-Digest: sha1:%s\r\nContent-Length: %d\r\n\r\n' % (
            rng.choice([b'resource', b'response', b'metadata']), b'A' * 32, n)
    before = rng.choice([0, 1, 2])
    first = [] if arc or not before else gen.archive(rng, before)
    pre = b''.join(r.encode() for r in first)
    data = pre + data + block
    if rng.random() < .4 and not first:
        data = refwarc.gz(data)
    where = 'record which states %d bytes, %d there%s' % (n, len(block), ', ARC' if arc else '')
    got = []
    for i, rec in enumerate(iterate(rng, ctx, data, kw, rng.choice(['bytes', 'pipe', 'short']))):
        if i < len(first):
            continue
        ctx.equal(rec.length, n, where + ': stated length')
        ctx.equal(rec.rec_headers.get_header('length' if arc else 'Content-Length'), str(n), where + ': length in the header')
        b = b''
        k = rng.randrange(4)
        while True:
            d = rec.raw_stream.read() if k == 0 else rec.raw_stream.read(n) if k == 1 else rec.raw_stream.read(1000) if k < 3 else rec.raw_stream.readline()
            b += d
            if not d:
                break
        got.append(b)
        if kw['check_digests'] and not arc:
            ctx.equal(rec.digest_checker.passed, False, where + ': verdict')
    ctx.equal(got, [block], where + ': block')
    ctx.ev('long_lengths')
    ctx.nontrivial(data[:5000], n)


def case(rng, ctx, idx):
    if idx % 4 == 3:
        with quiet():
            for _ in range(10):
                long_lengths(rng, ctx)
        return
    with quiet():
        if rng.random() < .2:
            return arc_case(rng, ctx)
        gz = rng.random() < .5
        recs = small(rng)
        parse = rng.random() < .7
        if rng.random() < .25:
            from warcio.archiveiterator import ArchiveIterator as AI
            w = BufferWARCWriter(gzip=gz)
            for rec in AI(io.BytesIO(gen.encode(rng, recs, False)[0])):
                w.write_record(rec)
            data = w.get_contents()
            w.out.close()
            out = refwarc.parse_warc(data, gz)
            recs, ext = [r for r, _, _ in out], [(o, n if gz else n - 4) for _, o, n in out]
            parse = False
            ctx.ev('written')
        else:
            data, ext = gen.encode(rng, recs, gz)
        ctx.ev('gzip' if gz else 'plain')
        warc_case(rng, ctx, data, ext, recs, gz, parse)
    ctx.nontrivial(data[:5000])
    ctx.sample = {'bytes': len(data), 'records': [r.brief() for r in recs[:2]], 'gzip': gz, 'parse': parse}
