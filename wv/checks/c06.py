"""C06 written records read back unchanged; rewriting is stable"""
import io

from wv import gen, refwarc, writing
from wv.common import quiet, model_http, model_headers, http_summary, norm_uri
from wv.writing import Exp
from warcio.archiveiterator import ArchiveIterator
from warcio.statusandheaders import StatusAndHeaders
from warcio.warcwriter import WARCWriter, BufferWARCWriter

PROP = 'C06'
QUICK, THOROUGH = 24000, 300000
RULE = ('case = a sequence of records, built through the API from random payload sources or read from an independently '
        'encoded archive, written gzip or plain, read back and compared, then rewritten for two more generations; '
        'non-trivial = at least one record came back and was compared; distinct by written bytes')
NEED = {'read_back': 4000, 'unknown_length': 400, 'rewritten_generations': 1500, 'foreign_records': 1000, 'big_payloads': 20,
        'noncanonical_http_head': 100}


def read_records(data, **kw):
    out = []
    for rec in ArchiveIterator(io.BytesIO(data), **kw):
        out.append((rec.rec_type, rec.rec_headers.protocol, list(rec.rec_headers.headers), http_summary(rec.http_headers),
                    rec.raw_stream.read(), rec.length))
    return out


def rewrite(data, gz, **kw):
    w = BufferWARCWriter(gzip=gz)
    for rec in ArchiveIterator(io.BytesIO(data), **kw):
        w.write_record(rec)
    out = w.get_contents()
    w.out.close()
    return out


def plain_of(data, gz):
    if not gz:
        return data
    return b''.join(m[2] for m in refwarc.gzip_members(data))


def stable(ctx, rng, data, gz, where):
    """rewriting what this library wrote reproduces it, for any number of generations"""
    want = plain_of(data, gz)
    cur, curgz = data, gz
    for g in range(rng.choice([1, 2])):
        newgz = rng.random() < .5
        kw = rng.choice([{}, {}, {'no_record_parse': True}, {'check_digests': True}])
        cur = rewrite(cur, newgz, **kw)
        curgz = newgz
        got = plain_of(cur, curgz)
        if got != want:
            k = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
            ctx.expect(False, where + ': rewritten archive (generation %d, %s) differs at byte %d: %r instead of %r'
                       % (g + 2, kw, k, got[max(0, k - 60):k + 60], want[max(0, k - 60):k + 60]))
        ctx.ev('rewritten_generations')


def case(rng, ctx, idx):
    try:
        if rng.random() < .65:
            built(rng, ctx)
        else:
            foreign(rng, ctx)
    finally:
        writing.drop_files(ctx)


def built(rng, ctx):
    gz = rng.random() < .5
    filt = writing.header_filter(rng) if rng.random() < .15 else None
    out = rng.choice([io.BytesIO, writing.Sink])()
    use_buffer = rng.random() < .4
    args = {'gzip': gz, 'header_filter': filt, 'warc_version': rng.choice([None, '1.0', '1.1', 'WARC/1.1', 1.1, 'WARC/1.0'])}
    w = BufferWARCWriter(**args) if use_buffer else WARCWriter(out, **args)
    exps = []
    ctx.state.pop('last_http', None)
    n = rng.choice([1, 1, 2, 3, 5])
    if rng.random() < .003:
        n = rng.choice([130, 260, 520, 1030])
        ctx.ev('many_records')
    for _ in range(n):
        big = n < 10 and rng.random() < .04
        if big:
            ctx.ev('big_payloads')
        rec, e = writing.build(rng, ctx, w, big=big, filt=filt)
        w.write_record(rec)
        writing.written(ctx, rec)
        exps.append(e)
    if use_buffer:
        data = w.get_contents()
        if rng.random() < .5:
            ctx.equal(w.get_stream().read(), data, 'get_stream() against get_contents()')
        w.out.close()
    else:
        data = out.getvalue() if isinstance(out, io.BytesIO) else out.value()
    got = read_records(data)
    where0 = 'gzip' if gz else 'plain'
    ctx.equal(len(got), len(exps), 'records read back (%s)' % where0, data=data)
    for i, ((rtype, version, hdrs, http, body, length), e) in enumerate(zip(got, exps)):
        where = 'record %d (%s; %s)' % (i, e.how, where0)
        ctx.equal(rtype, e.rtype, where + ': type')
        ctx.equal(version, e.version, where + ': version')
        writing.check_headers(ctx, [(n, v) for n, v in hdrs], normalised(e), where)
        if e.reads_http:
            ctx.equal(http, e.http, where + ': http headers')
            ctx.equal(body, b'' if e.rtype == 'revisit' else e.payload, where + ': payload')
        else:
            ctx.equal(http, None, where + ': http headers')
            ctx.equal(body, e.block, where + ': block')
        ctx.equal(length, len(e.block), where + ': length')
        ctx.ev('read_back')
    stable(ctx, rng, data, gz, where0)
    ctx.nontrivial(plain_of(data, gz)[:50000])
    ctx.sample = {'gzip': gz, 'records': [e.brief() for e in exps]}


def normalised(e):
    """target uri as readers report it"""
    n = Exp(**e.__dict__)
    n.headers = [(k, norm_uri(v) if k.lower() == 'warc-target-uri' else v) for k, v in e.headers]
    return n


def foreign(rng, ctx):
    recs = []
    raw = rng.random() < .25
    for _ in range(rng.choice([1, 2, 3, 5])):
        digests = gen.make_digests(rng) if rng.random() < .5 else None
        m = gen.record(rng, big=rng.random() < .02, digests=digests)
        if m.http and not raw and rng.random() < .15:
            first, hdrs, head = m.http
            new = gen.encode_http_head(first, hdrs, eol=b'\n')
            m.block = new + m.block[len(head):]
            m.http = (first, hdrs, new)
            m.headers = [(n, str(len(m.block)) if n.lower() == 'content-length' else v) for n, v in m.headers]
            ctx.ev('noncanonical_http_head')
        recs.append(m)
    src, _ = gen.encode(rng, recs, rng.random() < .5)
    gz = rng.random() < .5
    with quiet():
        data = rewrite(src, gz, **({'no_record_parse': True} if raw else {}))
        got = read_records(data)
    where0 = 'read from another archive%s, written %s' % (' unparsed' if raw else '', 'gzip' if gz else 'plain')
    ctx.equal(len(got), len(recs), 'records read back (%s)' % where0, data=data)
    ignore = ('content-length', 'warc-block-digest', 'warc-payload-digest')
    for i, ((rtype, version, hdrs, http, body, length), m) in enumerate(zip(got, recs)):
        where = 'record %d, %s' % (i, where0)
        ctx.equal(rtype, m.rtype, where + ': type')
        ctx.equal(version, m.version, where + ': version')
        ctx.equal([h for h in hdrs if h[0].lower() not in ignore], [h for h in model_headers(m) if h[0].lower() not in ignore],
                  where + ': record headers')
        ctx.equal(http, model_http(m), where + ': http headers')
        ctx.equal(body, m.body, where + ': payload')
        ctx.ev('foreign_records')
        ctx.ev('read_back')
    if raw:
        # the first parsed generation adds payload digests
        data = rewrite(data, gz)
    stable(ctx, rng, data, gz, where0)
    ctx.nontrivial(plain_of(data, gz)[:50000])
    ctx.sample = {'gzip': gz, 'foreign': [m.brief() for m in recs[:2]]}
