"""C07 written archives are well-formed WARC files"""
import io

from wv import gen, refwarc, writing
from wv.common import quiet
from warcio.archiveiterator import ArchiveIterator
from warcio.warcwriter import WARCWriter

PROP = 'C07'
QUICK, THOROUGH = 16000, 240000
RULE = ('case = a sequence of records of all kinds (built in every documented way, or read from a foreign archive) written '
        'to a monitored sink, file or buffer; after each write the flushed bytes are parsed by a strict independent parser; '
        'non-trivial = at least one strict parse succeeded and the blocks were compared; distinct by written bytes')
NEED = {'strict_parses': 8000, 'records_parsed': 10000, 'gzip_members': 3000, 'pairs': 300, 'foreign': 500}


def parse(ctx, data, gz, where):
    try:
        out = refwarc.parse_warc(data, gz)
    except refwarc.Bad as e:
        ctx.expect(False, '%s: not a well-formed WARC file: %s' % (where, e), data=data[-3000:])
    ctx.ev('strict_parses')
    ctx.ev('records_parsed', len(out))
    if gz:
        ctx.ev('gzip_members', len(out))
    return out


def case(rng, ctx, idx):
    if rng.random() < .15:
        return foreign(rng, ctx)

    def after(data, exps, gz, where):
        recs = parse(ctx, data, gz, where)
        ctx.equal(len(recs), len(exps), where + ': records in the output after %d writes' % len(exps), data=data[-3000:])
        for i, ((m, off, n), e) in enumerate(zip(recs, exps)):
            if i < len(recs) - 2:
                continue
            w = '%s: record %d (%s)' % (where, i, e.how)
            ctx.equal(m.version, e.version, w + ': version')
            ctx.equal(m.block, e.block, w + ': block')
            ctx.equal(m.rtype, e.rtype, w + ': type')
            writing.check_headers(ctx, m.headers, e, w)
        ctx.nontrivial(data[:50000] if not gz else [m.block[:5000] for m, _, _ in recs])

    exps, gz = writing.session(rng, ctx, after)
    ctx.sample = {'gzip': gz, 'records': [e.brief() for e in exps]}


def foreign(rng, ctx):
    """records read from another archive, also ill-behaved ones, written again"""
    recs = [gen.record(rng) if rng.random() < .6 else gen.coded_record(rng, corrupt=rng.random() < .5)[0]
            for _ in range(rng.choice([1, 2, 4]))]
    for m in recs:
        if m.http and rng.random() < .3:
            # http headers only a lenient parser accepts
            junk = rng.choice([b'\r\n', b'\n', b'garbage\r\n', b'HTTP/1.1 200 OK\nA: b\n\n', b'HTTP/1.1 200 OK\r\nNo-End: x',
                               b'HTTP/1.1 200 OK\r\nbad line\r\n folded\r\nA : b\r\n\r\n', b'\x00\xff\xfe\r\n\r\n', b'ICY 200\r\n:\r\n\r\n',
                               b' \r\n', b'X-\xe9: \xe9\r\nB: \xc3\xa9\r\n\r\n'])
            m.block = junk + m.body
            m.headers = [(n, str(len(m.block)) if n.lower() == 'content-length' else v) for n, v in m.headers]
            m.http = None
    gz = rng.random() < .5
    src, _ = gen.encode(rng, recs, rng.random() < .5)
    sink = writing.Sink()
    w = WARCWriter(sink, gzip=gz, header_filter=writing.header_filter(rng) if rng.random() < .1 else None)
    n = 0
    with quiet():
        for rec in ArchiveIterator(io.BytesIO(src), no_record_parse=rng.random() < .2, check_digests=rng.random() < .2,
                                   ensure_http_headers=False):
            w.write_record(rec)
            n += 1
            ctx.equal(sink.flushed, sink.size, 'bytes flushed when the write returned')
            out = parse(ctx, sink.value(), gz, 'rewritten record %d, %s' % (n, 'gzip' if gz else 'plain'))
            ctx.equal(len(out), n, 'records in the output after %d writes' % n)
    ctx.equal(n, len(recs), 'records rewritten')
    ctx.ev('foreign', n)
    ctx.nontrivial(src[:50000], gz)
