"""C31 records that run on past their stated length are reported exactly"""
import io
import re

from wv import gen, refwarc
from wv.common import Source, Pipe, policies, expect_record, quiet
from warcio.archiveiterator import ArchiveIterator, WARCIterator

PROP = 'C31'
QUICK, THOROUGH = 24000, 400000
RULE = ('case = an archive in which some blocks have one line more than their Content-Length says, read with records consumed '
        'completely, partly or not at all; the error count and standard error are compared with the places of these lines after every '
        'record; non-trivial = a place was reported, or none was and records were separated properly; distinct by archive')
NEED = {'archives': 4000, 'with_excess': 2500, 'excess': 5000, 'clean': 1000, 'offsets': 2500, 'gzip': 1500, 'plain': 1500, 'records_compared': 15000,
        'extents_compared': 5000, 'last_record': 500, 'long_lines': 300, 'unseekable': 500}
REPORT = re.compile(r"Offset: (-?\d+)\s+Remainder: (b'(?:[^'\\\n]|\\.)*'|b\"(?:[^\"\\\n]|\\.)*\")")


def excess(rng, ctx):
    """one line, not blank, its end not included"""
    k = rng.random()
    if k < .3:
        t = rng.choice([b'x', b'}', b'</html>', b'0', b'WARC/1.0', b'HTTP/1.1 200 OK', b'\xff\xfe', b'\x00', b'a b c', b'5', b"it's", b'"q"', b'-'])
    elif k < .9:
        t = gen.randbytes(rng, rng.choice([1, 2, 10, 100])).replace(b'\n', b'.')
    else:
        ctx.ev('long_lines')
        t = gen.randbytes(rng, 50).replace(b'\n', b'.') * rng.choice([100, 327, 328, 2000])
    t += rng.choice([b'', b'', b' ', b'\r'])
    return t if t.strip() else t + b'!'


def case(rng, ctx, idx):
    recs = gen.archive(rng, n=rng.choice([1, 2, 3, 6, 12])) if rng.random() < .996 else gen.many(rng, ctx)
    gz = rng.random() < .5
    clean = rng.random() < .2
    pre = b'' if rng.random() < .8 or gz else gen.randbytes(rng, 20)
    out = [pre]
    pos = len(pre)
    places = []
    extents = []
    for i, m in enumerate(recs):
        head = m.head() + m.block
        t = b'' if clean or rng.random() < .5 else excess(rng, ctx)
        nl = rng.choice([b'\r\n', b'\n', b'\r\n\r\n']) if t and rng.random() < .3 else b''
        # what follows is one line at least if another record follows
        sep = nl + rng.choice([b'\r\n\r\n', b'\r\n\r\n', b'\n', b'\r\n', b'\r\n\r\n\r\n\r\n'])
        if i == len(recs) - 1 and rng.random() < .2:
            sep = nl if t else b''
        line = b''
        if t:
            line = t + sep
            line = line[:line.find(b'\n') + 1] or line
            ctx.ev('excess')
            if i == len(recs) - 1:
                ctx.ev('last_record')
        places.append((pos + len(head), line) if t else None)
        data = head + t + sep
        if gz:
            data = refwarc.gz(data, rng.choice([0, 6, 9]))
            extents.append((pos, len(data)))
        else:
            extents.append((pos, len(head)))
        out.append(data)
        pos += len(data)
    data = b''.join(out)
    pol = policies(rng) if len(data) < 60000 and rng.random() < .5 else None
    if rng.random() < .7 or pre:
        src = Source(data, pol, len(pre))
        base = 0
    else:
        src = Pipe(data, pol)
        ctx.ev('unseekable')
        base = 0
    kw = {}
    if rng.random() < .3:
        kw['block_size'] = rng.choice([1, 7, 100, 4096, 16385]) if len(data) < 30000 else 4096
    if rng.random() < .2:
        kw['check_digests'] = False
    if rng.random() < .2:
        kw['arc2warc'] = True
    where0 = '%s archive of %d records' % ('gzip' if gz else 'plain', len(recs))
    ctx.ev('archives')
    ctx.ev('gzip' if gz else 'plain')
    ctx.ev('clean' if not any(places) else 'with_excess')
    with quiet() as err:
        it = rng.choice([ArchiveIterator, WARCIterator])(src, **kw)
        i = 0
        for rec in it:
            ctx.expect(i < len(recs), '%s: more records read: %r' % (where0, list(rec.rec_headers.headers)[:3]), data=data)
            where = '%s, record %d' % (where0, i)
            ctx.equal(it.err_count, sum(1 for p in places[:i] if p), where + ': errors counted before it')
            k = rng.randrange(4)
            expect_record(ctx, rec, recs[i], where, body=k == 0)
            ctx.ev('records_compared')
            if k == 1:
                rec.raw_stream.read(rng.choice([1, 10, 1000]))
            elif k == 2:
                rec.content_stream().read(rng.choice([5, 100000]))
            if rng.random() < .4:
                for _ in range(rng.choice([1, 2])):
                    ctx.equal((it.get_record_offset(), it.get_record_length()), extents[i], where + ': offset, length')
                ctx.ev('extents_compared')
                ctx.equal(it.err_count, sum(1 for p in places[:i + 1] if p), where + ': errors counted when it was read to its end')
            i += 1
        text = err.getvalue()
    ctx.equal(i, len(recs), where0 + ': records read', data=data)
    want = [p for p in places if p]
    ctx.equal(it.err_count, len(want), where0 + ': errors counted')
    # other warnings may be printed, too
    got = [(int(m.group(1)), m.group(2)) for m in REPORT.finditer(text)]
    ctx.equal([r for _, r in got], [repr(line) for _, line in want], where0 + ': lines reported', data=data)
    if not gz:
        ctx.equal([o for o, _ in got], [o - base for o, _ in want], where0 + ': offsets reported')
        ctx.ev('offsets', len(got))
    ctx.nontrivial(data[:100000], kw)
    ctx.sample = {'gzip': gz, 'places': [[o, l[:40]] for o, l in want[:5]], 'records': len(recs)}
