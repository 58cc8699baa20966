"""C08 digests written with a record are those of the bytes written"""
import io

from wv import gen, refwarc, writing
from wv.common import quiet
from warcio.archiveiterator import ArchiveIterator
from warcio.warcwriter import WARCWriter

PROP = 'C08'
QUICK, THOROUGH = 20000, 260000
RULE = ('case = a sequence of records of all kinds written (built from any payload source, or read from a foreign archive '
        'with correct digests and written again, possibly with other HTTP header bytes or a header filter); the output is '
        'parsed by an independent parser and every digest recomputed; non-trivial = at least one digest was recomputed and '
        'compared; distinct by blocks and digests')
NEED = {'block_digests': 8000, 'payload_digests': 5000, 'kept_supplied': 500, 'recomputed_supplied': 200, 'foreign_digests': 1000,
        'no_payload_digest': 500, 'revisit_bodies': 10}


def get(m, name):
    v = [v for n, v in m.headers if n.lower() == name.lower()]
    return v


def case(rng, ctx, idx):
    if rng.random() < .3:
        return foreign(rng, ctx)
    seen = []

    def after(data, exps, gz, where):
        try:
            recs = refwarc.parse_warc(data, gz)
        except refwarc.Bad as ex:
            ctx.expect(False, '%s: output cannot be parsed to check its digests: %s' % (where, ex))
        ctx.equal(len(recs), len(exps), where + ': records')
        for i in range(max(0, len(recs) - 2), len(recs)):
            m, e = recs[i][0], exps[i]
            w = '%s: record %d (%s)' % (where, i, e.how)
            right = refwarc.digest(m.block)
            b = get(m, 'WARC-Block-Digest')
            ctx.equal(len(b), 1, w + ': number of block digests')
            sup = e.supplied.get('WARC-Block-Digest')
            dropped = e.rtype == 'revisit' and e.http is not None and bool(e.payload)
            if sup and e.known_length and not e.head_rewritten and not dropped:
                ctx.equal(b[0], sup, w + ': block digest given by the caller')
                ctx.ev('kept_supplied')
            else:
                ctx.equal(b[0], right, w + ': block digest of the bytes written (given: %s)' % sup)
                ctx.ev('block_digests')
                if sup:
                    ctx.ev('recomputed_supplied')
            p = get(m, 'WARC-Payload-Digest')
            sup = e.supplied.get('WARC-Payload-Digest')
            if sup and (e.known_length or e.rtype == 'revisit'):
                ctx.equal(p, [sup], w + ': payload digest given by the caller')
                ctx.ev('kept_supplied')
            elif e.rtype in ('warcinfo', 'revisit'):
                ctx.equal(p, [], w + ': payload digest of a %s record' % e.rtype)
                ctx.ev('no_payload_digest')
            else:
                ctx.equal(p, [refwarc.digest(e.payload)], w + ': payload digest')
                ctx.ev('payload_digests')
            seen.append((b, p))

    exps, gz = writing.session(rng, ctx, after)
    ctx.nontrivial([e.block[:2000] for e in exps], seen)
    ctx.sample = {'gzip': gz, 'records': [e.brief() for e in exps], 'digests': seen[:4]}


def foreign(rng, ctx):
    """correct digests stay correct when a record is read and written again"""
    recs = []
    for _ in range(rng.choice([1, 2, 4])):
        base = gen.make_digests(rng, enc=rng.choice(['b32', 'hex']))
        dg = rng.choice([base, base, None])
        m = gen.record(rng, digests=dg) if rng.random() < .6 else gen.record(rng, digests=dg, rtype=rng.choice(['response', 'request']))
        if m.http and rng.random() < .35:
            # header bytes that will be written differently: redo the record with correct digests of the original
            first, hdrs, head = m.http
            how = 3 if m.rtype == 'revisit' and rng.random() < .5 else rng.randrange(3)
            if how == 3:
                # a body, which is not written with a revisit record
                new = head
            elif how == 0:
                new = gen.encode_http_head(first, hdrs, eol=b'\n')
            elif how == 1:
                new = head.replace(b': ', b':\t ', 1)
            else:
                new = head[:-2] + 'X-U: caf\u00e9; a="\u00e9"\r\n\r\n'.encode(rng.choice(['utf-8', 'latin-1']))
            old = m.block
            m.block = new + old[len(head):]
            if how == 3:
                m.block += gen.payload(rng) or b'body'
                ctx.ev('revisit_bodies')
            m.http = (first, hdrs, new)
            out = []
            for n, v in m.headers:
                if n.lower() == 'content-length':
                    v = str(len(m.block))
                elif n.lower() == 'warc-block-digest':
                    a = v.split(':')[0]
                    v = refwarc.digest(m.block, a, 'b32' if v == refwarc.digest(old, a) else 'hex')
                out.append((n, v))
            m.headers = out
            ctx.ev('rewritten_heads')
        recs.append(m)
    src, _ = gen.encode(rng, recs, rng.random() < .5)
    gz = rng.random() < .5
    filt = writing.header_filter(rng) if rng.random() < .3 else None
    raw = rng.random() < .2
    sink = writing.Sink()
    w = WARCWriter(sink, gzip=gz, header_filter=filt)
    nolen = []
    with quiet():
        for rec in ArchiveIterator(io.BytesIO(src), no_record_parse=raw, check_digests=rng.random() < .3):
            nolen.append(rng.random() < .1)
            if nolen[-1]:
                rec.length = None       # documented way to have everything recomputed
            w.write_record(rec)
    try:
        out = refwarc.parse_warc(sink.value(), gz)
    except refwarc.Bad as ex:
        ctx.expect(False, 'output cannot be parsed to check its digests: %s' % ex)
    ctx.equal(len(out), len(recs), 'records')
    for i, ((m, _, _), src_m) in enumerate(zip(out, recs)):
        where = 'record %d (%s%s) read from another archive and written again' % (i, src_m.rtype, ', filtered' if filt else '')
        for v in get(m, 'WARC-Block-Digest'):
            algo = v.split(':')[0]
            ok = [refwarc.digest(m.block, algo, e) for e in ('b32', 'hex', 'b64')]
            ctx.expect(v in ok, where + ': block digest %s is not that of the bytes written (%s)' % (v, ok[0]), block=m.block)
            ctx.ev('foreign_digests')
            ctx.ev('block_digests')
        ctx.equal(len(get(m, 'WARC-Block-Digest')), 1, where + ': number of block digests')
        p = get(m, 'WARC-Payload-Digest')
        had = src_m.get('WARC-Payload-Digest')
        if (not had or nolen[i] and src_m.rtype == 'warcinfo') and src_m.rtype in ('warcinfo', 'revisit'):
            ctx.equal(p, [], where + ': payload digest')
        elif src_m.rtype != 'revisit':
            # the same entity as before; where it starts is not known of an unparsed record
            if not p and (raw and src_m.http and (not had or nolen[i]) or nolen[i] and not src_m.block):
                ctx.ev('unknown_payload')
                continue
            ctx.equal(len(p), 1, where + ': number of payload digests')
            algo = p[0].split(':')[0]
            ok = [refwarc.digest(src_m.body, algo, e) for e in ('b32', 'hex', 'b64')]
            ctx.expect(p[0] in ok, where + ': payload digest %s is not that of the payload (%s)' % (p[0], ok[0]))
            ctx.ev('payload_digests')
    ctx.nontrivial([m.block[:2000] for m, _, _ in out], gz, raw)
