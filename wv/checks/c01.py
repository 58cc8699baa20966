"""C01 reading yields exactly the archive's records"""
import io

from wv import gen, refwarc
from wv.common import expect_record, quiet, model_http, http_summary
from warcio.archiveiterator import ArchiveIterator, WARCIterator

PROP = 'C01'
QUICK, THOROUGH = 36000, 400000
RULE = ('case = one archive generated by an independent encoder (versions, gzip per record or plain, blank-line runs, '
        'shuffled/recased/duplicate/empty/long/folded/UTF-8 headers, tricky and buffer-boundary blocks) and a set of '
        'iteration options; non-trivial = at least one record was read and compared field by field; distinct by archive '
        'bytes and options')
NEED = {'records_compared': 2000, 'gzip_archives': 200, 'plain_archives': 200, 'http_records': 300, 'folded_headers': 20}

VERBS = ('GET', 'HEAD', 'POST', 'PUT', 'DELETE', 'TRACE', 'OPTIONS', 'CONNECT', 'PATCH')


def latin1ise(rng, m):
    """re-encode the HTTP head of a record as latin-1 (values limited to it)"""
    first, hdrs, head = m.http
    hdrs = [(n, 'caf\u00e9 x' if rng.random() < .5 else v) for n, v in hdrs
            if all(ord(c) < 128 for c in v)] + [('X-L1', 'na\u00efve')]
    new = gen.encode_http_head(first, hdrs, enc='latin-1')
    m.block = new + m.block[len(head):]
    m.http = (first, hdrs, new)
    m.headers = [(n, str(len(m.block)) if n.lower() == 'content-length' else v) for n, v in m.headers]


def rewrite_http_eol(m):
    """HTTP head with bare LF line ends, as some servers send"""
    first, hdrs, head = m.http
    new = gen.encode_http_head(first, hdrs, eol=b'\n')
    m.block = new + m.block[len(head):]
    m.http = (first, hdrs, new)
    m.headers = [(n, str(len(m.block)) if n.lower() == 'content-length' else v) for n, v in m.headers]


class Folded(refwarc.Rec):
    """a record whose head is encoded with continuation lines"""
    def head(self, eol=b'\r\n'):
        out = [self.version.encode() + eol]
        for n, v in self.headers:
            v = v.replace(' ~fold~ ', '\r\n ').replace(' ~tfold~ ', '\r\n\t')
            out.append(n.encode('utf-8') + b': ' + v.encode('utf-8') + eol)
        return b''.join(out) + eol


def fold(rng, m):
    hdrs = list(m.headers)
    hdrs.insert(rng.randrange(1, len(hdrs) + 1), ('X-Folded', 'one ~fold~ two:three ~tfold~ four'))
    enc = Folded(m.version, hdrs, m.block, m.http)
    m.headers = [(n, v.replace(' ~fold~ ', ' ').replace(' ~tfold~ ', '\t')) for n, v in hdrs]
    m.encode = enc.encode


def build(rng, ctx):
    k = rng.random()
    if k < .01:
        recs = gen.many(rng, ctx)
    else:
        recs = gen.archive(rng, big=rng.random() < .05, http_ascii=rng.random() < .7)
    for m in recs:
        if m.http and rng.random() < .06:
            latin1ise(rng, m)
        elif m.http and rng.random() < .06:
            rewrite_http_eol(m)
        if rng.random() < .03:
            fold(rng, m)
            ctx.ev('folded_headers')
        elif rng.random() < .03:
            whole = m.encode
            m.encode = lambda sep=b'\r\n\r\n', whole=whole: whole(sep=sep, eol=b'\n')
    return recs


def case(rng, ctx, idx):
    recs = build(rng, ctx)
    gzipped = rng.random() < .5
    data, _ = gen.encode(rng, recs, gzipped, seps=rng.random() < .5)
    if not gzipped and rng.random() < .1 and recs:
        # no trailing newlines after the last record
        data = data.rstrip(b'\r\n') if recs[-1].block and recs[-1].block[-1:] not in (b'\r', b'\n') else data
    cls = rng.choice([ArchiveIterator, ArchiveIterator, WARCIterator])
    kw = {}
    http = True
    if rng.random() < .2:
        kw['no_record_parse'] = True
        http = False
    if rng.random() < .15:
        kw['arc2warc'] = True
    if rng.random() < .2:
        kw['check_digests'] = rng.choice([True, False])
    if rng.random() < .15 and http:
        kw['ensure_http_headers'] = True
    if rng.random() < .2:
        verify = all(m.http is None or m.http[0].split(' ')[0] in (VERBS + ('HTTP/1.0', 'HTTP/1.1')) for m in recs)
        kw['verify_http'] = verify
    ctx.ev('gzip_archives' if gzipped else 'plain_archives')
    got = 0
    with quiet():
        it = cls(io.BytesIO(data), **kw)
        use_next = rng.random() < .3
        while True:
            if use_next:
                try:
                    rec = next(it)
                except StopIteration:
                    break
            else:
                rec = next(iter(it), None)
                if rec is None:
                    break
            ctx.expect(got < len(recs), 'more records read than the archive has (%d): %r'
                       % (len(recs), list(rec.rec_headers.headers)[:4]), data=data)
            m = recs[got]
            where = 'record %d of %d (%s, %s)' % (got, len(recs), 'gzip' if gzipped else 'plain', kw)
            if kw.get('ensure_http_headers') and not m.http:
                want = ([('Content-Type', m.get('Content-Type'))] if m.get('Content-Type') else []) + [
                    ('Content-Length', str(len(m.block)))]
                ctx.equal(http_summary(rec.http_headers), ('HTTP/1.0', '200 OK', want), where + ': default http headers')
                rec.http_headers = None
            expect_record(ctx, rec, m, where, http=http)
            if m.http:
                ctx.ev('http_records')
            got += 1
    ctx.equal(got, len(recs), 'number of records read (%s)' % ('gzip' if gzipped else 'plain'), data=data)
    ctx.nontrivial(data[:200000], sorted(kw.items()))
    ctx.sample = {'gzip': gzipped, 'options': kw, 'records': [m.brief() for m in recs[:3]], 'archive_bytes': len(data)}
