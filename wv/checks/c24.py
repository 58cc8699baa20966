"""C24 non-ASCII HTTP headers are written as ASCII without loss"""
import io
import re
from urllib.parse import unquote

from wv import gen, refwarc, writing
from wv.common import quiet
from warcio.archiveiterator import ArchiveIterator
from warcio.statusandheaders import StatusAndHeaders
from warcio.warcwriter import WARCWriter, BufferWARCWriter

PROP = 'C24'
QUICK, THOROUGH = 80000, 1400000
RULE = ('case = a record whose HTTP headers hold any Unicode text (status line, names, values, parameters), given as an object or '
        'as UTF-8 or Latin-1 bytes, written with and without gzip and header filter, parsed strictly and decoded back; then read '
        'back, written again and compared; non-trivial = a non-ASCII text was decoded back; distinct by headers')
NEED = {'written': 12000, 'values_encoded': 8000, 'params_encoded': 3000, 'ascii_unchanged': 10000, 'names_encoded': 800,
        'status_encoded': 800, 'latin1_bytes': 800, 'utf8_bytes': 1500, 'second_generation': 5000, 'filtered': 500, 'pure_ascii_blocks': 500}

CHARS = ['\u00e9', '\u00fc', '\u00ff', '\u0080', '\u65e5', '\u672c', '\U0001f600', '\u0416', '\u2028', '\u00b5', '\u0130', '\ufeff', '\u1e9e',
         '\ud7ff', '\ufffd', '\U0010ffff']
LAT = [c for c in CHARS if ord(c) < 256]
EXT = re.compile(r"\*=UTF-8''([^;]*)")


def norm(s):
    return s.replace('"', '').replace("'", '')


def text(rng, chars, extra=''):
    parts = []
    for _ in range(rng.randrange(1, 6)):
        parts.append(rng.choice([rng.choice(chars), rng.choice(chars) * rng.randrange(1, 4), 'abc', 'a b', '%', '%41', '+', '/', ',', 'X', '-', '_.~'] + list(extra)))
    if rng.random() < .02:
        parts.append(rng.choice(chars) * rng.choice([65, 129, 300, 1025]))
    t = ''.join(parts).strip()
    return t or rng.choice(chars)


def word(rng, chars):
    t = text(rng, chars)
    return t.replace('%', '')


def value(rng, chars, ctx):
    """-> header value, with or without non-ascii text, plain or with parameters"""
    k = rng.random()
    if k < .2:
        return gen.value(rng, True)
    if k < .55:
        return text(rng, chars, ['=', '"', "'", '(', ':', '<', '&', '=x']).replace(';', '')
    n = rng.randrange(1, 4)
    out = rng.choice(['attachment', 'form-data', 'a', '', 'text/html', word(rng, chars), '"x y"'])
    for _ in range(n):
        out += rng.choice(['; ', ';', ' ; '])
        k = rng.random()
        name = rng.choice(['filename', 'name', 'a', 'x-y', 'filename*'])
        v = text(rng, chars, ["'", '='] if rng.random() < .2 else [])
        if k < .4:
            out += '%s="%s"' % (name, v)
        elif k < .7:
            out += '%s=%s' % (name, v)
        elif k < .8:
            out += "%s='%s'" % (name, v)
        elif k < .85:
            out += "filename*=UTF-8''%C3%A9"
        elif k < .9:
            out += '%s=' % name
        elif k < .95:
            out += name
        else:
            out += word(rng, chars)
    return out.strip()


def ascii_(s):
    return all(ord(c) < 128 for c in s)


def check_plain(ctx, got, want, what, ev):
    """a text outside of parameters, non-ascii parts %-encoded"""
    if ascii_(want):
        ctx.equal(got, want, what + ' (ASCII)')
    elif '%' in want:
        # literal % may or may not be encoded: compare what remains of both when decoded
        ctx.expect(unquote(got) == want or unquote(got) == unquote(want), '%s %r does not decode to %r' % (what, got, want))
        ctx.ev(ev)
    else:
        ctx.equal(unquote(got, errors='strict'), want, what + ' decoded from %r' % got)
        ctx.ev(ev)


def check_value(ctx, got, want):
    what = 'header value'
    if ascii_(want):
        ctx.equal(got, want, what + ' (ASCII)')
        ctx.ev('ascii_unchanged')
        return
    if ';' not in want:
        ctx.equal(unquote(got, errors='strict'), want, what + ' decoded from %r' % got)
        ctx.ev('values_encoded')
        return
    pos = 0
    out = []
    rests = []
    for m in EXT.finditer(got):
        rests.append(got[pos:m.start()])
        out += [None, '=' + unquote(m.group(1), errors='strict')]
        ctx.ev('params_encoded')
        pos = m.end()
    rests.append(got[pos:])
    plain = all('%' not in r for r in rests)
    if not out or (plain or '%' not in want):
        res, k = '', 0
        for part in out:
            if part is None:
                res += unquote(rests[k], errors='strict')
                k += 1
            else:
                res += part
        res += unquote(rests[k], errors='strict')
        ctx.equal(norm(res), norm(want), '%s decoded from %r' % (what, got))
    else:
        res, k = '', 0
        for part in out:
            if part is None:
                res += rests[k]
                k += 1
            else:
                res += part
        res += rests[k]
        ctx.equal(norm(unquote(res)), norm(unquote(want)), '%s decoded from %r' % (what, got))
    ctx.ev('values_encoded')


def header_filter(rng):
    k = rng.randrange(2)
    if k == 0:
        return lambda h: None if h[0].lower() == 'server' else h
    return lambda h: ('X-Orig-' + h[0], h[1]) if h[0] == 'Location' else h


def case(rng, ctx, idx):
    rtype = rng.choice(['response', 'request', 'response', 'revisit'])
    mode = rng.choice(['object', 'object', 'object', 'utf8', 'utf8', 'latin1'])
    chars = LAT if mode == 'latin1' or rng.random() < .3 else CHARS
    if rng.random() < .06:
        chars = ['abc', 'd']
    hdrs = []
    for _ in range(rng.randrange(1, 6)):
        n = rng.choice(['Content-Disposition', 'Location', 'Server', 'X-T', 'Content-Type', 'Link'])
        if rng.random() < .1:
            n = 'X-' + word(rng, chars).replace(':', '').replace(' ', '')
        v = value(rng, chars, ctx)
        if mode != 'object':
            # what a parser strips
            v = v.strip()
        hdrs.append((n, v))
    if rtype == 'request':
        proto, status = 'GET', '/' + (word(rng, chars).replace(' ', '') if rng.random() < .3 else 'p') + ' HTTP/1.1'
    else:
        proto, status = 'HTTP/1.1', '200 ' + (word(rng, chars) if rng.random() < .25 else 'OK')
    status = status.strip()
    body = gen.payload(rng)
    filt = header_filter(rng) if rng.random() < .15 else None
    gz = rng.random() < .4
    w = BufferWARCWriter(gzip=gz, header_filter=filt)
    url = gen.http_url(rng)
    if rtype == 'revisit':
        body = b''
    supply = rng.random() < .1
    kw = {}
    if mode == 'object':
        given = StatusAndHeaders(status, list(hdrs), protocol=proto)
        if body or rng.random() < .5:
            kw = {'payload': io.BytesIO(body)}
            if rng.random() < .6 or not body:
                kw['length'] = len(body)
        rec = w.create_warc_record(url, rtype, http_headers=given, **kw)
    else:
        enc = 'utf-8' if mode == 'utf8' else 'latin-1'
        head = gen.encode_http_head('%s %s' % (proto, status), hdrs, enc=enc)
        if mode == 'latin1':
            # a line which happens to be utf-8 is utf-8
            for line in head.split(b'\r\n'):
                try:
                    line.decode('utf-8')
                    if any(c > 127 for c in line):
                        return
                except UnicodeDecodeError:
                    pass
        ctx.ev('utf8_bytes' if mode == 'utf8' else 'latin1_bytes')
        if any(ord(c) in (0x85, 0xa0, 0x2028) for h in hdrs for s in h for c in (s[:1], s[-1:]) if c) or status != status.strip():
            return
        data = head + body
        kw = {'payload': io.BytesIO(data)}
        if rng.random() < .7:
            kw['length'] = len(data)
        rec = w.create_warc_record(url, rtype, **kw)
        if rng.random() < .2:
            # also if the block digest was that of the original bytes
            rec.rec_headers.add_header('WARC-Block-Digest', refwarc.digest(data))
            supply = True
    w.write_record(rec)
    out = w.get_contents()
    w.out.close()
    try:
        recs = refwarc.parse_warc(out, gz)
        ctx.equal(len(recs), 1, 'records written')
        m = recs[0][0]
        first, lines, head, got_body = refwarc.split_http(m.block)
    except refwarc.Bad as e:
        ctx.expect(False, 'written record is not valid: %s' % e, data=out[-2000:], headers=hdrs)
    ctx.ev('written')
    ctx.expect(all(c < 128 for c in head), 'HTTP headers are not ASCII', head=head)
    ctx.equal(got_body, body, 'body')
    ctx.equal(m.get('WARC-Block-Digest'), refwarc.digest(m.block), 'block digest')
    ctx.equal(m.get('WARC-Payload-Digest'), None if rtype == 'revisit' else refwarc.digest(body), 'payload digest')
    want = hdrs
    if filt:
        ctx.ev('filtered')
        want = [h for h in (filt(h) for h in hdrs) if h]
    check_plain(ctx, first, '%s %s' % (proto, status), 'status line', 'status_encoded')
    ctx.equal(len(lines), len(want), 'number of HTTP headers', lines=lines)
    raw = head.split(b'\r\n')[1:]
    alla = ascii_(status) and all(ascii_(n + v) for n, v in want)
    if alla and not filt:
        ctx.ev('pure_ascii_blocks')
        ctx.equal(head, gen.encode_http_head('%s %s' % (proto, status), hdrs), 'ASCII HTTP headers')
    for (n, v), (wn, wv), line in zip(lines, want, raw):
        check_plain(ctx, n, wn, 'header name', 'names_encoded')
        if ascii_(wn + wv):
            ctx.equal(line.decode(), '%s: %s' % (wn, wv), 'ASCII header line')
        check_value(ctx, v, wv)
    if not alla:
        ctx.nontrivial(proto, status, tuple(want), gz)
    ctx.sample = {'given': [list(h) for h in hdrs[:3]], 'written': [list(h) for h in lines[:3]]}

    # read back, written again
    if rng.random() < .5:
        ctx.ev('second_generation')
        with quiet():
            it = ArchiveIterator(io.BytesIO(out), check_digests=True)
            w2 = BufferWARCWriter(gzip=False)
            for r in it:
                ctx.equal(list(r.http_headers.headers), lines, 'HTTP headers read back')
                w2.write_record(r)
                ctx.expect(r.digest_checker.passed is not False, 'digests of the written record do not verify')
            ctx.equal(it.err_count, 0, 'errors reading it back')
        m2 = refwarc.parse_warc(w2.get_contents(), False)[0][0]
        w2.out.close()
        ctx.equal(m2.block, m.block, 'block written again')
        ctx.equal(sorted(m2.headers), sorted(m.headers), 'record headers written again')
