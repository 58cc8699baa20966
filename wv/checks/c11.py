"""C11 the decoded content stream returns exactly the original content"""
import io
import re

from wv import gen, refwarc
from wv.common import quiet
from warcio.archiveiterator import ArchiveIterator
from warcio.recordbuilder import RecordBuilder
from warcio.statusandheaders import StatusAndHeaders

PROP = 'C11'
QUICK, THOROUGH = 40000, 700000
RULE = ('case = one HTTP record whose body is content (random, structured, boundary sized) under a random combination of '
        'content coding (levels, strategies, sync flushes, window sizes) and chunking (sizes, extensions, trailers, padding), '
        'possibly cut off or wrongly labelled, read by a random pattern; non-trivial = the decoded bytes were compared with '
        'the content; distinct by body, headers and cut')
NEED = {'decoded': 8000, 'chunked': 4000, 'gzip': 1000, 'deflate': 1000, 'deflate_raw': 1000, 'br': 1000, 'unknown': 500,
        'cut_off': 1500, 'cut_in_size_line': 200, 'mislabelled': 500, 'bytes_decoded': 1000000, 'trailers': 300, 'unknown_transfer': 200, 'big_chunks': 15}


def drain(rng, s, slow=False):
    how = rng.randrange(6)
    out = []
    if how == 0:
        out.append(s.read())
    elif how == 1:
        n = rng.choice([1, 2, 7, 100, 1000, 16383, 16384, 16385, 100000]) if not slow else rng.choice([1000, 16385, 100000])
        while True:
            b = s.read(n)
            if not b:
                break
            out.append(b)
    elif how == 2:
        while True:
            b = s.readline()
            if not b:
                break
            out.append(b)
    elif how == 3:
        out.append(s.read(-1))
    else:
        while True:
            b = s.read(rng.choice([1, 3, 50, 20000] if not slow else [1, 3, 2000, 200000])) if rng.random() < .6 else s.readline(rng.choice([-1, 1, 10, 500] if not slow else [-1, 5000]))
            if not b:
                break
            out.append(b)
    return b''.join(out), ['read()', 'read(n)', 'readline()', 'read(-1)', 'mixed', 'mixed'][how]


def mislabelled(rng):
    """a body that does not have the coding its headers say"""
    if rng.random() < .5:
        content = rng.choice([b'plain text', b'<html>', b'zz\r\n', b'\r\n\r\nabc', b'not hex\r\n1\r\n', b'\xff\xfe\x00', b'-']) + gen.payload(rng)
        if re.match(rb'^[0-9a-fA-F +_-]*(;|\r\n)', content):
            content = b'g' + content
        return content, content, [('Transfer-Encoding', 'chunked')], ('mislabelled chunked', None)
    content = gen.payload(rng)
    # two bytes at least: less cannot be told from the start of a gzip stream before the end
    if content[:1] == b'\x1f' or len(content) < 2:
        content = b'plain' + content
    if rng.random() < .2:
        # another coding (zlib) than said
        content = gen.content_code(rng, 'deflate', content)
    elif rng.random() < .3:
        # starts as a gzip stream with a file name, but holds no compressed data
        name = b'name' * rng.choice([1, 10, 200, 3000])
        content = b'\x1f\x8b\x08\x08' + gen.randbytes(rng, 6) + name + b'\0\xff' + content
        if rng.random() < .6:
            return content, refwarc.chunk(content, [rng.choice([3, 11, 50, 1000]) if len(content) < 20000 else 4000]), [
                ('Content-Encoding', 'gzip'), ('Transfer-Encoding', 'chunked')], ('mislabelled gzip', 'chunked')
    return content, content, [('Content-Encoding', 'gzip')], ('mislabelled gzip', None)


def huge_chunk(rng, ctx):
    """one chunk of tens of megabytes"""
    n = rng.choice([1 << 24, 1 << 25, (1 << 26) + 1, 20000000]) + rng.randrange(-1, 70000)
    unit = gen.randbytes(rng, 65521)
    body = b'%x\r\n' % n + (unit * (n // len(unit) + 1))[:n] + b'\r\n' + rng.choice([b'5\r\nhello\r\n0\r\n\r\n', b'0\r\n\r\n'])
    head = b'HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n'
    data = (b'WARC/1.0\r\nWARC-Type: response\r\nWARC-Target-URI: http://example.com/\r\nContent-Length: %d\r\n\r\n' % (len(head) + len(body))
            + head + body + b'\r\n\r\n')
    tail = b'hello' if b'hello' in body[-20:] else b''
    with quiet():
        rec = next(iter(ArchiveIterator(io.BytesIO(data))))
        s = rec.content_stream()
        pos = 0
        while True:
            b = s.read(rng.choice([16384, 1 << 20, 1 << 22]))
            if not b:
                break
            k = pos % len(unit)
            rep = unit * (len(b) // len(unit) + 2)
            if pos + len(b) <= n:
                ctx.expect(b == rep[k:k + len(b)], 'chunk of %d bytes: wrong content at %d' % (n, pos))
            else:
                m = n - pos
                ctx.expect(b == rep[k:k + max(0, m)] + tail[-(len(b) - m):] if m > 0 else tail.endswith(b), 'chunk of %d bytes: wrong content at %d' % (n, pos))
            pos += len(b)
    ctx.equal(pos, n + len(tail), 'content of a chunk of %d bytes' % n)
    ctx.ev('huge_chunks')
    ctx.nontrivial(n, len(tail))
    ctx.sample = {'chunk': n}


def case(rng, ctx, idx):
    if idx % 3000 == 77:
        return huge_chunk(rng, ctx)
    big = rng.random() < .03
    content = gen._fill(rng, rng.randrange(60000, 400000)) if big else gen.payload(rng)
    if rng.random() < .06:
        content, raw, ch, desc = mislabelled(rng)
        ctx.ev('mislabelled')
    elif rng.random() < .04:
        # a coding under chunking that is only announced
        raw0 = gen.content_code(rng, 'gzip', content)
        raw, ch, desc = raw0, [('Content-Encoding', 'gzip'), ('Transfer-Encoding', 'Chunked')], ('gzip not chunked', None)
        ctx.ev('mislabelled')
    elif rng.random() < .04:
        # transfer coding unknown: as it is, though it looks chunked
        content = raw = gen.chunked(rng, content) if rng.random() < .7 else content
        ch = [(gen.recase(rng, 'Transfer-Encoding'), rng.choice(['identity', 'x-chunked', 'notchunked', 'chunked-x', 'x', '', 'chunkedchunked']))]
        if rng.random() < .3:
            # a transfer coding that is none of the content
            kind = rng.choice(['gzip', 'deflate', 'br'])
            content = raw = gen.content_code(rng, kind, content)
            ch = [(gen.recase(rng, 'Transfer-Encoding'), rng.choice([kind, kind, kind + ', x', 'gzip, identity']))]
        desc = ('unknown transfer coding', None)
        ctx.ev('unknown_transfer')
    elif rng.random() < .003:
        # chunks of more than a megabyte
        content = gen._fill(rng, rng.randrange(1100000, 3500000))
        kind = rng.choice([None, 'gzip', 'br'])
        raw = refwarc.chunk(gen.content_code(rng, kind, content), [rng.randrange(1050000, 3500000)])
        ch = [('Transfer-Encoding', 'chunked')] + ([('Content-Encoding', kind)] if kind else [])
        desc = (kind, 'chunked')
        ctx.ev('big_chunks')
    else:
        content, raw, ch, desc = gen.coded_body(rng, content)
        ctx.ev(desc[0] or 'identity')
        if desc[1]:
            ctx.ev('chunked')
            if b'X-Trailer' in raw[-60:] or b'X-Sum' in raw[-60:]:
                ctx.ev('trailers')
    cut = None
    if rng.random() < .25 and raw and 'labelled' not in str(desc[0]):
        cut = rng.choice([rng.randrange(len(raw)), max(0, len(raw) - rng.randrange(1, 40)), min(len(raw), rng.randrange(0, 40))])
        if desc[1] and rng.random() < .3:
            # inside of the size line of a chunk
            a, b = rng.choice(refwarc.size_lines(raw))
            cut = rng.randrange(a, b)
            ctx.ev('cut_in_size_line')
        if desc[1]:
            # whether a body is chunked at all shows in its first line only
            cut = max(cut, raw.find(b'\r\n') + 2)
            if raw.lstrip(b'0')[:1] in b'\r;':
                cut = None
        elif desc[0] == 'gzip not chunked':
            cut = None
    body = raw if cut is None else raw[:cut]
    rtype = rng.choice(['response', 'response', 'response', 'request', 'revisit'])
    first, hdrs, _ = gen.http_head(rng, rtype)
    hdrs = [h for h in hdrs if h[0].lower() not in ('content-encoding', 'transfer-encoding')]
    if rng.random() < .15:
        # a length is also given: of the body, the content, or another
        hdrs = [h for h in hdrs if h[0].lower() != 'content-length']
        ch = ch + [('Content-Length', str(rng.choice([len(body), len(content), 0, 7])))]
    for h in ch:
        hdrs.insert(rng.randrange(len(hdrs) + 1), h)
    head = gen.encode_http_head(first, hdrs)
    m = gen.record(rng, rtype=rtype, block=head + body, url='http://example.com/%d' % rng.getrandbits(20),
                   digests=gen.make_digests(rng) if rng.random() < .2 else None)
    where = '%s body of %d bytes%s, coded %s' % (rtype, len(body), '' if cut is None else ' (cut off from %d)' % len(raw), desc)
    with quiet():
        if rng.random() < .12:
            proto, _, status = first.partition(' ')
            rec = RecordBuilder().create_warc_record('http://example.com/', rtype, payload=io.BytesIO(body), length=len(body),
                                                     http_headers=StatusAndHeaders(status, hdrs, protocol=proto))
            got, how = drain(rng, rec.content_stream(), len(content) > 1000000)
            it = None
        else:
            other = gen.record(rng)
            gz = rng.random() < .5
            data, _ = gen.encode(rng, [m, other], gz)
            if cut is not None and rng.random() < .3 and not gz:
                # cut off together with the file
                full = m
                full.headers = [(n, str(len(head) + len(raw)) if n.lower() == 'content-length' else v) for n, v in m.headers]
                data = m.encode(sep=b'')
                other = None
            it = ArchiveIterator(io.BytesIO(data), check_digests=rng.random() < .3,
                                 **({'block_size': rng.choice([100, 1000, 16385])} if rng.random() < .2 else {}))
            rec = next(it)
            s = rec.content_stream()
            got, how = drain(rng, s, len(content) > 1000000)
            ctx.equal(s.read(10), b'', where + ', %s: read after the end' % how)
            ctx.equal(s.read(), b'', where + ', %s: read after the end' % how)
            ctx.equal(s.readline(), b'', where + ', %s: readline after the end' % how)
            if other is not None:
                nxt = next(it, None)
                ctx.expect(nxt is not None and list(nxt.rec_headers.headers)[:1] and nxt.raw_stream.read() is not None
                           and nxt.rec_headers.get_header('WARC-Record-ID') == other.get('WARC-Record-ID'),
                           where + ': next record lost after reading the decoded stream')
    ctx.ev('decoded')
    ctx.ev('bytes_decoded', len(got))
    if cut is None:
        if got != content:
            k = next((i for i, (a, b) in enumerate(zip(got, content)) if a != b), min(len(got), len(content)))
            ctx.expect(False, '%s, %s: %d bytes instead of %d, first difference at %d: %r instead of %r'
                       % (where, how, len(got), len(content), k, got[k:k + 60], content[k:k + 60]), body=body, headers=hdrs)
    else:
        ctx.ev('cut_off')
        ctx.expect(content.startswith(got), '%s, %s: not a prefix of the content: %r' % (where, how, got[-80:]), body=body, headers=hdrs)
        if not desc[0] or desc[0].startswith('unknown'):
            # nothing that arrived may be lost
            arrived = min(len(content), cut) if not desc[1] else None
            if arrived is not None:
                ctx.equal(len(got), arrived, where + ': bytes of the cut off body')
    ctx.nontrivial(body[:20000], hdrs, cut)
    ctx.sample = {'coding': desc, 'content_len': len(content), 'body_len': len(body), 'cut': cut, 'read': how, 'headers': hdrs[:5],
                  'body_head': body[:60]}
