"""C12 stream readers obey the file reading contract and their limits"""
import io

from wv import gen, refwarc
from wv.common import Source, policies, quiet
from warcio.bufferedreaders import BufferedReader, DecompressingBufferedReader, ChunkedDataReader
from warcio.limitreader import LimitReader
from warcio.digestverifyingreader import DigestVerifyingReader, DigestChecker

PROP = 'C12'
QUICK, THOROUGH = 50000, 900000
RULE = ('case = one stack of readers (buffered, decompressing, dechunking, limited, verifying, nested) over a monitored source '
        'and one random sequence of read, readline and tell calls, each result checked against the exact content; non-trivial = '
        'content was read; distinct by stack, content and calls')
NEED = {'reads': 50000, 'readlines': 30000, 'tells': 5000, 'after_end': 20000, 'limited': 5000, 'buffered': 1500, 'gzip': 2000,
        'members': 1000, 'chunked': 2000, 'verifying': 1500, 'short_sources': 5000, 'plain_as_gzip': 500, 'nested': 1500,
        'lines_over_buffers': 150, 'wrapped_partly_read': 200, 'megabytes': 10, 'closed': 3000}


class Src(Source):
    """short reads, but whole lines (as a file)"""
    def readline(self, n=-1):
        pol, self.policy = self.policy, None
        try:
            return Source.readline(self, n)
        finally:
            self.policy = pol


def content_of(rng):
    k = rng.random()
    if k < .0015:
        # more than a megabyte
        return gen._fill(rng, rng.choice([1 << 20, (1 << 20) + 1, 1300000, 3000000]))
    if k < .008:
        # lines longer than any buffer
        return b''.join(bytes([rng.randrange(11, 250)]) * rng.choice([0, 10, 16384, 65535, 65536, 65537, 70000, 140000]) + b'\n'
                        for _ in range(rng.randrange(1, 5)))
    if k < .3:
        return gen.payload(rng)
    if k < .6:
        # lines of all lengths
        return b''.join(bytes([rng.randrange(11, 250)]) * rng.choice([0, 1, 2, 5, 30, 63, 64, 65, 400]) + rng.choice([b'\n', b'\r\n', b'\n\n', b'\r'])
                        for _ in range(rng.randrange(1, 60)))
    if k < .7:
        return gen._fill(rng, rng.choice([16383, 16384, 16385, 32768]))
    return b''.join(rng.choice(gen.TRICKY) for _ in range(rng.randrange(12)))


class Stack(object):
    exact = True        # read(n) must be exactly n unless at the end
    limits = ()         # (source, start, limit)
    tell = None         # 'returned' if tell has to be the number of bytes returned, 'ahead' if it may be more before the end
    base = 0            # bytes of earlier members
    tail = None         # further members


def bottom(rng, ctx, data, st):
    """source of the given raw bytes"""
    pol = policies(rng) if rng.random() < .6 and len(data) < 40000 else None
    if pol:
        ctx.ev('short_sources')
    pre = gen.randbytes(rng, rng.choice([0, 0, 0, 7]))
    s = Src(pre + data + (gen.randbytes(rng, 5) if False else b''), pol, len(pre))
    st.src = s
    st.short = bool(pol)
    return s


def bsize(rng):
    return rng.choice([1, 2, 3, 10, 64, 100, 511, 512, 4096, 16384, 16384, 16384, 16385, 40000])


def build(rng, ctx, content, depth=0):
    """-> (reader, Stack, content, description)"""
    st = Stack()
    kind = rng.choice(['limit', 'limit', 'limit', 'buffered', 'gzip', 'gzip', 'members', 'first', 'chunked', 'chunked', 'verify', 'plain_gz',
                       'coded', 'nested', 'nested', 'wrap'])
    if kind == 'limit' or kind == 'wrap':
        ctx.ev('limited')
        n = rng.choice([len(content), rng.randrange(len(content) + 1), len(content) + rng.randrange(1, 50), 0])
        if len(content) > 100000:
            n = rng.randrange(len(content) - 60000, len(content))
        s = bottom(rng, ctx, content, st)
        start = s.pos
        if kind == 'wrap':
            r = LimitReader.wrap_stream(s, rng.choice([n, str(n)]))
            if rng.random() < .5:
                # wrapped again: the smaller limit counts
                done = 0
                if rng.random() < .5:
                    # after a part of it was read: of what remains
                    done = len(r.read(rng.choice([1, 3, n // 2])) if rng.random() < .6 else r.readline())
                    content = content[done:]
                    ctx.ev('wrapped_partly_read')
                left = n - done
                n2 = rng.choice([left, rng.randrange(left + 1), left + 5, n])
                r = LimitReader.wrap_stream(r, n2)
                n = min(left, n2)
                if done:
                    st.limits = [(s, start, n + done)]
                    st.exact = not st.short
                    st.tell, st.base = 'returned', done
                    return r, st, content[:n], 'wrap(%d) after %d bytes' % (n, done)
                ctx.ev('wrapped_twice')
        else:
            r = LimitReader(s, n)
        st.limits = [(s, start, n)]
        st.exact = not st.short
        st.tell = 'returned'
        return r, st, content[:n], '%s(%d)' % (kind, n)
    if kind == 'verify':
        ctx.ev('verifying')
        n = rng.choice([len(content), rng.randrange(len(content) + 1), len(content) + 3])
        s = bottom(rng, ctx, content, st)
        start = s.pos
        right = rng.random() < .5
        body = content[:n] if right else b'!' + content
        algo, enc = rng.choice(['sha1', 'sha256', 'md5']), rng.choice(['b32', 'hex', 'b64'])
        r = DigestVerifyingReader(s, n, DigestChecker(rng.choice([None, 'log'])), record_type=rng.choice([None, 'response', 'revisit']),
                                  block_digest=rng.choice([None, refwarc.digest(body, algo, enc), 'foo:bar', 'x']),
                                  payload_digest=rng.choice([None, refwarc.digest(body, algo, enc), 'foo:bar']))
        if rng.random() < .7:
            r.begin_payload()
        st.limits = [(s, start, n)]
        st.exact = not st.short
        st.tell = 'returned'
        return r, st, content[:n], 'verify(%d)' % n
    if kind == 'buffered':
        ctx.ev('buffered')
        st.tell = 'ahead'
        k = 0
        kw = {}
        if rng.random() < .2 and content:
            k = rng.randrange(1, len(content) + 1)
            kw['starting_data'] = content[:k]
        if rng.random() < .2:
            kw['read_all_members'] = True
        return BufferedReader(bottom(rng, ctx, content[k:], st), block_size=bsize(rng), **kw), st, content, 'buffered'
    if kind == 'plain_gz':
        st.tell = 'ahead'
        if content[:1] == b'\x1f':
            content = b'y' + content
        ctx.ev('plain_as_gzip')
        if len(content) < 2:
            content = b'no'
        bs = bsize(rng)
        kw = {'read_all_members': True} if rng.random() < .3 else {}
        return DecompressingBufferedReader(bottom(rng, ctx, content, st), block_size=bs, **kw), st, content, 'gzip reader on plain data %s' % kw
    if kind == 'gzip':
        ctx.ev('gzip')
        st.tell = 'ahead'
        raw = gen.content_code(rng, 'gzip', content)
        bs = bsize(rng)
        k = 0
        kw = {}
        if rng.random() < .2:
            k = rng.randrange(1, len(raw) + 1)
            kw['starting_data'] = raw[:k]
        cls = rng.choice([DecompressingBufferedReader, lambda *a, **k: BufferedReader(*a, decomp_type=rng.choice(['gzip', 'GZip']), **k)])
        return cls(bottom(rng, ctx, raw[k:], st), block_size=bs, **kw), st, content, 'gzip'
    if kind in ('members', 'first'):
        ctx.ev('members')
        st.tell = 'ahead'
        parts = [content] + [rng.choice([b'', b'\n', content_of(rng)]) for _ in range(rng.choice([1, 1, 2, 5]))]
        rng.shuffle(parts)
        raw = b''.join(refwarc.gz(p, rng.choice([0, 1, 9])) for p in parts)
        s = bottom(rng, ctx, raw, st)
        if kind == 'members':
            return DecompressingBufferedReader(s, block_size=bsize(rng), read_all_members=True), st, b''.join(parts), 'all of %d members' % len(parts)
        st.tail = parts[1:]
        return DecompressingBufferedReader(s, block_size=bsize(rng)), st, parts[0], 'first of %d members' % len(parts)
    if kind == 'coded':
        ctx.ev('coded')
        st.tell = 'ahead'
        k = rng.choice(['deflate', 'deflate_raw', 'br'])
        raw = gen.content_code(rng, k, content)
        if k == 'deflate_raw':
            import zlib
            content = zlib.decompressobj(-zlib.MAX_WBITS).decompress(raw)
        return BufferedReader(bottom(rng, ctx, raw, st), block_size=bsize(rng), decomp_type=k.split('_')[0]), st, content, k
    if kind == 'chunked':
        ctx.ev('chunked')
        st.tell = 'ahead'
        comp = rng.choice([None, None, 'gzip', 'deflate', 'br'])
        raw = gen.chunked(rng, gen.content_code(rng, comp, content) if comp else content)
        return (ChunkedDataReader(bottom(rng, ctx, raw, st), raise_exceptions=rng.random() < .5, decomp_type=comp, block_size=bsize(rng)),
                st, content, 'chunked %s' % comp)
    # nested: a limit on another reader, or a buffered reader on a limited one
    if depth > 2:
        return build(rng, ctx, content, depth)
    ctx.ev('nested')
    if rng.random() < .5:
        r, st, content, desc = build(rng, ctx, content, depth + 1)
        if st.tail is not None:
            return r, st, content, desc
        n = rng.choice([len(content), rng.randrange(len(content) + 1), len(content) + 9])
        st.tell, st.base = 'returned', 0
        return LimitReader(r, n), st, content[:n], 'limit(%d) of %s' % (n, desc)
    s = bottom(rng, ctx, content + gen.randbytes(rng, rng.choice([0, 20])), st)
    n = len(content)
    lim = LimitReader(s, n)
    st.limits = [(s, s.pos, n)]
    if rng.random() < .5:
        return BufferedReader(lim, block_size=bsize(rng)), st, content, 'buffered on limit(%d)' % n
    # chunked data within a limit
    raw = gen.chunked(rng, content)
    s = bottom(rng, ctx, raw + b'WARC/1.0\r\n', st)
    lim = LimitReader(s, len(raw))
    st.limits = [(s, s.pos, len(raw))]
    return ChunkedDataReader(lim), st, content, 'chunked on limit(%d)' % len(raw)


SIZES = [0, 1, 2, 3, 7, 10, 63, 64, 65, 100, 1000, 16383, 16384, 16385, 50000, 10 ** 9, -1, -5, None]


def sequence(rng, ctx, r, st, content, desc, nops):
    pos = 0
    hist = []
    total = len(content)
    while True:
        nops -= 1
        op = rng.choice(['read', 'read', 'read', 'readline', 'readline', 'tell']) if nops > 0 else 'read'
        if op == 'tell':
            t = r.tell()
            ctx.ev('tells')
            hist.append('tell')
            if st.tell == 'returned':
                ctx.expect(t == st.base + pos, '%s: tell is %d after %d bytes were returned (%s)' % (desc, t, st.base + pos, hist[-8:]))
            elif st.tell == 'ahead':
                ctx.expect(isinstance(t, int) and st.base + pos <= t <= st.base + total,
                           '%s: tell is %r after %d of %d bytes were returned (%s)' % (desc, t, st.base + pos, st.base + total, hist[-8:]))
            continue
        n = rng.choice(SIZES) if nops > 0 else rng.choice([16384, None])
        hist.append((op, n))
        f = getattr(r, op)
        k = rng.randrange(3)
        if n is None and k == 0:
            got = f()
        elif k == 1 and n is not None:
            got = f(length=n)
        else:
            got = f(n)
        ctx.ev(op + 's')
        rest = content[pos:]
        free = n is None or n < 0
        if op == 'read':
            want = rest if free else rest[:n]
            if st.exact or not want:
                ok = got == want
            else:
                ok = len(got) > 0 and want.startswith(got)
        else:
            e = rest.find(b'\n')
            want = rest if e < 0 else rest[:e + 1]
            want = want if free else want[:n]
            ok = got == want
            if len(want) > 600:
                ctx.ev('lines_over_buffers')
        if not ok:
            ctx.expect(False, '%s: %s(%s) at %d of %d returned %d bytes %r, expected %d bytes %r; calls so far %s'
                       % (desc, op, n, pos, total, len(got), got[:60], len(want), want[:60], hist[-10:]), content=content)
        ctx.counters['assertions'] += 1
        pos += len(got)
        for s, start, limit in st.limits:
            ctx.expect(s.pos - start <= limit, '%s: %d bytes taken from the source, limit is %d (%s)' % (desc, s.pos - start, limit, hist[-8:]))
        if not got and (free or n > 0):
            break
        if nops < -100000:
            ctx.expect(False, desc + ': no end')
    ctx.expect(pos == total, '%s: end reported after %d of %d bytes (%s)' % (desc, pos, total, hist[-8:]))
    for _ in range(2):
        n = rng.choice(SIZES)
        ctx.equal(r.read(n), b'', desc + ': read(%s) after the end' % n)
        ctx.equal(r.readline(n), b'', desc + ': readline(%s) after the end' % n)
        ctx.ev('after_end')
    t = r.tell()
    if st.tell == 'returned':
        ctx.equal(t, st.base + total, desc + ': tell at the end')
    elif st.tell == 'ahead':
        ctx.equal(t, st.base + total, desc + ': tell at the end')
    return hist


def case(rng, ctx, idx):
    content = content_of(rng)
    with quiet():
        r, st, content, desc = build(rng, ctx, content)
        hist = sequence(rng, ctx, r, st, content, desc, rng.choice([0, 3, 10, 40]))
        done = len(content)
        for i, p in enumerate(st.tail or ()):
            st.base, done = done, done + len(p)
            ctx.expect(r.read_next_member() is True, '%s: no member %d found' % (desc, i + 2))
            hist += sequence(rng, ctx, r, st, p, '%s, member %d' % (desc, i + 2), rng.choice([0, 5]))
        if st.tail is not None:
            ctx.expect(not r.read_next_member(), desc + ': a member after the last one')
        if rng.random() < .3:
            r.close()
            ctx.expect(st.src.closed_, desc + ': source not closed by close()')
            if rng.random() < .5:
                r.close()
            ctx.ev('closed')
    if len(content) >= 1 << 20:
        ctx.ev('megabytes')
    if content:
        ctx.nontrivial(desc, content[:5000], hist[:30])
        ctx.sample = {'stack': desc, 'content_len': len(content), 'short_source': st.short, 'calls': hist[:12]}
