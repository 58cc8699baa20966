"""C09 digest verification gives exactly the right verdict"""
import io
import random

from wv import gen, refwarc
from wv.common import quiet, Source, policies
from warcio.archiveiterator import ArchiveIterator
from warcio.exceptions import ArchiveLoadFailed

PROP = 'C09'
QUICK, THOROUGH = 30000, 400000
RULE = ('case = an archive whose records carry digests of random algorithms and encodings, right or wrong in a random way '
        '(other value, malformed, unknown algorithm, one bit or byte of the block changed, block cut off), read in a random '
        'way in one of the modes; non-trivial = at least one verdict on a record with digests was compared; distinct by '
        'archive, mode and read pattern')
NEED = {'verdict_True': 1500, 'verdict_False': 1500, 'verdict_None': 500, 'bit_flips': 300, 'truncated': 100, 'raised': 200,
        'logged': 200, 'empty_payloads': 200, 'nothing_left': 100, 'one_big_read': 1}
ALGOS = ['sha1', 'sha1', 'sha1', 'sha256', 'md5', 'sha512', 'sha224', 'sha384', 'blake2b', 'blake2s', 'sha3_256', 'SHA1', 'SHA256']
ENCS = ['b32', 'b32', 'hex', 'HEX', 'Hex', 'b64', 'b64url']
UNKNOWN = ['foo', 'sha', 'sha-1x', '', 'crc32', 'sha1 ', 'shake_128', 'shake_256']


def wrong(rng, good, data):
    """a digest header value that is not that of data -> (value, kind)"""
    algo, _, val = good.partition(':')
    k = rng.randrange(8)
    if k == 7:
        # base32 has capital letters only
        low = refwarc.digest(data, algo, 'b32').partition(':')[2].lower()
        if set(low) - set('0123456789abcdef=') and len(low) != len(val):
            return algo + ':' + low, 'lower case'
        k = 0
    if k == 0:
        return refwarc.digest(data + b'x', algo, rng.choice(ENCS)), 'other data'
    if k == 1:
        i = rng.randrange(len(val.rstrip('=')) - 1)         # not the last character: its low bits may not count
        c = rng.choice([c for c in 'ABCDEFGH234567' if c.lower() != val[i].lower()])
        return algo + ':' + val[:i] + c + val[i + 1:], 'one character'
    if k == 2:
        return algo + ':' + rng.choice(['', 'x', '=', 'AAAA', '0' * 39, 'é', '-_', '!' * 32, val[:-5], (val + 'AB') if '=' not in val else 'AB']), 'malformed'
    if k == 3:
        return rng.choice(UNKNOWN) + ':' + val, 'unknown'
    if k == 4:
        return val.replace(':', ''), 'no algorithm'
    if k == 5:
        other = rng.choice([a for a in ('sha1', 'sha256', 'md5', 'sha224') if a != algo.lower()])
        return other + ':' + val, 'other algorithm'
    return refwarc.digest(gen.randbytes(rng, 9), algo, rng.choice(ENCS)), 'random'


class Item(object):
    pass


def make(rng, ctx, last):
    """one record with digests -> Item(m, right: {'block': True/False/absent, ...}, data written)"""
    it = Item()
    k = rng.random()
    if k < .35:
        m = gen.coded_record(rng, corrupt=rng.random() < .2)[0]
    else:
        m = gen.record(rng, rtype=rng.choice([None, 'response', 'request', 'revisit', 'resource', 'warcinfo']))
    if m.http and rng.random() < .12:
        m.block = m.http[2]
    elif not m.http and rng.random() < .12 and m.rtype not in ('response', 'request'):
        m.block = b''
    if not m.body:
        ctx.ev('empty_payloads')
    it.fail = set()
    it.have = set()
    heads = []
    for name, data in rng.sample([('block', m.block), ('payload', m.body)], rng.choice([0, 1, 1, 2, 2])):
        good = refwarc.digest(data, rng.choice(ALGOS), rng.choice(ENCS))
        it.have.add(name)
        if rng.random() < .3:
            v, kind = wrong(rng, good, data)
            if not v:
                v = 'x'
            it.fail.add(name)
        else:
            v = good
        heads.append((gen.recase(rng, 'WARC-%s-Digest' % name.capitalize()), v))
    it.segment = rng.random() < .06
    if it.segment:
        heads.append(('WARC-Segment-Number', str(rng.randrange(1, 4))))
    m.headers = [(n, v) for n, v in m.headers if n.lower() != 'content-length']
    for h in heads:
        m.headers.insert(rng.randrange(1, len(m.headers) + 1), h)
    m.headers.append(('Content-Length', str(len(m.block))))
    it.m = m
    it.block = m.block
    it.flipped = it.cut = False
    if m.block and rng.random() < .2:
        # damage after the digests were made, the HTTP framing stays recognisable
        lo = len(m.http[2]) if m.http and (rng.random() < .7 or len(m.body)) else 0
        if lo < len(m.block) and (not m.http or lo):
            i = rng.choice([lo, len(m.block) - 1, rng.randrange(lo, len(m.block))])
            b = bytearray(m.block)
            b[i] ^= 1 << rng.randrange(8)
            it.block = bytes(b)
            it.fail |= it.have
            it.flipped = True
            ctx.ev('bit_flips')
        elif m.http:
            # in the value of a header: only the block digest covers it
            i = m.block.find(b' ') + 1
            b = bytearray(m.block)
            b[i] = ord('3') if b[i] != ord('3') else ord('4')
            it.block = bytes(b)
            it.fail |= it.have & {'block'}
            it.flipped = True
            ctx.ev('bit_flips')
    return it


def encode(it, sep=b'\r\n\r\n'):
    return it.m.head() + it.block + sep


def verdict(it, raw):
    """(passed, {digests that fail})"""
    have, fail = set(it.have), set(it.fail)
    m = it.m
    if m.rtype == 'revisit':
        have = set()
    if it.segment:
        have.discard('payload')
    if raw and m.rtype in ('response', 'request') and (gen.norm_uri(m.get('WARC-Target-URI')) or '').startswith(('http:', 'https:')) and m.block:
        # where the payload starts is not known; an unknown algorithm is still reported
        v = next((v for n, v in m.headers if n.lower() == 'warc-payload-digest'), None)
        if 'payload' in have and not unusable(v):
            have.discard('payload')
    fail &= have
    return (None if not have else not fail), fail


def unusable(v):
    algo, sep, _ = (v or '').partition(':')
    if not sep or algo in UNKNOWN:
        return True
    return False


def consume(rng, rec, how):
    s = rec.raw_stream
    if how == 'all':
        while s.read():
            pass
    elif how == 'none':
        pass
    elif how == 'content':
        c = rec.content_stream()
        while c.read(rng.choice([1000, 20000])):
            pass
    elif how == 'lines':
        while s.readline():
            pass
    elif how == 'tiny':
        n = rng.choice([1, 2, 7]) if (rec.length or 0) < 3000 else 997
        while s.read(n):
            pass
    elif how == 'mixed':
        while True:
            b = s.read(rng.choice([1, 100, 16384])) if rng.random() < .5 else s.readline(rng.choice([1, 5, 300]))
            if not b:
                break
    elif how == 'part':
        s.read(rng.choice([0, 1, 10, 1000]))
        s.readline()


HOWS = ['all', 'none', 'content', 'lines', 'tiny', 'mixed', 'part']


def big(rng, ctx):
    """a record of megabytes read at once"""
    body = gen._fill(rng, rng.choice([1 << 20, 2500000, (1 << 20) - 1]) + rng.randrange(3))
    bad = rng.choice([None, None, 'block', 'payload'])
    heads = [('WARC-Type', 'resource'), ('WARC-Record-ID', '<urn:uuid:1>'), ('WARC-Date', '2020-01-01T00:00:00Z'), ('WARC-Target-URI', 'urn:a')]
    for name in ('block', 'payload'):
        heads.append(('WARC-%s-Digest' % name.capitalize(), refwarc.digest(body + b'x' if bad == name else body, rng.choice(ALGOS), rng.choice(ENCS))))
    m = refwarc.Rec('WARC/1.0', heads + [('Content-Length', str(len(body)))], body)
    data = m.head() + body + b'\r\n\r\n'
    for how in (-1, len(body), 1 << 21):
        for rec in ArchiveIterator(io.BytesIO(data), check_digests=True):
            n = 0
            while True:
                b = rec.raw_stream.read(how) if how >= 0 else rec.raw_stream.read()
                n += len(b)
                if not b:
                    break
            ctx.equal(n, len(body), 'record of %d bytes read by read(%d): bytes' % (len(body), how))
            ctx.equal(rec.digest_checker.passed, not bad, 'record of %d bytes read by read(%d), wrong digest: %s: verdict' % (len(body), how, bad))
            ctx.equal([kind(x) for x in rec.digest_checker.problems], [bad] if bad else [], 'record of %d bytes read at once: problems' % len(body))
    ctx.ev('one_big_read')
    ctx.nontrivial('big', len(body), str(bad), body[:1000])


def case(rng, ctx, idx):
    if idx % 2000 == 7:
        return big(rng, ctx)
    items = [make(rng, ctx, False) for _ in range(rng.choice([1, 1, 2, 3, 5]))]
    gz = rng.random() < .5
    trunc = False
    if not gz and rng.random() < .15 and len(items[-1].block) > 1 and not items[-1].flipped:
        trunc = True
    parts = [encode(it) for it in items]
    if trunc:
        it = items[-1]
        lo = len(it.m.http[2]) if it.m.http else 1
        if it.m.http and lo >= len(it.block):
            lo = 1
        if lo < len(it.block):
            keep = rng.randrange(lo, len(it.block)) if rng.random() < .7 else 0
            if not keep:
                ctx.ev('nothing_left')
            it.block = it.block[:keep]
            parts[-1] = encode(it, b'')
            if it.m.http and keep < len(it.m.http[2]) and (keep or not it.m.body):
                it.fail |= it.have & {'block'}
            else:
                it.fail |= it.have
            ctx.ev('truncated')
    data = b''.join(refwarc.gz(p, rng.choice([1, 6])) if gz else p for p in parts)
    mode = rng.choice([True, True, True, 'raise', 'log', False])
    raw = rng.random() < .15
    kw = {'check_digests': mode}
    if raw:
        kw['no_record_parse'] = True
    if rng.random() < .2:
        kw['block_size'] = rng.choice([512, 1000, 16385])
    src = Source(data, policies(rng)) if rng.random() < .15 and len(data) < 50000 else io.BytesIO(data)
    want = [verdict(it, raw) for it in items]
    firstfail = next((i for i, (p, f) in enumerate(want) if f), None)
    hows = []
    seen = 0
    raised = None
    pending = None
    with quiet() as err:
        def settle():
            """the previous record is fully read now"""
            if pending is None:
                return
            i, rec = pending
            judge(ctx, i, rec, items[i], want[i], mode, kw, hows[i])
        try:
            itr = ArchiveIterator(src, **kw)
            for rec in itr:
                settle()
                pending = None
                ctx.expect(seen < len(items), 'more records than the archive has')
                how = rng.choice(HOWS)
                hows.append(how)
                seen += 1
                consume(rng, rec, how)
                pending = (seen - 1, rec)
                if how in ('all', 'lines', 'tiny', 'mixed'):
                    settle()
                elif rng.random() < .3:
                    itr.get_record_length()
                    settle()
            settle()
        except ArchiveLoadFailed as e:
            raised = (len(hows), str(e))
    text = err.getvalue()
    where = '%s, read %s' % (kw, hows)
    if mode == 'raise' and firstfail is not None:
        ctx.expect(raised is not None, 'no error raised for record %d, whose %s digest is wrong (%s)'
                   % (firstfail, sorted(want[firstfail][1]), where), data=data, headers=items[firstfail].m.headers)
        # raised while record firstfail was loaded or read
        ctx.expect(raised[0] in (firstfail, firstfail + 1), 'error raised at record %d instead of %d (%s): %s'
                   % (raised[0], firstfail, where, raised[1]))
        ctx.expect(any(('%s digest' % f) in raised[1] for f in want[firstfail][1]), 'error does not name the digest: %s' % raised[1])
        ctx.ev('raised')
    else:
        ctx.expect(raised is None, 'error raised although %s: %s' % (
            'digests are only reported' if firstfail is not None else 'no digest is wrong', raised), data=data)
        ctx.equal(seen, len(items), 'records read (%s)' % where, data=data)
    if mode == 'log':
        lines = [x for x in text.split('\n') if 'digest' in x]
        ctx.equal(sorted(kind(x) for x in lines), sorted(f for _, fs in want for f in fs), 'failures logged (%s)' % where, log=text)
        ctx.ev('logged', len(lines))
    elif mode in (True, False):
        ctx.expect('digest' not in text, 'digest messages on stderr in a silent mode: %s' % text)
    if any(it.have for it in items):
        ctx.nontrivial(data[:60000], str(mode), hows)
        ctx.sample = {'mode': mode, 'read': hows, 'verdicts': [[str(p), sorted(f)] for p, f in want],
                      'digest_headers': [[h for h in it.m.headers if 'digest' in h[0].lower()] for it in items[:3]]}


def kind(text):
    return 'block' if 'block digest' in text else 'payload' if 'payload digest' in text else '?' + text


def judge(ctx, i, rec, it, want, mode, kw, how):
    passed, fail = want
    chk = rec.digest_checker
    where = 'record %d (%s, %s, read %s, digests %s%s)' % (i, it.m.rtype, kw, how, [
        h for h in it.m.headers if 'digest' in h[0].lower()], ', damaged' if it.flipped else '')
    if mode is False:
        ctx.equal(chk.passed, None, where + ': verdict although not asked to verify')
        return
    ctx.equal(chk.passed, passed, where + ': verdict')
    ctx.equal(sorted(kind(x) for x in chk.problems), sorted(fail), where + ': problems')
    ctx.ev('verdict_%s' % passed)
