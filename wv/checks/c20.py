"""C20 extracting a record outputs exactly that record"""
import os

from wv import arc, gen, refwarc
from wv.common import run_cli, run_cli_process, model_headers

PROP = 'C20'
QUICK, THOROUGH = 8000, 240000
CPU_LIMIT = 120
RULE = ('case = one archive of independently encoded WARC (some with coded HTTP bodies) or ARC records, plain or compressed; the '
        'extract command is run at the offset of one to three records with each option, and its output compared byte by byte; '
        'non-trivial = at least one output compared; distinct by archive, records and options')
NEED = {'whole': 2500, 'payload': 2500, 'headers': 2500, 'gzip': 2000, 'plain': 2000, 'coded': 800, 'arc': 500, 'large': 100,
        'processes': 8, 'later_record': 1500, 'empty_output': 50, 'far_offsets': 150}


def head(m):
    """record headers as they have to be written"""
    return (m.version + '\r\n' + ''.join('%s: %s\r\n' % h for h in model_headers(m)) + '\r\n').encode('utf-8')


def http_head(m):
    if not m.http:
        return b''
    first, hdrs, _ = m.http
    proto, _, status = first.partition(' ')
    first = (proto + ' ' + status.strip()).strip()
    return gen.encode_http_head(first, hdrs)


def want(m, mode, content):
    if mode == 'payload':
        return content
    out = head(m) + http_head(m)
    return out if mode == 'headers' else out + m.body


def case(rng, ctx, idx):
    items = []
    is_arc = rng.random() < .12
    if is_arc:
        ctx.ev('arc')
        items = [(m, m.body) for m in arc.archive(rng)]
        data, ext = None, None
    else:
        for _ in range(rng.choice([1, 1, 2, 3, 5])):
            if rng.random() < .4:
                content = gen.payload(rng, big=rng.random() < .05) if rng.random() < .95 else gen._fill(rng, rng.choice([65536, 131072, 65535, 131073, 300000]))
                m, content, desc = gen.coded_record(rng, content, rtype=rng.choice(['response', 'response', 'response', 'request']))
                if m.body and desc[0] != 'unknown' and len(m.body) < 2:
                    content = None
                if any(desc) and desc[0] != 'unknown':
                    ctx.ev('coded')
            else:
                m = gen.record(rng) if rng.random() < .95 else gen.record(rng, rtype='resource', block=gen._fill(rng, rng.choice([65536, 131072, 65535, 131073, 300000])))
                content = m.body
                if m.http and any(n.lower() in ('content-encoding', 'transfer-encoding') for n, _ in m.http[1]):
                    continue
            if m.http and rng.random() < .1:
                # the head written differently in the archive
                first, hdrs, old = m.http
                new = gen.encode_http_head(first, hdrs, eol=b'\n')
                m.block = new + m.block[len(old):]
                m.http = (first, hdrs, new)
                m.headers = [(n, str(len(m.block)) if n.lower() == 'content-length' else v) for n, v in m.headers]
            items.append((m, content))
    if not items:
        return
    gz = rng.random() < .5
    recs = [m for m, _ in items]
    if is_arc:
        data, ext = arc.encode(rng, recs, gz)
    else:
        data, ext = gen.encode(rng, recs, gz, seps=rng.random() < .4)
    path = os.path.join(ctx.tmp, rng.choice(['a.warc', 'a b.warc.gz', 'caf\u00e9']))
    base = 0
    with open(path, 'wb') as fh:
        if rng.random() < .05:
            # far into a file of many gigabytes (sparse)
            base = rng.choice([1 << 31, (1 << 32) + 5, 5 << 30, (1 << 33) + 1]) - rng.choice([0, 1, ext[0][0] + 1])
            fh.seek(base)
            ctx.ev('far_offsets')
        fh.write(data)
    picked = rng.sample(range(len(items)), min(len(items), rng.choice([1, 1, 2, 3])))
    modes = []
    for k in picked:
        m, content = items[k]
        if k:
            ctx.ev('later_record')
        for mode in rng.sample(['whole', 'payload', 'headers'], rng.choice([1, 2, 3])):
            args = ['extract', path, str(base + ext[k][0])]
            if mode != 'whole':
                args.insert(rng.choice([1, 3]), '--' + mode)
            if idx % 300 == 5:
                code, out, err = run_cli_process(args)
                ctx.ev('processes')
            else:
                code, out = run_cli(args)
            where = 'record %d of %d (%s, %s), %s' % (k, len(items), 'gzip' if gz else 'plain', 'arc' if is_arc else m.rtype, mode)
            ctx.equal(code, 0, where + ': exit status')
            if is_arc:
                check_arc(ctx, out, m, mode, where)
            elif mode != 'payload' or content is not None:
                expected = want(m, mode, content)
                if out != expected:
                    i = next((i for i, (a, b) in enumerate(zip(out, expected)) if a != b), min(len(out), len(expected)))
                    ctx.expect(False, '%s: output differs at byte %d of %d (expected %d): %r instead of %r'
                               % (where, i, len(out), len(expected), out[max(0, i - 30):i + 50], expected[max(0, i - 30):i + 50]),
                               output=out, expected=expected)
                ctx.ev('assertions')
            if len(out) > 65536:
                ctx.ev('large')
            if not out:
                ctx.ev('empty_output')
            ctx.ev(mode)
            ctx.ev('gzip' if gz else 'plain')
            modes.append((k, mode))
    os.unlink(path)
    ctx.nontrivial(data[:100000], modes)
    ctx.sample = {'gzip': gz, 'records': [m.brief() for m in recs[:3]], 'extracted': modes}


def check_arc(ctx, out, m, mode, where):
    if mode == 'payload':
        ctx.equal(out, m.body, where)
        return
    tail = http_head(m) + (b'' if mode == 'headers' else m.body)
    ctx.expect(out.endswith(tail), where + ': http headers and body', output=out, expected=tail)
    lines = out[:len(out) - len(tail)].decode('utf-8').split('\r\n')
    ctx.equal(lines[-2:], ['', ''], where + ': end of the record headers')
    values = [l.partition(': ')[2] for l in lines[:-2] if ': ' in l]
    ctx.equal(values, [m.url, m.ip, m.date, m.ctype, str(m.total)], where + ': record headers')
