"""C18 recompressing preserves every record"""
import os
import re

from wv import arc, core, gen, refwarc
from wv.checks import c17, c32
from wv.common import run_cli, run_cli_process, model_headers

PROP = 'C18'
QUICK, THOROUGH = 8000, 160000
CPU_LIMIT = 120
RULE = ('case = one archive of independently encoded WARC and/or ARC records, plain or compressed in some grouping (per record, '
        'one member, several records per member, members ending inside records, empty members), or something that is no '
        'readable archive, given to the recompress command; the output is parsed strictly and compared with the model; '
        'non-trivial = an output was compared or a refusal checked; distinct by input and verbosity')
NEED = {'per_record': 500, 'one_member': 300, 'grouped': 300, 'cut': 300, 'plain': 500, 'arc': 500, 'mixed': 150, 'refused': 400, 'damaged': 100,
        'verbose': 500, 'records_compared': 8000, 'processes': 3, 'overwritten': 300, 'empty_members': 200, 'cut_off': 100, 'many_empty_members': 5}


def source(rng, ctx, items):
    """-> (bytes, per record?, description)"""
    parts = [m.encode() if isinstance(m, refwarc.Rec) else m.encode() + rng.choice([b'\n', b'\n', b'\n\n']) for m in items]
    k = rng.random()
    lv = lambda: rng.choice([0, 1, 6, 9])
    if k < .2:
        ctx.ev('plain')
        return b''.join(parts), True, 'plain'
    if k < .4:
        ctx.ev('per_record')
        return b''.join(refwarc.gz(p, lv()) for p in parts), True, 'per record'
    if k < .55:
        groups, how = [b''.join(parts)], 'one_member'
    elif k < .8 or len(parts) < 2:
        how = 'grouped'
        groups, i = [], 0
        while i < len(parts):
            n = rng.choice([1, 1, 2, 3])
            groups.append(b''.join(parts[i:i + n]))
            i += n
    else:
        how = 'cut'
        whole = b''.join(parts)
        cuts = sorted(rng.randrange(1, len(whole)) for _ in range(rng.choice([1, 1, 2, 5])))
        groups = [whole[a:b] for a, b in zip([0] + cuts, cuts + [len(whole)])]
    ctx.ev(how)
    if rng.random() < .25:
        ctx.ev('empty_members')
        if rng.random() < .06:
            # many in a row
            i = rng.randrange(len(groups) + 1)
            groups[i:i] = [b''] * rng.choice([1200, 5000])
            ctx.ev('many_empty_members')
        for _ in range(rng.choice([1, 2])):
            groups.insert(rng.randrange(len(groups) + 1), b'')
        how += ', empty members'
    return b''.join(refwarc.gz(g, lv()) for g in groups), len(parts) == len([g for g in groups if g]) and how.startswith('grouped') or len(parts) == 1 and 'cut' not in how, how


IGNORE = ('content-length', 'warc-block-digest', 'warc-payload-digest')


def compare(ctx, got, m, where):
    """strictly parsed record of the output against the model"""
    if isinstance(m, arc.Arc):
        c17.check_written(ctx, got, m, where)
    else:
        ctx.equal(got.version, m.version, where + ': version')
        ctx.equal([h for h in got.headers if h[0].lower() not in IGNORE], [h for h in model_headers(m) if h[0].lower() not in IGNORE],
                  where + ': record headers')
        ctx.equal(got.block, m.block, where + ': block')
        for name in IGNORE[1:]:
            have = [v for n, v in got.headers if n.lower() == name]
            had = m.get(name)
            if had:
                ctx.equal(have, [had], where + ': ' + name)
            elif name == 'warc-block-digest':
                ctx.equal(have, [refwarc.digest(m.block)], where + ': ' + name)
            elif m.rtype in ('warcinfo', 'revisit'):
                ctx.equal(have, [], where + ': ' + name)
            else:
                ctx.equal(have, [refwarc.digest(m.body)], where + ': ' + name)
    ctx.ev('records_compared')


def run(rng, ctx, idx, args):
    if idx % 500 == 7:
        ctx.ev('processes')
        code, out, err = run_cli_process(args)
        return code, out.decode('utf-8', 'replace')
    code, out = run_cli(args)
    return code, out.decode('utf-8', 'replace')


def refusal(rng, ctx, idx):
    src = os.path.join(ctx.tmp, 'in')
    dst = os.path.join(ctx.tmp, 'out.warc.gz')
    good = b''.join(m.encode() for m in gen.archive(rng, n=rng.choice([1, 2])))
    kind = rng.choice(['missing', 'blank line, text', 'damaged', 'damaged', 'damaged', 'damaged', 'text', 'text', 'gz text', 'json', 'junk after', 'gz junk after', 'binary', 'directory', 'no such output directory', 'cut gzip header'])
    data = {'text': b'hello world\n' * 20, 'gz text': refwarc.gz(b'hello\nworld\n'), 'blank line, text': b'\r\n' + b'hello world\n' * 20, 'json': b'{"a": 1}\n', 'junk after': good + b'junk\r\n\r\n',
            'gz junk after': refwarc.gz(good) + b'junk\r\n', 'binary': b'PK\x03\x04' + gen.randbytes(rng, 300).replace(b' ', b'_'),
            'no such output directory': good, 'cut gzip header': refwarc.gz(good) + b'\x1f\x8b\x08junk' * 3}.get(kind)
    if kind == 'damaged':
        items = gen.archive(rng, n=rng.choice([1, 2, 4])) if rng.random() < .6 else arc.archive(rng, n=rng.choice([1, 2, 4]))
        whole, ext = (arc if isinstance(items[0], arc.Arc) else gen).encode(rng, items, True)
        while c32.judge(whole, data or whole)[0] != 'damaged':
            data = c32.damage(rng, whole, c32.place(rng, ctx, ext))
        ctx.ev('damaged')
    if kind == 'directory':
        src = ctx.tmp
    elif data is not None:
        with open(src, 'wb') as fh:
            fh.write(data)
    if kind == 'no such output directory':
        dst = os.path.join(src, 'x', 'out.warc.gz')
    if kind == 'missing':
        src = os.path.join(ctx.tmp, 'nothing-here')
    args = ['recompress', src, dst] + (['-v'] if rng.random() < .3 else [])
    code, out = run(rng, ctx, idx, args)
    ctx.expect(code not in (0, None), '%s: exit status %r' % (kind, code), output=out)
    ctx.expect('Recompress Failed' in out and src in out, '%s: failure not reported' % kind, output=out)
    ctx.expect('No Errors Found' not in out and 'recompressed to file' not in out, '%s: success reported' % kind, output=out)
    for f in (src, dst):
        if os.path.isfile(f):
            os.unlink(f)
    ctx.ev('refused')
    ctx.nontrivial(kind, data)
    ctx.sample = {'input': kind, 'exit': code, 'output': out[-500:]}


def cut_off(rng, ctx, idx):
    """an archive that ends inside the block of its last record: refused, or what precedes is kept"""
    for _ in range(50):
        items = gen.archive(rng, n=rng.choice([1, 2, 4]))
        if len(items[-1].block) > 1:
            break
    last = items[-1]
    n = rng.choice([1, 2, len(last.block) - 1, rng.randrange(1, len(last.block))])
    if last.http:
        # inside the http headers is another matter: they may not be readable
        n = min(n, len(last.body))
    parts = [m.encode() for m in items[:-1]] + [last.head() + last.block[:len(last.block) - n]]
    gzipped = rng.random() < .5
    data = b''.join(refwarc.gz(p) for p in parts) if gzipped else b''.join(parts)
    src = os.path.join(ctx.tmp, 'in.warc')
    dst = os.path.join(ctx.tmp, 'out.warc.gz')
    with open(src, 'wb') as fh:
        fh.write(data)
    code, out = run(rng, ctx, idx, ['recompress', src, dst])
    where = 'last of %d records lacks %d of %d bytes' % (len(items), n, len(last.block))
    ctx.ev('cut_off')
    ctx.nontrivial('cut off', data)
    ctx.sample = {'how': where, 'output': out[:300], 'exit': code}
    if code:
        ctx.expect('Recompress Failed' in out and src in out and 'No Errors Found' not in out, where + ': failure not reported', output=out)
        ctx.ev('cut_off_refused')
    else:
        with open(dst, 'rb') as fh:
            members = [m for _, _, m in refwarc.gzip_members(fh.read())]
        ctx.equal(len(members), len(items), where + ': records in the output', output=out)
        for i, (m, got) in enumerate(zip(items[:-1], members)):
            compare(ctx, refwarc.parse_record(got, 0)[0], m, '%s: record %d' % (where, i))
        head, _, block = members[-1].partition(b'\r\n\r\n')
        ctx.equal(block, last.block[:len(last.block) - n] + b'\r\n\r\n', where + ': block written of it')
        length = int(re.search(br'(?mi)^content-length: *(\d+)', head).group(1))
        if length == len(last.block):
            # known finding: its full length is stated of the part
            raise core.Violation(where + ': written with a Content-Length of %d' % length, key='cut-off-record')
        ctx.equal(length, len(last.block) - n, where + ': length written of it')
    for f in (src, dst):
        if os.path.isfile(f):
            os.unlink(f)


def case(rng, ctx, idx):
    if rng.random() < .03:
        return cut_off(rng, ctx, idx)
    try:
        return work(rng, ctx, idx)
    except core.Violation as e:
        # known finding: a gzip member that ends inside a record, and what follows looks like a record line
        if ctx.state.get('how') == 'cut':
            src, dst = ctx.state['paths']
            if 'Parsing Error(s) Found' not in run_cli(['recompress', '-v', src, dst])[1].decode('utf-8', 'replace'):
                e.key = 'member-ends-inside-record'
                ctx.ev('known_cut')
        raise


def work(rng, ctx, idx):
    ctx.state['how'] = None
    if rng.random() < .12:
        return refusal(rng, ctx, idx)
    k = rng.random()
    big = rng.random() < .02
    if k < .6:
        items = gen.archive(rng, big=big) if rng.random() < .995 else gen.many(rng, ctx)
        for i, m in enumerate(items):
            if rng.random() < .4:
                items[i] = gen.record(rng, digests=gen.make_digests(rng))
    elif k < .88:
        items = arc.archive(rng, big=big)
        ctx.ev('arc')
    else:
        items = arc.archive(rng) + gen.archive(rng)
        rng.shuffle(items)
        ctx.ev('mixed')
    data, ok, how = source(rng, ctx, items)
    src = os.path.join(ctx.tmp, rng.choice(['in.warc', 'in.warc.gz', 'in.arc.gz', 'in.arc', 'in.txt', 'x']))
    dst = os.path.join(ctx.tmp, rng.choice(['out.warc.gz', 'out', 'out.arc.gz', 'out.warc', 'out.gz', 'in.out.arc']))
    with open(src, 'wb') as fh:
        fh.write(data)
    if rng.random() < .3:
        with open(dst, 'wb') as fh:
            fh.write(b'x' * rng.choice([10, len(data) * 3]))
        ctx.ev('overwritten')
    verbose = rng.random() < .3
    args = ['recompress', src, dst]
    if verbose:
        args.insert(rng.choice([1, 3]), rng.choice(['-v', '--verbose']))
        ctx.ev('verbose')
    code, out = run(rng, ctx, idx, args)
    where = '%s, %d records' % (how, len(items))
    ctx.state['how'] = how.split(',')[0]
    ctx.state['paths'] = src, dst
    ctx.equal(code, 0, where + ': exit status', output=out[-2000:], data=data)
    with open(dst, 'rb') as fh:
        result = fh.read()
    with open(src, 'rb') as fh:
        ctx.expect(fh.read() == data, where + ': input was changed')
    try:
        parsed = refwarc.parse_warc(result, True)
    except refwarc.Bad as e:
        ctx.expect(False, '%s: output malformed: %s' % (where, e), data=data, result=result, output=out)
    ctx.equal(len(parsed), len(items), where + ': records in the output', data=data, output=out)
    for i, ((got, _, _), m) in enumerate(zip(parsed, items)):
        compare(ctx, got, m, '%s: record %d' % (where, i))
    m = re.findall(r'^(\d+) records read and recompressed to file: (.*)$', out, re.M)
    ctx.equal(m, [(str(len(items)), dst)], where + ': count reported', output=out)
    if ok and 'empty' not in how:
        ctx.expect('No Errors Found!' in out and 'Found and Fixed' not in out, where + ': errors reported of a good archive', output=out)
    elif how.startswith(('one_member', 'grouped')) and not ok:
        ctx.expect('Compression Errors Found and Fixed!' in out, where + ': errors not reported', output=out)
    if verbose:
        ctx.equal(len(re.findall(r'^\{"offset": ', out, re.M)), len(items), where + ': records listed', output=out)
    os.unlink(src)
    os.unlink(dst)
    ctx.nontrivial(data[:100000], verbose)
    ctx.sample = {'how': how, 'records': [m.brief() for m in items[:3]], 'output': out[:300]}
