"""C10 warcio check reports exactly the damaged archives"""
import os
import re

from wv import gen, refwarc
from wv.common import run_cli, run_cli_process, quiet
from wv.checks import c09, c32

PROP = 'C10'
QUICK, THOROUGH = 20000, 150000
RULE = ('case = a set of archive files, undamaged or damaged in a known way (digest values, block bits, compressed bytes, '
        'cut off, wrongly grouped, not an archive), given in random order to the check command; non-trivial = exit status and '
        'reported records were compared with what was damaged; distinct by file contents, order and verbosity')
NEED = {'exit_0': 500, 'exit_1': 500, 'records_reported': 1000, 'verbose_runs': 400, 'unreadable_inputs': 100,
        'compressed_damage': 100, 'compressed_beyond_one_read': 100, 'processes': 8, 'arc_files': 300, 'given_again': 300, 'many_inputs': 4}
CPU_LIMIT = 120


class File(object):
    pass


def make_file(rng, ctx, path):
    f = File()
    f.path = path
    f.unreadable = False
    f.exact = True
    k = rng.random()
    gz = rng.random() < .5
    f.arc = 0
    if rng.random() < .06:
        # an archive in the format before, which has no digests
        f.records = []
        parts = [refwarc.arc_record(gen.http_url(rng).replace(' ', ''), '1.2.3.4', '20200101000000', 'text/html', b'HTTP/1.0 200 OK\r\n\r\n' + gen.payload(rng)[:5000])
                 + b'\n' for _ in range(rng.choice([1, 2, 4]))]
        f.arc = len(parts)
        f.data = b''.join(refwarc.gz(p) if gz else p for p in parts)
        f.offsets = [sum(len(refwarc.gz(p) if gz else p) for p in parts[:i]) for i in range(len(parts))]
        with open(path, 'wb') as fh:
            fh.write(f.data)
        ctx.ev('arc_files')
        return f
    if k < .12:
        # not an archive, or wrongly grouped
        f.unreadable = True
        f.records = []
        kind = rng.randrange(3)
        if kind == 0:
            data = rng.choice([b'hello world\n', b'\x00' * 100, b'{"a": 1}\n', b'PK\x03\x04' + b'x' * 50, b'<html></html>\n' * 30])
            if rng.random() < .3:
                data = rng.choice([b'\n', b'\r\n\r\n']) + data
            if rng.random() < .3:
                data = refwarc.gz(data)
        elif kind == 1:
            items = [c09.make(rng, ctx, False) for _ in range(rng.choice([2, 3]))]
            for it in items:
                it.fail = set()
            data = refwarc.gz(b''.join(c09.encode(it) for it in items))
            f.exact = False
        else:
            items = [c09.make(rng, ctx, False) for _ in range(rng.choice([1, 2]))]
            data = b''.join(refwarc.gz(c09.encode(it)) for it in items) + rng.choice([b'junk\r\n\r\n', b'\x1f\x8b\x08junkjunk'])
            f.exact = False
        ctx.ev('unreadable_inputs')
    elif k < .2:
        # some compressed bytes damaged; every record has a good block digest
        recs = [gen.record(rng, rtype=rng.choice(['resource', 'metadata', 'response']),
                           block=gen.payload(rng) if rng.random() < .8 else gen.randbytes(rng, rng.choice([1000, 20000, 70000])),
                           url='urn:x:y', digests=gen.make_digests(rng, which='b')) for _ in range(rng.choice([1, 2, 3]))]
        members = [refwarc.gz(m.encode(), rng.choice([0, 1, 9])) for m in recs]
        ext, good = [], b''
        for m in members:
            ext.append((len(good), len(m)))
            good += m
        while True:
            data = c32.damage(rng, good, c32.place(rng, ctx, ext))
            # (of damage that looks like a cut off file nothing is claimed if the records are intact)
            what, _ = c32.judge(good, data)
            if what in ('damaged', 'same'):
                break
        same = what == 'same'
        ctx.ev('compressed_beyond_one_read', len(data) > 20000)
        f.unreadable = not same
        f.exact = False
        f.records = []
        ctx.ev('compressed_damage')
    else:
        if k < .25:
            items = []
        else:
            n = rng.choice([1, 2, 3, 5])
            if rng.random() < .002:
                n = rng.choice([130, 260, 520, 1030])
                ctx.ev('many_records')
            items = [c09.make(rng, ctx, False) for _ in range(n)]
            if rng.random() < .5:
                # an undamaged file
                items = [it for it in items if not it.fail and not it.flipped]
        parts = [c09.encode(it) for it in items]
        f.records = []
        pos = 0
        out = []
        for it, p in zip(items, parts):
            p = refwarc.gz(p) if gz else p
            f.records.append((pos, it))
            pos += len(p)
            out.append(p)
        data = b''.join(out)
        if items and not gz and rng.random() < .12 and len(items[-1].block) > 1 and (not items[-1].m.http or rng.random() < .3):
            it = items[-1]
            cut = rng.randrange(1, len(it.block)) if rng.random() < .7 else 0
            data = data[:len(data) - len(parts[-1])] + it.m.head() + it.block[:cut]
            it.fail |= it.have if it.m.body or not it.m.http else it.have & {'block'}
    f.data = data
    with open(path, 'wb') as fh:
        fh.write(data)
    return f


def parse_output(text, paths):
    """-> {path: {'records': {offset: (id, type, [messages])}, 'errors': [..]}} in order"""
    out = []
    cur = rec = None
    for line in text.split('\n'):
        if line in paths:
            cur = {'path': line, 'records': [], 'errors': []}
            out.append(cur)
            rec = None
            continue
        m = re.match(r'^\s+offset (-?\d+) WARC-Record-ID (.*) (\S+)$', line)
        if m and cur:
            rec = [int(m.group(1)), m.group(2), m.group(3), []]
            cur['records'].append(rec)
        elif 'ArchiveLoadFailed' in line and cur:
            cur['errors'].append(line.strip())
            rec = None
        elif rec is not None and line.strip():
            rec[3].append(line.strip())
    return out


def category(msgs):
    t = ' | '.join(msgs)
    if 'digest failed' in t or 'unknown hash' in t:
        return sorted({'block' if 'block digest' in m else 'payload' for m in msgs if 'failed' in m or 'unknown' in m})
    if 'digest pass' in t:
        return 'pass'
    if 'not checked' in t:
        return 'not checked'
    if 'no digest' in t:
        return 'none'
    return t


def case(rng, ctx, idx):
    files = []
    for i in range(rng.choice([1, 1, 2, 3, 4])):
        path = os.path.join(ctx.tmp, 'f%d%s' % (i, rng.choice(['.warc', '.warc.gz', '.x', '.arc', '.arc.gz', '.ARC.GZ', '', '.warc.open', ' x.warc', '.warc.gz.warc', '-arc.warc', '.zst', '.json'])))
        if not any(f.path == path for f in files):
            files.append(make_file(rng, ctx, path))
    verbose = rng.random() < .4
    paths = [f.path for f in files]
    if rng.random() < .1:
        # given more than once
        paths += [rng.choice(paths) for _ in range(rng.choice([1, 2]))]
        rng.shuffle(paths)
        ctx.ev('given_again')
    elif idx % 1000 == 5:
        paths *= rng.choice([64, 128, 255, 256, 257])
        ctx.ev('many_inputs')
    args = ['check'] + paths
    if verbose:
        args.insert(rng.choice([1, len(args)]), rng.choice(['-v', '--verbose']))
        ctx.ev('verbose_runs')
    if idx % 400 == 0:
        code, out, _ = run_cli_process(args)
        ctx.ev('processes')
    else:
        code, out = run_cli(args)
    where = '%s of %s' % (' '.join(a for a in args if a.startswith('-')) or 'check', [
        ('unreadable' if f.unreadable else [sorted(c09.verdict(it, False)[1]) for _, it in f.records]) for f in files])
    bad = False
    for f in files:
        if f.unreadable or any(c09.verdict(it, False)[0] is False for _, it in f.records):
            bad = True
    ctx.equal(code, 1 if bad else 0, 'exit status (%s)' % where, output=out.decode('utf-8', 'replace')[-3000:],
              data=files[0].data[:3000])
    ctx.ev('exit_%d' % code)
    got = parse_output(out.decode('utf-8', 'replace'), [f.path for f in files])
    for f in files:
        mine = [g for g in got if g['path'] == f.path]
        recs = [r for g in mine for r in g['records']]
        errs = [e for g in mine for e in g['errors']]
        if f.unreadable:
            ctx.expect(mine and (errs or recs), 'damaged file not named in the output (%s)' % where, output=out.decode('utf-8', 'replace'))
        elif f.exact:
            ctx.equal(errs, [], 'load errors reported of a readable file (%s)' % where)
        if not f.exact:
            continue
        want = []
        for off, it in f.records:
            passed, fail = c09.verdict(it, False)
            present = bool(it.have)
            cat = sorted(fail) if passed is False else ('pass' if passed else 'not checked' if present else 'none')
            if passed is False or verbose:
                want.append((off, it.m.get('WARC-Record-ID'), it.m.rtype, cat))
        if f.arc and verbose:
            want = [(o, 'None', 'None', 'none') for o in f.offsets]
        want *= paths.count(f.path)
        ctx.equal([(o, i, t, category(m)) for o, i, t, m in recs], want, 'records reported (%s)' % where,
                  output=out.decode('utf-8', 'replace')[-3000:])
        ctx.ev('records_reported', len(want))
    for f in files:
        os.unlink(f.path)
    ctx.nontrivial([f.data[:20000] for f in files], verbose)
    ctx.sample = {'args': args, 'exit': code, 'output': out.decode('utf-8', 'replace')[:1500]}
