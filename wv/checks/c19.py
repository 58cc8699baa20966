"""C19 the index describes every record exactly"""
import io
import json
import os

from wv import arc, gen, refwarc
from wv.checks import c17
from wv.common import run_cli, run_cli_process, captured_stdout, patched_stdin, model_headers
from warcio.indexer import Indexer

PROP = 'C19'
QUICK, THOROUGH = 9000, 240000
CPU_LIMIT = 120
RULE = ('case = one to four archives of independently encoded WARC or ARC records, indexed by the command or the class with a '
        'random list of fields, to a file or to standard output, from files or standard input; every line is parsed and '
        'compared with what is known of the record; non-trivial = at least one line compared; distinct by inputs and fields')
NEED = {'lines': 15000, 'to_file': 2000, 'to_stdout': 2000, 'from_stdin': 500, 'http_status': 1000, 'http_header': 1000,
        'absent_fields': 3000, 'several_inputs': 2000, 'arc_inputs': 1000, 'processes': 15, 'other_encodings': 10, 'default_fields': 500, 'offsets': 5000,
        'values_with_empty': 100}


class Some(object):
    """a value that is only known to be there"""
    def __eq__(self, other):
        return isinstance(other, str) and bool(other)


class In(object):
    pass


def make(rng, ctx, i):
    f = In()
    f.name = rng.choice(['a%d.warc', 'b%d.warc.gz', 'c d%d.warc', 'caf\u00e9%d.warc.gz', 'x%d', 'q?x=%d#f&g', '%d %%20+.warc',
                         '-%d.warc', '%d .gz', '*%d.warc.gz', '%d.arc']) % i
    gz = rng.random() < .5
    if rng.random() < .2:
        f.items = arc.archive(rng)
        f.data, f.ext = arc.encode(rng, f.items, gz)
        ctx.ev('arc_inputs')
    else:
        f.items = gen.archive(rng, n=rng.choice([0, 1, 1, 2, 3, 5]), big=rng.random() < .02) if rng.random() < .997 else gen.many(rng, ctx)
        f.data, f.ext = gen.encode(rng, f.items, gz, seps=rng.random() < .3)
    return f


def http_value(hdrs, name):
    for n, v in hdrs:
        if n.lower() == name.lower():
            return v
    return None


def want(ctx, field, m, ext, basename):
    if field == 'offset':
        ctx.ev('offsets')
        return str(ext[0])
    if field == 'length':
        return str(ext[1])
    if field == 'filename':
        return basename
    is_arc = isinstance(m, arc.Arc)
    if field == 'http:status':
        if not m.http or not is_arc and m.rtype == 'request':
            return None
        ctx.ev('http_status')
        return m.http[0].partition(' ')[2].strip().split(' ')[0]
    if field.startswith('http:'):
        v = http_value(m.http[1], field[5:]) if m.http else None
        if v is not None:
            ctx.ev('http_header')
        return v
    f = field.lower()
    if is_arc:
        return {'warc-type': 'warcinfo' if m.is_header else 'response', 'warc-ip-address': m.ip, 'warc-date': c17.iso(m.date),
                'content-length': str(m.total), 'warc-target-uri': None if m.is_header else c17.want_uri(m),
                'warc-record-id': Some(), 'content-type': Some(),
                'warc-filename': m.url[len('filedesc://'):] if m.is_header else None,
                }.get(f)
    return http_value(model_headers(m), field)


def pick_fields(rng, files):
    pool = ['offset', 'length', 'filename', 'http:status', 'warc-type', 'warc-target-uri', 'WARC-Target-URI', 'WARC-Date', 'WARC-IP-Address',
            'Content-Length', 'content-length', 'WARC-Filename', 'no-such-field', 'http:no-such', 'http:Content-Type', 'http:server', 'http:SET-COOKIE',
            'mime', 'http:host', 'WARC-Payload-Digest', 'http:location']
    for f in files:
        for m in f.items:
            if m.http:
                pool += ['http:' + n for n, _ in m.http[1] if ',' not in n][:3]
            if isinstance(m, refwarc.Rec):
                pool += [gen.recase(rng, n) for n, _ in m.headers if ',' not in n and not n.lower().startswith('http:')][:8]
    pool += ['warc-record-id', 'content-type']
    fields = [rng.choice(pool) for _ in range(rng.choice([1, 2, 3, 3, 5, 9]))]
    if rng.random() < .5:
        # without any http field, the http headers are not parsed
        fields = [f for f in fields if not f.startswith('http:')] or ['offset']
    else:
        fields += ['http:status'] if rng.random() < .5 else []
    if rng.random() < .4:
        fields.insert(0, 'offset')
    if rng.random() < .3:
        fields.insert(rng.randrange(len(fields) + 1), 'length')
    return fields


def case(rng, ctx, idx):
    files = [make(rng, ctx, i) for i in range(rng.choice([1, 1, 1, 2, 3, 4]))]
    if rng.random() < .1:
        # the same file twice
        files.append(files[0])
    if len(files) > 1:
        ctx.ev('several_inputs')
    fields = pick_fields(rng, files)
    default = rng.random() < .1
    given = fields
    if default:
        given = ['offset', 'warc-type', 'warc-target-uri']
        ctx.ev('default_fields')
    folder = os.path.join(ctx.tmp, rng.choice(['d', 'e f']))
    os.makedirs(folder, exist_ok=True)
    for f in files:
        f.path = os.path.join(folder, f.name)
        with open(f.path, 'wb') as fh:
            fh.write(f.data)
    out = os.path.join(ctx.tmp, 'out.idx') if rng.random() < .5 else None
    stdin = None
    names = [f.path for f in files]
    if len(files) == 1 and rng.random() < .3:
        stdin = files[0].data
        names = rng.choice([[], ['-']])
        ctx.ev('from_stdin')
    api = rng.random() < .3 and not default
    where = 'fields %s, %d inputs, to %s%s' % (given, len(files), 'file' if out else 'stdout', ', stdin' if stdin is not None else '')
    if out and rng.random() < .5:
        with open(out, 'w') as fh:
            fh.write('x' * 20000)
    if api:
        with captured_stdout() as cap:
            ix = Indexer(given if rng.random() < .5 else ','.join(given), names or ['-'], out)
            if stdin is not None:
                with patched_stdin(stdin):
                    ix.process_all()
            else:
                ix.process_all()
        result = cap.raw.getvalue()
    else:
        args = ['index'] + names
        if not default:
            args += [rng.choice(['-f', '--fields']), ','.join(fields)]
        if out:
            args[1:1] = [rng.choice(['-o', '--output']), out]
        if idx % 200 == 3:
            # what the terminal or the locale can show does not matter
            env = rng.choice([{}, {'PYTHONIOENCODING': 'ascii'}, {'PYTHONIOENCODING': 'utf-16'} if out else {'PYTHONIOENCODING': 'latin-1'},
                              {'LC_ALL': 'C', 'PYTHONUTF8': '0', 'PYTHONCOERCECLOCALE': '0'}])
            if not ''.join(args).isascii():
                env.pop('LC_ALL', None)
            code, result, err = run_cli_process(args, stdin, extra_env=env)
            ctx.expect(code == 0, where + ': exit status with %s' % env, error=err)
            if env:
                ctx.ev('other_encodings')
            ctx.ev('processes')
        elif stdin is not None:
            with patched_stdin(stdin):
                code, result = run_cli(args)
        else:
            code, result = run_cli(args)
        ctx.equal(code, 0, where + ': exit status')
    if out:
        ctx.equal(result, b'', where + ': written to stdout')
        with open(out, 'rb') as fh:
            result = fh.read()
        os.unlink(out)
        ctx.ev('to_file')
    else:
        ctx.ev('to_stdout')
    text = result.decode('utf-8')
    ctx.expect(text == '' or text.endswith('\n'), where + ': last line not ended')
    lines = text.split('\n')[:-1]
    recs = [(m, e, f) for f in files for m, e in zip(f.items, f.ext)]
    ctx.equal(len(lines), len(recs), where + ': lines', output=text, data=files[0].data)
    for i, (line, (m, e, f)) in enumerate(zip(lines, recs)):
        try:
            got = json.loads(line, object_pairs_hook=list)
        except ValueError:
            ctx.expect(False, '%s: line %d is not JSON' % (where, i), line=line)
        expected = []
        for field in given:
            v = want(ctx, field, m, e, os.path.basename(f.path) if stdin is None else '-')
            if v is None:
                ctx.ev('absent_fields')
                continue
            if v == '':
                ctx.ev('values_with_empty')
            if field not in [n for n, _ in expected]:
                expected.append((field, v))
        ctx.equal([tuple(p) for p in got], expected, '%s: line %d' % (where, i), line=line, headers=getattr(m, 'headers', None))
        ctx.ev('lines')
    for f in set(f.path for f in files):
        os.unlink(f)
    ctx.nontrivial([f.data[:20000] for f in files], given, bool(out))
    ctx.sample = {'fields': given, 'lines': lines[:3], 'inputs': len(files)}
