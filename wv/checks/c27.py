"""C27 file names, URLs, open files and standard streams are equivalent"""
import http.server
import io
import json
import logging
import os
import re
import shutil
import subprocess
import sys
import threading
import urllib.parse
import zipfile

import fsspec
from fsspec.implementations.memory import MemoryFileSystem
from fsspec.spec import AbstractFileSystem

from wv import arc, core, gen, refwarc
from wv.common import OutCapture, PipeRaw, Source, captured_stdout, patched_stdin, run_cli_process
from wv.core import Inconclusive, Violation

from warcio.archiveiterator import ArchiveIterator
from warcio.checker import Checker
from warcio.cli import main as cli_main
from warcio.extractor import Extractor
from warcio.indexer import Indexer
from warcio.recompressor import Recompressor
from warcio.utils import fsspec_open, open_or_default

PROP = 'C27'
QUICK, THOROUGH = 4500, 120000
CPU_LIMIT = 120
RULE = ('case = one command (index, check, extract, recompress) or the opening function itself, on a generated archive (also damaged '
        'ones, missing ones and ones whose reading fails midway), given as a path and as one other form (relative or odd path, URL of '
        'a local, memory, zip, HTTP, S3 or monitored file system, open file of many kinds, standard input) and with other forms of '
        'output; results compared, every file opened watched; non-trivial = two results compared; distinct by form and archive')
NEED = {'index': 500, 'check': 300, 'extract': 300, 'recompress': 300, 'in_path': 40, 'in_odd_path': 60, 'in_relative': 30, 'in_file_url': 60,
        'in_memory': 60, 'in_monitored': 100, 'in_zip': 60, 'in_http': 30, 'in_open': 250, 'in_stdin': 80, 'out_path': 150, 'out_existing': 100,
        'out_url': 200, 'failing_reads': 30, 'missing': 40, 'given_stay_open': 120, 'monitored_closed': 200, 'open_function': 150,
        'errors_compared': 60, 'no_fsspec_runs': 10, 'processes': 2}


# ------------------------------------------------------------------ a file system that watches
class MonFile(io.RawIOBase):
    """what fsspec gives is used only for reading, seeking or writing and being closed"""
    def __init__(self, fs, path, mode, data=b''):
        super().__init__()
        self.fs, self.path, self.mode_ = fs, path, mode
        self.b = io.BytesIO(data)
        self.nreads = 0
        self.was_closed = 0

    def readable(self):
        return 'r' in self.mode_

    def writable(self):
        return 'w' in self.mode_

    def seekable(self):
        return 'r' in self.mode_

    def tell(self):
        return self.b.tell()

    def seek(self, off, whence=0):
        if 'r' not in self.mode_:
            raise OSError('not seekable')
        return self.b.seek(off, whence)

    def readinto(self, buf):
        d = self.read(len(buf))
        buf[:len(d)] = d
        return len(d)

    def read(self, n=-1):
        self.nreads += 1
        c = self.fs.control
        if c.get('fail_at') and self.nreads >= c['fail_at'] and (not c.get('once') or not c.get('failed')):
            c['failed'] = True
            raise OSError(5, 'injected error')
        if n is None or n < 0:
            return self.b.read()
        m = c.get('short')
        return self.b.read(min(n, m(n)) if m and n > 1 else n)

    def write(self, data):
        if self.closed:
            raise ValueError('write to a closed file')
        return self.b.write(data)

    def close(self):
        if not self.closed:
            self.was_closed += 1
            if 'w' in self.mode_:
                self.fs.store[self.path] = self.b.getvalue()
        super().close()


class MonFS(AbstractFileSystem):
    protocol = 'wvmon'
    cachable = False
    store = {}
    files = []
    control = {}

    @classmethod
    def _strip_protocol(cls, path):
        return path[len('wvmon://'):] if path.startswith('wvmon://') else path

    def _open(self, path, mode='rb', **kw):
        if 'r' in mode and path not in self.store:
            raise FileNotFoundError(path)
        f = MonFile(self, path, mode, self.store.get(path, b'') if 'r' in mode else b'')
        self.files.append(f)
        return f

    def open(self, path, mode='rb', **kw):
        f = self._open(self._strip_protocol(path), mode.replace('t', 'b'))
        return io.TextIOWrapper(io.BufferedWriter(f), encoding='utf-8') if 't' in mode else f

    def info(self, path, **kw):
        return {'name': path, 'size': len(self.store[path]), 'type': 'file'}

    @classmethod
    def reset(cls, **control):
        cls.control = control
        MonFS.control = control
        MonFS.files[:] = []


class Handler(http.server.BaseHTTPRequestHandler):
    protocol_version = 'HTTP/1.1'

    def do_HEAD(self, body=False):
        data = self.server.files.get(urllib.parse.unquote(self.path))
        if data is None:
            self.send_response(404)
            self.send_header('Content-Length', '0')
            self.end_headers()
            return
        m = re.match(r'bytes=(\d+)-(\d*)$', self.headers.get('Range', ''))
        total = len(data)
        if m and body:
            a, b = int(m.group(1)), int(m.group(2)) + 1 if m.group(2) else total
            self.send_response(206)
            self.send_header('Content-Range', 'bytes %d-%d/%d' % (a, min(b, total) - 1, total))
            data = data[a:b]
        else:
            self.send_response(200)
        self.send_header('Accept-Ranges', 'bytes')
        self.send_header('Content-Length', str(len(data)))
        self.end_headers()
        if body:
            self.wfile.write(data)

    def do_GET(self):
        self.do_HEAD(True)

    def log_message(self, *a):
        pass


def setup(ctx):
    fsspec.register_implementation('wvmon', MonFS, clobber=True)
    s = http.server.ThreadingHTTPServer(('127.0.0.1', 0), Handler)
    s.daemon_threads = True
    s.files = {}
    threading.Thread(target=s.serve_forever, daemon=True).start()
    ctx.state['http'] = s
    ctx.state['cwd'] = os.getcwd()
    ctx.state['n'] = 0


def teardown(ctx):
    ctx.state['http'].shutdown()
    if 's3' in ctx.state:
        ctx.state['s3'].stop()


def s3(ctx):
    """a bucket served on the loopback; started when first needed"""
    if 's3' not in ctx.state:
        os.environ.update(AWS_ACCESS_KEY_ID='testing', AWS_SECRET_ACCESS_KEY='testing', AWS_DEFAULT_REGION='us-east-1')
        logging.getLogger('werkzeug').setLevel(logging.ERROR)
        from moto.server import ThreadedMotoServer
        server = ThreadedMotoServer(ip_address='127.0.0.1', port=0, verbose=False)
        server.start()
        host, port = server.get_host_and_port()
        fsspec.config.conf['s3'] = {'endpoint_url': 'http://127.0.0.1:%d' % port, 'key': 'testing', 'secret': 'testing'}
        fsspec.filesystem('s3').mkdir('bucket')
        ctx.state['s3'] = server
    return fsspec.filesystem('s3')


ODD = ['a b.warc', 'caf\u00e9.warc.gz', '-', '-x.warc', 'a#b?c.warc', '100%25.warc', "it's.warc.gz", 'x.warc.', '~tilde.warc', 'memory', 'http:x.warc', '\u65e5\u672c.warc', 'file:', 'a&b=c.warc', 'a\\b', 'weird[1].warc', 'star*.warc', 'back`tick', '$HOME.warc', '{x}.warc']


class Form(object):
    """one way to give an archive"""
    def __init__(self, rng, ctx, data, kind, base='a.warc.gz', damaged=False):
        ctx.state['n'] += 1
        self.kind = kind
        self.ctx = ctx
        self.given = None
        self.clean = []
        self.base = base
        d = os.path.join(ctx.tmp, 'f%d' % ctx.state['n'])
        os.mkdir(d)
        self.dir = d
        path = os.path.join(d, base)
        if kind == 'odd_path':
            self.base = base = rng.choice(ODD)
            path = os.path.join(d, base)
        if kind in ('path', 'odd_path', 'relative', 'file_url', 'open', 'stdin'):
            if data is not None:
                with open(path, 'wb') as f:
                    f.write(data)
        self.path = path
        if kind in ('path', 'odd_path'):
            self.name = path
        elif kind == 'relative':
            os.chdir(d)
            self.name = rng.choice([base, './' + base, '../' + os.path.basename(d) + '/' + base])
        elif kind == 'file_url':
            self.name = rng.choice(['file://', 'local://']) + path
        elif kind == 'memory':
            self.name = 'memory://d%d/%s' % (ctx.state['n'], base)
            if data is not None:
                fsspec.filesystem('memory').pipe('/d%d/%s' % (ctx.state['n'], base), data)
        elif kind == 'monitored':
            self.name = 'wvmon://d%d/%s' % (ctx.state['n'], base)
            if data is not None:
                MonFS.store['d%d/%s' % (ctx.state['n'], base)] = data
        elif kind == 'zip':
            z = os.path.join(d, 'z.zip')
            with zipfile.ZipFile(z, 'w', rng.choice([zipfile.ZIP_STORED, zipfile.ZIP_DEFLATED])) as zf:
                if data is not None:
                    zf.writestr(base, data)
                zf.writestr('other', b'x')
            self.name = 'zip://%s::%s' % (base, z)
        elif kind == 'http':
            self.name = 'http://127.0.0.1:%d/d%d/%s' % (ctx.state['http'].server_port, ctx.state['n'], base)
            if data is not None:
                ctx.state['http'].files['/d%d/%s' % (ctx.state['n'], base)] = data
        elif kind == 's3':
            fs = s3(ctx)
            self.name = 's3://bucket/d%d/%s' % (ctx.state['n'], base)
            if data is not None:
                fs.pipe('bucket/d%d/%s' % (ctx.state['n'], base), data)
        elif kind == 'open':
            k = rng.randrange(5)
            self.name = self.given = (io.BytesIO(data) if k == 0 else open(path, 'rb') if k == 1 else open(path, 'rb', buffering=0) if k == 2
                                      else Source(data, None if damaged else lambda n: max(1, n // 3)) if k == 3 else io.BufferedReader(Source2(data)))
        elif kind == 'stdin':
            self.name = '-'

    def drop(self):
        os.chdir(self.ctx.state['cwd'])
        if self.given is not None:
            self.given.close()
        shutil.rmtree(self.dir)
        if self.kind == 'memory':
            MemoryFileSystem.store.pop(self.name[len('memory:/'):], None)
        self.ctx.state['http'].files.clear()
        MonFS.store.clear()


class Source2(Source):
    def readinto(self, buf):
        d = self.read(len(buf))
        buf[:len(d)] = d
        return len(d)


def regular_fds():
    out = []
    for n in os.listdir('/proc/self/fd'):
        try:
            t = os.readlink('/proc/self/fd/' + n)
        except OSError:
            continue
        if t.startswith('/') and not t.startswith(('/dev/', '/proc/')):
            out.append((n, t))
    return out


class Result(object):
    def __init__(self, code, out, err):
        self.code, self.out, self.err = code, out, err


def run(call, stdin=None):
    """-> Result: exit code or type of error, output"""
    code = 0
    with captured_stdout() as out:
        try:
            if stdin is not None:
                with patched_stdin(stdin):
                    call()
            else:
                call()
        except SystemExit as e:
            code = e.code if e.code is not None else 0
        except (Violation, Inconclusive):
            raise
        except Exception as e:
            code = type(e).__name__
    return Result(code, out.raw.getvalue(), out.err)


UUID = re.compile(rb'urn:uuid:[0-9a-f-]{36}')


def plain_members(data):
    """content of an output of recompress, ids made by it put aside"""
    try:
        return [UUID.sub(b'urn:uuid:ID', d) for _, _, d in refwarc.gzip_members(data)]
    except (refwarc.Bad, ValueError) as e:
        return ('not gzip', str(e), data)


def archive(rng):
    gz = rng.random() < .5
    if rng.random() < .25:
        items = arc.archive(rng)
        data, ext = arc.encode(rng, items, gz)
    else:
        items = gen.archive(rng, n=rng.choice([1, 1, 2, 3, 5]), big=rng.random() < .05)
        data, ext = gen.encode(rng, items, gz)
    offs = [e[0] for e in ext]
    k = rng.random()
    damaged = False
    if k < .12:
        data, damaged = gen.mutate(rng, data), True
        data = data if isinstance(data, bytes) else data[0]
    elif k < .16:
        data, damaged = data[:rng.randrange(len(data))], True
    elif k < .18:
        data, damaged = b'', True
    return data, offs, damaged


def watch(ctx, form, before, where, given=None):
    now = regular_fds()
    mine = [f for f in now if f not in before]
    ctx.expect(not mine, where + ': file left open: %s' % mine)
    for f in MonFS.files:
        ctx.expect(f.closed, where + ': file %s opened by name is not closed' % f.path)
        ctx.ev('monitored_closed')
    if given is not None:
        closed = given.closed_ if type(given) is Source else given.closed
        ctx.expect(not closed, where + ': file given by the caller was closed')
        given.seek(0)
        given.read(1)
        ctx.ev('given_stay_open')


class Cmd(object):
    pass


def invoke(rng, ctx, cmd, opts, name, out=None, api=None):
    """the command line, or the class behind it"""
    if api is None:
        api = not isinstance(name, str)
    if cmd == 'index':
        names = opts['before'] + [name] + opts['after']
        if api:
            return lambda: Indexer(opts['fields'], names, out).process_all()
        args = ['index', '-f', ','.join(opts['fields'])]
        if out is not None:
            args += ['-o', out]
        if names == ['-'] and opts['implicit']:
            names = []
        return lambda: cli_main(args + ['--'] + names if names else args)
    if cmd == 'check':
        if api:
            c = Cmd()
            c.inputs, c.verbose = [name], opts['verbose']
            return lambda: sys.exit(Checker(c).process_all())
        return lambda: cli_main(['check'] + (['-v'] if opts['verbose'] else []) + ['--', name])
    if cmd == 'extract':
        if api:
            return lambda: Extractor(name, opts['offset']).extract(opts['what'] == '--payload', opts['what'] == '--headers')
        return lambda: cli_main(['extract'] + ([opts['what']] if opts['what'] else []) + ['--', name, str(opts['offset'])])
    if api:
        return lambda: Recompressor(name, out, opts['verbose']).recompress()
    return lambda: cli_main(['recompress'] + (['-v'] if opts['verbose'] else []) + ['--', name, out])


def read_back(name):
    if name.startswith(('memory://', 's3://')):
        with fsspec.open(name, 'rb') as f:
            return f.read()
    if name.startswith('wvmon://'):
        return MonFS.store[name[len('wvmon://'):]]
    if '://' in name:
        name = name.split('://', 1)[1]
    with open(name, 'rb') as f:
        return f.read()


def exists(name):
    try:
        read_back(name)
        return True
    except (OSError, KeyError):
        return False


def output(rng, ctx, tmp, content=None):
    """-> name of an output, content: what is there before"""
    k = rng.choice(['path', 'existing', 'url', 'memory', 'monitored', 's3'] if 's3' in ctx.state else ['path', 'existing', 'url', 'memory', 'monitored'])
    n = ctx.state['n'] = ctx.state['n'] + 1
    base = 'out%d.warc.gz' % n
    ctx.ev('out_' + (k if k in ('path', 'existing') else 'url'))
    path = os.path.join(tmp, base)
    if k == 'existing':
        with open(path, 'wb') as f:
            f.write(b'something longer that was there before ' * 2000)
    if k in ('path', 'existing'):
        return path
    if k == 'memory' and rng.random() < .5:
        fsspec.filesystem('memory').pipe('/o%d/%s' % (n, base), b'before ' * 10000)
    if k == 'monitored':
        MonFS.store['o%d/%s' % (n, base)] = b'before ' * 10000
    return {'url': 'file://' + path, 'memory': 'memory://o%d/%s' % (n, base), 'monitored': 'wvmon://o%d/%s' % (n, base), 's3': 's3://bucket/o%d/%s' % (n, base)}[k]


def case(rng, ctx, idx):
    MonFS.reset()
    k = rng.random()
    if k < .08:
        return open_function(rng, ctx)
    if idx % 150 == 3:
        return no_fsspec(rng, ctx)
    if idx % 400 == 5:
        return process(rng, ctx)
    cmd = rng.choice(['index', 'check', 'extract', 'recompress'])
    ctx.ev(cmd)
    data, offs, damaged = archive(rng)
    kinds = ['path', 'odd_path', 'odd_path', 'relative', 'file_url', 'file_url', 'memory', 'memory', 'monitored', 'monitored', 'monitored', 'zip', 'open', 'open', 'open']
    if idx % 9 == 0:
        kinds = ['http']
    if idx % 600 == 11 or 's3' in ctx.state and idx % 10 == 1:
        kinds = ['s3']
        s3(ctx)
    if cmd == 'index' and rng.random() < .25:
        kinds = ['stdin']
    kind = rng.choice(kinds)
    if kind == 'http' and cmd == 'extract' and not data:
        kind = 'path'       # fsspec does not seek in an empty file of an HTTP server
    missing = rng.random() < .07 and kind not in ('open', 'stdin', 'odd_path')
    ref = Form(rng, ctx, None if missing else data, 'path')
    form = Form(rng, ctx, None if missing else data, kind, damaged=damaged)
    extra = []
    try:
        opts = {'verbose': rng.random() < .5, 'before': [], 'after': [], 'implicit': rng.random() < .5, 'what': rng.choice([None, None, '--payload', '--headers']),
                'offset': rng.choice(offs) if rng.random() < .95 else rng.choice([0, 1, len(data)])}
        if cmd == 'index':
            fields = ['offset', 'length', 'filename', 'warc-type', 'warc-target-uri', 'http:status', 'http:content-type', 'warc-date']
            rng.shuffle(fields)
            opts['fields'] = fields[:rng.randrange(1, 7)]
            if kind in ('zip', 'open', 'stdin', 'odd_path', 'relative'):
                opts['fields'] = [f for f in opts['fields'] if f != 'filename'] or ['offset']
            if rng.random() < .3:
                for where in ('before', 'after'):
                    if rng.random() < .6:
                        d, _, bad = archive(rng)
                        # what is seen of a damaged file depends on how it is delivered
                        o = Form(rng, ctx, d, rng.choice(['path', 'file_url', 'memory'] + ([] if bad else ['monitored'])))
                        extra.append(o)
                        opts[where] = [o.name]
        where = '%s of %s (%s)' % (cmd, kind, form.name if isinstance(form.name, str) else type(form.name).__name__)
        control = {}
        if kind == 'monitored':
            if rng.random() < .5 and not damaged:       # what is seen of a damaged file depends on how it is delivered
                m = rng.choice([1, 2, 100, 5000])
                control['short'] = lambda n: m
            if rng.random() < .35 and not missing:
                control['fail_at'] = rng.choice([1, 2, 3, 5, 10])
                control['once'] = rng.random() < .4
        refout = None
        want_out = got_out = None
        if cmd == 'recompress':
            refout = os.path.join(ref.dir, 'ref.out')
        r = run(invoke(rng, ctx, cmd, opts, ref.name, refout), None)
        if refout:
            want_out = plain_members(read_back(refout)) if exists(refout) else None
        MonFS.reset(**control)
        before = regular_fds()
        out = None
        to_file = cmd == 'recompress' or cmd == 'index' and rng.random() < .5
        if to_file:
            out = output(rng, ctx, form.dir)
        given_out = None
        g = run(invoke(rng, ctx, cmd, opts, form.name, out), data if kind == 'stdin' else None)
        watch(ctx, form, before, where, form.given)
        ctx.ev('in_' + kind)
        text = g.out
        if to_file and exists(out):
            got_out = read_back(out)
        if cmd == 'index' and to_file:
            ctx.equal(text, b'', where + ' to a file: standard output')
            text = got_out
        failed = control.get('failed') or MonFS.control.get('failed')
        if failed:
            ctx.ev('failing_reads')
            if cmd == 'recompress' and control.get('once') and g.code == 0:
                # read again from the start
                ctx.equal(plain_members(got_out), want_out, where + ': output after one failed read')
            else:
                ctx.expect(g.code not in (0, None), where + ': exit status %r although reading failed' % g.code, output=text)
                if cmd != 'recompress':
                    ctx.expect(norm(r.out, ref).startswith(norm(text or b'', form)) or r.code != 0, where + ': output before reading failed', got=text, want=r.out)
        elif missing:
            ctx.ev('missing')
            ctx.equal(g.code, r.code, where + ': missing')
            ctx.expect(g.code not in (0, None), where + ': missing file accepted')
        else:
            ctx.equal(g.code, r.code, where + ': exit status', output=text, want_output=r.out)
            if r.code not in (0, None):
                ctx.ev('errors_compared')
            if cmd == 'recompress':
                ctx.equal(plain_members(got_out) if got_out is not None else None, want_out, where + ' to %s' % out)
                a, b = norm(text, form, out), norm(r.out, ref, refout)
                ctx.equal(without_ids(a), without_ids(b), where + ' to %s: what is printed' % out)
            elif cmd == 'index' and to_file and r.code not in (0, None):
                ctx.equal(norm(text or b'', form), norm(r.out, ref), where + ' to %s' % out)
            else:
                ctx.equal(norm(text or b'', form), norm(r.out, ref), where)
        ctx.ev('results_compared')
        ctx.nontrivial(kind, cmd, data, opts['offset'])
        ctx.sample = {'command': cmd, 'form': where, 'output': str(out), 'exit': g.code, 'printed': repr(text)[:300]}
    finally:
        for f in [ref, form] + extra:
            f.drop()


def without_ids(text):
    # new ids (of converted ARC records) compress differently, so offsets differ
    text = re.sub(rb'"offset": "\d+"', b'"offset": N', text)
    return re.sub(rb'<urn:uuid:[0-9a-f-]{36}>', b'ID', text)


def norm(text, form, out=None):
    """output without the names given"""
    if out is not None:
        text = text.replace(out.encode('utf-8'), b'OUT')
    name = form.name if isinstance(form.name, str) else str(form.name)
    if name != '-':
        text = text.replace(name.encode('utf-8'), b'NAME')
    return text


# ------------------------------------------------------------------ opening itself
def open_function(rng, ctx):
    fn = rng.choice([fsspec_open, open_or_default])
    data = gen.randbytes(rng, rng.choice([0, 1, 100, 20000]))
    ctx.ev('open_function')
    default = io.BytesIO(b'default')
    k = rng.randrange(5)
    MonFS.reset()

    class Stop(Exception):
        pass
    fail = rng.random() < .4
    before = regular_fds()
    where = '%s: ' % fn.__name__
    if k == 0:
        name = rng.choice(['-', b'-', None, ''])
        with fn(name, rng.choice(['rb', 'wb', 'wt']), default) as f:
            ctx.expect(f is default, where + 'of %r does not give the default' % (name,))
        ctx.expect(not default.closed, where + 'of %r closes the default' % (name,))
    elif k == 1:
        given = io.BytesIO(data)
        try:
            with fn(given, 'rb', default) as f:
                ctx.expect(f is given, where + 'of an open file gives another')
                if fail:
                    raise Stop()
        except Stop:
            fail = False
        ctx.expect(not fail, where + 'error lost')
        ctx.expect(not given.closed, where + 'file given was closed')
        given.close()
    else:
        form = Form(rng, ctx, data, rng.choice(['path', 'odd_path', 'file_url', 'memory', 'monitored', 'zip']))
        try:
            hold = None
            try:
                if k == 2 or form.kind == 'zip':
                    with fn(form.name, 'rb', default) as f:
                        hold = f
                        ctx.equal(f.read(), data, where + 'content of ' + form.name)
                        if fail:
                            raise Stop()
                elif k == 3:
                    new = gen.randbytes(rng, 50)
                    with fn(form.name, 'wb', default) as f:
                        hold = f
                        f.write(new)
                        if fail:
                            raise Stop()
                    ctx.equal(read_back(form.name), new, where + 'what was written to ' + form.name)
                else:
                    with fn(form.name, 'wt', default) as f:
                        hold = f
                        f.write('a\nline\n')
                        if fail:
                            raise Stop()
                    ctx.equal(read_back(form.name), b'a\nline\n', where + 'text written to ' + form.name)
            except Stop:
                fail = False
            ctx.expect(not fail, where + 'error lost')
            ctx.expect(hold.closed or form.kind == 'memory', where + '%s is not closed' % form.name)
            watch(ctx, form, before, where + form.name)
        finally:
            form.drop()
    ctx.nontrivial('open', k, data)
    ctx.sample = {'open': k}


# ------------------------------------------------------------------ without fsspec, in processes of their own
CHILD = r'''
import sys, json, io
sys.dont_write_bytecode = True
if sys.argv[1] == 'no':
    sys.modules['fsspec'] = None
from warcio.cli import main
from warcio import utils
class Out(io.TextIOWrapper):
    pass
res = []
for args, stdin in json.loads(sys.stdin.read()):
    raw = io.BytesIO()
    old = sys.stdout, sys.stdin, sys.stderr
    sys.stdout = io.TextIOWrapper(raw, encoding='utf-8', write_through=True, newline='')
    sys.stderr = io.StringIO()
    if stdin:
        sys.stdin = open(stdin, 'rb' if False else 'r')
    code = 0
    try:
        main(args)
    except SystemExit as e:
        code = e.code or 0
    except Exception as e:
        code = type(e).__name__
    sys.stdout.flush()
    keep, keepout = sys.stdin, sys.stdout
    sys.stdout, sys.stdin, sys.stderr = old
    if stdin:
        keep.close()
    res.append((code, raw.getvalue().hex()))
print(json.dumps(res))
'''


def no_fsspec(rng, ctx):
    tmp = os.path.join(ctx.tmp, 'nofs')
    os.mkdir(tmp)
    try:
        jobs = []
        for i in range(12):
            data, offs, _ = archive(rng)
            p = os.path.join(tmp, rng.choice(['a%d.warc', 'b %d.warc', 'caf\u00e9%d']) % i)
            with open(p, 'wb') as f:
                f.write(data)
            jobs.append(rng.choice([
                (['index', p], None), (['index', '-o', p + '.out', '-f', 'offset,length,http:status,filename', p], None), (['index', '-'], p), (['index'], p),
                (['check', '-v', p], None), (['extract', p, str(rng.choice(offs))], None), (['extract', '--payload', p, str(rng.choice(offs))], None),
                (['recompress', p, p + '.out'], None), (['recompress', '-v', p, p + '.out'], None), (['check', p + 'missing'], None)]))
        results = []
        for how in ('no', 'with'):
            env = dict(os.environ, PYTHONPATH=core.REPO)
            pr = subprocess.run([sys.executable, '-B', '-c', CHILD, how], input=json.dumps(jobs).encode(), capture_output=True, env=env, timeout=120, cwd=tmp)
            if pr.returncode:
                raise Violation('commands without fsspec fail: ' + pr.stderr.decode()[-1500:])
            files = {}
            for n in os.listdir(tmp):
                if n.endswith('.out'):
                    with open(os.path.join(tmp, n), 'rb') as f:
                        d = f.read()
                    files[n] = plain_members(d) if d[:2] == b'\x1f\x8b' else d
                    os.unlink(os.path.join(tmp, n))
            results.append((json.loads(pr.stdout), files))
        (a, fa), (b, fb) = results
        for (args, stdin), x, y in zip(jobs, a, b):
            fix = without_ids if 'recompress' in args else lambda t: t
            ctx.equal((x[0], fix(bytes.fromhex(x[1]))), (y[0], fix(bytes.fromhex(y[1]))), 'without fsspec and with: warcio ' + ' '.join(args))
            ctx.ev('no_fsspec_runs')
        ctx.equal(fa, fb, 'outputs without fsspec and with')
        ctx.nontrivial('nofs', jobs)
        ctx.sample = {'without fsspec': [j[0] for j in jobs]}
    finally:
        shutil.rmtree(tmp)


def process(rng, ctx):
    """real standard streams: a file, a pipe"""
    data, offs, damaged = archive(rng)
    form = Form(rng, ctx, data, 'path', base='-' if rng.random() < .1 else 'a.warc.gz')
    try:
        ref = run_cli_process(['index', form.path])
        piped = run_cli_process(['index'] + rng.choice([[], ['-']]), data)
        env = dict(os.environ, PYTHONPATH=core.REPO)
        with open(form.path, 'rb') as f:
            p = subprocess.run([sys.executable, '-B', '-c', 'from warcio.cli import main; main()', 'index'], stdin=f, capture_output=True, env=env, timeout=60)
        ctx.equal(piped[:2], ref[:2], 'index of a pipe')
        ctx.equal((p.returncode, p.stdout), ref[:2], 'index of redirected standard input')
        # to a file, and to standard output redirected to a file
        o1, o2 = os.path.join(form.dir, 'o1'), os.path.join(form.dir, 'o2')
        run_cli_process(['index', '-o', o1, form.path])
        with open(o2, 'wb') as f:
            subprocess.run([sys.executable, '-B', '-c', 'from warcio.cli import main; main()', 'index', '-o', '-', form.path], stdout=f, env=env,
                           stderr=subprocess.DEVNULL, timeout=60)
        with open(o1, 'rb') as f1, open(o2, 'rb') as f2:
            ctx.equal(f1.read(), f2.read(), 'index to a named file and to standard output')
        ctx.ev('processes')
        ctx.nontrivial('process', data)
    finally:
        form.drop()
