"""C22 capturing is invisible to the client and confined to its scope"""
import gzip
import io
import os
import random
import socket
import sys
import threading

from wv import capturing, gen, refwarc
from wv.capturing import Plan, Clients, capture_http, check_pair, clean, httplib, parse
from wv.core import Inconclusive, Violation
from wv.httpserver import Server
from warcio.recordbuilder import RecordBuilder
from warcio.statusandheaders import StatusAndHeaders
from warcio.warcwriter import WARCWriter, BufferWARCWriter

PROP = 'C22'
QUICK, THOROUGH = 2600, 70000
RULE = ('case = either the same prepared exchanges (good ones, and every kind of bad response, misuse and early close) run by a client '
        'outside and inside a capture, results and errors compared; or a random program of nested captures, exceptions, threads, '
        'kept-alive connections, filters and file outputs, after which each archive is parsed and compared with what its scope '
        'contained; non-trivial = a comparison was made; distinct by exchanges or program')
NEED = {'results_compared': 3000, 'errors_compared': 800, 'misuse': 300, 'programs': 800, 'pairs_compared': 1500, 'nested': 200,
        'exceptions': 150, 'other_threads': 200, 'outside': 300, 'old_connections': 150, 'kept_after': 150, 'filter_calls': 400,
        'filtered_out': 150, 'substituted': 80, 'appended': 100, 'exclusive_refused': 60, 'files_closed': 300, 'early_close': 150,
        'faulty_exchanges_captured': 600, 'unfinished': 150, 'live': 200, 'live_recorded': 70, 'exchange_around': 80, 'bodies_compared': 60}


def setup(ctx):
    ctx.state['server'] = Server()
    s = socket.socket()
    s.bind(('127.0.0.1', 0))
    ctx.state['dead_port'] = s.getsockname()[1]         # bound but not listening: connections are refused
    ctx.state['dead'] = s


def teardown(ctx):
    ctx.state['server'].close()
    ctx.state['dead'].close()


def case(rng, ctx, idx):
    if rng.random() < .5:
        return differential(rng, ctx)
    return program(rng, ctx)


# ------------------------------------------------------------------ the same, outside and inside
FAULTS = ['cut_length', 'cut_chunked', 'bad_chunk', 'garbage', 'nothing', 'reset', 'long_line', 'many_headers', 'bad_version', 'cut_head',
          'bad_gzip', 'bad_length', 'continue', 'http09', 'nul', 'only_status', 'stall', 'cut_zero']


def break_plan(rng, p, fault):
    """make the response of a plan faulty"""
    head, body = p.head_raw, p.raw_body
    close = True
    if fault == 'cut_length':
        body = gen.randbytes(rng, 50)
        head = b'HTTP/1.1 200 OK\r\nContent-Length: %d\r\n\r\n' % rng.choice([51, 100, 100000])
    elif fault in ('cut_chunked', 'cut_zero'):
        head = b'HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n'
        full = refwarc.chunk(gen.randbytes(rng, 300), [100])
        body = full[:-rng.choice([1, 2, 3, 4, 5])] if fault == 'cut_zero' else full[:rng.randrange(len(full))]
    elif fault == 'bad_chunk':
        head = b'HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n'
        body = rng.choice([b'zz\r\nabc\r\n0\r\n\r\n', b'3\r\nabc\r\nxyz\r\n', b'-1\r\n\r\n', b'\r\n\r\n', b'ffffffffff\r\nabc'])
    elif fault == 'garbage':
        head, body = rng.choice([b'hello\r\n\r\n', b'\x00\xff\xfe\r\n\r\n', b'HTTP/1.1 abc OK\r\n\r\n', b'HTTP/1.1 99999 OK\r\n\r\n', b'HTTP/1.1\r\n\r\n', b'\r\n\r\n']), b''
    elif fault == 'nothing':
        head = body = b''
    elif fault == 'reset':
        head, body = rng.choice([(b'', b''), (head, body[:10])])
    elif fault == 'long_line':
        head = rng.choice([b'HTTP/1.1 200 OK\r\nX: %s\r\nContent-Length: 0\r\n\r\n', b'HTTP/1.1 200 %s\r\nContent-Length: 0\r\n\r\n']) % (b'x' * 70000)
        body = b''
    elif fault == 'many_headers':
        head = b'HTTP/1.1 200 OK\r\n' + b''.join(b'X-%d: y\r\n' % i for i in range(120)) + b'Content-Length: 0\r\n\r\n'
        body = b''
    elif fault == 'bad_version':
        head, body = rng.choice([b'HTTP/9.9 200 OK\r\nContent-Length: 3\r\n\r\n', b'HTTP/2 200 OK\r\nContent-Length: 3\r\n\r\n']), b'abc'
    elif fault == 'cut_head':
        head, body = head[:rng.randrange(1, len(head) - 1)], b''
    elif fault == 'bad_gzip':
        head, body = b'HTTP/1.1 200 OK\r\nContent-Encoding: gzip\r\nContent-Length: 30\r\n\r\n', b'\x1f\x8b' + b'x' * 28
    elif fault == 'bad_length':
        head, body = b'HTTP/1.1 200 OK\r\nContent-Length: %s\r\n\r\n' % rng.choice([b'-5', b'abc', b'5, 5', b'']), b'hello'
    elif fault == 'continue':
        head, close = b'HTTP/1.1 100 Continue\r\n\r\n' + head, p.close
    elif fault == 'http09':
        head, body = b'<html>no head</html>', b'\n'
    elif fault == 'nul':
        head, body = b'HTTP/1.1 200 O\0K\r\nX\0: \0y\r\nbad line\r\n\r\n', b'abc'
    elif fault == 'only_status':
        head, body = b'HTTP/1.1 200 OK\r\n\r\n', b''
    elif fault == 'stall':
        p.server.plan(p.token, [head[:20], .15, head[20:] + body], True)
        return
    p.server.plan(p.token, [x for x in (head, body) if x], close, reset=fault == 'reset')


class Slow(Clients):
    pass


def run_one(rng_seed, server, spec, ctx, keep=None):
    """one client doing what spec says, from fresh connections -> list of results; plans made anew"""
    out = []
    plans = []
    clients = Clients(random.Random(rng_seed), server)
    old = socket.getdefaulttimeout()
    try:
        for kind, seed, reuse in spec:
            r = random.Random(seed)
            p = Plan(r, server)
            plans.append((kind, p))
            if kind == 'good':
                out.append(clients.run(p, reuse))
            elif kind == 'misuse':
                server.plan(p.token, p.parts, True)     # a response that may not fit the request ends with the connection
                out.append(misuse(r, p, ctx))
            elif kind == 'early':
                server.plan(p.token, p.parts, True)
                out.append(early(r, p, clients))
            elif kind == 'live':
                ctx.ev('live')
                out.append(live(r, p, clients))
            else:
                break_plan(r, p, kind)
                out.append(clients.run(p, reuse))
            if kind != 'good' or p.close:
                # whether a client sees in time that a kept connection is being closed by the server is a race
                clients.close()
    finally:
        clients.close()
        socket.setdefaulttimeout(old)
    return out, plans


def misuse(r, p, ctx):
    """wrong or rare uses of http.client"""
    k = r.randrange(12)
    port = ctx.state['dead_port'] if k == 0 else p.server.port
    c = httplib.HTTPConnection('127.0.0.1', port, timeout=10)
    res = []
    try:
        if k == 0:
            c.request('GET', p.path)
        elif k == 1:
            c.request('GET', p.path + ' x')
        elif k == 2:
            c.getresponse()
        elif k == 3:
            c.request('POST', p.path, 'text \u65e5')
        elif k == 4:
            c.request('POST', p.path, io.StringIO('caf\u00e9 text'))
            res.append(c.getresponse().read())
        elif k == 5:
            c.putrequest('POST', p.path)
            c.putheader('Content-Length', '5')
            c.endheaders()
            c.send(io.StringIO('caf\u00e9x'))
            res.append(c.getresponse().read())
        elif k == 6:
            c.putrequest('POST', p.path)
            c.endheaders()
            c.send(r.choice([5, None, 'text', [1, 2]]))
        elif k == 7:
            c.request('GET', p.path)
            x = c.getresponse()
            res += [x.status, x.version, x.isclosed(), isinstance(x.fileno(), int) if not x.isclosed() else None, x.getheader('content-type'), x.readable(), x.closed]
            res.append(x.read())
            x.flush()
            x.close()
            res += [x.isclosed(), x.closed]
            x.close()
            res.append(x.fileno())
        elif k == 8:
            c.request('GET', p.path)
            with c.getresponse() as x:
                res.append(x.read(3))
            res.append(x.read(5) if r.random() < .5 else x.readinto(bytearray(5)))
        elif k == 9:
            c.putrequest('GET', p.path)
            c.putrequest('GET', p.path)
        elif k == 10:
            c.request('POST', p.path, iter(['text', 'parts']), {'Transfer-Encoding': 'chunked'}, encode_chunked=True)
        else:
            c.request('POST', p.path, memoryview(b'abc'))
            res.append(c.getresponse().read())
        res.append('fine')
    except Exception as e:
        # the words of an error about an argument of a wrong type are not promised
        res += ['error', type(e).__name__, clean(str(e), p) if k != 6 else None]
    finally:
        c.close()
    return tuple(res)


def early(r, p, clients):
    """a client that gives up before the end of the response"""
    try:
        if r.random() < .5:
            c = httplib.HTTPConnection('127.0.0.1', p.server.port, timeout=10)
            c.request('GET', p.path)
            x = c.getresponse()
            d = x.read(r.choice([0, 1, 10]))
            if r.random() < .5:
                x.close()
            c.close()
            return (x.status, d)
        s = clients.session(p, False)
        x = s.get('http://127.0.0.1:%d%s' % (p.server.port, p.path), stream=True, timeout=10, allow_redirects=False)
        d = x.raw.read(5, decode_content=False)
        x.close()
        return (x.status_code, d)
    except Exception as e:
        return ('error', type(e).__name__, clean(str(e), p))


def live(r, p, clients):
    """a server that waits for the client to have seen the first part, before it sends the rest"""
    go = threading.Event()
    first = r.choice([b'abc', b'a line\n', b'x' * 100, b'one\ntwo\nthr'])
    second = r.choice([b'def', b'\nmore\nlines\n', b'y' * 5000])
    framing = r.choice(['length', 'chunked', 'close'])
    if framing == 'chunked':
        head = b'HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n'
        one, two = b'%x\r\n%s\r\n' % (len(first), first), b'%x\r\n%s\r\n0\r\n\r\n' % (len(second), second)
    else:
        head = b'HTTP/1.1 200 OK\r\n' + (b'Content-Length: %d\r\n\r\n' % len(first + second) if framing == 'length' else b'Connection: close\r\n\r\n')
        one, two = first, second
    p.server.plan(p.token, [head + one, lambda: go.wait(20), two], True)
    k = r.randrange(8)
    out = [framing, k]
    c = None
    try:
        if k < 6:
            c = httplib.HTTPConnection('127.0.0.1', p.server.port, timeout=2)
            c.request('GET', p.path)
            x = c.getresponse()
            if k == 0:
                out.append(x.read1(1000))
            elif k == 1:
                out += [bool(x.peek(5)), x.read1(2), x.read1(1)]
            elif k == 2:
                out.append(x.read(len(first)))
            elif k == 3:
                b = bytearray(len(first) - 1)
                out += [x.readinto(b), bytes(b)]
            elif k == 4:
                out.append(x.readline(len(first)))
            else:
                out += [x.read1(1), x.read1()]
            go.set()
            out.append(x.read())
        elif k == 6:
            s = clients.session(p, False)
            x = s.get('http://127.0.0.1:%d%s' % (p.server.port, p.path), stream=True, timeout=2)
            it = x.iter_content(len(first))
            out.append(next(it))
            go.set()
            out.append(b''.join(it))
        else:
            s = clients.session(p, False)
            x = s.get('http://127.0.0.1:%d%s' % (p.server.port, p.path), stream=True, timeout=2)
            out.append(x.raw.read(2))
            go.set()
            out.append(x.raw.read())
    except Exception as e:
        out += ['error', type(e).__name__, clean(str(e), p)]
    finally:
        go.set()
        if c:
            c.close()
        clients.close()
    return tuple(out)


def steady(spec, server, ctx, outside, inside):
    """a difference which does not come again, twice, was one of timing"""
    for _ in range(2):
        a, plans0 = run_one(1, server, spec, ctx)
        with capture_http() as w:
            b, plans = run_one(1, server, spec, ctx)
        w.out.close()
        server.forget({p.token for _, p in plans + plans0})
        if a == b:
            return True
    return False


def differential(rng, ctx):
    server = ctx.state['server']
    spec = []
    for _ in range(rng.choice([1, 2, 3, 4])):
        k = rng.random()
        kind = 'good' if k < .3 else 'misuse' if k < .45 else 'early' if k < .55 else 'live' if k < .63 else rng.choice(FAULTS)
        spec.append((kind, rng.getrandbits(48), rng.random() < .6))
    outside, plans0 = run_one(1, server, spec, ctx)
    how = rng.choice(['default', 'gzip', 'file', 'filter'])
    path = os.path.join(ctx.tmp, 'd%d.warc' % capturing.new_token())
    kw = {}
    if how == 'filter':
        kw['filter_func'] = lambda q, s, rec: (q, s)
    with capture_http(path if how == 'file' else None, gzip=how == 'gzip', **kw) as w:
        inside, plans = run_one(1, server, spec, ctx)
    if inside != outside and steady(spec, server, ctx, outside, inside):
        ctx.ev('timing_differed')       # errors of a dying connection may depend on timing
        server.forget({p.token for _, p in plans + plans0})
        return
    for (kind, seed, reuse), a, b, (_, p0), (_, p) in zip(spec, outside, inside, plans0, plans):
        ctx.equal(b, a, '%s exchange in a capture and outside of it: %s' % (kind, p.brief()))
        ctx.ev('results_compared')
        if a and (a[0] == 'error' or 'error' in a):
            ctx.ev('errors_compared')
        if kind == 'misuse':
            ctx.ev('misuse')
            if a[-1] == 'fine':
                sent = [[ex.body for ex in server.exchanges({q.token})] for q in (p0, p)]
                ctx.equal(sent[1], sent[0], 'body of a request sent in a capture and outside of it')
                ctx.ev('bodies_compared', len(sent[0]))
        if kind == 'early':
            ctx.ev('early_close')
    if how == 'file':
        data = open(path, 'rb').read()
        os.unlink(path)
    else:
        data = w.get_contents()
        w.out.close()
    recs = parse(ctx, data, how == 'gzip', 'capture of faulty exchanges')
    tokens = {p.token for _, p in plans} | {p.token for _, p in plans0}
    log = {}
    for ex in server.exchanges(tokens):
        log.setdefault(ex.token, []).append(ex)
    by = {}
    ctx.expect(len(recs) % 2 == 0, 'records of %d halves of exchanges' % len(recs))
    for i in range(0, len(recs), 2):
        url = recs[i].get('WARC-Target-URI') or ''
        m = [p for _, p in plans if '/x%d/' % p.token in url]
        ctx.expect(len(m) == 1, 'record of %r, which is not of this capture' % url)
        by.setdefault(m[0].token, []).append((recs[i], recs[i + 1]))
    for (kind, p), res in zip(plans, inside):
        got = by.get(p.token, [])
        where = '%s exchange: %s' % (kind, p.brief())
        # requests and urllib3 may repeat an attempt on a connection that was found closed
        ctx.expect(len(got) <= max(1, len(log.get(p.token, []))), where + ' recorded %d times' % len(got))
        if kind == 'good' and res[0] != 'error':
            ctx.equal(len(got), 1, where + ': recorded pairs')
            ok = [ex for ex in log[p.token] if ex.sent]
            check_pair(ctx, got[0][0], got[0][1], p, ok[-1], where)
        elif kind == 'live' and 'error' not in res:
            ctx.equal([(q.block, a.block) for a, q in got], [(ex.raw, ex.sent) for ex in log[p.token]], where + ': recorded')
            ctx.ev('live_recorded')
        elif got and kind not in ('good', 'misuse', 'live'):
            ctx.ev('faulty_exchanges_captured')
            # what is there of it, is of it
            raws = [ex.raw for ex in log.get(p.token, [])]
            if raws:
                ctx.expect(got[0][1].block in raws + [b''], where + ': request as recorded', got=got[0][1].block, log=raws)
            else:
                # sent on a connection which the server had already closed
                ctx.expect(b'/x%d/' % p.token in got[0][1].block.split(b'\r\n')[0], where + ': request as recorded', got=got[0][1].block)
    ctx.nontrivial([(k, a) for (k, _, _), a in zip(spec, outside)], how)
    ctx.sample = {'spec': [s[0] for s in spec], 'results': [repr(o)[:100] for o in outside]}
    server.forget(tokens)


# ------------------------------------------------------------------ programs of captures
class Stop(Exception):
    pass


class Scope(object):
    """one capture: its output and what it has to hold"""
    def __init__(self, rng, ctx):
        self.gz = rng.random() < .4
        self.kind = rng.choice(['default', 'writer', 'file', 'file', 'append', 'exclusive'])
        self.expected = []      # (plan, action): action None, 'skip', 'revisit'
        self.allowed = []       # plans which may be there too
        self.before = b''
        self.filter = rng.choice([None, None, 'nop', 'skip', 'some', 'revisit', 'half'])
        self.actions = {}
        self.calls = []
        self.path = None
        self.writer = None
        kw = {'gzip': self.gz}
        if self.kind == 'writer':
            self.sink = io.BytesIO()
            self.given = WARCWriter(self.sink, **kw)
            kw = {}
        elif self.kind == 'default':
            self.given = None
        else:
            self.path = self.given = os.path.join(ctx.tmp, 's%d.warc' % capturing.new_token())
            if self.kind == 'append':
                self.before = rng.choice([b'', b'something before', refwarc.gz(b'x')])
                with open(self.path, 'wb') as f:
                    f.write(self.before)
                ctx.ev('appended')
            elif self.kind == 'exclusive':
                kw['append'] = False
        self.rng = rng
        self.ctx = ctx
        if self.filter:
            kw['filter_func'] = self.filter_func
        self.kw = kw

    def decide(self, plan):
        if self.filter in (None, 'nop'):
            a = None
        elif self.filter in ('skip', 'half'):
            a = 'skip'
        elif self.filter == 'some':
            a = 'skip' if plan.token % 2 else None
        else:
            a = 'revisit' if plan.token % 2 else None
        self.expected.append((plan, a))

    def filter_func(self, request, response, recorder):
        url = response.rec_headers.get_header('WARC-Target-URI')
        self.calls.append((url, request.rec_type, response.rec_type, request.rec_headers.get_header('WARC-Target-URI'),
                           request.http_headers is not None, response.http_headers.get_statuscode()))
        self.ctx.ev('filter_calls')
        token = int(url.split('/x')[1].split('/')[0])
        if self.filter == 'skip' or self.filter == 'some' and token % 2:
            return None, None
        if self.filter == 'half':
            return (request, None) if token % 2 else (None, response)
        if self.filter == 'revisit' and token % 2:
            rev = RecordBuilder().create_revisit_record(url, 'sha1:XYZ', url, '2020-01-01T00:00:00Z', http_headers=response.http_headers)
            return request, rev
        return request, response

    def open(self):
        return capture_http(self.given, **self.kw)

    def value(self):
        if self.kind == 'default':
            d = self.writer.get_contents()
            self.writer.out.close()
            return d
        if self.kind == 'writer':
            return self.sink.getvalue()
        with open(self.path, 'rb') as f:
            d = f.read()
        os.unlink(self.path)
        return d


class Program(object):
    def __init__(self, rng, ctx):
        self.rng, self.ctx = rng, ctx
        self.server = ctx.state['server']
        self.stack = []
        self.scopes = []
        self.tokens = []
        self.log = []
        self.old = []           # (connection, scope in which it was opened)

    def exchange(self, scope, conn=None):
        """one exchange; scope: in which it has to be recorded"""
        rng = self.rng
        kinds = ['httplib'] if conn else None
        p = Plan(rng, self.server, kinds=kinds, transport='http' if conn else None, framing='length' if conn else None)
        if conn:
            p.close = False
            p.resp_headers = [h for h in p.resp_headers if h[0] != 'Connection']
            p.resp_first = p.resp_first.replace('HTTP/1.0', 'HTTP/1.1')
            p.head_raw = p.head_sent = gen.encode_http_head(p.resp_first, p.resp_headers)
            p.parts = [p.head_raw + p.raw_body]
            p.install()
        self.tokens.append(p.token)
        c = Clients(rng, self.server)
        try:
            if conn:
                conn.request(p.method, p.path, p.body, dict(p.req_headers))
                res = c.finish_httplib(p, conn)
            else:
                res = c.run(p)
        finally:
            c.close()
        bad = capturing.expected_result(p, res)
        if bad:
            raise Violation('client got %s: %s' % (bad, p.brief()))
        if scope:
            scope.decide(p)
        return p

    def begin(self, scope):
        """first part of an exchange on a connection of its own -> what is to be called for the rest"""
        rng = self.rng
        p = Plan(rng, self.server, kinds=['httplib'], transport='http', big=rng.random() < .1)
        self.tokens.append(p.token)
        c = Clients(rng, self.server)
        conn = c.start_httplib(p, False)
        r = conn.getresponse() if rng.random() < .5 else None
        head = r and r.read(1)
        over = r and r.isclosed()       # there was nothing more to read
        if over and scope:
            scope.decide(p)

        def rest():
            try:
                x = r or conn.getresponse()
                res = (x.status, x.reason, x.getheaders(), (head or b'') + x.read())
                if x.will_close:
                    x.close()
            except Exception as e:
                res = ('error', type(e).__name__, str(e))
            finally:
                c.close()
            bad = capturing.expected_result(p, res)
            if bad:
                raise Violation('client got %s: %s' % (bad, p.brief()))
            return None if over else p
        return rest

    def top(self):
        return self.stack[-1] if self.stack else None

    def block(self, depth):
        rng, ctx = self.rng, self.ctx
        for _ in range(rng.choice([1, 2, 3])):
            k = rng.randrange(11)
            if k <= 2:
                self.log.append('exchange')
                if not self.stack:
                    ctx.ev('outside')
                self.exchange(self.top())
            elif k <= 5 and depth < 3:
                self.capture(depth)
            elif k == 6:
                # another thread has no part in it
                self.log.append('thread')
                ctx.ev('other_threads')
                err = []

                def run():
                    try:
                        self.exchange(None)
                    except BaseException as e:
                        err.append(e)
                t = threading.Thread(target=run)
                t.start()
                t.join(60)
                if err:
                    raise err[0]
            elif k == 7:
                # a connection for later
                self.log.append('connection')
                c = httplib.HTTPConnection('127.0.0.1', self.server.port, timeout=30)
                s = self.top()
                self.exchange(s, c)
                self.old.append((c, s))
            elif k == 8 and self.old:
                c, s = rng.choice(self.old)
                if s is self.top() and s:
                    self.log.append('same connection')
                    self.exchange(s, c)
                elif s is None:
                    self.log.append('connection from outside')
                    ctx.ev('old_connections')
                    self.exchange(None, c)
                elif s in self.stack:
                    self.log.append('connection of an outer capture')
                    ctx.ev('old_connections')
                    self.exchange(s, c)
                else:
                    self.log.append('connection of a capture that ended')
                    ctx.ev('kept_after')
                    p = self.exchange(None, c)
                    # unspecified for a writer, never in a file
                    if s.kind in ('writer', 'default') and s.filter in (None, 'nop'):
                        s.allowed.append(p)
            elif k == 10 and depth < 3:
                # a capture within an exchange
                self.log.append('exchange around')
                ctx.ev('exchange_around')
                s = self.top()
                rest = self.begin(s)
                self.capture(depth)
                p = rest()
                if s and p:
                    s.decide(p)
            elif k == 9 and depth and rng.random() < .3:
                self.log.append('raise')
                raise Stop()

    def capture(self, depth):
        rng, ctx = self.rng, self.ctx
        s = Scope(rng, ctx)
        self.log.append('capture(%s, %s%s)' % (s.kind, s.filter, ', gzip' if s.gz else ''))
        if depth:
            ctx.ev('nested')
        self.scopes.append(s)
        err = Stop()
        rest = None
        try:
            with s.open() as w:
                s.writer = w
                if s.kind == 'writer':
                    ctx.expect(w is s.given, 'capture_http does not give the writer it was given')
                elif s.kind == 'default':
                    ctx.expect(isinstance(w, BufferWARCWriter), 'capture_http() gives %r' % w)
                self.stack.append(s)
                try:
                    self.block(depth + 1)
                finally:
                    self.stack.pop()
                if rng.random() < .2:
                    self.log.append('unfinished')
                    rest = self.begin(s)
                if rng.random() < .1:
                    self.log.append('error')
                    raise err
        except Stop as e:
            ctx.ev('exceptions')
        self.log.append('end')
        if s.path:
            ctx.expect(s.writer.out.closed, 'file of a capture is not closed at its end (%s)' % self.log[-5:])
            ctx.ev('files_closed')
            if rng.random() < .4:
                self.refused(s)
        elif s.kind == 'writer':
            ctx.expect(not s.sink.closed, 'output of a given writer was closed at the end of the capture')
        if rest:
            ctx.ev('unfinished')
            p = rest()
            # as with a connection that is kept
            if p and not s.path:
                s.allowed.append(p)

    def refused(self, s):
        """a file that is there is not overwritten"""
        with open(s.path, 'rb') as f:
            before = f.read()
        entered = False
        try:
            with capture_http(s.path, append=False):
                entered = True
        except OSError:
            pass
        self.ctx.expect(not entered, 'capture_http(append=False) accepts a file that exists')
        with open(s.path, 'rb') as f:
            self.ctx.equal(f.read(), before, 'file refused by capture_http(append=False)')
        self.ctx.ev('exclusive_refused')
        self.log.append('refused')
        if self.rng.random() < .5:
            # nothing changed for the captures around
            self.exchange(self.top())

    def check(self):
        ctx = self.ctx
        log = {ex.token: ex for ex in self.server.exchanges(set(self.tokens))}
        for s in self.scopes:
            where = '%s capture, filter %s, after %s' % (s.kind, s.filter, ' '.join(self.log))
            data = s.value()
            ctx.expect(data.startswith(s.before), where + ': file was overwritten')
            recs = parse(ctx, data[len(s.before):], s.gz, where)
            if s.filter:
                ctx.equal([c[0] for c in s.calls], [p.url for p, _ in s.expected] + [c[0] for c in s.calls[len(s.expected):]], where + ': filter calls')
                ctx.expect(len(s.calls) <= len(s.expected) + len(s.allowed) + (self.ctx.counters['kept_after'] if s.kind in ('default', 'writer') else 0),
                           where + ': filter was called %d times for %d exchanges' % (len(s.calls), len(s.expected)))
                for c, (p, _) in zip(s.calls, s.expected):
                    ctx.equal(c, (p.url, 'request', 'response', p.url, True, str(p.code)), where + ': what the filter gets')
            want = [(p, a) for p, a in s.expected if a != 'skip']
            for p, a in s.expected:
                if a:
                    ctx.ev('filtered_out' if a == 'skip' else 'substituted')
            urls = [m.get('WARC-Target-URI') for m in recs[::2]]
            wurls = [p.url for p, a in want]
            extra = urls[len(wurls):]
            ctx.equal(urls[:len(wurls)], wurls, where + ': recorded exchanges')
            ok = [p.url for p in s.allowed]
            if s.filter and s.kind in ('writer', 'default'):
                ok = None       # decided by the filter
            ctx.expect(not extra or ok is None or all(u in ok for u in extra), where + ': recorded what was not in the capture: %s' % extra)
            ctx.equal(len(recs), 2 * len(urls), where + ': records')
            for i, (p, a) in enumerate(want):
                w = '%s: %s' % (where, p.brief())
                if a == 'revisit':
                    ctx.equal([m.rtype for m in recs[2 * i:2 * i + 2]], ['revisit', 'request'], w + ': record types')
                    ctx.equal(recs[2 * i + 1].block, log[p.token].raw, w + ': request')
                    ctx.equal(recs[2 * i].block, p.head_raw, w + ': http headers of the revisit record')
                else:
                    check_pair(ctx, recs[2 * i], recs[2 * i + 1], p, log[p.token], w)


def fds():
    out = set()
    for n in os.listdir('/proc/self/fd'):
        try:
            out.add(os.readlink('/proc/self/fd/' + n))
        except OSError:
            pass
    return out


def program(rng, ctx):
    pr = Program(rng, ctx)
    ctx.ev('programs')
    try:
        pr.block(0)
        pr.capture(0)
        pr.block(0)
        for s in pr.scopes:
            if s.path:
                ctx.expect(s.path not in fds(), 'file of a capture is still open')
        pr.check()
    finally:
        for c, _ in pr.old:
            c.close()
        pr.server.forget(set(pr.tokens))
        for s in pr.scopes:
            if s.path and os.path.exists(s.path):
                os.unlink(s.path)
    ctx.nontrivial(pr.log, len(pr.tokens))
    ctx.sample = {'program': pr.log}
