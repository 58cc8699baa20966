"""C21 every captured HTTP exchange is recorded once and faithfully"""
import os
import random
import sys
import threading
import time

from wv import capturing, refwarc
from wv.capturing import Plan, Clients, capture_http, check_pair, parse
from wv.core import Inconclusive, Violation
from wv.httpserver import Server
from warcio.warcwriter import WARCWriter, BufferWARCWriter

PROP = 'C21'
QUICK, THOROUGH = 1400, 36000
RULE = ('case = 1 to 5 threads, each running a sequence of captures (into a file, buffer, shared or default writer) of exchanges with a '
        'logging server by clients of all kinds (http.client, urllib, requests, urllib3; direct, proxied, tunnelled, TLS; kept-alive and '
        'interleaved connections); every archive is parsed strictly and its pairs matched one to one with the server log; non-trivial = at '
        'least one pair was compared; distinct by exchanges')
NEED = {'pairs_compared': 3000, 'threads': 1500, 'kept_alive': 400, 'interleaved': 150, 'redirects': 150, 'out_of_turn': 100, 'given_up': 100, 'shared_writers': 80, 'http6': 100,
        'tls': 150, 'proxy': 150, 'tunnel': 150, 'chunked_uploads': 100, 'framing_chunked': 500, 'framing_close': 250, 'head': 100,
        'uncaptured': 150, 'to_file': 150, 'named': 150, 'named_https': 60, 'repeated_urls': 400, 'interim_responses': 80}


def setup(ctx):
    ctx.state['server'] = Server()
    sys.setswitchinterval(1e-5)


def teardown(ctx):
    ctx.state['server'].close()


class SlowOut(object):
    """output that lets other threads run between writes"""
    def __init__(self):
        self.parts = []

    def write(self, b):
        self.parts.append(bytes(b))
        time.sleep(0)
        return len(b)

    def flush(self):
        pass

    def value(self):
        return b''.join(self.parts)


class Target(object):
    """where captures go, and what has to be in there"""
    def __init__(self, rng, ctx, kind=None):
        self.kind = kind or rng.choice(['default', 'buffer', 'file', 'writer', 'writer'])
        self.gz = rng.random() < .5
        self.version = rng.choice(['1.0', '1.1', None])
        self.expected = []          # (plan, record_ip)
        self.ordered = True
        self.lock = threading.Lock()
        self.kw = {}
        args = {'gzip': self.gz, 'warc_version': self.version}
        if self.kind == 'default':
            self.arg = None
            self.kw = args if rng.random() < .8 else {}
            if not self.kw:
                self.gz, self.version = False, None
            self.data = b''
        elif self.kind == 'buffer':
            self.arg = BufferWARCWriter(**args)
        elif self.kind == 'file':
            ctx.ev('to_file')
            self.arg = os.path.join(ctx.tmp, 'cap-%d.warc' % capturing.new_token())
            self.kw = args
        else:
            self.out = SlowOut()
            self.arg = WARCWriter(self.out, **args)
        self.used = False

    def open(self, rng, ctx, record_ip):
        kw = dict(self.kw)
        if not record_ip:
            kw['record_ip'] = False
        if self.kind == 'default':
            return capture_http(**kw) if rng.random() < .5 else capture_http(None, None, **kw)
        if self.kind == 'file' and not self.used and rng.random() < .3:
            kw['append'] = False
        self.used = True
        return capture_http(self.arg, **kw)

    def after(self, writer):
        if self.kind == 'default':
            self.data += writer.get_contents()
            writer.out.close()

    def value(self):
        if self.kind == 'default':
            return self.data
        if self.kind == 'buffer':
            d = self.arg.get_contents()
            self.arg.out.close()
            return d
        if self.kind == 'file':
            if not os.path.exists(self.arg):
                return b''
            with open(self.arg, 'rb') as f:
                d = f.read()
            os.unlink(self.arg)
            return d
        return self.out.value()


def actor(seed, ctx, server, targets, errors, tokens, evs, pace):
    rng = random.Random(seed)
    clients = Clients(rng, server)
    try:
        for _ in range(rng.choice([1, 1, 2, 3])):
            captured = rng.random() < .9
            if not captured:
                p = Plan(rng, server, interim=True)
                tokens.append(p.token)
                evs.append('uncaptured')
                clients.close()
                check_client(p, clients.run(p))
                clients.close()
                continue
            target = rng.choice(targets) if rng.random() < .7 else None
            own = target is None
            if own:
                target = Target(rng, ctx)
                targets_own = [target]
            record_ip = rng.random() < .85
            done = []
            # connections of before are not captured
            clients.close()
            with target.open(rng, ctx, record_ip) as writer:
                n = rng.choice([1, 1, 2, 3, 5])
                if rng.random() < .2:
                    # two connections at once
                    evs.append('interleaved')
                    a, b = (Plan(rng, server, kinds=['httplib']) for _ in range(2))
                    tokens += [a.token, b.token]
                    ca, cb = Clients(rng, server), Clients(rng, server)
                    try:
                        xa = ca.start_httplib(a, False)
                        xb = cb.start_httplib(b, False)
                        order = [(ca, a, xa), (cb, b, xb)]
                        rng.shuffle(order)
                        for c, p, x in order:
                            check_client(p, c.finish_httplib(p, x))
                            done.append(p)
                    finally:
                        ca.close()
                        cb.close()
                if rng.random() < .2:
                    done += redirected(rng, server, clients, tokens)
                    evs.append('redirects')
                if rng.random() < .15:
                    done += out_of_turn(rng, server, tokens)
                    evs.append('out_of_turn')
                if rng.random() < .15:
                    done += given_up(rng, server, tokens)
                    evs.append('given_up')
                same = {}
                if rng.random() < .5:
                    # one kind of client, so that its connection is used again
                    n += 2
                    p = Plan(rng, server, interim=True)
                    same = {'kinds': [p.client], 'transport': p.transport, 'tunnelled': p.tunnelled}
                for _ in range(n):
                    p = Plan(rng, server, interim=True, big=rng.random() < .1, repeated=rng.random() < .3, **same)
                    tokens.append(p.token)
                    reuse = bool(same) or rng.random() < .6
                    if reuse:
                        evs.append('reuse')
                    check_client(p, clients.run(p, reuse))
                    done.append(p)
                    if pace:
                        time.sleep(0)
            clients.close()
            target.after(writer)
            with target.lock:
                target.expected += [(p, record_ip) for p in done]
            if own:
                errors.append(('own', target))
    except BaseException as e:
        errors.append(('error', e, sys.exc_info()))
    finally:
        clients.close()


def redirected(rng, server, clients, tokens):
    """a client which follows a redirect: two exchanges"""
    a = Plan(rng, server, kinds=['requests'], transport=rng.choice(['http', 'localhost', 'tls', 'tunnel', 'proxy']), framing='length')
    b = Plan(rng, server, kinds=['requests'], transport=a.transport, tunnelled=a.tunnelled)
    tokens += [a.token, b.token]
    a.method = b.method = 'GET'
    a.body = b.body = a.body_how = b.body_how = None
    code = rng.choice([301, 302, 303, 307])
    a.resp_first = 'HTTP/1.1 %d Moved' % code
    a.resp_headers = [h for h in a.resp_headers] + [('Location', b.path if rng.random() < .5 else b.url)]
    a.head_raw = a.head_sent = capturing.gen.encode_http_head(a.resp_first, a.resp_headers)
    a.raw_body = a.coded
    b = replan(rng, server, b)
    a.parts = a.make_parts(rng)
    a.install()
    s = clients.session(a, True)
    p = 'http://127.0.0.1:%d' % server.port
    proxies = {'http': p, 'https': p} if a.transport in ('proxy', 'tunnel') else None
    r = s.get(a.url, proxies=proxies, timeout=30)
    if r.status_code != b.code or len(r.history) != 1 or r.content != (b'' if b.framing == 'none' else b.content):
        raise Violation('client following a redirect in a capture got %r' % (r.status_code,))
    return [a, b]


def replan(rng, server, b):
    # the body of a GET response, whatever the method was before
    raw = b.coded
    if b.framing == 'chunked':
        raw = refwarc.chunk(raw, [1000])
    b.raw_body = b'' if b.framing == 'none' else raw
    b.parts = b.make_parts(rng)
    b.install()
    return b


def out_of_turn(rng, server, tokens):
    """a request that http.client refuses, as the one before is not finished"""
    from warcio.capture_http import httplib
    a = Plan(rng, server, kinds=['httplib'], transport='http', framing=rng.choice(['length', 'chunked']))
    b = Plan(rng, server, kinds=['httplib'], transport='http')
    tokens += [a.token, b.token]
    c = Clients(rng, server)
    try:
        x = c.start_httplib(a, False)
        try:
            x.request('GET', b.path)
            raise Violation('request before the response of the one before was read is not refused in a capture')
        except httplib.CannotSendRequest:
            pass
        check_client(a, c.finish_httplib(a, x))
    finally:
        c.close()
    return [a]


class Broken(Exception):
    pass


def given_up(rng, server, tokens):
    """requests whose body cannot be read to its end, and others on the same connection object after it was closed"""
    from warcio.capture_http import httplib
    done = []
    c = Clients(rng, server)
    conn = httplib.HTTPConnection('127.0.0.1', server.port, timeout=30)
    try:
        for _ in range(rng.choice([2, 3, 4])):
            p = Plan(rng, server, kinds=['httplib'], transport='http')
            tokens.append(p.token)
            if rng.random() < .5 and done != [] or not done and rng.random() < .8:
                body = b'part %d' % p.token

                def parts():
                    for _ in range(rng.randrange(4)):
                        yield body
                    raise Broken()
                how = rng.randrange(3)
                try:
                    if how == 0:
                        conn.request('POST', p.path, parts(), {'Content-Length': '10000'})
                    elif how == 1:
                        conn.request('PUT', p.path, parts(), {'Transfer-Encoding': 'chunked'}, encode_chunked=True)
                    else:
                        # (http.client itself keeps the lines of a request that was not sent at all)
                        conn.putrequest('POST', p.path)
                        conn.putheader('Content-Length', '500')
                        conn.endheaders(rng.choice([b'some of it', None]))
                        raise Broken()
                except Broken:
                    pass
                conn.close()
                continue
            if p.body_how in ('iter', 'list'):
                conn.request(p.method, p.path, p.body_arg(), dict(p.req_headers, **{'Transfer-Encoding': 'chunked'}), encode_chunked=True)
            else:
                conn.request(p.method, p.path, p.body_arg(), dict(p.req_headers))
            check_client(p, c.finish_httplib(p, conn))
            done.append(p)
            if rng.random() < .5 or p.close:
                conn.close()
    finally:
        conn.close()
        c.close()
    return done


def check_client(p, res):
    bad = capturing.expected_result(p, res)
    if bad:
        raise Violation('client got %s in a capture: %s' % (bad, p.brief()))


def case(rng, ctx, idx):
    server = ctx.state['server']
    nthreads = rng.choice([1, 1, 2, 3, 5])
    shared = [Target(rng, ctx, rng.choice(['writer', 'buffer'])) for _ in range(rng.choice([1, 2]))] if nthreads > 1 and rng.random() < .5 else []
    if shared:
        ctx.ev('shared_writers')
    tokens, errors, evs = [], [], []
    threads = []
    for i in range(nthreads):
        targets = shared or [Target(rng, ctx)]
        if not shared:
            errors.append(('own', targets[0]))
        a = (rng.getrandbits(64), ctx, server, targets, errors, tokens, evs, nthreads > 1)
        if nthreads == 1:
            actor(*a)
        else:
            threads.append(threading.Thread(target=actor, args=a, daemon=True))
    t0 = time.time()
    for t in threads:
        t.start()
    for t in threads:
        t.join(120)
        if t.is_alive():
            raise Violation('client thread does not come to an end in a capture')
    ctx.ev('threads', nthreads)
    for e in errors:
        if e[0] == 'error':
            raise e[1]
    for name in evs:
        ctx.ev(name)
    log = {}
    for ex in server.exchanges(set(tokens)):
        ctx.expect(ex.token not in log, 'harness: exchange seen twice')
        log[ex.token] = ex
    seen = set()
    conns = set()
    for ex in log.values():
        if ex.conn in conns:
            ctx.ev('kept_alive')
        conns.add(ex.conn)
    for target in shared + [e[1] for e in errors if e[0] == 'own']:
        where = 'capture into %s%s' % (target.kind, ', shared by threads' if target in shared else '')
        recs = parse(ctx, target.value(), target.gz, where)
        want = target.expected
        by = {p.token: (p, ip) for p, ip in want}
        ctx.equal(len(recs), 2 * len(want), where + ': records of %d exchanges' % len(want), urls=[m.get('WARC-Target-URI') for m in recs],
                  plans=[p.brief() for p, _ in want])
        order = []
        for i in range(0, len(recs), 2):
            token = capturing.token_of(recs[i + 1])
            ctx.expect(token in by, '%s: record of %s, which was not asked for here' % (where, recs[i].get('WARC-Target-URI')))
            p, ip = by[token]
            ctx.expect(token not in seen, '%s: exchange %s recorded twice' % (where, p.url))
            seen.add(token)
            order.append(p)
            ctx.expect(p.token in log, 'harness: exchange not in the server log')
            w = '%s: %s' % (where, p.brief())
            check_pair(ctx, recs[i], recs[i + 1], p, log[p.token], w, 'WARC/' + (target.version or '1.0'), ip)
            for e in (p.transport, 'framing_' + p.framing):
                ctx.ev(e)
            if p.method == 'HEAD':
                ctx.ev('head')
            if p.repeated:
                ctx.ev('repeated_urls')
            if b' 100 Continue' in p.head_raw:
                ctx.ev('interim_responses')
            if p.body is not None and b'chunked' in log[p.token].head.lower():
                ctx.ev('chunked_uploads')
        if target not in shared:
            ctx.equal([p.token for p in order], [p.token for p, _ in want], where + ': order of the exchanges')
    ctx.ev('cases')
    ctx.nontrivial(sorted((log[t].raw, log[t].sent) for t in log))
    ctx.sample = {'threads': nthreads, 'exchanges': [p.brief() for t in [e[1] for e in errors if e[0] == 'own'] for p, _ in t.expected][:3]}
    server.forget(set(tokens))
