"""Workload of the capture properties: prepared HTTP exchanges, clients of all kinds, what has to be recorded."""
import io
import re
import socket
import threading
import time
import zlib

import warcio.capture_http as wch          # before requests, as documented
from warcio.capture_http import capture_http

import http.client as httplib
import urllib.request
import requests
import urllib3

from wv import gen, httpserver, refwarc
from wv.core import Inconclusive, Violation

urllib3.disable_warnings()
requests.packages.urllib3.disable_warnings()

STATUSES = [(200, 'OK'), (200, 'OK'), (200, 'OK'), (404, 'Not Found'), (500, 'Internal  Error'), (201, ''), (206, 'Partial Content'), (418, "I'm a: teapot")]
_count = [0]
_lock = threading.Lock()


def new_token():
    with _lock:
        _count[0] += 1
        return _count[0]


class ShortFile(object):
    """a file whose read() returns fewer bytes than asked for, as a pipe or socket does"""
    def __init__(self, pieces):
        self.pieces = [p for p in pieces if p]

    def read(self, n=-1):
        if not self.pieces:
            return b''
        p = self.pieces[0] if n < 0 else self.pieces[0][:n]
        self.pieces[0] = self.pieces[0][len(p):]
        if not self.pieces[0]:
            del self.pieces[0]
        return p


class Plan(object):
    """one exchange: what the client sends and what the server answers"""
    def __init__(self, rng, server, kinds=None, framing=None, big=False, transport=None, tunnelled=None, repeated=False, interim=False):
        self.server = server
        self.token = new_token()
        self.repeated = repeated        # a URL that is requested again and again, in other spellings
        self.path_text = rng.choice(['/same/page', '/same/page', '/Same/Page', '/SAME/PAGE', '/same/page/', '/same//page']) if repeated else '/x%d/p' % self.token
        self.method = rng.choice(['GET', 'GET', 'GET', 'POST', 'POST', 'PUT', 'HEAD', 'DELETE', 'OPTIONS', 'PATCH', 'PROPFIND'])
        self.query = rng.choice(['', '', '?a=b&c=d', '?u=http://x/', '?q=%20%C3%A9', '?'])
        self.client = rng.choice(kinds or ['httplib', 'httplib', 'httplib_raw', 'urllib', 'requests', 'requests', 'requests_stream', 'urllib3'])
        if self.query == '?' and self.client.startswith(('requests', 'urllib3')):
            self.query = ''         # these send no empty query
        t = ['http', 'http', 'http', 'localhost', 'http6' if server.port6 else 'http']
        if self.client in ('requests', 'requests_stream'):
            t += ['proxy', 'tunnel', 'tls']
        elif self.client.startswith('httplib'):
            t += ['absolute', 'plain_tunnel', 'named', 'named', 'named_https']
        elif self.client == 'urllib3':
            t += ['tls']
        else:
            t += ['proxy']
        self.transport = transport or rng.choice(t)
        self.named = (rng.choice(['example.com', 'WWW.Example.ORG', '2001:db8::1', '0:0:0:0:0:0:0:1', 'a.b.c', '10.1.2.3', 'localhost']), rng.choice([80, 80, 443, 443, 8080, 8443, 81, 1]))
        self.tunnelled = tunnelled or (rng.choice(['tunnel.example', 'tunnel.example', 'www.example.org', '2001:db8::1', '::1', '10.1.2.3', 'a']),
                          rng.choice([443, 443, 443, 8443] if self.transport == 'tunnel' else [80, 80, 8080, 81, 1, 65535]))
        self.req_headers = []
        for _ in range(rng.choice([0, 0, 1, 2])):
            self.req_headers.append((gen.token(rng), rng.choice(['v', 'a b', '"q"; x=y', 'a: b', 'z' * 300])))
        if len({n.lower() for n, _ in self.req_headers}) < len(self.req_headers):
            self.req_headers = self.req_headers[:1]
        if rng.random() < .15:
            self.req_headers.append(('Host', 'other.example'))
        if repeated:
            self.req_headers.append(('X-Token', str(self.token)))
        # request body
        self.body = None
        self.body_how = None
        if self.method in ('POST', 'PUT', 'PATCH') or rng.random() < .05:
            self.body = payload(rng, big)
            self.body_how = rng.choice(['bytes', 'bytes', 'file', 'iter', 'list', 'bytearray'] if self.client not in ('urllib3',) else ['bytes'])
            if self.body_how == 'file' and self.client.startswith('httplib') and rng.random() < .5:
                self.body_how = 'shortfile'
        self.pieces = cut(rng, self.body) if self.body else []
        # response
        code, reason = rng.choice(STATUSES)
        self.framing = framing or rng.choice(['length', 'length', 'chunked', 'chunked', 'close', 'empty', 'none'])
        if self.framing == 'none':
            code, reason = rng.choice([(204, 'No Content'), (304, 'Not Modified')])
        self.content = b'' if self.framing in ('empty', 'none') else payload(rng, big)
        hdrs = []
        for _ in range(rng.choice([0, 1, 2, 4])):
            hdrs.append((rng.choice(['Content-Type', 'Server', 'X-A', 'Set-Cookie', 'Date', 'ETag']),
                         rng.choice(['text/plain', 'v', 'a=b; c="d"', 'x' * 200, 'a, b', 'Thu, 26 Dec 2013 09:50:10 GMT', '"tag"'])))
        self.coded = self.content
        if self.content and rng.random() < .25:
            co = zlib.compressobj(6, zlib.DEFLATED, 31)
            self.coded = co.compress(self.content) + co.flush()
            hdrs.append(('Content-Encoding', 'gzip'))
        raw = self.coded
        self.close = False
        if self.framing == 'length':
            hdrs.append((gen.recase(rng, 'Content-Length'), str(len(raw))))
        elif self.framing == 'empty':
            hdrs.append(('Content-Length', '0'))
        elif self.framing == 'chunked':
            hdrs.append(('Transfer-Encoding', rng.choice(['chunked', 'chunked', 'Chunked'])))
            raw = refwarc.chunk(raw, [rng.choice([1, 3, 17, 100, 5000, 20000]) if len(raw) < 3000 else rng.choice([1000, 16384, 40000]) for _ in range(3)],
                                exts=[';x=y', ''] if rng.random() < .1 else None,
                                trailers=[('X-Trailer', 'after'), ('B', 'c')][:rng.choice([0, 0, 0, 1, 2])])
        elif self.framing == 'close':
            self.close = True
            if rng.random() < .6 or self.method == 'HEAD':
                hdrs.append(('Connection', 'close'))
        if self.framing not in ('close',) and rng.random() < .15:
            self.close = True
            hdrs.append(('Connection', 'close'))
        version = 'HTTP/1.0' if self.framing == 'close' and rng.random() < .4 else 'HTTP/1.1'
        if version == 'HTTP/1.0':
            self.close = True
        rng.shuffle(hdrs)
        self.resp_first = ('%s %d %s' % (version, code, reason)).strip()
        self.code = code
        self.resp_headers = hdrs
        # head as it is recorded, and as it is sent
        self.head_raw = self.head_sent = gen.encode_http_head(self.resp_first, hdrs)
        if rng.random() < .12:
            eol = rng.choice([b'\r\n', b'\n'])
            self.head_sent = self.resp_first.encode() + eol + b''.join(
                n.encode() + rng.choice([b':', b': ', b':  ', b':\t']) + v.encode() + (rng.choice([b'', b'', b' ', b'\t']) if n == 'X-A' else b'') + eol
                for n, v in hdrs) + eol
        if interim and version == 'HTTP/1.1' and self.head_sent == self.head_raw and rng.random() < .1:
            # interim responses come before the one that counts
            interim = b''.join(rng.choice([b'HTTP/1.1 100 Continue\r\n\r\n', b'HTTP/1.1 100 Continue\r\nServer: x\r\n\r\n']) for _ in range(rng.choice([1, 1, 2])))
            self.head_raw = interim + self.head_raw
            self.head_sent = interim + self.head_sent
        self.raw_body = b'' if self.method == 'HEAD' or self.framing == 'none' else raw
        self.seen = b'' if self.method == 'HEAD' else self.content
        self.parts = self.make_parts(rng)
        self.install()
        self.error = None
        self.read_how = rng.randrange(8)
        self.rseed = rng.getrandbits(32)

    def make_parts(self, rng):
        data = self.head_sent + self.raw_body
        k = rng.random()
        if k < .5:
            return [data]
        if k < .7:
            return [self.head_sent, self.raw_body]
        out = []
        pos = 0
        for _ in range(rng.randrange(1, 5)):
            n = rng.choice([1, 2, 10, 100, 1000, len(self.head_raw)])
            out.append(data[pos:pos + n])
            pos += n
            if rng.random() < .4:
                out.append(.001)
        out.append(data[pos:])
        return [p for p in out if p]

    def install(self):
        self.server.plan(self.token, self.parts, self.close)

    # ---------------------------------------------------------- address
    @property
    def netloc(self):
        s = self.server
        return {'http': ('127.0.0.1', s.port), 'localhost': ('localhost', s.port), 'http6': ('::1', s.port6), 'tls': ('127.0.0.1', s.tls_port),
                'proxy': ('some.example', 80), 'tunnel': self.tunnelled, 'absolute': ('abs.example', 8080),
                'plain_tunnel': self.tunnelled, 'named': self.named, 'named_https': self.named}[self.transport]

    @property
    def url(self):
        host, port = self.netloc
        tls = self.transport in ('tls', 'tunnel', 'named_https')
        h = '[%s]' % host if ':' in host else host
        if port != (443 if tls else 80):
            h += ':%d' % port
        return '%s://%s%s' % ('https' if tls else 'http', h, self.path)

    @property
    def path(self):
        return self.path_text + self.query

    @property
    def ip(self):
        return '::1' if self.transport == 'http6' else '127.0.0.1'

    @property
    def proxy_host(self):
        """WARC-Proxy-Host"""
        if self.transport in ('proxy', 'absolute'):
            return 'http://127.0.0.1:%d' % self.server.port
        if self.transport in ('tunnel', 'plain_tunnel'):
            return 'https://127.0.0.1:%d' % self.server.port
        return None

    def body_arg(self):
        if self.body is None:
            return None
        return {'bytes': lambda: self.body, 'bytearray': lambda: bytearray(self.body) if self.client.startswith('httplib') else self.body,
                'file': lambda: io.BytesIO(self.body), 'iter': lambda: iter(list(self.pieces)),
                'shortfile': lambda: ShortFile(self.pieces),
                'list': lambda: list(self.pieces) if self.client.startswith('httplib') else iter(list(self.pieces))}[self.body_how]()

    def brief(self):
        return {'client': self.client, 'transport': self.transport, 'method': self.method, 'framing': self.framing, 'status': self.resp_first,
                'body': self.body and len(self.body), 'body_how': self.body_how, 'content': len(self.content), 'close': self.close}


def payload(rng, big):
    k = rng.random()
    if k < .1:
        return b''
    if k < .6:
        return gen.randbytes(rng, rng.randrange(1, 400))
    if k < .75:
        return b''.join(rng.choice(gen.TRICKY) for _ in range(rng.randrange(1, 8)))
    if k < .9:
        return gen._fill(rng, rng.choice([16383, 16384, 16385, 8192, 65536]) if rng.random() < .6 else rng.randrange(1, 30000))
    return gen._fill(rng, rng.randrange(30000, 400000)) if big else gen._fill(rng, rng.randrange(1, 5000))


def cut(rng, data):
    out = []
    pos = 0
    while pos < len(data):
        n = rng.choice([1, 10, 100, 5000, len(data)])
        out.append(data[pos:pos + n])
        pos += n
        if len(out) > 20:
            out.append(data[pos:])
            break
    return [p for p in out if p]


# ------------------------------------------------------------------ clients
def named(server, https):
    """a client with its own way to connect (a resolver, a unix socket, TLS done by another program)"""
    class Named(httplib.HTTPConnection):
        if https:
            default_port = 443

        def connect(self):
            self.sock = socket.create_connection(('127.0.0.1', server.port), 30)
            self.sock.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
    return Named


class Clients(object):
    """keeps connections and sessions so that they are used again (or not)"""
    def __init__(self, rng, server):
        self.rng = rng
        self.server = server
        self.keep = {}

    def close(self):
        for c in self.keep.values():
            try:
                c.close() if hasattr(c, 'close') else c.clear()
            except Exception:
                pass
        self.keep = {}

    def get(self, key, make, reuse):
        if not reuse or key not in self.keep:
            old = self.keep.get(key)
            if old is not None:
                old.close() if hasattr(old, 'close') else old.clear()
            self.keep[key] = make()
        return self.keep[key]

    def run(self, plan, reuse=False):
        """-> (status, reason, headers, content) or ('error', type, text)"""
        try:
            return getattr(self, plan.client)(plan, reuse)
        except (Violation, Inconclusive):
            raise
        except Exception as e:
            return ('error', type(e).__name__, clean(str(e), plan))

    # http.client
    def connection(self, plan, reuse):
        host, port = plan.netloc
        if plan.transport in ('absolute', 'plain_tunnel'):
            host, port = '127.0.0.1', self.server.port

        def make():
            if plan.transport.startswith('named'):
                return named(self.server, plan.transport == 'named_https')(host, port, timeout=30)
            c = httplib.HTTPConnection(host, port, timeout=30)
            if plan.transport == 'plain_tunnel':
                c.set_tunnel(plan.tunnelled[0], plan.tunnelled[1], {'X-Tunnel': 'y'})
            return c
        return self.get(('httplib', host, port, plan.transport in ('plain_tunnel', 'named', 'named_https') and plan.transport,
                         plan.transport == 'plain_tunnel' and plan.tunnelled), make, reuse)

    def target(self, plan):
        return plan.url if plan.transport == 'absolute' else plan.path

    def start_httplib(self, plan, reuse):
        c = self.connection(plan, reuse)
        kw = {}
        if plan.body_how in ('iter', 'list'):
            kw['encode_chunked'] = True
            c.request(plan.method, self.target(plan), plan.body_arg(), dict(plan.req_headers, **{'Transfer-Encoding': 'chunked'}), **kw)
        else:
            c.request(plan.method, self.target(plan), plan.body_arg(), dict(plan.req_headers))
        return c

    def httplib(self, plan, reuse):
        c = self.start_httplib(plan, reuse)
        return self.finish_httplib(plan, c)

    def finish_httplib(self, plan, c):
        r = c.getresponse()
        out = (r.status, r.reason, r.getheaders(), read_httplib(plan, r))
        if r.will_close:
            r.close()
        return out

    def httplib_raw(self, plan, reuse):
        c = self.connection(plan, reuse)
        c.putrequest(plan.method, self.target(plan), skip_host=any(n == 'Host' for n, _ in plan.req_headers), skip_accept_encoding=bool(plan.token % 2))
        for n, v in plan.req_headers:
            c.putheader(n, v)
        if plan.body is None:
            c.endheaders()
        else:
            c.putheader('Content-Length', str(len(plan.body)))
            if plan.body_how == 'bytearray':
                c.endheaders(plan.body)
            else:
                c.endheaders()
                if plan.body_how == 'file':
                    c.send(io.BytesIO(plan.body))
                elif plan.body_how == 'shortfile':
                    c.send(ShortFile(plan.pieces))
                elif plan.body_how == 'list':
                    for p in plan.pieces:
                        c.send(memoryview(p))
                elif plan.body_how == 'iter':
                    c.send(iter(list(plan.pieces)))
                else:
                    c.send(plan.body)
        return self.finish_httplib(plan, c)

    def urllib(self, plan, reuse):
        body = plan.body_arg()
        req = urllib.request.Request(plan.url, data=body, headers=dict(plan.req_headers), method=plan.method)
        if plan.transport == 'proxy':
            req.set_proxy('127.0.0.1:%d' % self.server.port, 'http')
        opener = urllib.request.build_opener(urllib.request.ProxyHandler({}), NoRedirect(), NoErrors())
        with opener.open(req, timeout=30) as r:
            return (r.status, r.reason, r.getheaders(), read_httplib(plan, r))

    # requests, urllib3
    def session(self, plan, reuse):
        def make():
            s = requests.Session()
            s.trust_env = False
            s.verify = False
            return s
        return self.get('requests', make, reuse)

    def requests(self, plan, reuse, stream=False):
        s = self.session(plan, reuse)
        kw = {}
        if plan.transport in ('proxy', 'tunnel'):
            p = 'http://127.0.0.1:%d' % self.server.port
            kw['proxies'] = {'http': p, 'https': p}
        r = s.request(plan.method, plan.url, data=plan.body_arg(), headers=dict(plan.req_headers), allow_redirects=False, stream=stream, timeout=30, **kw)
        if not stream:
            body = r.content
        else:
            k = plan.read_how % 5
            if k == 0:
                body = b''.join(r.iter_content(1 + plan.rseed % 5000))
            elif k == 1:
                body = b''.join(r.raw.stream(1 + plan.rseed % 5000, decode_content=True))
            elif k == 2:
                body = r.raw.read(decode_content=True)
            elif k == 3:
                body = b''.join(r.iter_content(None))
            else:
                body = b''.join(r.iter_lines(chunk_size=700, delimiter=None)) if plan.content.isalnum() else r.content
            r.close()
        return (r.status_code, r.reason, sorted(r.headers.items()), body)

    def requests_stream(self, plan, reuse):
        return self.requests(plan, reuse, stream=True)

    def urllib3(self, plan, reuse):
        pm = self.get('urllib3', lambda: urllib3.PoolManager(retries=False, cert_reqs='CERT_NONE'), reuse)
        preload = plan.read_how % 2 == 0
        r = pm.request(plan.method, plan.url, body=plan.body, headers=dict(plan.req_headers), preload_content=preload, redirect=False, timeout=30)
        body = r.data if preload else r.read(decode_content=True) if plan.read_how % 4 == 1 else b''.join(r.stream(1 + plan.rseed % 3000, decode_content=True))
        r.release_conn()
        return (r.status, r.reason, sorted(r.headers.items()), body)


class NoRedirect(urllib.request.HTTPRedirectHandler):
    def redirect_request(self, *a):
        return None


class NoErrors(urllib.request.HTTPErrorProcessor):
    def http_response(self, request, response):
        return response
    https_response = http_response


def read_httplib(plan, r):
    """read a response to its end, with one of many call patterns"""
    import random
    rng = random.Random(plan.rseed)
    k = plan.read_how
    out = []
    if k <= 1:
        out.append(r.read())
    elif k == 2:
        n = rng.choice([1, 10, 1000, 16384]) if len(plan.content) < 2000 else rng.choice([500, 16384])
        while True:
            d = r.read(n)
            if not d:
                break
            out.append(d)
    elif k == 3:
        buf = bytearray(rng.choice([7, 1000, 20000]) if len(plan.content) < 2000 else 3000)
        while True:
            n = r.readinto(buf)
            if not n:
                break
            out.append(bytes(buf[:n]))
    elif k == 4:
        while True:
            d = r.read1(rng.choice([-1, 100, 5000]))
            if not d:
                break
            out.append(d)
    elif k == 5:
        out += list(r)
    elif k == 6:
        while True:
            p = r.peek(10) if plan.framing == 'chunked' and rng.random() < .5 else b''
            d = r.readline(rng.choice([-1, 50, 1000]))
            if p and d and not (d.startswith(p[:len(d)]) or p.startswith(d[:len(p)])):
                raise Violation('peek() and readline() of a response disagree')
            if not d:
                break
            out.append(d)
    else:
        while True:
            j = rng.randrange(3)
            d = r.read(rng.choice([10, 4000])) if j == 0 else r.readline() if j == 1 else r.read1(500)
            if not d:
                break
            out.append(d)
    rest = r.read()
    return b''.join(out) + rest


def clean(text, plan):
    text = re.sub(r'0x[0-9a-f]+', 'ADDR', text)
    return text.replace('/x%d' % plan.token, '/xTOKEN').replace(str(plan.token), 'TOKEN') if plan.repeated else text.replace('/x%d' % plan.token, '/xTOKEN')


# ------------------------------------------------------------------ what was recorded
def get(m, name):
    return [v for n, v in m.headers if n.lower() == name.lower()]


def token_of(m):
    """of the exchange a recorded request belongs to"""
    return httpserver.token_of(m.block.split(b'\r\n\r\n')[0])


def one(ctx, m, name, where):
    v = get(m, name)
    ctx.expect(len(v) == 1, '%s: %s appears %d times' % (where, name, len(v)), headers=m.headers)
    return v[0]


def parse(ctx, data, gz, where):
    try:
        return [m for m, _, _ in refwarc.parse_warc(data, gz)]
    except refwarc.Bad as e:
        ctx.expect(False, '%s: capture is not a valid archive: %s' % (where, e), data=data[-2000:])


def check_pair(ctx, resp, req, plan, ex, where, version='WARC/1.0', record_ip=True, times=None):
    """one recorded exchange against what the server saw"""
    ctx.equal((resp.rtype, req.rtype), ('response', 'request'), where + ': record types')
    for m in (resp, req):
        ctx.equal(m.version, version, where + ': version')
        ctx.equal(one(ctx, m, 'WARC-Target-URI', where), plan.url, where + ': target URI of the ' + m.rtype)
        ctx.equal(get(m, 'WARC-IP-Address'), [plan.ip] if record_ip else [], where + ': address in the ' + m.rtype)
        ctx.equal(get(m, 'WARC-Proxy-Host'), [plan.proxy_host] if plan.proxy_host else [], where + ': WARC-Proxy-Host of the ' + m.rtype)
        ctx.equal(one(ctx, m, 'Content-Type', where), 'application/http; msgtype=' + m.rtype, where + ': content type')
        ctx.equal(one(ctx, m, 'WARC-Block-Digest', where), refwarc.digest(m.block), where + ': block digest of the ' + m.rtype)
    ctx.equal(one(ctx, req, 'WARC-Date', where), one(ctx, resp, 'WARC-Date', where), where + ': dates of request and response')
    rid = one(ctx, resp, 'WARC-Record-ID', where)
    ctx.expect(rid != one(ctx, req, 'WARC-Record-ID', where), where + ': request and response have one id')
    ctx.equal(get(req, 'WARC-Concurrent-To'), [rid], where + ': WARC-Concurrent-To of the request')
    ctx.equal(get(resp, 'WARC-Concurrent-To'), [], where + ': WARC-Concurrent-To of the response')
    ctx.equal(one(ctx, resp, 'WARC-Payload-Digest', where), refwarc.digest(resp.block.split(b'\r\n\r\n', 1)[1]), where + ': payload digest of the response')
    ctx.equal(req.block, ex.raw, where + ': request as recorded and as the server received it')
    ctx.equal(resp.block, plan.head_raw + plan.raw_body, where + ': response as recorded and as the server sent it')
    ctx.ev('pairs_compared')
    ctx.ev('bytes_compared', len(req.block) + len(resp.block))


def expected_result(plan, res):
    """is this the result the prepared response must give"""
    if res[0] == 'error':
        return 'error %s' % (res,)
    if res[0] != plan.code:
        return 'status %r' % (res[0],)
    want = plan.content if plan.client.startswith(('requests', 'urllib3')) and plan.client != 'urllib' else plan.coded
    if plan.method == 'HEAD' or plan.framing == 'none':
        want = b''
    if res[3] != want:
        return 'content of %d bytes, not %d' % (len(res[3]), len(want))
    return None
