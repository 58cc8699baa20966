"""A small HTTP server, independent of http.client and http.server, that plays prepared responses byte by byte
and logs every exchange it saw (raw request bytes, raw response bytes, connection)."""
import os
import re
import socket
import ssl
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
CERT = os.path.join(HERE, 'data', 'cert.pem')
KEY = os.path.join(HERE, 'data', 'key.pem')
TOKEN = re.compile(rb'/x(\d+)')
HEADER = re.compile(rb'\r\nx-token: (\d+)', re.I)


def token_of(head):
    m = TOKEN.search(head.split(b'\r\n')[0]) or HEADER.search(head)
    return int(m.group(1)) if m else None


class Exchange(object):
    def __init__(self, token, conn, head, body_raw, body):
        self.token = token
        self.conn = conn            # (server port, peer address)
        self.head = head            # raw head of the request
        self.raw = head + body_raw  # raw bytes of the request
        self.body = body            # body, transfer coding removed
        self.sent = b''             # raw bytes of the response


class Server(object):
    """listens on 127.0.0.1, ::1 and with TLS on 127.0.0.1; also answers as a proxy (absolute URLs, CONNECT)"""
    def __init__(self):
        self.plans = {}
        self.log = []
        self.connects = []
        self.lock = threading.Lock()
        self.stopped = False
        self.ctx = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER)
        self.ctx.load_cert_chain(CERT, KEY)
        self.socks = []
        self.port = self._listen(socket.AF_INET, '127.0.0.1', False)
        try:
            self.port6 = self._listen(socket.AF_INET6, '::1', False)
        except OSError:
            self.port6 = None
        self.tls_port = self._listen(socket.AF_INET, '127.0.0.1', True)

    def _listen(self, family, host, tls):
        s = socket.socket(family, socket.SOCK_STREAM)
        s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        s.bind((host, 0))
        s.listen(128)
        self.socks.append(s)
        threading.Thread(target=self._accept, args=(s, tls), daemon=True).start()
        return s.getsockname()[1]

    def close(self):
        self.stopped = True
        for s in self.socks:
            s.close()

    def _accept(self, s, tls):
        while not self.stopped:
            try:
                c, addr = s.accept()
            except OSError:
                return
            threading.Thread(target=self._serve, args=(c, addr, s.getsockname()[1] if not self.stopped else 0, tls), daemon=True).start()

    def _serve(self, c, addr, port, tls):
        try:
            c.settimeout(60)
            c.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
            if tls:
                c = self.ctx.wrap_socket(c, server_side=True)
            conn = (port,) + tuple(addr[:2])
            buf = b''
            while True:
                while b'\r\n\r\n' not in buf:
                    d = c.recv(65536)
                    if not d:
                        return
                    buf += d
                head, _, buf = buf.partition(b'\r\n\r\n')
                head += b'\r\n\r\n'
                if head.startswith(b'CONNECT '):
                    with self.lock:
                        self.connects.append((conn, head))
                    c.sendall(b'HTTP/1.1 200 Connection established\r\nX-Proxy: yes\r\n\r\n')
                    if head.split(b' ')[1].endswith((b':443', b':8443')):
                        c = self.ctx.wrap_socket(c, server_side=True)
                    continue
                raw, body, buf = self._body(c, head, buf)
                token = token_of(head)
                ex = Exchange(token, conn, head, raw, body)
                plan = self.plans.get(token) or {'parts': [b'HTTP/1.1 599 no plan\r\nContent-Length: 0\r\n\r\n']}
                with self.lock:
                    self.log.append(ex)
                for part in plan['parts']:
                    if isinstance(part, float):
                        time.sleep(part)
                        continue
                    if callable(part):
                        part()
                        continue
                    ex.sent += part
                    c.sendall(part)
                if plan.get('close'):
                    return
        except (OSError, ssl.SSLError):
            pass
        finally:
            try:
                if plan_reset(locals()):
                    c.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, b'\1\0\0\0\0\0\0\0')
            except Exception:
                pass
            try:
                c.close()
            except OSError:
                pass

    def _body(self, c, head, buf):
        h = {}
        for line in head.split(b'\r\n')[1:]:
            n, _, v = line.partition(b':')
            h[n.strip().lower()] = v.strip()

        def need(n):
            nonlocal buf
            while len(buf) < n:
                d = c.recv(65536)
                if not d:
                    raise OSError('request cut off')
                buf += d
        if h.get(b'transfer-encoding', b'').lower() == b'chunked':
            pos = 0
            body = []
            while True:
                while buf.find(b'\r\n', pos) < 0:
                    need(len(buf) + 1)
                e = buf.find(b'\r\n', pos)
                n = int(buf[pos:e].split(b';')[0], 16)
                need(e + 2 + n + 2)
                body.append(buf[e + 2:e + 2 + n])
                pos = e + 2 + n + 2
                if not n:
                    return buf[:pos], b''.join(body), buf[pos:]
        n = int(h.get(b'content-length', b'0'))
        need(n)
        return buf[:n], buf[:n], buf[n:]

    # ------------------------------------------------------------ use by one case
    def plan(self, token, parts, close=False, reset=False):
        self.plans[token] = {'parts': parts, 'close': close or reset, 'reset': reset}

    def exchanges(self, tokens):
        with self.lock:
            return [e for e in self.log if e.token in tokens]

    def forget(self, tokens):
        with self.lock:
            self.log = [e for e in self.log if e.token not in tokens]
        for t in tokens:
            self.plans.pop(t, None)


def plan_reset(loc):
    p = loc.get('plan')
    return bool(p and p.get('reset'))
