"""
Network seam: a simulated TCP and HTTP server below the real requests/urllib3/http.client stack.

`socket.socket` and `socket.getaddrinfo` are replaced (in the simulated process only); everything above
them is the real code. A response is a byte stream, delivered in seeded pieces; a fault plan decides which
connections are refused, reset or cut off after how many bytes, and which requests are answered with an
error status instead.
"""
import gzip
import io
import random
import socket
import zlib

KINDS = ['refuse', 'dns', 'reset', 'trunc', 'status', 'slow', 'unreach', 'redirectloop']
REASON = {200: 'OK', 301: 'Moved Permanently', 302: 'Found', 303: 'See Other', 307: 'Temporary Redirect', 308: 'Permanent Redirect',
          400: 'Bad Request', 401: 'Unauthorized', 403: 'Forbidden', 404: 'Not Found', 410: 'Gone', 416: 'Range Not Satisfiable',
          429: 'Too Many Requests', 500: 'Internal Server Error', 502: 'Bad Gateway', 503: 'Service Unavailable', 504: 'Gateway Timeout'}
_real = {'socket': socket.socket, 'getaddrinfo': socket.getaddrinfo}


def resp(body=b'', status=200, ctype=None, headers=(), framing='length', encoding=None, declared=True):
    return dict(body=body, status=status, ctype=ctype, headers=list(headers), framing=framing, encoding=encoding)


class Net:
    def __init__(self, routes, faults=(), seed=1, pieces='mixed', clock=None):
        # routes: url -> response dict or list of them (successive requests; the last one repeats)
        self.routes = {k: v if isinstance(v, list) else [v] for k, v in routes.items()}
        self.faults = [dict(f) for f in faults]
        self.rng = random.Random('net%r' % (seed,))
        self.pieces = pieces
        self.log = []           # (method, url, status or failure, bytes delivered)
        self.fired = {}
        self.nconn = 0
        self.nreq = 0
        self.hits = {}
        self.open = set()
        self.clock = clock      # SimFS, to let time pass

    # -- the parts of the socket module ------------------------------------------------------
    def install(self):
        net = self

        class Sock(FakeSocket):
            def __init__(self, family=socket.AF_INET, type=socket.SOCK_STREAM, proto=0, fileno=None):
                FakeSocket.__init__(self, net)
        socket.socket = Sock
        socket.getaddrinfo = self.getaddrinfo

    def getaddrinfo(self, host, port, family=0, type=0, proto=0, flags=0):
        host = host.decode() if isinstance(host, bytes) else host
        self.nconn += 1
        if self.fault_conn('dns', self.nconn):
            self.log.append(('CONNECT', host, 'dns', 0))
            raise socket.gaierror(socket.EAI_AGAIN, 'Temporary failure in name resolution')
        return [(socket.AF_INET, socket.SOCK_STREAM, 6, '', (host, int(port or 80)))]

    def fault_conn(self, kind, n):
        for f in self.faults:
            if f['kind'] == kind and f['req'] <= n < f['req'] + f.get('times', 1):
                self.fire(kind)
                return f

    def fire(self, kind):
        k = 'NET_' + kind.upper()
        self.fired[k] = self.fired.get(k, 0) + 1

    def sleep(self, ns):
        if self.clock is not None:
            self.clock.set_now(self.clock.now() + int(ns))

    # -- server ------------------------------------------------------------------------------
    def respond(self, method, url):
        """-> list of (bytes) pieces, and an exception which ends the stream (or None)"""
        self.nreq += 1
        n = self.nreq
        self.sleep(self.rng.choice([1, 20, 300]) * 10**6)
        rs = self.routes.get(url)
        k = self.hits.get((method, url), 0)
        self.hits[method, url] = k + 1
        if rs is None:
            r = resp(b'<html><body><h1>Not Found</h1></body></html>', 404, 'text/html')
        else:
            r = rs[min(k, len(rs) - 1)]
        if callable(r):
            r = r(method, url)
        f = self.fault_conn('status', n)
        if f:
            r = resp(f.get('body', '<html><head><title>Error</title></head><body>a,b\n1,2\n</body></html>').encode('utf8'), f['code'],
                     f.get('ctype', 'text/html'))
        body = r['body']
        head = ['HTTP/1.1 %d %s' % (r['status'], REASON.get(r['status'], 'X'))]
        if r['ctype']:
            head.append('Content-Type: ' + r['ctype'])
        if r['encoding'] == 'gzip' and body:
            body = gzip.compress(body, mtime=0)
            head.append('Content-Encoding: gzip')
        elif r['encoding'] == 'deflate' and body:
            body = zlib.compress(body)
            head.append('Content-Encoding: deflate')
        head.extend('%s: %s' % (a, b) for a, b in r['headers'])
        bodyless = method == 'HEAD' or r['status'] in (204, 304)
        if r['framing'] == 'chunked':
            head.append('Transfer-Encoding: chunked')
            out, i = [], 0
            while i < len(body):
                m = self.rng.choice([1, 2, 7, 100, 1000, 5000])
                c = body[i:i + m]
                out.append(b'%x%s\r\n%s\r\n' % (len(c), b';x=y' if self.rng.random() < .1 else b'', c))
                i += m
            body = b''.join(out) + b'0\r\n\r\n'
        elif r['framing'] == 'length':
            head.append('Content-Length: %d' % len(body))
        head.append('Connection: close')
        head = ('\r\n'.join(head) + '\r\n\r\n').encode('latin-1')
        stream = head + (b'' if bodyless else body)
        end, what = None, r['status']
        f = self.fault_conn('reset', n)
        if f:
            stream = stream[:int(f['at'] * len(stream))]
            end, what = ConnectionResetError(104, 'Connection reset by peer'), 'reset'
        f = None if bodyless or r['framing'] == 'close' or len(body) < 2 else self.fault_conn('trunc', n)
        if f:
            # cut off within the body: a cut within the headers looks like a complete empty answer to http.client
            stream = stream[:len(head) + int(f['at'] * (len(body) - (5 if r['framing'] == 'chunked' else 0)))]
            what = 'trunc'
        if self.fault_conn('slow', n):
            self.sleep(3600 * 10**9)
        pieces, i = [], 0
        style = self.pieces if self.pieces != 'mixed' else self.rng.choice(['big', 'bytes', 'small', 'random'])
        while i < len(stream):
            m = {'big': 65536, 'bytes': 1, 'small': self.rng.randint(1, 9), 'random': self.rng.randint(1, 1500)}[style]
            if style == 'bytes' and i > 3000:
                m = 500
            pieces.append(stream[i:i + m])
            i += m
        self.log.append((method, url, what, len(stream)))
        return pieces, end


class FakeSocket:
    def __init__(self, net):
        self.net = net
        self.peer = None
        self.sent = b''
        self.queue, self.end = None, None
        self.closed = False
        self.refs = 0
        net.open.add(self)

    def connect(self, sa):
        self.peer = sa
        net = self.net
        net.sleep(10**7)
        for kind, exc in [('refuse', ConnectionRefusedError(111, 'Connection refused')),
                          ('unreach', OSError(113, 'No route to host'))]:
            if net.fault_conn(kind, net.nconn):
                net.log.append(('CONNECT', sa[0], kind, 0))
                raise exc

    def sendall(self, data, flags=0):
        if self.closed:
            raise OSError(9, 'Bad file descriptor')
        self.sent += bytes(data)
        if b'\r\n\r\n' in self.sent:
            head, self.sent = self.sent.split(b'\r\n\r\n', 1)
            lines = head.decode('latin-1').split('\r\n')
            method, target, _ = lines[0].split(' ')
            hs = dict(x.split(': ', 1) for x in lines[1:] if ': ' in x)
            host = {k.lower(): v for k, v in hs.items()}.get('host', self.peer[0])
            self.queue, self.end = self.net.respond(method, 'http://' + host + target)

    def send(self, data, flags=0):
        self.sendall(data)
        return len(data)

    def recv_into(self, buf, nbytes=0, flags=0):
        buf = memoryview(buf).cast('B')
        n = nbytes or len(buf)
        if not self.queue:
            if self.end is not None:
                self.net.fire('reset_delivered')
                raise self.end
            return 0
        p = self.queue[0]
        m = min(n, len(p))
        buf[:m] = p[:m]
        if m == len(p):
            self.queue.pop(0)
        else:
            self.queue[0] = p[m:]
        return m

    def recv(self, n, flags=0):
        b = bytearray(n)
        return bytes(b[:self.recv_into(b, n)])

    def makefile(self, mode='r', buffering=None, *, encoding=None, errors=None, newline=None):
        self.refs += 1
        raw = _Raw(self)
        if 'w' in mode and 'r' not in mode:
            return io.BufferedWriter(raw)
        if buffering == 0:
            return raw
        buf = io.BufferedReader(raw, buffering if buffering and buffering > 0 else io.DEFAULT_BUFFER_SIZE)
        return buf if 'b' in mode else io.TextIOWrapper(buf, encoding, errors, newline)

    def _unref(self):
        self.refs -= 1
        if self.closed and self.refs <= 0:
            self.net.open.discard(self)

    def close(self):
        self.closed = True
        if self.refs <= 0:
            self.net.open.discard(self)

    def detach(self):
        self.close()
        return -1

    def shutdown(self, how):
        pass

    def settimeout(self, t):
        pass

    def gettimeout(self):
        return None

    def setblocking(self, b):
        pass

    def setsockopt(self, *args):
        pass

    def getsockopt(self, *args):
        return 0

    def getpeername(self):
        return self.peer

    def getsockname(self):
        return ('10.0.0.1', 40000)

    def bind(self, a):
        pass

    def fileno(self):
        return -1

    def __enter__(self):
        return self

    def __exit__(self, *args):
        self.close()


class _Raw(io.RawIOBase):
    def __init__(self, sock):
        self.sock = sock

    def readable(self):
        return True

    def writable(self):
        return True

    def readinto(self, b):
        return self.sock.recv_into(b)

    def write(self, b):
        self.sock.sendall(b)
        return len(b)

    def close(self):
        if not self.closed:
            io.RawIOBase.close(self)
            self.sock._unref()


# -- generation ------------------------------------------------------------------------------
ERROR_CODES = [400, 401, 403, 404, 410, 429, 500, 502, 503, 504]


def delivery(r):
    """How a document is delivered."""
    return {'framing': r.choice(['length', 'length', 'chunked', 'close']), 'encoding': r.choice([None, None, None, 'gzip', 'deflate']),
            'pieces': r.choice(['big', 'bytes', 'small', 'random', 'mixed']), 'seed': r.randint(0, 10**6)}


def fault(r, nreq=3, kinds=None):
    kind = r.choice(kinds or ['refuse', 'dns', 'unreach', 'reset', 'reset', 'trunc', 'trunc', 'trunc', 'status', 'status'])
    f = {'kind': kind, 'req': r.randint(1, max(1, nreq))}
    if kind in ('reset', 'trunc'):
        f['at'] = round(r.random() * .999, 3)
    if kind == 'status':
        f['code'] = r.choice(ERROR_CODES)
        f['body'], f['ctype'] = r.choice([
            ('<html>Error</html>', 'text/html'), ('a,b\r\n1,2\r\n', 'text/csv'), ('{"error": "x"}', 'application/json'), ('', 'text/plain')])
    if r.random() < .2:
        f['times'] = 100
    return f
