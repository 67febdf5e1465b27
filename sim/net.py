"""The simulated network: HTTP(S) and FTP servers in the process, reached through the socket seam.

The clients (requests/urllib3/http.client, ftplib) run their real code on simulated sockets. Every connection,
request, command and received block is an operation of the World, so it can fail, stall, be cut or crash the program.
Fault kinds (see World.op): refused, dns, timeout, reset, eof (connection ends early), status (the server answers with an
error status), html (a proxy's page instead of the resource), corrupt (one byte of the body differs), cut (the server
itself holds a shortened file)."""
import io, os, errno, socket, types, zlib
from . import world

NET = None
_real_cc = socket.create_connection
from .world import NETKINDS


def sim_create_connection(address, timeout=None, source_address=None, *a, **k):
    if world.W is None: return _real_cc(address, timeout, source_address, *a, **k)
    host, port = address[0], int(address[1])
    w = world.W
    if NET is None or not NET.knows(host, port):
        w.external.append(f"connect {host}:{port}")
        raise socket.gaierror(socket.EAI_NONAME, 'Name or service not known')
    v = w.op('connect', f'/net/{NET.label(host, port)}')
    if v is not None:
        if v[0] == 'dns': raise socket.gaierror(socket.EAI_AGAIN, 'Temporary failure in name resolution')
        if v[0] == 'timeout': raise TimeoutError(errno.ETIMEDOUT, 'Connection timed out')
        if v[0] == 'reset': raise ConnectionResetError(errno.ECONNRESET, 'Connection reset by peer')
        raise ConnectionRefusedError(errno.ECONNREFUSED, 'Connection refused')
    NET.connections += 1
    return NET.open(host, port)


class FakeRaw(io.RawIOBase):
    def __init__(self, s): self._s = s; s._refs += 1
    def readable(self): return True
    def writable(self): return True
    def readinto(self, b):
        d = self._s.recv(len(b))
        b[:len(d)] = d
        return len(d)
    def write(self, b): self._s.sendall(bytes(b)); return len(b)
    def close(self):
        if not self.closed: super().close(); self._s._unref()


class FakeSock:
    family, type, proto = socket.AF_INET, socket.SOCK_STREAM, 0
    def __init__(self, label, peer):
        self._label, self._peer = label, peer
        self._in = b''           # what the client can read
        self._refs = 0
        self._closed = False
        self._eof = True         # once _in is used up: end of stream
        self._timeout = None
    def settimeout(self, t): self._timeout = t
    def gettimeout(self): return self._timeout
    def setsockopt(self, *a): pass
    def getsockopt(self, *a): return 0
    def setblocking(self, f): pass
    def getpeername(self): return self._peer
    def getsockname(self): return ('127.0.0.1', 50000)
    def fileno(self): return -1
    def shutdown(self, how): pass
    def makefile(self, mode='r', buffering=None, *, encoding=None, errors=None, newline=None):
        raw = FakeRaw(self)
        if 'w' in mode and 'r' not in mode: buf = io.BufferedWriter(raw)
        else: buf = io.BufferedReader(raw, world.W.cfg.get('netbuf') or io.DEFAULT_BUFFER_SIZE)
        return buf if 'b' in mode else io.TextIOWrapper(buf, encoding, errors, newline)
    def recv(self, n, flags=0):
        w = world.W
        if w is None: return b''
        if not self._in and self._eof: return b''
        v = w.op('recv', f'/net/{self._label}')
        if v is not None:
            if v[0] == 'reset': self._drop(); raise ConnectionResetError(errno.ECONNRESET, 'Connection reset by peer')
            if v[0] == 'timeout': self._drop(); raise TimeoutError(errno.ETIMEDOUT, 'Connection timed out')
            self._drop(); return b''
        m = min(n, w.cfg.get('mss') or 1448)
        d, self._in = self._in[:m], self._in[m:]
        return d
    def recv_into(self, b, n=0, flags=0):
        d = self.recv(n or len(b)); b[:len(d)] = d; return len(d)
    def send(self, b, flags=0): self.sendall(b); return len(b)
    def sendall(self, b, flags=0):
        w = world.W
        if w is None: return
        v = w.op('send', f'/net/{self._label}')
        if v is not None: self._drop(); raise BrokenPipeError(errno.EPIPE, 'Broken pipe')
        self.got(bytes(b))
    def got(self, b): pass
    def _drop(self): self._in = b''; self._eof = True; self.dropped()
    def dropped(self): pass
    def close(self): self._closed = True
    def _unref(self): self._refs -= 1
    def __enter__(self): return self
    def __exit__(self, *a): self.close()
    def __del__(self): pass


class HttpSock(FakeSock):
    def __init__(self, site, label, peer):
        super().__init__(label, peer)
        self.site, self.req = site, b''
    def got(self, b):
        self.req += b
        if b'\r\n\r\n' not in self.req: return
        head, _, self.req = self.req.partition(b'\r\n\r\n')
        line = head.split(b'\r\n')[0].decode('latin-1')
        method, target, _ = line.split(' ', 2)
        self.site.log.append((method, target))
        w = world.W
        v = w.op('http', f'/net/{self._label}{target.partition("?")[0]}')
        status, ctype, body = self.site.serve(method, target)
        how = 'length'
        if v is not None:
            k, arg = v
            if k == 'status': status, ctype, body = (500, 502, 503, 429, 404, 403)[int(arg * 6) % 6], 'text/html; charset=utf-8', b'<html><body>Sorry</body></html>'
            elif k == 'html': status, ctype, body = 200, 'text/html; charset=utf-8', b'<html><body>Please log in to this network</body></html>'
            elif k == 'corrupt' and body:
                i = min(len(body) - 1, int(arg * len(body)))
                body = body[:i] + bytes([body[i] ^ (1 << (i % 8))]) + body[i + 1:]
            elif k == 'cut': body = body[:int(arg * len(body))]
            elif k in ('reset', 'refused', 'eof', 'timeout', 'dns'): self._in = b''; self._eof = True; return
        reason = {200: 'OK', 404: 'Not Found', 403: 'Forbidden', 429: 'Too Many Requests', 500: 'Internal Server Error', 502: 'Bad Gateway', 503: 'Service Unavailable'}.get(status, 'X')
        h = f'HTTP/1.1 {status} {reason}\r\nServer: sim\r\n'
        if ctype: h += f'Content-Type: {ctype}\r\n'
        if w.cfg.get('chunked'):
            n = w.cfg['chunked']
            out = b''.join(b'%x\r\n%s\r\n' % (len(body[i:i + n]), body[i:i + n]) for i in range(0, len(body), n)) + b'0\r\n\r\n'
            h += 'Transfer-Encoding: chunked\r\n'
        else: out = body; h += f'Content-Length: {len(body)}\r\n'
        self._in += (h + 'Connection: close\r\n\r\n').encode('latin-1') + out


class FtpData(FakeSock):
    def __init__(self, ctl, label, peer):
        super().__init__(label, peer)
        self.ctl = ctl
    def dropped(self): self.ctl.aborted = True


class FtpSock(FakeSock):
    """A control connection. site.tree: {absolute path: bytes}; folders are implied."""
    def __init__(self, site, label, peer):
        super().__init__(label, peer)
        self.site, self.cmd, self.cwd, self.data, self.aborted = site, b'', '/', None, False
        self._eof = False
        self.pending = None
        self.say('220 Simulated FTP server ready.')
    def say(self, s): self._in += (s + '\r\n').encode('utf-8')
    def recv(self, n, flags=0):
        if not self._in and self.pending is not None:           # the end of a transfer is announced when the client asks
            self.say('426 Connection closed; transfer aborted.' if self.aborted else '226 Transfer complete.')
            self.pending = None; self.aborted = False
        return super().recv(n)
    def abspath(self, p):
        p = p if p.startswith('/') else self.cwd.rstrip('/') + '/' + p
        return os.path.normpath(p)
    def isdir(self, p): return p == '/' or any(q.startswith(p.rstrip('/') + '/') for q in self.site.tree)
    def dropped(self): self._eof = True
    def got(self, b):
        self.cmd += b
        while b'\n' in self.cmd:
            line, _, self.cmd = self.cmd.partition(b'\n')
            self.one(line.decode('utf-8').rstrip('\r'))
    def one(self, line):
        c, _, arg = line.partition(' ')
        c = c.upper()
        self.site.log.append((c, arg))
        p = self.abspath(arg)
        v = world.W.op('ftp', f'/net/{self._label}/{c}{p if c in ("RETR", "MLSD", "CWD", "LIST", "NLST", "SIZE") else ""}')
        if v is not None:
            k, a = v
            if k == 'status':
                if int(a * 4) % 2: self.say('550 Requested action not taken.')
                else: self.say('421 Service not available, closing control connection.'); self._eof = True
                return
            if k not in ('corrupt', 'cut', 'html'): self._in = b''; self._eof = True; return
        if c == 'USER': self.say('331 Please specify the password.')
        elif c == 'PASS': self.say('230 Login successful.')
        elif c == 'CWD':
            if self.isdir(p): self.cwd = p; self.say('250 Directory successfully changed.')
            else: self.say('550 Failed to change directory.')
        elif c in ('TYPE', 'OPTS', 'NOOP', 'MODE', 'STRU'): self.say('200 OK.')
        elif c == 'PWD': self.say(f'257 "{self.cwd}"')
        elif c == 'PASV':
            port = NET.dataport(self)
            self.say(f'227 Entering Passive Mode (127,0,0,1,{port >> 8},{port & 255}).')
        elif c == 'EPSV': self.say(f'229 Entering Extended Passive Mode (|||{NET.dataport(self)}|)')
        elif c == 'SIZE':
            if p in self.site.tree: self.say(f'213 {len(self.site.tree[p])}')
            else: self.say('550 Could not get file size.')
        elif c in ('RETR', 'MLSD', 'LIST', 'NLST'):
            if self.data is None: self.say('425 Use PASV first.'); return
            if c == 'RETR':
                if p not in self.site.tree: self.say('550 Failed to open file.'); return
                body = self.site.tree[p]
            else:
                if not self.isdir(p): self.say('550 Not a directory.'); return
                body = self.listing(p, c)
            self.data._in = body
            self.data, self.pending = None, True
            self.say('150 Opening data connection.')
        elif c == 'QUIT': self.say('221 Goodbye.'); self._eof = True
        else: self.say('502 Command not implemented.')
    def listing(self, p, c):
        pre = p.rstrip('/') + '/'
        names = {}
        for q, b in self.site.tree.items():
            if q.startswith(pre):
                n, sep, _ = q[len(pre):].partition('/')
                names[n] = None if sep else len(b)
        order = sorted(names)
        if self.site.shuffle is not None: self.site.shuffle(order)
        if c == 'NLST': return ''.join(f'{n}\r\n' for n in order).encode()
        out = ['type=cdir;perm=el; .', 'type=pdir;perm=el; ..'] if c == 'MLSD' else []
        for n in order:
            if c == 'MLSD': out.append(f'type=dir;perm=el; {n}' if names[n] is None else f'type=file;size={names[n]};perm=r; {n}')
            else: out.append(f'{"d" if names[n] is None else "-"}rw-r--r-- 1 ftp ftp {names[n] or 0:>12} Jan 01 00:00 {n}')
        return ''.join(x + '\r\n' for x in out).encode()


class Site:
    """kind 'http': `handler(method, target) -> (status, content type, bytes)`; kind 'ftp': `tree`."""
    def __init__(self, kind, handler=None, tree=None, shuffle=None):
        self.kind, self.handler, self.tree, self.shuffle = kind, handler, tree or {}, shuffle
        self.log = []
    def serve(self, method, target): return self.handler(method, target)


class Net:
    def __init__(self, sites):
        self.sites = {h.lower(): s for h, s in sites.items()}
        self.ports, self.nextport, self.connections = {}, 40000, 0
    def knows(self, host, port): return port in self.ports or host.lower() in self.sites
    def label(self, host, port): return f'data' if port in self.ports else host.lower()
    def dataport(self, ctl):
        self.nextport += 1
        d = FtpData(ctl, ctl._label + '/data', ('127.0.0.1', self.nextport))
        ctl.data = d
        self.ports[self.nextport] = d
        return self.nextport
    def open(self, host, port):
        if port in self.ports: return self.ports.pop(port)
        s = self.sites[host.lower()]
        peer = ('127.0.0.1', port)
        return (FtpSock if s.kind == 'ftp' else HttpSock)(s, host.lower(), peer)


def start(sites):
    """Call inside a simulated process: from now on these are the servers of the world."""
    global NET
    import http.client, urllib3.connection, urllib3.util.connection, requests.adapters
    socket.create_connection = sim_create_connection
    socket.getaddrinfo = _no_lookup
    urllib3.util.connection.create_connection = lambda address, *a, **k: sim_create_connection(address)
    def connect(self):
        self.sock = self._new_conn()
        self.is_verified = True
    urllib3.connection.HTTPSConnection.connect = connect
    http.client.HTTPSConnection.connect = http.client.HTTPConnection.connect
    http.client.HTTPConnection.__init__.__kwdefaults__ and None
    NET = Net(sites)
    return NET


_real_gai = socket.getaddrinfo
def _no_lookup(host, *a, **k):
    if world.W is None: return _real_gai(host, *a, **k)
    raise socket.gaierror(socket.EAI_NONAME, 'Name or service not known')
