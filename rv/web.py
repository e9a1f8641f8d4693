"""A small internet on the loopback interface: http, https and ftp servers.

Every host name of the case resolves to it; nothing leaves the machine.
`Web.pages` maps (host, path) to Page or to a function of the request.
"""
import collections
import contextlib
import http.server
import os
import posixpath
import re
import socket
import socketserver
import ssl
import threading
import time
import urllib.parse
import urllib.request

PEM = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'web.pem')
Request = collections.namedtuple('Request', 'scheme method host path query headers body')


class Page:
    """a response; fault: truncate | stall | reset"""
    def __init__(self, body=b'', status=200, headers=(), fault=None, mtime=None,
            chunked=False, length=True):
        self.body = body.encode() if isinstance(body, str) else body
        self.status, self.headers, self.fault = status, dict(headers), fault
        self.mtime, self.chunked, self.length = mtime, chunked, length


class Handler(http.server.BaseHTTPRequestHandler):
    protocol_version = 'HTTP/1.1'
    timeout = 20

    def log_message(self, *a):
        pass

    def serve(self):
        web = self.server.web
        n = int(self.headers.get('Content-Length') or 0)
        body = self.rfile.read(n) if n else b''
        url = urllib.parse.urlsplit(self.path)
        host = (self.headers.get('Host') or '').split(':')[0]
        r = Request(self.server.scheme, self.command, host,
            urllib.parse.unquote(url.path), url.query, {k.lower(): v
            for k, v in self.headers.items()}, body)
        with web.lock:
            web.log.append(r)
        page = web.pages.get((host, r.path))
        if callable(page):
            page = page(r)
        if page is None:
            page = Page('missing', 404)
        self.send_response(page.status)
        for k, v in page.headers.items():
            self.send_header(k, v)
        self.close_connection = True
        self.send_header('Connection', 'close')
        if page.chunked:
            self.send_header('Transfer-Encoding', 'chunked')
        elif page.length:
            self.send_header('Content-Length', str(len(page.body)))
        self.end_headers()
        data = page.body
        if page.fault:
            data = data[:web.cut(len(data))]
        if page.chunked:
            for i in range(0, len(data), 700):
                b = data[i:i+700]
                self.wfile.write(b'%x\r\n%s\r\n' % (len(b), b))
            if not page.fault:
                self.wfile.write(b'0\r\n\r\n')
        else:
            self.wfile.write(data)
        self.wfile.flush()
        if page.fault == 'stall':
            web.wake.wait(10)
        elif page.fault == 'reset':
            self.connection.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER,
                b'\x01\x00\x00\x00\x00\x00\x00\x00')

    do_GET = do_POST = do_HEAD = do_PUT = do_DELETE = serve


class Server(http.server.ThreadingHTTPServer):
    daemon_threads = True
    allow_reuse_address = True

    def handle_error(self, request, address):
        pass


class FTP(socketserver.StreamRequestHandler):
    """commands that ftplib uses to list and retrieve"""
    def reply(self, s):
        self.wfile.write((s+'\r\n').encode())
        self.wfile.flush()

    def data(self):
        s = self.listener
        s.settimeout(5)
        conn, _ = s.accept()
        s.close()
        return conn

    def handle(self):
        web = self.server.web
        self.connection.settimeout(20)
        self.listener, user, ready = None, None, False
        try:
            self.reply('220 ready')
            while True:
                line = self.rfile.readline()
                if not line:
                    break
                cmd, _, arg = line.decode().strip().partition(' ')
                cmd = cmd.upper()
                with web.lock:
                    web.log.append(Request('ftp', cmd, '', arg, '', {}, b''))
                path = '/'+arg.strip('/')
                page = web.ftp.get(path)
                if cmd == 'USER':
                    user = arg
                    self.reply('331 password')
                elif cmd == 'PASS':
                    good = web.ftpuser is None or (user, arg) == web.ftpuser
                    ready = good
                    self.reply('230 in' if good else '530 denied')
                elif cmd == 'QUIT':
                    self.reply('221 bye')
                    break
                elif not ready:
                    self.reply('530 please login first')
                elif cmd in ('TYPE', 'NOOP', 'CWD'):
                    self.reply('200 ok')
                elif cmd in ('PASV', 'EPSV'):
                    self.listener = socket.create_server(('127.0.0.1', 0))
                    p = self.listener.getsockname()[1]
                    self.reply(f'227 Entering ({",".join("127.0.0.1".split("."))},{p//256},{p%256})'
                        if cmd == 'PASV' else f'229 Entering (|||{p}|)')
                elif cmd == 'MDTM':
                    if page is None or page.mtime is None:
                        self.reply('550 missing')
                    else:
                        self.reply('213 '+time.strftime('%Y%m%d%H%M%S', time.gmtime(page.mtime)))
                elif cmd == 'NLST':
                    # files and folders, in the order of the files
                    top = path.rstrip('/')+'/'
                    names = list(dict.fromkeys(top+f[len(top):].split('/')[0]
                        for f in web.ftp if f.startswith(top)))
                    conn = self.data()
                    self.reply('150 list')
                    pre = '' if arg.startswith('/') else '/'
                    conn.sendall(''.join(f[len(pre):]+'\r\n' for f in names).encode())
                    conn.close()
                    self.reply('226 done')
                elif cmd == 'RETR':
                    conn = self.data()
                    if page is None:
                        conn.close()
                        self.reply('550 missing')
                        continue
                    self.reply('150 data')
                    if page.fault == 'stall':
                        conn.sendall(page.body[:web.cut(len(page.body))])
                        web.wake.wait(10)
                        conn.close()
                        break
                    if page.fault:
                        conn.sendall(page.body[:web.cut(len(page.body))])
                        conn.close()
                        if page.fault == 'reset':
                            break
                        self.reply('426 aborted')
                        continue
                    conn.sendall(page.body)
                    conn.close()
                    self.reply('226 done')
                else:
                    self.reply('502 unknown')
        except OSError:
            pass


class FTPServer(socketserver.ThreadingTCPServer):
    daemon_threads = True
    allow_reuse_address = True

    def handle_error(self, request, address):
        pass


class Web:
    def __init__(self):
        self.pages, self.ftp, self.log = {}, {}, []
        self.ftpuser = None
        self.lock, self.wake = threading.Lock(), threading.Event()
        self.cut = lambda n: n//2
        self.unreachable = set()
        self.servers = []
        for scheme, cls, h in (('http', Server, Handler), ('https', Server, Handler),
                ('ftp', FTPServer, FTP)):
            s = cls(('127.0.0.1', 0), h)
            s.web, s.scheme = self, scheme
            if scheme == 'https':
                ctx = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER)
                ctx.load_cert_chain(PEM)
                s.socket = ctx.wrap_socket(s.socket, server_side=True,
                    do_handshake_on_connect=False)
            self.servers.append(s)
            threading.Thread(target=s.serve_forever, args=(.05,), daemon=True).start()
        self.ports = {k: s.server_address[1] for k, s in zip((80, 443, 21), self.servers)}

    def clear(self):
        self.pages.clear()
        self.ftp.clear()
        self.log.clear()
        self.unreachable.clear()
        self.ftpuser = None
        self.wake.clear()

    def put(self, url, page):
        u = urllib.parse.urlsplit(url)
        self.pages[(u.hostname, urllib.parse.unquote(u.path))] = page

    @contextlib.contextmanager
    def internet(self):
        """host names lead to the servers; openers are forgotten afterwards"""
        real = socket.create_connection

        def connect(address, *a, **kw):
            host, port = address
            if host in self.unreachable:
                raise socket.gaierror(-2, 'Name or service not known')
            return real(('127.0.0.1', self.ports.get(port, port)), *a, **kw)
        socket.create_connection = connect
        keep = os.environ.get('SSL_CERT_FILE')
        os.environ['SSL_CERT_FILE'] = PEM
        urllib.request.install_opener(None)
        try:
            yield self
        finally:
            self.wake.set()
            socket.create_connection = real
            if keep is None:
                os.environ.pop('SSL_CERT_FILE', None)
            else:
                os.environ['SSL_CERT_FILE'] = keep
            urllib.request.install_opener(None)
