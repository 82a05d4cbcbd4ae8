"""Helpers of the demonstrations: builds the application from /repo (cwd) into a scratch
directory (update cache, release address and everything it writes are inside of it), writes
vaults, runs commands on a pseudo terminal. Everything is removed at the end."""
import atexit, fcntl, http.server, json, os, pty, re, select, shutil, signal, socketserver, struct, subprocess, sys, tempfile, termios, threading, time
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.getcwd()
S = tempfile.mkdtemp(prefix='demo.', dir='/var/tmp')
atexit.register(lambda: shutil.rmtree(S, ignore_errors=True))
GOENV = dict(os.environ, GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod', GOMODCACHE='/root/go/pkg/mod', GOCACHE=os.environ.get('GOCACHE', '/root/.cache/go-build'), HOME=os.environ.get('HOME', '/root'), PATH='/usr/local/bin:/usr/local/go/bin:' + os.environ.get('PATH', ''))
HOME = S + '/home'; os.makedirs(HOME)
APP = S + '/bin/1pass'

def build(port=1, more=None):
    st = REPO + '/1pass-core/core/domain/static.go'
    t = open(st).read()
    t = t.replace('https://api.github.com/repos/mashmb/1pass/releases', 'http://127.0.0.1:%d/releases' % port).replace('"/tmp/1pass"', '"%s/cache"' % S)
    open(S + '/static.go', 'w').write(t)
    ov = {st: S + '/static.go'}
    ov.update(more or {})
    json.dump({'Replace': ov}, open(S + '/ov.json', 'w'))
    os.makedirs(S + '/bin', exist_ok=True)
    shutil.copy(REPO + '/1pass-app/go.mod', S + '/app.mod'); shutil.copy(REPO + '/1pass-app/go.sum', S + '/app.sum')
    m = open(S + '/app.mod').read()
    m = re.sub(r'=>\s+\.\./', '=> ' + REPO + '/', m)
    open(S + '/app.mod', 'w').write(m)
    subprocess.run(['go', 'build', '-overlay', S + '/ov.json', '-modfile', S + '/app.mod', '-o', APP, '.'], cwd=REPO + '/1pass-app', env=GOENV, check=True)

def vault(path, password, items):
    spec = {'password': password, 'items': items}
    subprocess.run(['go', 'run', HERE + '/mkvault.go', path], input=json.dumps(spec).encode(), cwd=S, env=GOENV, check=True)

def item(uid, category='001', title='', url='', details=None, trashed=None, band=0, created=1000, updated=2000):
    o = {}
    if title: o['title'] = title
    if url: o['url'] = url
    return dict(uid=uid, category=category, created=created, updated=updated, trashed=trashed, overview=o, details=details or {}, band=band)

def login(u, p): return [dict(name='username', value=u, type='T', designation='username'), dict(name='password', value=p, type='P', designation='password')]
def section(title, *fs): return dict(name=title, title=title, fields=[dict(k=k, n=t, t=t, v=v) for k, t, v in fs])

def config(vault='', notify=True, period=1, timeout=1):
    d = HOME + '/.config/1pass'; os.makedirs(d, exist_ok=True)
    open(d + '/1pass.yml', 'w').write('opvault: %s\ntimeout: %d\nupdate-notification: %s\nupdate-period: %d\n' % (json.dumps(vault), timeout, 'true' if notify else 'false', period))

class Term:
    """A process on a pseudo terminal with a small screen emulation."""
    def __init__(self, *args, w=100, h=30, app=None):
        self.w, self.h = w, h
        self.rows = [[' '] * w for _ in range(h)]; self.x = self.y = 0; self.rev = False
        self.raw = b''; self.pend = ''
        self.pid, self.fd = pty.fork()
        if self.pid == 0:
            os.chdir(HOME)
            os.execve(app or APP, ['1pass'] + list(args), {'HOME': HOME, 'TERM': 'xterm', 'PATH': '/usr/bin:/bin', 'TZ': 'UTC', 'LC_ALL': 'C.UTF-8'})
        fcntl.ioctl(self.fd, termios.TIOCSWINSZ, struct.pack('HHHH', h, w, 0, 0))
        self.code = None
        atexit.register(self.kill)
    def pump(self, t=0.5):
        """read until nothing has come for t seconds or the process ended"""
        while True:
            r, _, _ = select.select([self.fd], [], [], t)
            if not r: return True
            try: b = os.read(self.fd, 65536)
            except OSError: b = b''
            if not b:
                if self.code is None: self.code = os.waitstatus_to_exitcode(os.waitpid(self.pid, 0)[1])
                return False
            self.raw += b; self.feed(b.decode('utf8', 'replace'))
    def until(self, text, t=15):
        end = time.time() + t
        while time.time() < end:
            alive = self.pump(0.1)
            if text in self.text() or text in self.raw.decode('utf8', 'replace'): return True
            if not alive: return False
        return False
    def send(self, s, t=0.4):
        try: os.write(self.fd, s.encode() if isinstance(s, str) else s)
        except OSError: pass
        return self.pump(t)
    def wait(self, t=30):
        end = time.time() + t
        while time.time() < end and self.pump(0.2): pass
        return self.code
    def kill(self):
        if self.code is None:
            try: os.kill(self.pid, signal.SIGKILL); os.waitpid(self.pid, 0)
            except OSError: pass
            self.code = -9
    def text(self): return '\n'.join(''.join(r).rstrip() for r in self.rows)
    def feed(self, s):
        s = self.pend + s; self.pend = ''
        i = 0
        while i < len(s):
            c = s[i]
            if c == '\x1b':
                m = re.compile(r'\x1b(\[[0-9;?]*[a-zA-Z]|[()].|[=>78cM])').match(s, i)
                if not m:
                    if len(s) - i < 20: self.pend = s[i:]; return
                    i += 1; continue
                self.esc(m.group(1)); i = m.end(); continue
            if c == '\r': self.x = 0
            elif c == '\n': self.y = min(self.y + 1, self.h - 1)
            elif c >= ' ':
                if self.x < self.w and self.y < self.h: self.rows[self.y][self.x] = c
                self.x += 1
            i += 1
    def esc(self, e):
        if e[0] != '[': return
        n = [int(k) for k in re.findall(r'\d+', e)]
        if e[-1] in 'Hf':
            self.y = min((n[0] if n else 1) - 1, self.h - 1); self.x = (n[1] if len(n) > 1 else 1) - 1
        elif e[-1] == 'J' and (not n or n[0] in (2, 3)): self.rows = [[' '] * self.w for _ in range(self.h)]
        elif e[-1] == 'K':
            for k in range(self.x, self.w): self.rows[self.y][k] = ' '
        elif e[-1] == 'C': self.x += n[0] if n else 1

def cmd(*args, password=None, stdin=None, w=200):
    """runs a command on a terminal; returns (exit status, output)"""
    t = Term(*args, w=w)
    if password is not None:
        if t.until('Password:'): t.send(password + '\n', 0.2)
    for l in (stdin or []):
        t.send(l + '\n', 0.3)
    t.wait()
    return t.code, t.raw.decode('utf8', 'replace').replace('\r', '')

class Server:
    """release server; handler(path) -> (status, body bytes)"""
    def __init__(self, handler):
        outer = self; self.seen = []
        class H(http.server.BaseHTTPRequestHandler):
            def do_GET(self):
                outer.seen.append(self.path)
                st, b = handler(self.path)
                self.send_response(st); self.send_header('Content-Length', str(len(b))); self.end_headers(); self.wfile.write(b)
            def log_message(self, *a): pass
        class T(socketserver.ThreadingMixIn, http.server.HTTPServer): daemon_threads = True
        self.s = T(('127.0.0.1', 0), H); self.port = self.s.server_address[1]
        threading.Thread(target=self.s.serve_forever, daemon=True).start()
    def release(self, tag, **k):
        b = 'http://127.0.0.1:%d' % self.port
        return dict(tag_name=tag, body='changes', assets=[dict(name='1pass.tar.gz', browser_download_url=b + '/archive'), dict(name='checksum.md5', browser_download_url=b + '/sum')], **k)

def fail(*a): print('DEMO: property broken:', *a); sys.exit(1)
def ok(): print('DEMO: fine'); sys.exit(0)
