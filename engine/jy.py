"""Client for the Jython server: syntax trees of the current /repo sources and runs of the real code."""
import atexit, json, os, shutil, subprocess, tempfile, threading, queue

REPO = os.environ.get('VERIF_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STUBS = os.path.join(HERE, 'stubs')


class ServerDied(Exception):
    pass


class RealExc(Exception):
    """The real code raised."""
    def __init__(self, name, bases, msg):
        Exception.__init__(self, '%s: %s' % (name, msg))
        self.name, self.bases, self.msg = name, bases, msg


class Handle(object):
    def __init__(self, n, cls):
        self.n, self.cls = n, cls

    def __repr__(self):
        return '<%s#%d>' % (self.cls, self.n)


class Ref(object):
    """reference to a module attribute, passed as an argument"""
    def __init__(self, mod, name):
        self.mod, self.name = mod, name


class PyList(list):
    pass


def enc(v):
    if v is None or isinstance(v, bool):
        return v
    if isinstance(v, int):
        return {'#': 'int', 'v': '%x' % v}
    if isinstance(v, float):
        return {'#': 'float', 'v': repr(v)}
    if isinstance(v, (bytes, bytearray)):
        return {'#': 'str', 'v': bytes(v).hex()}
    if isinstance(v, tuple):
        return {'#': 'tuple', 'v': [enc(x) for x in v]}
    if isinstance(v, list):
        return {'#': 'list', 'v': [enc(x) for x in v]}
    if isinstance(v, Handle):
        return {'#': 'obj', 'v': v.n}
    if isinstance(v, Ref):
        return {'#': 'ref', 'mod': v.mod, 'name': v.name}
    if isinstance(v, dict):
        return {'#': 'dict', 'v': [[enc(k), enc(x)] for k, x in v.items()]}
    raise TypeError(repr(v))


def dec(v):
    if v is None or isinstance(v, bool):
        return v
    t = v['#']
    if t == 'int':
        return int(v['v'], 16)
    if t == 'float':
        return float(v['v'])
    if t == 'str':
        return bytes.fromhex(v['v'])
    if t == 'unicode':
        return v['v']
    if t == 'tuple':
        return tuple(dec(x) for x in v['v'])
    if t == 'list':
        return [dec(x) for x in v['v']]
    if t == 'dict':
        return {dec(k): dec(x) for k, x in v['v']}
    if t == 'obj':
        return Handle(v['v'], v['cls'])
    raise TypeError(t)


class Server(object):
    def __init__(self):
        self.p = None
        self.link = None
        self.nreq = 0

    def start(self):
        self.link = tempfile.mkdtemp(prefix='verif_link_')
        os.symlink(REPO, os.path.join(self.link, 'cryptopy'))
        env = dict(os.environ)
        env.pop('JYTHONPATH', None)
        env.pop('CLASSPATH', None)
        env['LC_ALL'] = 'C.UTF-8'
        env.setdefault('HOME', '/root')
        self.err = open(os.path.join(self.link, 'stderr'), 'wb')
        self.p = subprocess.Popen(
            ['java', '-Xss64m', '-Xmx1500m', '-XX:+UseSerialGC', '-jar', '/usr/share/java/jython.jar',
             '-Dpython.home=/usr/share/jython', '-Dpython.executable=/usr/bin/jython', '-B', '-Dpython.cachedir.skip=true',
             os.path.join(HERE, 'engine', 'jyserver.py'), REPO, STUBS, self.link],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, env=env)
        self.q = queue.Queue()
        t = threading.Thread(target=self._reader, args=(self.p, self.q))
        t.daemon = True
        t.start()

    @staticmethod
    def _reader(p, q):
        for line in p.stdout:
            q.put(line)
        q.put(None)

    def request(self, req, timeout=60):
        if self.p is None or self.p.poll() is not None:
            self.stop()
            self.start()
            first = True
        else:
            first = False
        try:
            self.p.stdin.write((json.dumps(req) + '\n').encode())
            self.p.stdin.flush()
        except BrokenPipeError:
            self.stop()
            raise ServerDied('pipe')
        try:
            line = self.q.get(timeout=timeout + (30 if first else 0))
        except queue.Empty:
            self.stop()
            raise ServerDied('timeout after %ss' % timeout)
        if line is None:
            self.stop()
            raise ServerDied('exited')
        self.nreq += 1
        r = json.loads(line)
        if 'fault' in r:
            raise RuntimeError('jython server: ' + r['fault'])
        return r

    def ast(self, path):
        return self.request({'op': 'ast', 'path': path}, 120)['ok']

    def run(self, timeout=60, **req):
        r = self.request(req, timeout)
        if 'exc' in r:
            raise RealExc(r['exc'], r['bases'], r['msg'])
        return dec(r['ok']) if req['op'] not in ('import', 'classes', 'setattr', 'reset') else r['ok']

    def stop(self):
        if self.p is not None:
            try:
                self.p.kill()
                self.p.wait()
            except Exception:
                pass
            self.p = None
        if self.link:
            try:
                self.err.close()
            except Exception:
                pass
            shutil.rmtree(self.link, ignore_errors=True)
            self.link = None


server = Server()
atexit.register(server.stop)
