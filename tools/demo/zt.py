"""small 0-db driver for demonstrations: everything stays in one scratch directory"""
import os
import resource
import shutil
import signal
import socket
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))


class Err(Exception):
    pass


class Client:
    def __init__(self, path):
        self.s = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
        self.s.settimeout(8)
        self.s.connect(path)
        self.b = b''

    def raw(self, data):
        self.s.sendall(data)

    @staticmethod
    def enc(args):
        out = b'*%d\r\n' % len(args)
        for a in args:
            if isinstance(a, str):
                a = a.encode()
            elif isinstance(a, int):
                a = b'%d' % a
            out += b'$%d\r\n%s\r\n' % (len(a), a)
        return out

    def send(self, *args):
        self.raw(self.enc(args))

    def line(self):
        while b'\r\n' not in self.b:
            d = self.s.recv(65536)
            if not d:
                raise EOFError('closed')
            self.b += d
        l, self.b = self.b.split(b'\r\n', 1)
        return l

    def take(self, n):
        while len(self.b) < n:
            d = self.s.recv(65536)
            if not d:
                raise EOFError('closed')
            self.b += d
        r, self.b = self.b[:n], self.b[n:]
        return r

    def reply(self):
        l = self.line()
        t, v = l[:1], l[1:]
        if t == b'+':
            return v
        if t == b'-':
            return Err(v.decode(errors='replace'))
        if t == b':':
            return int(v)
        if t == b'$':
            n = int(v)
            if n < 0:
                return None
            r = self.take(n)
            self.take(2)
            return r
        if t == b'*':
            n = int(v)
            return None if n < 0 else [self.reply() for _ in range(n)]
        raise Err('unexpected %r' % l)

    def cmd(self, *args):
        self.send(*args)
        return self.reply()

    def pending(self, wait=0.3):
        """bytes received although nothing was asked"""
        self.s.settimeout(wait)
        try:
            d = self.s.recv(65536)
            self.b += d
        except (socket.timeout, TimeoutError):
            pass
        self.s.settimeout(8)
        return self.b

    def close(self):
        self.s.close()


def crc32c(d):
    c = 0
    for b in d:
        c ^= b
        for _ in range(8):
            c = (c >> 1) ^ (0x82F63B78 if c & 1 else 0)
    return c


def forge(prefix, target):
    """prefix and four more bytes: the checksum of 0-db (crc32c starting with 0, linear) of them is target"""
    base = crc32c(prefix + bytes(4)) ^ target
    rows = []
    for i in range(32):
        v, m = crc32c(bytes(len(prefix)) + (1 << i).to_bytes(4, 'little')), 1 << i
        for rv, rm in rows:
            if v & (1 << (rv.bit_length() - 1)):
                v, m = v ^ rv, m ^ rm
        rows.append((v, m))
        rows.sort(reverse=True)
    sol = 0
    for rv, rm in rows:
        if base & (1 << (rv.bit_length() - 1)):
            base, sol = base ^ rv, sol ^ rm
    assert base == 0
    r = prefix + sol.to_bytes(4, 'little')
    assert crc32c(r) == target
    return r


def collide(n, target=0x123456):
    """n different keys of one list of the index"""
    return [forge(b'key%d' % (100 + i), target) for i in range(n)]


class Server:
    def __init__(self, *args, keep=None, mode='user', fsize=None, preload=None, env=None, binary='zdbd/zdb'):
        self.dir = keep or tempfile.mkdtemp(prefix='zdbdemo')
        self.sock = os.path.join(self.dir, 's')
        self.binary = os.path.join(os.getcwd(), binary)
        self.args = list(args) + (['--mode', mode] if mode else [])
        self.fsize, self.preload, self.env = fsize, preload, env or {}
        self.p = None
        self.start()

    def start(self):
        if os.path.exists(self.sock):
            os.unlink(self.sock)
        e = dict(os.environ, **self.env)
        if self.preload:
            e['LD_PRELOAD'] = self.preload

        def pre():
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            if self.fsize:
                resource.setrlimit(resource.RLIMIT_FSIZE, (self.fsize, self.fsize))
        self.log = open(os.path.join(self.dir, 'log'), 'ab')
        self.p = subprocess.Popen([self.binary, '--socket', self.sock, '--data', os.path.join(self.dir, 'data'), '--index', os.path.join(self.dir, 'index')] + self.args,
                                  stdout=self.log, stderr=self.log, stdin=subprocess.DEVNULL, env=e, preexec_fn=pre, cwd=self.dir)
        for _ in range(400):
            if os.path.exists(self.sock):
                try:
                    c = Client(self.sock)
                    c.close()
                    return
                except OSError:
                    pass
            if self.p.poll() is not None:
                raise Err('server died at start: %s' % self.p.returncode)
            time.sleep(0.02)
        raise Err('server did not start')

    def client(self):
        return Client(self.sock)

    def alive(self):
        return self.p.poll() is None

    def kill(self):
        if self.p.poll() is None:
            self.p.kill()
        self.p.wait()

    def stop(self):
        if self.p.poll() is None:
            self.p.terminate()
            try:
                self.p.wait(8)
            except subprocess.TimeoutExpired:
                self.p.kill()
                self.p.wait()

    def path(self, *n):
        return os.path.join(self.dir, *n)

    def end(self):
        self.kill()
        shutil.rmtree(self.dir, ignore_errors=True)


def preload(src, d):
    """compile a C interposer into the scratch directory"""
    so = os.path.join(d, 'pre.so')
    subprocess.check_call(['gcc', '-shared', '-fPIC', '-O1', '-o', so, os.path.join(HERE, src), '-ldl'])
    return so


def main(f):
    S = []

    def server(*a, **k):
        s = Server(*a, **k)
        S.append(s)
        return s
    signal.alarm(120)
    try:
        f(server)
        rc = 0
        print('holds')
    except AssertionError as e:
        print('BROKEN:', e)
        rc = 1
    finally:
        for s in S:
            s.end()
    sys.exit(rc)
