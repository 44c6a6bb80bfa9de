"""Helpers for demonstrations: real binaries of /repo on loopback, in a scratch directory, with a scriptable proxy."""
import os, socket, subprocess, sys, tempfile, threading, time, shutil, atexit

REPO = os.getcwd()
BIN = {k: os.path.join(REPO, "target", v) for k, v in
       {"mt": "tftp", "stackenc": "tftp-stack-encryption", "alloc": "tftp-alloc", "stack": "tftp-stack"}.items()}
DIR = tempfile.mkdtemp(prefix="tdemo.")
PROCS = []


def _clean():
    for p in PROCS:
        if p.poll() is None:
            p.kill()
            p.wait()
    shutil.rmtree(DIR, ignore_errors=True)


atexit.register(_clean)


def path(*a):
    p = os.path.join(DIR, *a)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    return p


def free_port():
    s = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
    s.bind(("127.0.0.1", 0))
    n = s.getsockname()[1]
    s.close()
    return n


def content(n, seed=1):
    out = bytearray()
    x = seed * 2654435761 % 2**32 or 1
    while len(out) < n:
        x = (x * 1103515245 + 12345) % 2**31
        out += x.to_bytes(4, "little")
    return bytes(out[:n])


def write(name, data):
    p = path(name)
    with open(p, "wb") as f:
        f.write(data)
    return p


def read(name):
    try:
        with open(path(name), "rb") as f:
            return f.read()
    except OSError:
        return None


def server(*args, kind="mt", dir="srv", port=None, env=None):
    os.makedirs(path(dir, ""), exist_ok=True)
    port = port or free_port()
    p = subprocess.Popen([BIN[kind], "server", f"127.0.0.1:{port}", path(dir), *args], cwd=DIR,
                         stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=env)
    PROCS.append(p)
    time.sleep(0.4)
    p.port = port
    return p


def client(op, port, *args, kind="mt", wait=60, start=False):
    a = [BIN[kind], op, f"127.0.0.1:{port}", *args]
    p = subprocess.Popen(a, cwd=DIR, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    PROCS.append(p)
    if start:
        return p
    return finish(p, wait)


def finish(p, wait=60):
    try:
        out, _ = p.communicate(timeout=wait)
    except subprocess.TimeoutExpired:
        p.kill()
        out, _ = p.communicate()
        return None, out.decode(errors="replace")
    return p.returncode, out.decode(errors="replace")


def op(d):
    return d[1] if len(d) > 1 and d[0] == 0 else 0


def num(d):
    return d[2] << 8 | d[3] if len(d) > 3 else 0


class Proxy(threading.Thread):
    """rule(direction, packet, count) -> list of (delay seconds, packet); direction 'c' to the server, 's' to the client"""

    def __init__(self, target, rule):
        super().__init__(daemon=True)
        self.rule, self.target = rule, ("127.0.0.1", target)
        self.front = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
        self.front.bind(("127.0.0.1", 0))
        self.port = self.front.getsockname()[1]
        self.backs = {}
        self.count = {"c": 0, "s": 0}
        self.log = []
        self.lock = threading.Lock()
        self.start()

    def out(self, sock, addr, items):
        for delay, d in items:
            if delay <= 0:
                sock.sendto(d, addr)
            else:
                t = threading.Timer(delay, lambda d=d: sock.sendto(d, addr))
                t.daemon = True
                t.start()

    def back(self, c):
        s = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
        s.bind(("127.0.0.1", 0))

        def loop():
            while True:
                try:
                    d, a = s.recvfrom(65536)
                except OSError:
                    continue
                with self.lock:
                    self.count["s"] += 1
                    self.log.append((time.time(), "s", d))
                    r = self.rule("s", d, self.count["s"])
                self.out(self.front, c, r)
        threading.Thread(target=loop, daemon=True).start()
        return s

    def run(self):
        while True:
            try:
                d, a = self.front.recvfrom(65536)
            except OSError:
                continue
            with self.lock:
                if a not in self.backs:
                    self.backs[a] = self.back(a)
                self.count["c"] += 1
                self.log.append((time.time(), "c", d))
                r = self.rule("c", d, self.count["c"])
            self.out(self.backs[a], self.target, r)


class Raw:
    """a bare socket talking the protocol"""

    def __init__(self, port, local=0):
        self.s = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
        self.s.bind(("127.0.0.1", local))
        self.to = ("127.0.0.1", port)
        self.peer = None

    def send(self, d, to=None):
        self.s.sendto(d, to or self.peer or self.to)

    def recv(self, t=2.0):
        self.s.settimeout(t)
        try:
            d, a = self.s.recvfrom(65536)
        except (socket.timeout, ConnectionError):
            return None
        self.peer = a
        return d

    def drain(self, t=0.3):
        out = []
        end = time.time() + t
        while time.time() < end:
            d = self.recv(max(0.01, end - time.time()))
            if d is not None:
                out.append(d)
        return out


def request(write, name, opts=(), mode="octet"):
    b = b"\0\2" if write else b"\0\1"
    b += name.encode() + b"\0" + mode.encode() + b"\0"
    for k, v in opts:
        b += k.encode() + b"\0" + str(v).encode() + b"\0"
    return b


def data(n, d):
    return bytes([0, 3, n >> 8 & 255, n & 255]) + d


def ack(n):
    return bytes([0, 4, n >> 8 & 255, n & 255])


def fail(m):
    print("FAILED:", m)
    sys.exit(1)


def check(c, m):
    if not c:
        fail(m)
