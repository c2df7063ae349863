"""Runs the s5 program built in /repo over loopback, with all its files in a scratch directory."""
import atexit, json, os, shutil, signal, socket, ssl, struct, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.getcwd()
BIN = os.path.join(REPO, "_build/main/s5")
KEY = "demo_key_1"
scratch = tempfile.mkdtemp(prefix="s5demo.")
procs = []


def _end():
    for p in procs:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
    shutil.rmtree(scratch, ignore_errors=True)


atexit.register(_end)
_timer = threading.Timer(280, lambda: (print("demo: too slow"), _end(), os._exit(3)))
_timer.daemon = True
_timer.start()


def done(ok, why=""):
    print("demo: %s %s" % ("as expected" if ok else "MISBEHAVES", why))
    sys.stdout.flush()
    _end()
    os._exit(0 if ok else 1)


def free_port():
    s = socket.socket()
    s.bind(("127.0.0.1", 0))
    p = s.getsockname()[1]
    s.close()
    return p


subprocess.check_call(["gcc", "-shared", "-fPIC", "-O1", "-o", scratch + "/shim.so", HERE + "/shim.c", "-ldl"])
subprocess.check_call(["openssl", "req", "-x509", "-newkey", "rsa:2048", "-nodes", "-keyout", scratch + "/k.pem",
                       "-out", scratch + "/c.pem", "-subj", "/CN=demo", "-days", "30"], stderr=subprocess.DEVNULL)


class Node:
    """One s5 program. kind: 'client', 'server', 'shared' (https port shared with the tunnel)."""

    def __init__(self, kind, serv_port=0, keys=(KEY,), key=KEY, process=0, env=None, start=True, **cfg):
        self.root = tempfile.mkdtemp(prefix=kind + ".", dir=scratch)
        for d in ("config", "logs", "www"):
            os.mkdir(self.root + "/" + d)
        self.port, self.http, self.https = free_port(), free_port(), free_port()
        self.dns = free_port()
        auth = self.root + "/config/auth.json"
        json.dump(list(keys), open(auth, "w"))
        c = dict(sys_daemon=0, sys_process=process, sys_log_level=2, ssl_crt_path=scratch + "/c.pem", ssl_key_path=scratch + "/k.pem",
                 s5_mode={"client": 1, "server": 2, "shared": 3}[kind], s5_serv_port=self.port, s5_serv_auth_path=auth, s5_serv_gw="127.0.0.1",
                 s5_local_port=self.port, s5_local_serv_port=serv_port, s5_local_serv_ip="127.0.0.1", s5_local_auth=key,
                 http_arr=[self.http], https_arr=[self.https], http_home=self.root + "/www", http_index="index.html")
        c.update(cfg)
        json.dump(c, open(self.root + "/config/config.json", "w"))
        self.env = dict(os.environ, DEMO_ROOT=self.root, LD_PRELOAD=scratch + "/shim.so", DEMO_DNS_PORT=str(self.dns), **(env or {}))
        if kind == "shared":
            self.port = self.https
        self.kind = kind
        if start:
            self.start()

    def start(self, wait=True):
        self.p = subprocess.Popen([BIN], env=self.env, cwd=self.root, stdout=open(self.root + "/out", "ab"), stderr=subprocess.STDOUT,
                                  start_new_session=True)
        procs.append(self.p)
        if wait:
            for _ in range(300):
                try:
                    socket.create_connection(("127.0.0.1", self.http if self.http in self.listening() else self.port), 1).close()
                    return
                except OSError:
                    time.sleep(0.02)
            raise SystemExit("demo: node does not listen")

    def listening(self):
        return json.load(open(self.root + "/config/config.json"))["http_arr"]

    def alive(self):
        return self.p.poll() is None

    def fault(self, what, skip=0, times=1):
        open("%s/fault.%s" % (self.root, what), "w").write("%d:%d\n" % (skip, times))

    def log(self):
        try:
            return open(self.root + "/logs/log_main", errors="replace").read()
        except OSError:
            return ""

    def pidfile(self):
        try:
            return int(open(self.root + "/logs/pid").read() or 0)
        except (OSError, ValueError):
            return None

    def workers(self):
        out = []
        for d in os.listdir("/proc"):
            if d.isdigit():
                try:
                    f = open("/proc/%s/stat" % d).read().rsplit(")", 1)[1].split()
                    if int(f[1]) == self.p.pid and f[0] != "Z":
                        out.append(int(d))
                except OSError:
                    pass
        return out

    def stop(self):
        self.p.send_signal(signal.SIGSTOP)
        while open("/proc/%d/stat" % self.p.pid).read().rsplit(")", 1)[1].split()[0] not in "Tt":
            time.sleep(0.005)

    def cont(self):
        self.p.send_signal(signal.SIGCONT)


def tls(sock):
    ctx = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT)
    ctx.check_hostname = False
    ctx.verify_mode = ssl.CERT_NONE
    return ctx.wrap_socket(sock, suppress_ragged_eofs=True)


def recvn(s, n):
    b = b""
    while len(b) < n:
        d = s.recv(n - len(b))
        if not d:
            raise EOFError
        b += d
    return b


def auth_record(key=KEY):
    return struct.pack(">I16s16s", 0xa001beef, key.encode() if isinstance(key, str) else key, b"")


def tunnel(node, key=KEY, rcvbuf=0, timeout=20):
    """A connection that is ready for the SOCKS5 greeting."""
    s = socket.socket()
    if rcvbuf:
        s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, rcvbuf)
    s.settimeout(timeout)
    s.connect(("127.0.0.1", node.port))
    s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
    if node.kind != "client":
        s = tls(s)
        s.sendall(auth_record(key))
    return s


def socks(s, host, port):
    s.sendall(b"\5\1\0")
    recvn(s, 2)
    if isinstance(host, bytes):
        a = b"\3" + bytes([len(host)]) + host
    else:
        a = b"\1" + socket.inet_aton(host)
    s.sendall(b"\5\1\0" + a + struct.pack(">H", port))
    return recvn(s, 10)


class Origin:
    """A listening socket; accepted connections are handed to the test by accept()."""

    def __init__(self, rcvbuf=0, sndbuf=0):
        self.l = socket.socket()
        if rcvbuf:
            self.l.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, rcvbuf)
        if sndbuf:
            self.l.setsockopt(socket.SOL_SOCKET, socket.SO_SNDBUF, sndbuf)
        self.l.bind(("127.0.0.1", 0))
        self.l.listen(50)
        self.l.settimeout(15)
        self.port = self.l.getsockname()[1]

    def accept(self):
        c, _ = self.l.accept()
        c.settimeout(20)
        return c


class Dns:
    """Answers every query with answer(name) -> list of (type, ttl, data), or nothing when it returns None."""

    def __init__(self, port, answer):
        self.s = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
        self.s.bind(("127.0.0.1", port))
        self.queries = []
        self.answer = answer
        threading.Thread(target=self.run, daemon=True).start()

    def run(self):
        while True:
            q, a = self.s.recvfrom(2048)
            p, name = 12, []
            while q[p]:
                name.append(q[p + 1:p + 1 + q[p]])
                p += 1 + q[p]
            name = b".".join(name)
            self.queries.append(name)
            ans = self.answer(name)
            if ans is None:
                continue
            if isinstance(ans, bytes):
                self.s.sendto(q[:2] + ans, a)
                continue
            r = q[:2] + struct.pack(">HHHHH", 0x8180, 1, len(ans), 0, 0) + q[12:p + 5]
            for t, ttl, d in ans:
                r += b"\xc0\x0c" + struct.pack(">HHIH", t, 1, ttl, len(d)) + d
            self.s.sendto(r, a)


def pattern(n, salt=1):
    return b"".join(struct.pack(">I", (i * 2654435761 + salt) & 0xffffffff) for i in range((n + 3) // 4))[:n]


def http(port, data, secure=False, timeout=10, half=False):
    """Sends data, returns everything received until close or timeout."""
    s = socket.create_connection(("127.0.0.1", port), 5)
    s.settimeout(timeout)
    if secure:
        s = tls(s)
    for d in data if isinstance(data, list) else [data]:
        s.sendall(d)
        if isinstance(data, list):
            time.sleep(0.15)
    out = b""
    try:
        while True:
            d = s.recv(65536)
            if not d:
                break
            out += d
    except OSError:
        pass
    s.close()
    return out
