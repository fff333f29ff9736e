"""Drives real ethersync daemons (the debug build in the current directory's daemon/target) for a
demonstration: daemons on the loopback interface, editors on their sockets, a proxy between daemons.
Everything lives in a scratch directory which is removed at the end."""
import atexit, json, os, re, shutil, signal, socket, subprocess, sys, tempfile, threading, time

BIN = os.path.join(os.getcwd(), "daemon/target/debug/ethersync")
SCRATCH = tempfile.mkdtemp(prefix="demo")
os.chmod(SCRATCH, 0o700)
PROCS = []

def cleanup():
    for p in PROCS:
        if p.poll() is None:
            p.kill()
            p.wait()
    shutil.rmtree(SCRATCH, ignore_errors=True)
atexit.register(cleanup)

def free_port():
    s = socket.socket(); s.bind(("127.0.0.1", 0)); p = s.getsockname()[1]; s.close(); return p

class Proxy:
    """Forwards TCP to a port. `cut()` drops all connections and refuses new ones, `hold()` stops forwarding."""
    def __init__(self, target):
        self.target, self.up, self.held, self.socks = target, True, False, []
        self.l = socket.socket(); self.l.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        self.l.bind(("127.0.0.1", 0)); self.l.listen(); self.port = self.l.getsockname()[1]
        threading.Thread(target=self.run, daemon=True).start()
    def run(self):
        while True:
            c, _ = self.l.accept()
            if not self.up:
                c.close(); continue
            try:
                s = socket.create_connection(("127.0.0.1", self.target))
            except OSError:
                c.close(); continue
            self.socks += [c, s]
            for a, b in ((c, s), (s, c)):
                threading.Thread(target=self.pump, args=(a, b), daemon=True).start()
    def pump(self, a, b):
        try:
            while True:
                while self.held: time.sleep(0.01)
                d = a.recv(65536)
                if not d: break
                while self.held: time.sleep(0.01)
                b.sendall(d)
        except OSError:
            pass
        for x in (a, b):
            try: x.shutdown(2)
            except OSError: pass
    def cut(self):
        self.up = False
        for s in self.socks:
            try: s.shutdown(2)
            except OSError: pass
        self.socks = []
    def heal(self): self.up = True
    def hold(self): self.held = True
    def release(self): self.held = False

class Daemon:
    def __init__(self, name, peer=None, files=(), secret=None, start=True, via=None, git=False):
        self.name = name
        self.home = os.path.join(SCRATCH, name)
        self.dir = os.path.join(self.home, "project")
        os.makedirs(self.dir + "/.ethersync")
        os.chmod(self.home, 0o700)
        if git: os.makedirs(self.dir + "/.git")
        for f, c in dict(files).items(): self.write(f, c)
        if secret: open(self.dir + "/.ethersync/config", "w").write("secret = %s\n" % secret)
        self.port = free_port()
        self.peer, self.via = peer, via
        self.p = None
        if start: self.start()
    def start(self, args=(), wait=True, wrap=()):
        self.log = []
        self.sock = os.path.join(self.home, "sock")
        cmd = list(wrap) + [BIN, "daemon", self.dir, "--socket-name", "sock", "--port", str(self.port)] + list(args)
        if self.peer:
            port = self.via.port if self.via else self.peer.port
            cmd += ["--peer", "/ip4/127.0.0.1/tcp/%d" % port]
        env = dict(os.environ, XDG_RUNTIME_DIR=self.home, RUST_BACKTRACE="0")
        self.p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, env=env, cwd=self.home)
        PROCS.append(self.p)
        threading.Thread(target=lambda out=self.p.stdout, log=self.log: [log.append(l) for l in out], daemon=True).start()
        if not wait: return
        until(lambda: self.listening() or self.p.poll() is not None, 20)
        until(lambda: os.path.exists(self.sock) or self.p.poll() is not None, 10)
        time.sleep(0.3)
    def listening(self):
        want = ":%04X" % self.port
        return any(l.split()[1].endswith(want) and l.split()[3] == "0A" for l in open("/proc/net/tcp").readlines()[1:])
    def output(self):
        return re.sub(r"\x1b\[[0-9;]*m", "", b"".join(list(self.log)).decode("utf-8", "replace"))
    def alive(self): return self.p.poll() is None
    def kill(self, sig=signal.SIGKILL):
        self.p.send_signal(sig); self.p.wait()
    def path(self, f): return os.path.join(self.dir, f)
    def write(self, f, c):
        os.makedirs(os.path.dirname(self.path(f)), exist_ok=True)
        with open(self.path(f), "w", newline="") as h: h.write(c)
    def read(self, f):
        try:
            with open(self.path(f), newline="") as h: return h.read()
        except FileNotFoundError: return None
    def uri(self, f): return "file://" + self.path(f)

class Editor:
    """A minimal editor: keeps a buffer per file, ignores edits that cross with its own."""
    def __init__(self, d):
        self.d = d
        self.s = socket.socket(socket.AF_UNIX); self.s.connect(d.sock)
        self.n, self.got, self.answers, self.rev, self.buf = 0, [], {}, {}, {}
        self.lock = threading.Lock()
        self.reading, self.deaf = True, False
        threading.Thread(target=self.run, daemon=True).start()
    def run(self):
        f = self.s.makefile("r", encoding="utf-8", newline="\n")
        while True:
            while not self.reading: time.sleep(0.01)
            try: line = f.readline()
            except (OSError, ValueError): return
            if not line: return
            m = json.loads(line)
            with self.lock:
                if "method" in m:
                    self.got.append(m)
                    if m["method"] == "edit": self.apply(m["params"])
                else: self.answers[m.get("id")] = m
    def apply(self, p):
        uri = p["uri"]
        if uri not in self.buf or self.deaf or p["revision"] != self.rev[uri][0]: return
        ops = p.get("delta", p.get("edits", []))
        t = self.buf[uri]
        for o in reversed(sorted(ops, key=lambda o: (o["range"]["start"]["line"], o["range"]["start"]["character"]))):
            a, b = [self.off(t, o["range"][k]) for k in ("start", "end")]
            t = t[:a] + o["replacement"] + t[b:]
        self.buf[uri] = t
        self.rev[uri][1] += 1
    @staticmethod
    def off(t, pos):
        lines = t.split("\n")
        return sum(len(l) + 1 for l in lines[:pos["line"]]) + pos["character"]
    @staticmethod
    def pos(t, o):
        pre = t[:o]
        return {"line": pre.count("\n"), "character": len(pre) - (pre.rfind("\n") + 1)}
    def send(self, method, params, wait=10):
        self.n += 1
        i = self.n
        self.s.sendall((json.dumps({"jsonrpc": "2.0", "id": i, "method": method, "params": params}) + "\n").encode())
        if wait: until(lambda: i in self.answers, wait)
        return self.answers.get(i)
    def open(self, f):
        uri = self.d.uri(f)
        with self.lock:
            self.rev[uri] = [0, 0]
            self.buf[uri] = self.d.read(f) or ""
        return self.send("open", {"uri": uri})
    def close(self, f):
        return self.send("close", {"uri": self.d.uri(f)})
    def edit(self, f, a, b, text, wait=10):
        """Replaces buffer[a:b] with text."""
        uri = self.d.uri(f)
        with self.lock:
            t = self.buf[uri]
            delta = [{"range": {"start": self.pos(t, a), "end": self.pos(t, b)}, "replacement": text}]
            self.buf[uri] = t[:a] + text + t[b:]
            rev = self.rev[uri][1]
            self.rev[uri][0] += 1
        return self.send("edit", {"uri": uri, "revision": rev, "delta": delta}, wait)
    def cursor(self, f, line, char):
        p = {"line": line, "character": char}
        return self.send("cursor", {"uri": self.d.uri(f), "ranges": [{"start": p, "end": p}]})
    def text(self, f): return self.buf.get(self.d.uri(f))
    def quit(self):
        try: self.s.shutdown(2)
        except OSError: pass
        self.s.close()

def until(f, secs=10, step=0.05):
    end = time.time() + secs
    while time.time() < end:
        if f(): return True
        time.sleep(step)
    return bool(f())

def fail(msg):
    print("FAILED:", msg)
    sys.exit(1)

def expect(f, secs, msg):
    if not until(f, secs): fail(msg)

def ok():
    print("ok")
    sys.exit(0)
