"""Runs real FlashMQ processes under the shim: virtual time, quiescence detection, fault injection, scratch directories."""
import atexit, base64, ctypes, hashlib, mmap, os, random, resource, shutil, signal, socket, struct, subprocess, tempfile, time
from . import mqtt

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
BIN = os.environ.get("FMQ_BIN", os.path.join(VERIF, "build", "flashmq-std"))
SHIM = os.path.join(VERIF, "build", "shim.so")

_F = ["magic", "mono_ns", "real_ns", "step_ns", "clip_us", "nthreads", "fop", "crash_at", "fail_at", "fail_errno", "fail_count", "partial",
      "stall", "jitter", "fmask", "fcnt"]
_OFF = {n: 8 * i for i, n in enumerate(_F)}
_SLOTS = 8 * (len(_F) + 32)
_SIZE = _SLOTS + 64 * 64
NS = 1000000000
_live = set()


@atexit.register
def _cleanup():
    for s in list(_live):
        s.destroy()


class HarnessError(Exception):
    """Something is wrong with the harness or the environment (not evidence about FlashMQ)."""


class ServerDied(Exception):
    pass


class Stuck(Exception):
    """The server does not come to rest."""


class Server:
    def __init__(self, conf=None, listeners=None, threads=1, storage=False, mono=100000, real=1700000000, extra="", files=None, env=None, binary=None,
                 start=True):
        self.dir = tempfile.mkdtemp(prefix="fmqv", dir="/tmp")
        _live.add(self)
        self.conf = dict(conf or {})
        self.threads = threads
        self.storage = os.path.join(self.dir, "st") if storage else None
        if storage:
            os.mkdir(self.storage)
        self.extra = extra
        self.binary = binary or BIN
        self.env = env or {}
        self.listeners = listeners or {"main": {}}
        for n, data in (files or {}).items():
            with open(os.path.join(self.dir, n), "w") as f:
                f.write(data.replace("@DIR@", self.dir))
        self.shmpath = os.path.join(self.dir, "shm")
        with open(self.shmpath, "wb") as f:
            f.write(b"\0" * _SIZE)
        self._f = open(self.shmpath, "r+b")
        self.shm = mmap.mmap(self._f.fileno(), _SIZE)
        self.set("mono_ns", mono * NS)
        self.set("real_ns", real * NS)
        self.set("clip_us", 250)
        self.proc = None
        self.nboot = 0
        if start:
            self.boot()

    def get(self, n):
        return struct.unpack_from("<q", self.shm, _OFF[n])[0]

    def set(self, n, v):
        struct.pack_into("<q", self.shm, _OFF[n], v)

    @property
    def now(self):
        return self.get("mono_ns") // NS

    def path(self, n):
        return os.path.join(self.dir, n)

    def sock(self, l="main"):
        return os.path.join(self.dir, l + ".s")

    def config_text(self):
        t = []
        c = {"allow_anonymous": "true", "quiet": "true", "log_level": "notice"}
        c.update(self.conf)
        c.setdefault("thread_count", self.threads)
        c["log_file"] = self.path("log")
        if self.storage:
            c["storage_dir"] = self.storage
        for k, v in c.items():
            if v is not None:
                t.append("%s %s" % (k, str(v).replace("@DIR@", self.dir)))
        for n, o in self.listeners.items():
            o = dict(o)
            t.append("listen {")
            t.append("  protocol %s" % o.pop("protocol", "mqtt"))
            if "port" not in o:
                t.append("  inet_protocol unix")
                t.append("  unix_socket_path %s" % self.sock(n))
            for k, v in o.items():
                t.append("  %s %s" % (k, str(v).replace("@DIR@", self.dir)))
            t.append("}")
        t.append(self.extra.replace("@DIR@", self.dir))
        return "\n".join(t) + "\n"

    def write_config(self, text=None):
        with open(self.path("c.conf"), "w") as f:
            f.write(text if text is not None else self.config_text())

    def write_file(self, name, text):
        """whoever looks sees the old file or the new one; text None: the file goes away; otherwise bytes as latin-1"""
        if text is None:
            try:
                os.unlink(self.path(name))
            except FileNotFoundError:
                pass
            return
        with open(self.path(name + ".new"), "wb") as f:
            f.write(text.replace("@DIR@", self.dir).encode("utf-8", "surrogateescape"))
        os.rename(self.path(name + ".new"), self.path(name))

    def reload(self, conf, listeners, junk, valid):
        """A new configuration and SIGHUP. junk: [where, line] more lines; valid: whether it is a configuration that takes effect."""
        old = self.conf, self.listeners
        self.conf, self.listeners = conf, listeners
        t = self.config_text().split("\n")
        if not valid:
            self.conf, self.listeners = old
        for where, line in junk:
            t.insert(0 if where == "top" else len(t) if where == "end" else next((i for i, x in enumerate(t) if x.startswith("listen")), len(t)), line.replace("@DIR@", self.dir))
        self.write_file("c.conf", "\n".join(t) + "\n")
        word = b"Loading config. Reload: true"

        def count():
            n = 0
            for x in ("log", "out%d" % self.nboot):
                if os.path.exists(self.path(x)):
                    with open(self.path(x), "rb") as f:
                        n += f.read().count(word)
            return n
        n = count()
        self.signal(signal.SIGHUP)
        for i in range(5000):
            if count() > n:
                break
            if not self.alive():
                raise ServerDied("server died on reload: " + self.tail())
            time.sleep(0.002)
        else:
            raise Stuck("no reload: " + self.tail())
        self.quiesce()

    def boot(self, wait=True, config=True):
        if config:
            self.write_config()
        self.set("nthreads", 0)
        struct.pack_into("<%dx" % (_SIZE - _SLOTS), self.shm, _SLOTS)
        self.shm[_SLOTS:_SIZE] = b"\0" * (_SIZE - _SLOTS)
        for n in self.listeners:
            try:
                os.unlink(self.sock(n))
            except FileNotFoundError:
                pass
        env = {"PATH": os.environ.get("PATH", ""), "HOME": self.dir, "LD_PRELOAD": SHIM, "FMQ_SHM": self.shmpath, "LC_ALL": "C.UTF-8"}
        if self.storage:
            env["FMQ_STORAGE"] = self.storage
            env["FMQ_OPLOG"] = self.path("oplog")
        env.update({k: v.replace("@DIR@", self.dir) for k, v in self.env.items()})
        self.nboot += 1
        self.out = open(self.path("out%d" % self.nboot), "wb")
        self.proc = subprocess.Popen([self.binary, "-c", self.path("c.conf")], env=env, cwd=self.dir, stdin=subprocess.DEVNULL,
                                     stdout=self.out, stderr=subprocess.STDOUT, restore_signals=not self.storage)      # SIGXFSZ ignored: see arm
        if wait:
            self.wait_up()

    def wait_up(self, timeout=30):
        end = time.monotonic() + timeout
        want = 2 + int(self.conf.get("thread_count", self.threads))
        while time.monotonic() < end:
            if self.proc.poll() is not None:
                raise ServerDied("server exited with %s during startup: %s" % (self.proc.returncode, self.tail()))
            if self.get("nthreads") >= want and all("port" in o or os.path.exists(self.sock(n)) for n, o in self.listeners.items()):
                try:
                    self.quiesce()
                    return
                except Stuck:
                    pass
            time.sleep(0.002)
        raise Stuck("server does not come up: %s" % self.tail())

    def tail(self, n=1500):
        r = ""
        for f in ("log", "out%d" % self.nboot):
            try:
                with open(self.path(f), errors="replace") as g:
                    r += g.read()[-n:]
            except OSError:
                pass
        return r

    def alive(self):
        return self.proc is not None and self.proc.poll() is None

    def _snap(self):
        n = self.get("nthreads")
        r = []
        for i in range(n):
            _, calls, non, inw = struct.unpack_from("<4q", self.shm, _SLOTS + 64 * i)
            r.append((calls, non, inw))
        return r

    def quiesce(self, rounds=2, timeout=25):
        """Returns when every thread has been seen waiting with nothing to do, 'rounds' times in a row."""
        end = time.monotonic() + timeout
        ok = 0
        k = 0
        idle = 0
        while ok < rounds:
            a = self._snap()
            if any(x[2] == 0 for x in a):
                ok = 0 if k > 3 else ok
                k += 1
                time.sleep(0.0001)
            else:
                while True:
                    b = self._snap()
                    if len(b) != len(a):
                        break
                    if all(y[0] >= x[0] + 2 for x, y in zip(a, b)):
                        break
                    if any(y[1] != x[1] for x, y in zip(a, b)):
                        break
                    if time.monotonic() > end:
                        break
                    idle += 1
                    if idle % 100 == 0 and not self.alive():
                        raise ServerDied("server died (%s): %s" % (self.proc.returncode, self.tail()))
                    time.sleep(0.00015)
                if len(b) == len(a) and all(y[0] >= x[0] + 2 and y[1] == x[1] for x, y in zip(a, b)):
                    ok += 1
                else:
                    ok = 0
            if time.monotonic() > end:
                raise Stuck("server does not become quiescent: %s %s" % (self._snap(), self.tail()))
            if ok == 0 and not self.alive():
                raise ServerDied("server died (%s): %s" % (self.proc.returncode, self.tail()))
        if not self.alive():
            raise ServerDied("server died (%s): %s" % (self.proc.returncode, self.tail()))

    def sleep(self, sec):
        self.set("mono_ns", self.get("mono_ns") + int(sec * NS))
        self.set("real_ns", self.get("real_ns") + int(sec * NS))

    def advance(self, sec):
        self.sleep(sec)
        self.quiesce(rounds=3)

    KINDS = ["create", "write", "flush", "fsync", "close", "rename", "unlink"]

    def arm(self, fault):
        """fault: [what, kinds of file operations, number, count, errno]; what: "crash" right before that operation, "fail", or "limit": files no larger than so much"""
        what, kinds, k, n, e = fault
        self.set("fmask", sum(1 << self.KINDS.index(x) for x in kinds))
        self.set("fcnt", 0)
        if what == "crash":
            self.set("crash_at", k)
        elif what == "fail":
            self.set("fail_errno", e)
            self.set("fail_count", n)
            self.set("fail_at", k)
        else:
            resource.prlimit(self.proc.pid, resource.RLIMIT_FSIZE, (k, resource.RLIM_INFINITY))

    def disarm(self):
        self.set("crash_at", 0)
        self.set("fail_at", 0)
        if self.alive():
            resource.prlimit(self.proc.pid, resource.RLIMIT_FSIZE, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))

    def fileops(self, pos):
        """operations on files in the storage directory that are in the log after pos: [what, file, other file, result], and the new position"""
        try:
            with open(self.path("oplog")) as f:
                f.seek(pos)
                t = f.read()
        except FileNotFoundError:
            return [], 0
        ops = []

        def name(x):
            x = os.path.basename(x)
            return x.split(".newfile.")[0] + "~" + x.split(".newfile.")[1] if ".newfile." in x else x
        for l in t.split("\n"):
            x = l.split(" ")
            if len(x) == 6:
                o = [x[1], name(x[2]), name(x[3]), x[5]]
                if not (ops and o == ops[-1] and o[0] == "write"):
                    ops.append(o)
        return ops, pos + len(t)

    def signal(self, sig):
        self.proc.send_signal(sig)

    def kill(self):
        if self.proc and self.proc.poll() is None:
            self.proc.kill()
        if self.proc:
            self.proc.wait()

    def wait_exit(self, timeout=60):
        try:
            return self.proc.wait(timeout)
        except subprocess.TimeoutExpired:
            return None

    def destroy(self):
        _live.discard(self)
        self.kill()
        try:
            self.shm.close()
            self._f.close()
        except Exception:
            pass
        shutil.rmtree(self.dir, ignore_errors=True)


class Conn:
    """One raw client connection."""

    def __init__(self, path_or_port, ver=5):
        if isinstance(path_or_port, int):
            self.s = socket.create_connection(("127.0.0.1", path_or_port))
        else:
            self.s = socket.socket(socket.AF_UNIX)
            self.s.connect(path_or_port)
        self.s.setblocking(False)
        self.ver = ver
        self.buf = bytearray()
        self.closed = False      # server closed
        self.done = False        # and that was noted
        self.nbytes = 0

    def send(self, data, flush=None):
        """flush: called when the socket buffer is full (to let the server and the other sockets progress)."""
        mv = memoryview(data)
        n = 0
        t = 0
        while n < len(mv):
            try:
                n += self.s.send(mv[n:])
                t = 0
            except BlockingIOError:
                t += 1
                if t > 2000:
                    return False
                time.sleep(0.001)
                if flush:
                    flush()
            except OSError:
                return False
        return True

    def pump(self):
        """Read everything available. Returns number of bytes read."""
        got = 0
        while not self.closed:
            try:
                d = self.s.recv(1 << 18)
            except BlockingIOError:
                break
            except ConnectionResetError:
                self.closed = True
                break
            if not d:
                self.closed = True
                break
            self.buf += d
            got += len(d)
        self.nbytes += got
        return got

    def packets(self):
        self.pump()
        out = []
        for first, body, size in mqtt.split(self.buf):
            d = mqtt.decode(self.ver, first, body)
            d["size"] = size
            out.append(d)
        return out

    def close(self):
        try:
            self.s.close()
        except OSError:
            pass
        self.closed = True


class WsConn(Conn):
    """A client connection over websockets. What is written goes in frames of random sizes, with fragmented messages, masks and control frames
    in between, as the seed says; what arrives is unwrapped."""

    def __init__(self, path_or_port, ver=5, seed=0):
        super().__init__(path_or_port, ver)
        self.rng = random.Random(seed)
        self.raw = bytearray()
        self.up = False
        self.part = False        # in the middle of a fragmented message
        self.pings = []
        self.wserr = None
        key = base64.b64encode(bytes(self.rng.randrange(256) for _ in range(16))).decode()
        self.accept = base64.b64encode(hashlib.sha1((key + "258EAFA5-E914-47DA-95CA-C5AB0DC85B11").encode()).digest()).decode()
        h = ("GET /mqtt HTTP/1.1\r\nHost: x\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Key: %s\r\n"
             "Sec-WebSocket-Version: 13\r\nSec-WebSocket-Protocol: mqtt\r\n\r\n" % key).encode()
        self.rawsend(h)
        end = time.monotonic() + 20
        while not self.up and not self.closed and time.monotonic() < end:
            self.pump()
            time.sleep(0.0002)
        if not self.up and not self.closed:
            raise ServerDied("no answer to a websocket upgrade")

    def rawsend(self, data, flush=None):
        return super().send(data, flush)

    def frame(self, op, data, fin=True):
        r = self.rng
        n = len(data)
        masked = r.random() < 0.85
        h = bytes([(0x80 if fin else 0) | op])
        m = 0x80 if masked else 0
        if n < 126:
            h += bytes([m | n])
        elif n < 65536:
            h += bytes([m | 126]) + n.to_bytes(2, "big")
        else:
            h += bytes([m | 127]) + n.to_bytes(8, "big")
        if not masked:
            return h + data
        k = bytes(r.randrange(256) for _ in range(4))
        x = (k * (n // 4 + 1))[:n]
        return h + k + (int.from_bytes(data, "big") ^ int.from_bytes(x, "big")).to_bytes(n, "big")

    def control(self):
        r = self.rng
        d = bytes(r.randrange(256) for _ in range(r.choice([0, 0, 1, 4, 60, 124, 125])))
        if r.random() < 0.7:
            self.pings.append(d)
            return self.frame(9, d)
        return self.frame(10, d)

    def send(self, data, flush=None):
        r = self.rng
        out = b""
        i = 0
        big = len(data) > 4000
        while i < len(data) or self.part:
            if r.random() < 0.15:
                out += self.control()
            n = min(len(data) - i, r.choice([1, 2, 3, 10, 125, 126, 127, 1000, 70000] if not big else [700, 5000, 65535, 65536, 70000]))
            if r.random() < 0.5 and i == 0:
                n = len(data)
            if r.random() < 0.05:
                n = 0
            fin = r.random() < 0.6
            out += self.frame(0 if self.part else 2, data[i:i + n], fin)
            self.part = not fin
            i += n
        if r.random() < 0.15:
            out += self.control()
        while out and r.random() < 0.3:
            n = r.randint(1, len(out))
            if not self.rawsend(out[:n], flush):
                return False
            out = out[n:]
            time.sleep(0.0004)
        return self.rawsend(out, flush)

    def pump(self):
        keep, self.buf = self.buf, self.raw
        n = super().pump()
        self.raw, self.buf = self.buf, keep
        if not self.up:
            i = self.raw.find(b"\r\n\r\n")
            if i < 0:
                return n
            h = bytes(self.raw[:i]).decode("latin-1")
            del self.raw[:i + 4]
            if not h.startswith("HTTP/1.1 101") or ("Sec-WebSocket-Accept: " + self.accept) not in h:
                raise ServerDied("websocket answer: " + h)
            self.up = True
        while len(self.raw) >= 2:
            b0, b1 = self.raw[0], self.raw[1]
            ln, at = b1 & 127, 2
            if ln == 126:
                if len(self.raw) < 4:
                    break
                ln, at = int.from_bytes(self.raw[2:4], "big"), 4
            elif ln == 127:
                if len(self.raw) < 10:
                    break
                ln, at = int.from_bytes(self.raw[2:10], "big"), 10
            if len(self.raw) < at + ln:
                break
            d = bytes(self.raw[at:at + ln])
            del self.raw[:at + ln]
            op = b0 & 15
            if b1 & 0x80 or b0 & 0x70:
                self.wserr = "bad frame header %02x %02x" % (b0, b1)
            elif op in (0, 2):
                self.buf += d
            elif op == 10:
                if not self.pings or self.pings.pop(0) != d:
                    self.wserr = "wrong pong"
            elif op not in (8, 9):
                self.wserr = "frame with opcode %d" % op
        return n

    def packets(self):
        out = super().packets()
        if self.wserr:
            out.append(dict(k="websocket-error", why=self.wserr, size=0))
        return out
