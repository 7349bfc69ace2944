"""A broker in a scratch directory and small synchronous clients, for the demonstrations."""
import os, select, shutil, signal, socket, subprocess, sys, tempfile, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mq

BIN = os.path.join(os.getcwd(), "_build/flashmq/flashmq")


class Broker:
    def __init__(self, conf="", files=None, threads=1, listener=""):
        self.dir = tempfile.mkdtemp(prefix="fmqdemo")
        self.sock = os.path.join(self.dir, "s")
        for n, t in (files or {}).items():
            open(os.path.join(self.dir, n), "w").write(t)
        os.mkdir(os.path.join(self.dir, "db"))
        if "allow_anonymous" not in conf:
            conf += "\nallow_anonymous true\n"
        with open(os.path.join(self.dir, "c"), "w") as f:
            f.write("thread_count %d\nlog_file %s/log\n%s\nlisten {\n  protocol mqtt\n  inet_protocol unix\n  unix_socket_path %s\n%s}\n" % (
                threads, self.dir, conf.replace("@DIR@", self.dir), self.sock, listener))
        self.p = None
        self.start()

    def start(self):
        self.p = subprocess.Popen([BIN, "-c", os.path.join(self.dir, "c")], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        t = time.time()
        while True:
            try:
                s = socket.socket(socket.AF_UNIX)
                s.connect(self.sock)
                s.close()
                return
            except OSError:
                if time.time() - t > 20:
                    raise SystemExit("the broker does not start")
                time.sleep(0.05)

    def stop(self, sig=signal.SIGTERM):
        self.p.send_signal(sig)
        self.p.wait(60)
        if os.path.exists(self.sock):
            os.unlink(self.sock)

    def done(self):
        try:
            self.p.kill()
            self.p.wait()
        except OSError:
            pass
        shutil.rmtree(self.dir, ignore_errors=True)


class Client:
    def __init__(self, b, cid="", ver=5, clean=True, connect=True, **kw):
        self.ver = ver
        self.buf = bytearray()
        self.got = []
        self.closed = False
        self.s = socket.socket(socket.AF_UNIX)
        self.s.connect(b.sock)
        self.pid = 0
        if connect:
            self.send(mq.connect(ver, cid, clean, **kw))
            self.ack = self.wait("connack")

    def send(self, data):
        try:
            self.s.sendall(data)
        except OSError:
            self.closed = True

    def read(self, t=0.3):
        """everything that arrives until nothing did for t seconds"""
        out = []
        while not self.closed:
            r, _, _ = select.select([self.s], [], [], t)
            if not r:
                break
            try:
                d = self.s.recv(65536)
            except OSError:
                d = b""
            if not d:
                self.closed = True
                break
            self.buf += d
            for first, body, size in mq.split(self.buf):
                p = mq.decode(self.ver, first, body)
                p["size"] = size
                out.append(p)
        self.got += out
        return out

    def wait(self, kind, timeout=10):
        t = time.time()
        seen = []
        while time.time() - t < timeout and not self.closed:
            seen += self.read(0.05)
            for p in seen:
                if p["k"] == kind:
                    self.last = seen
                    return p
        self.last = seen
        return None

    def pubs(self, t=0.4):
        return [p for p in self.read(t) if p["k"] == "publish"]

    def sub(self, *fs, **kw):
        self.pid += 1
        self.send(mq.subscribe(self.ver, self.pid, [f if isinstance(f, tuple) else (f, 2) for f in fs], **kw))
        return self.wait("suback")

    def pub(self, t, p=b"", q=0, pid=0, **kw):
        if q and not pid:
            self.pid += 1
            pid = self.pid
        self.send(mq.publish(self.ver, t, p, q, pid=pid, **kw))
        if q == 1:
            return self.wait("puback")
        if q == 2:
            return self.wait("pubrec")

    def acks(self, kind, pid, rc=None):
        self.send(mq.ack(self.ver, kind, pid, rc))

    def close(self):
        self.s.close()
        self.closed = True


def main(run, **kw):
    b = Broker(**kw)
    try:
        run(b)
    except AssertionError as e:
        print("FAILED:", e)
        sys.exit(1)
    finally:
        b.done()
    print("ok")
