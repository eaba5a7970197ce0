"""Runs the real daemon of the tree in the current directory over a small libxcm stand-in, and talks to it.

Virtual time: Daemon(clock=True) starts it with a clock that advance() moves on.
"""
import json, mmap, os, select, shutil, signal, socket, struct, subprocess, sys, tempfile, time, atexit

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.getcwd()
SCRATCH = tempfile.mkdtemp(prefix="pafdemo")
NS = os.path.basename(SCRATCH)
atexit.register(shutil.rmtree, SCRATCH, True)
PROCS = []


def _kill():
    for p in PROCS:
        if p.poll() is None:
            p.kill()
            p.wait()


atexit.register(_kill)
subprocess.check_call(["gcc", "-O1", "-shared", "-fPIC", "-o", SCRATCH + "/libxcm.so.0", HERE + "/xcmshim.c"])
ENV = dict(os.environ, PYTHONPATH=REPO, LD_LIBRARY_PATH=SCRATCH, XCM_SHIM_NS=NS, PYTHONDONTWRITEBYTECODE="1",
           XCM_SHIM_LOG=SCRATCH + "/xcm.log", HOME=SCRATCH)

WRAP = r'''
import sys, os, mmap, struct, time, select
f = open(sys.argv[1], "r+b"); m = mmap.mmap(f.fileno(), 8)
real = time.time
time.time = lambda: real() + struct.unpack("d", m[:8])[0]
E = select.epoll
class Epoll:
    def __init__(self): self.e = E()
    def __getattr__(self, n): return getattr(self.e, n)
    def poll(self, timeout=None, maxevents=-1):
        end = None if timeout is None or timeout < 0 else time.time() + timeout
        while True:
            ev = self.e.poll(0.005, maxevents)
            if ev or (end is not None and time.time() >= end): return ev
select.epoll = Epoll
import paf.daemon
paf.daemon.main(sys.argv[1:])
'''


class Bad(Exception):
    pass


def need(cond, text):
    if not cond:
        raise Bad(text)


class Daemon:
    def __init__(self, args=(), conf=None, clock=True, addrs=("ux:d",), env=None):
        self.clock = SCRATCH + "/clock%d" % len(PROCS)
        with open(self.clock, "wb") as f:
            f.write(b"\0" * 8)
        self.f = open(self.clock, "r+b")
        self.m = mmap.mmap(self.f.fileno(), 8)
        args = list(args)
        if conf is not None:
            c = SCRATCH + "/conf%d" % len(PROCS)
            with open(c, "w") as f:
                f.write(conf)
            args += ["-f", c]
        else:
            args += list(addrs)
        self.out = SCRATCH + "/out%d" % len(PROCS)
        self.p = subprocess.Popen([sys.executable, "-c", WRAP, self.clock, "-n"] + args if clock else
                                  [sys.executable, "-c", "import sys,paf.daemon; paf.daemon.main(sys.argv)", "-n"] + args,
                                  env=dict(ENV, **(env or {})), stdout=open(self.out, "w"), stderr=subprocess.STDOUT)
        PROCS.append(self.p)
        for _ in range(500):
            if self.p.poll() is not None:
                break
            try:
                Conn(addrs[0]).close()
                break
            except OSError:
                time.sleep(0.02)

    def advance(self, s, settle=0.15):
        self.m[:8] = struct.pack("d", struct.unpack("d", self.m[:8])[0] + s)
        time.sleep(settle)

    def now(self):
        return time.time() + struct.unpack("d", self.m[:8])[0]

    def alive(self):
        return self.p.poll() is None

    def stop(self, signo=signal.SIGTERM, wait=10):
        self.p.send_signal(signo)
        try:
            return self.p.wait(wait)
        except subprocess.TimeoutExpired:
            return None

    def output(self):
        return open(self.out).read()


class Conn:
    n = 0

    def __init__(self, addr="ux:d", local=None, ski="-"):
        Conn.n += 1
        self.s = socket.socket(socket.AF_UNIX, socket.SOCK_SEQPACKET)
        t = addr.split(":")[0]
        if local is None:
            local = "" if t.startswith("ux") else "10.0.0.1:%d" % (20000 + Conn.n)
        self.s.bind("\0%s/c/%s:%s/%s/%d.%d" % (NS, t, local, ski, os.getpid(), Conn.n))
        self.s.connect("\0%s/s/%s" % (NS, addr))
        self.ta = 0
        self.inbox = []

    def send_raw(self, data):
        self.s.send(data)

    def send(self, cmd, ta=None, kind="request", **fields):
        if ta is None:
            ta = self.ta
            self.ta += 1
        m = {"ta-cmd": cmd, "ta-id": ta, "msg-type": kind}
        m.update({k.replace("_", "-"): v for k, v in fields.items()})
        self.s.send(json.dumps(m).encode())
        return ta

    def recv(self, timeout=3.0):
        """A message, None on end of connection; raises Bad on silence."""
        if not select.select([self.s], [], [], timeout)[0]:
            raise Bad("no message within %s s" % timeout)
        try:
            d = self.s.recv(70000)
        except ConnectionError:
            return None
        return json.loads(d) if d else None

    def until(self, ta, timeout=3.0, last=("complete", "fail")):
        """All messages until the final one of transaction ta; other transactions' go to the inbox."""
        res = []
        while True:
            m = self.recv(timeout)
            if m is None:
                return res + [None]
            if m["ta-id"] != ta:
                self.inbox.append(m)
                continue
            res.append(m)
            if m["msg-type"] in last:
                return res

    def ask(self, cmd, timeout=3.0, **fields):
        return self.until(self.send(cmd, **fields), timeout)

    def hello(self, cid, lo=2, hi=3):
        return self.ask("hello", client_id=cid, protocol_minimum_version=lo, protocol_maximum_version=hi)[-1]

    def publish(self, sid, gen=1, props=None, ttl=60):
        return self.ask("publish", service_id=sid, generation=gen, service_props=props or {"name": ["x"]}, ttl=ttl)[-1]

    def unpublish(self, sid):
        return self.ask("unpublish", service_id=sid)[-1]

    def subscribe(self, subid, **f):
        ta = self.send("subscribe", subscription_id=subid, **f)
        return ta, self.until(ta, last=("accept", "fail"))[-1]

    def services(self, **f):
        r = self.ask("services", **f)
        return {m["service-id"]: m for m in r if m and m["msg-type"] == "notify"}

    def ping(self, timeout=3.0):
        m = self.ask("ping", timeout)[-1]
        return m is not None and m["msg-type"] == "complete"

    def drain(self):
        """Everything that has arrived, ordered, by way of a ping."""
        self.inbox, old = [], self.inbox
        need(self.ping(), "connection lost")
        res, self.inbox = old + self.inbox, []
        return res

    def closed(self, timeout=1.0):
        try:
            while True:
                if self.recv(timeout) is None:
                    return True
        except Bad:
            return False

    def close(self):
        self.s.close()


def ok(m):
    return m is not None and m["msg-type"] == "complete"


def failed(m, reason=None):
    return m is not None and m["msg-type"] == "fail" and (reason is None or m.get("fail-reason") == reason)


def run(fun):
    try:
        fun()
    except Bad as e:
        print("BROKEN: %s" % e)
        _kill()
        sys.exit(1)
    print("fine")
    sys.exit(0)
