"""P24: app/pafd as a real process with real signals, over shim/xcmshim.c."""

import json
import os
import select
import signal
import socket
import subprocess
import sys
import tempfile
import time

from pv.direct import Bug, digest

TAGS = {"P24"}
SIGNALS = [signal.SIGTERM, signal.SIGINT, signal.SIGHUP]
N = [0]


class Peer:
    n = 0

    def __init__(self, ns, addr):
        Peer.n += 1
        self.s = socket.socket(socket.AF_UNIX, socket.SOCK_SEQPACKET)
        t = addr.split(":")[0]
        local = "" if t.startswith("ux") else "10.0.0.%d:%d" % (Peer.n % 250 + 1, 1000 + Peer.n % 60000)
        try:
            self.s.bind("\0%s/c/%s:%s/-/%d.%d" % (ns, t, local, os.getpid(), Peer.n))
            self.s.connect("\0%s/s/%s" % (ns, addr))
        except OSError:
            self.s.close()
            raise
        self.s.setblocking(False)
        self.ta = 0
        self.stalled = False
        self.closed = False

    def send(self, cmd, **f):
        m = {"ta-cmd": cmd, "ta-id": self.ta, "msg-type": "request"}
        m.update({k.replace("_", "-"): v for k, v in f.items()})
        self.ta += 1
        try:
            self.s.send(json.dumps(m).encode())
            return True
        except (BlockingIOError, BrokenPipeError, ConnectionResetError):
            return False

    def raw(self, d):
        try:
            self.s.send(d)
        except (BlockingIOError, BrokenPipeError, ConnectionResetError):
            pass

    def drain(self):
        """True at the end of the connection."""
        while True:
            try:
                if not self.s.recv(70000):
                    return True
            except BlockingIOError:
                return False
            except ConnectionResetError:
                return True


def environment(d, ns):
    from pv import dxcm
    from pv.world import REPO
    return {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "PYTHONPATH": REPO, "PYTHONDONTWRITEBYTECODE": "1", "HOME": d,
            "LD_LIBRARY_PATH": os.path.join(dxcm.DIR, "plain"), "XCM_SHIM_NS": ns, "XCM_SHIM_LOG": os.path.join(d, "xcm.log"),
            "LC_ALL": "C.UTF-8"}


def book(path):
    n = {"SERVER": 0, "ACCEPT": 0, "CLOSE server": 0, "CLOSE conn": 0}
    bad = None
    if os.path.exists(path):
        for l in open(path, errors="replace"):
            for k in n:
                if l.startswith(k + " "):
                    n[k] += 1
            if l.startswith("MISUSE"):
                bad = l.strip()
    return n, bad


def p24_real(rng, c):
    N[0] += 1
    ns = "pv24-%d-%d" % (os.getpid(), N[0])
    from pv.world import REPO
    for _ in range(3):
        N[0] += 1
        ns = "pv24-%d-%d" % (os.getpid(), N[0])
        with tempfile.TemporaryDirectory(prefix="pv-proc-") as d:
            one(rng, c, d, ns, REPO)


def one(rng, c, d, ns, repo):
    log = []

    def note(x):
        log.append(x)
        c.trace.append(x)

    def bug(x, tags=TAGS):
        out = open(os.path.join(d, "out"), errors="replace").read()
        raise Bug(tags, "%s\n%s\noutput: %s" % (x, "\n".join(log[-30:]), out[-1500:]))
    addrs = rng.sample(["ux:a", "ux:b", "tcp:127.0.0.1:1", "tcp:[::1]:2", "uxf:/x"], rng.choice([1, 1, 2, 3]))
    env = environment(d, ns)
    if rng.random() < 0.4:
        env["XCM_SHIM_EAGAIN"] = rng.choice(["2", "3", "5"])
    if rng.random() < 0.5:
        with open(os.path.join(d, "conf"), "w") as f:
            n = rng.choice([1, len(addrs)])
            doms = [[a for i, a in enumerate(addrs) if i % n == k] for k in range(n)]
            json.dump({"domains": [{"sockets": x, "idle": {"min": 1, "max": 2}} for x in doms if x]}, f)
        args = ["-f", os.path.join(d, "conf")]
    else:
        args = list(addrs)
    args = ["-n"] + rng.choice([[], [], ["-s"], ["-s", "-l", "debug"]]) + args
    taken = None
    if rng.random() < 0.25:
        taken = rng.choice(addrs)
    elif rng.random() < 0.1:
        args = list(addrs) + ["nonsense"]
        rng.shuffle(args)
        args = ["-n"] + args
        taken = "nonsense"
    holder = None
    if taken and taken != "nonsense":
        holder = socket.socket(socket.AF_UNIX, socket.SOCK_SEQPACKET)
        holder.bind("\0%s/s/%s" % (ns, taken))
        holder.listen(1)
    note("pafd %s%s" % (" ".join(args), ", %s is in use" % taken if holder else ""))
    out = open(os.path.join(d, "out"), "w")
    p = subprocess.Popen([sys.executable, os.path.join(repo, "app", "pafd")] + args, stdin=subprocess.DEVNULL, stdout=out,
                         stderr=subprocess.STDOUT, env=env, cwd=d, start_new_session=True)
    out.close()
    peers = []
    try:
        if taken:
            try:
                rc = p.wait(20)
            except subprocess.TimeoutExpired:
                bug("%s can not be had, but the daemon goes on" % taken)
            n, bad = book(env["XCM_SHIM_LOG"])
            if rc == 0:
                bug("%s can not be had, but the exit status is 0" % taken)
            if rc < 0:
                bug("%s can not be had, and the daemon dies from signal %d" % (taken, -rc))
            if bad:
                bug(bad, {"P24", "P27"})
            if n["SERVER"] != n["CLOSE server"]:
                bug("%d server sockets made, %d closed, after a failure to start" % (n["SERVER"], n["CLOSE server"]))
            c.counts["start-up failures judged"] += 1
            c.evaluations += 1
            c.distinct.add(digest("fail", tuple(args), taken))
            return
        end = time.monotonic() + 20
        for a in addrs:
            while True:
                try:
                    Peer(ns, a).s.close()
                    break
                except OSError:
                    if p.poll() is not None or time.monotonic() > end:
                        bug("the daemon does not start (status %r)" % p.poll())
                    time.sleep(0.005)
        # load
        if rng.random() < 0.15:
            for i in range(rng.choice([65, 70, 130, 260, 300])):
                for _ in range(200):
                    try:
                        peers.append(Peer(ns, rng.choice(addrs)))
                        break
                    except OSError:
                        time.sleep(0.005)
                else:
                    bug("connections are not accepted")
                peers[-1].send("hello", client_id=1000 + i, protocol_minimum_version=2, protocol_maximum_version=2)
                if rng.random() < 0.3:
                    peers[-1].send("subscribe", subscription_id=i)
                    peers[-1].send("publish", service_id=100 + i, generation=1, ttl=60, service_props={"name": ["x"]})
                peers[-1].stalled = rng.random() < 0.5
            c.counts["crowds"] += 1
        steps = rng.choice([0, 1, 5, 40, 150])
        at = rng.randrange(steps + 1)
        sig = [rng.choice(SIGNALS) for _ in range(rng.choice([1, 1, 1, 2, 4]))]
        for i in range(steps + 1):
            if i == at:
                if rng.random() < 0.5:
                    time.sleep(rng.choice([0.0002, 0.001, 0.01, 0.06]))
                if len(sig) > 1:
                    os.kill(p.pid, signal.SIGSTOP)      # several at the same time
                for s in sig:
                    os.kill(p.pid, s)
                if len(sig) > 1:
                    os.kill(p.pid, signal.SIGCONT)
                note("signals %r at step %d of %d, %d connections" % ([int(s) for s in sig], at, steps, len(peers)))
                t0 = time.monotonic()
                if i > steps - 20 or rng.random() < 0.5:
                    break
                continue
            k = rng.randrange(12)
            live = [x for x in peers if not x.closed]
            if k < 2 or not live:
                if len(peers) < 40:
                    try:
                        peers.append(Peer(ns, rng.choice(addrs)))
                    except OSError:
                        if i < at:
                            bug("connection refused before the signal")
                        continue
                    if rng.random() < 0.8:
                        v = rng.choice([2, 3, 3])
                        peers[-1].send("hello", client_id=len(peers), protocol_minimum_version=2, protocol_maximum_version=v)
                    peers[-1].stalled = rng.random() < 0.3
                continue
            x = rng.choice(live)
            if k == 2:
                x.send("subscribe", subscription_id=rng.randrange(1 << 40))
            elif k < 5:
                x.send("publish", service_id=rng.randrange(50), generation=i, ttl=rng.choice([0, 1, 60]),
                       service_props={"name": ["x" * rng.choice([1, 100, 20000])]})
            elif k == 5:
                x.send("unpublish", service_id=rng.randrange(50))
            elif k < 8:
                for _ in range(rng.choice([1, 5, 60])):
                    x.send(rng.choice(["ping", "services", "clients", "subscriptions"]))
            elif k == 8 and rng.random() < 0.5:
                x.s.close()
                x.closed = True
            elif k == 9 and rng.random() < 0.3:
                x.raw(rng.choice([b"junk", b"[]", b"{}", b"\xff"]))
            elif k == 10:
                x.send("track")
            else:
                for y in live:
                    if not y.stalled:
                        y.drain()
        try:
            # stalled clients do not read until the daemon is gone
            rc = p.wait(15)
        except subprocess.TimeoutExpired:
            bug("still running 15 s after the signal")
        took = time.monotonic() - t0
        if rc != 0:
            bug("exit status %d after signal" % rc)
        for x in peers:
            if x.closed:
                continue
            if not x.drain():
                bug("a connection is still open after the end of the daemon")
            c.counts["connections closed"] += 1
        n, bad = book(env["XCM_SHIM_LOG"])
        if bad:
            bug(bad, {"P24", "P27"})
        if n["SERVER"] != len(addrs) or n["SERVER"] != n["CLOSE server"]:
            bug("%d server sockets made, %d closed, for %d addresses" % (n["SERVER"], n["CLOSE server"], len(addrs)))
        if n["ACCEPT"] != n["CLOSE conn"]:
            bug("%d connections accepted, %d closed" % (n["ACCEPT"], n["CLOSE conn"]))
        text = open(os.path.join(d, "out"), errors="replace").read()
        if "Traceback" in text:
            bug("a traceback at the end")
        c.counts["terminations judged"] += 1
        c.counts["terminations within %s s" % (0.1 if took < 0.1 else 1 if took < 1 else 15)] += 1
        c.evaluations += 1
        c.distinct.add(digest(tuple(args), steps, at, tuple(sig), len(peers)))
    finally:
        for x in peers:
            x.s.close()
        if holder:
            holder.close()
        if p.poll() is None:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except (ProcessLookupError, PermissionError):
                pass
            p.wait()


# ---------------------------------------------------------------- the whole thing in real time

class View:
    """What a subscriber has been told."""

    def __init__(self, key):
        self.key = key          # only services with this value for "k", or None
        self.seen = {}
        self.accepted = False


class User(Peer):
    def __init__(self, ns, addr, cid, bug):
        Peer.__init__(self, ns, addr)
        self.cid = cid
        self.bug = bug
        self.open = {}          # ta id -> (cmd, what)
        self.views = {}         # ta id -> View
        self.listed = None
        self.out = []           # requests that did not fit
        self.got = 0

    def ask(self, cmd, what=None, **f):
        m = {"ta-cmd": cmd, "ta-id": self.ta, "msg-type": "request"}
        m.update({k.replace("_", "-"): v for k, v in f.items()})
        self.open[self.ta] = (cmd, what)
        self.ta += 1
        self.out.append(json.dumps(m).encode())
        self.push()
        return self.ta - 1

    def push(self):
        while self.out:
            try:
                self.s.send(self.out[0])
            except BlockingIOError:
                return
            except (BrokenPipeError, ConnectionResetError):
                self.bug("the server closed the connection of client %d" % self.cid)
            self.out.pop(0)

    def take(self, most, world):
        n = 0
        while n < most:
            try:
                d = self.s.recv(70000)
            except BlockingIOError:
                break
            except ConnectionResetError:
                d = b""
            if not d:
                self.bug("the server closed the connection of client %d" % self.cid)
            n += 1
            self.got += 1
            self.handle(json.loads(d), world)
        return n

    def handle(self, m, world):
        ta, kind, cmd = m["ta-id"], m["msg-type"], m["ta-cmd"]
        if ta not in self.open or self.open[ta][0] != cmd:
            self.bug("a message without transaction: %r" % m)
        what = self.open[ta][1]
        if cmd == "subscribe":
            v = self.views[ta]
            if kind == "accept":
                if v.accepted:
                    self.bug("accepted twice")
                v.accepted = True
            elif kind == "notify":
                if not v.accepted:
                    self.bug("a notification before the acceptance")
                self.event(v, m)
            else:
                self.bug("unexpected %r" % m)
            return
        if kind == "notify" and cmd == "services":
            if m["service-id"] in self.listed:
                self.bug("listed twice: %r" % m)
            self.listed[m["service-id"]] = m
            return
        if kind == "accept":
            self.listed = {}
            return
        if kind == "notify" and cmd == "track":
            return
        if kind not in ("complete", "fail"):
            self.bug("unexpected %r" % m)
        del self.open[ta]
        if kind == "fail" and cmd in ("publish", "hello", "ping", "services"):
            # only this client publishes this id, with ever higher generations
            self.bug("%s of client %d is refused: %r" % (cmd, self.cid, m))
        if kind == "fail" and cmd == "unpublish" and m.get("fail-reason") != "non-existent-service-id":
            self.bug("unpublish refused: %r" % m)

    def event(self, v, m):
        sid, t = m["service-id"], m["match-type"]
        old = v.seen.get(sid)
        if t == "appeared":
            if old is not None:
                self.bug("service %d appeared, but it is known" % sid)
        elif old is None:
            self.bug("service %d %s, but never appeared" % (sid, t))
        if t == "disappeared":
            del v.seen[sid]
            return
        if old is not None and m["generation"] < old["generation"]:
            self.bug("service %d goes back from generation %d to %d" % (sid, old["generation"], m["generation"]))
        if v.key is not None and m["service-props"].get("k") != [v.key]:
            self.bug("the filter does not match %r" % m)
        v.seen[sid] = m


def p01_real(rng, c):
    N[0] += 1
    ns = "pv01-%d-%d" % (os.getpid(), N[0])
    with tempfile.TemporaryDirectory(prefix="pv-proc-") as d:
        try:
            soak(rng, c, d, ns)
        except Slow:
            c.inconclusive = "slow"


class Slow(Exception):
    pass


def soak(rng, c, d, ns):
    from pv.world import REPO
    tags = {"P01", "P16"}
    began = time.monotonic()

    def bug(x):
        if time.monotonic() - began > 15 and ("closed the connection" in x or "orphan" in x):
            raise Slow()        # clients are dropped after 30 s of silence
        out = open(os.path.join(d, "out"), errors="replace").read()
        raise Bug(tags, "%s\noutput: %s" % (x, out[-1500:]))
    env = environment(d, ns)
    if rng.random() < 0.6:
        env["XCM_SHIM_EAGAIN"] = rng.choice(["2", "3", "7"])
    addrs = ["ux:a", "tcp:127.0.0.1:1"][:rng.choice([1, 2])]
    out = open(os.path.join(d, "out"), "w")
    sockets = "+".join(addrs)
    p = subprocess.Popen([sys.executable, os.path.join(REPO, "app", "pafd"), "-n", "-m", sockets], stdin=subprocess.DEVNULL,
                         stdout=out, stderr=subprocess.STDOUT, env=env, cwd=d, start_new_session=True)
    out.close()
    users, nuser, gen = [], [0], {}
    left = []       # (service ids, when they must be gone)
    truth = {}      # service id -> (generation, props, owner id)
    try:
        end = time.monotonic() + 20
        while True:
            try:
                Peer(ns, addrs[-1]).s.close()
                break
            except OSError:
                if p.poll() is not None or time.monotonic() > end:
                    bug("the daemon does not start (status %r)" % p.poll())
                time.sleep(0.005)

        def new():
            nuser[0] += 1
            u = User(ns, addrs[0] if rng.random() < 0.5 else addrs[-1], nuser[0], bug)
            u.ask("hello", client_id=u.cid, protocol_minimum_version=2, protocol_maximum_version=rng.choice([2, 3]))
            u.lazy = rng.random() < 0.25
            users.append(u)
            return u

        for _ in range(rng.choice([2, 4, 8])):
            new()
        for step in range(rng.choice([60, 150, 300])):
            u = rng.choice(users)
            k = rng.randrange(20)
            if k < 3 and len(u.views) < 5:
                key = rng.choice([None, None, "x", "y"])
                ta = u.ask("subscribe", subscription_id=(u.cid << 16) + step, **({} if key is None else {"filter": "(k=%s)" % key}))
                u.views[ta] = View(key)
            elif k < 11:
                sid = u.cid * 100 + rng.randrange(6)
                gen[sid] = gen.get(sid, 0) + 1
                key = rng.choice("xyz")
                size = rng.choice([1, 1, 100, 8000, 60000 // 2])
                props = {"k": [key], "name": ["n" * size]}
                u.ask("publish", service_id=sid, generation=gen[sid], ttl=3600, service_props=props)
                truth[sid] = (gen[sid], props, u.cid)
            elif k < 14:
                sid = u.cid * 100 + rng.randrange(6)
                u.ask("unpublish", service_id=sid)
                truth.pop(sid, None)
            elif k < 16:
                for _ in range(rng.choice([1, 20])):
                    u.ask("ping")
            elif k == 16 and not any(o[0] == "services" for o in u.open.values()):
                u.ask("services")
            elif k == 17 and len(users) < 10:
                new()
            elif k == 18 and len(users) > 2 and rng.random() < 0.3:
                # leaves; its services become orphans
                if u.open.keys() - u.views.keys() or u.out:
                    continue
                u.s.close()
                users.remove(u)
            for x in users:
                if not x.lazy or rng.random() < 0.02:
                    x.take(rng.choice([0, 1, 3, 100]), None)
                    x.push()
        # let everything come to rest
        fresh = new()
        end = time.monotonic() + 60
        quiet = 0
        while quiet < 4:
            n = 0
            for x in users:
                x.push()
                n += x.take(1000, None)
            busy = any(x.out or x.open.keys() - x.views.keys() for x in users)
            quiet = 0 if n or busy else quiet + 1
            if time.monotonic() > end:
                bug("no rest: %r" % {x.cid: (len(x.out), sorted(x.open.keys() - x.views.keys())[:5]) for x in users
                                    if x.out or x.open.keys() - x.views.keys()})
            if p.poll() is not None:
                bug("the daemon ended with status %d" % p.poll())
            if not n:
                select.select([x.s for x in users], [], [], 0.02 if busy or quiet == 0 else 0.06)
        fresh.ask("services")
        end = time.monotonic() + 60
        while fresh.open:
            fresh.push()
            fresh.take(1000, None)
            if time.monotonic() > end:
                bug("services is not answered")
            select.select([fresh.s], [], [], 0.05)

        def same(what, got, want):
            if set(got) != set(want):
                bug("%s: %r too many, %r missing" % (what, sorted(set(got) - set(want))[:5], sorted(set(want) - set(got))[:5]))
            for sid, m in got.items():
                g, props, owner = want[sid]
                if (m["generation"], m["service-props"], m["client-id"], m["ttl"]) != (g, props, owner, 3600):
                    bug("%s: service %d is %.300r instead of generation %d, owner %d" % (what, sid, m, g, owner))
                gone = not any(x.cid == owner for x in users)
                if gone != ("orphan-since" in m):
                    bug("%s: service %d of a client that is %s is %san orphan" % (
                        what, sid, "gone" if gone else "connected", "" if "orphan-since" in m else "not "))
        same("services", fresh.listed, truth)
        for x in users:
            for v in x.views.values():
                same("subscription %s of client %d" % (v.key, x.cid), v.seen,
                     {s: t for s, t in truth.items() if v.key is None or t[1]["k"] == [v.key]})
                c.counts["real subscriptions compared"] += 1
                c.evaluations += 1
        c.counts["real messages received"] += sum(x.got for x in users)
        c.distinct.add(digest(step, len(users), sorted(truth)))
        os.kill(p.pid, signal.SIGTERM)
        if p.wait(15) != 0:
            bug("exit status %d" % p.returncode)
        n, bad = book(env["XCM_SHIM_LOG"])
        if bad:
            tags.add("P27")
            bug(bad)
    finally:
        for x in users:
            x.s.close()
        if p.poll() is None:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except (ProcessLookupError, PermissionError):
                pass
            p.wait()
