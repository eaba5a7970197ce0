"""P19: configuration files and command lines of the daemon. paf.daemon.main is run in the simulated environment
with generated ones; what it does is compared with what was configured."""

import collections
import contextlib
import copy
import errno
import gc
import io
import json
import logging
import logging.handlers
import os
import random
import re
import shutil
import signal
import socket
import tempfile
import threading
import traceback

from pv import simos, world
from pv.direct import Bug, digest

T = {"P19"}
LEVELS = {"debug": 7, "info": 6, "warning": 4, "error": 3, "critical": 2}
FACILITIES = dict(logging.handlers.SysLogHandler.facility_names)
TLS = {"cert": "tls.cert_file", "key": "tls.key_file", "tc": "tls.tc_file", "crl": "tls.crl_file"}
ADDRS = ["ux:d%d", "tcp:127.0.0.1:%d", "tcp:*:47%d", "tls:*:48%d", "utls:[::]:49%d", "tls:192.168.1.59:50%d", "uxf:/x/y%d", "ux:a b%d"]
PROBE = 7     # as many objects are created to find a limit


class Conf:
    def __init__(self):
        self.domains = []
        self.user = {}
        self.total = {}
        self.log = {"console": False, "log_file": None, "log_file_backup": 0, "log_file_max_size": 1000000, "syslog": True,
                    "syslog_socket": "/dev/log", "facility": "daemon", "filter": "info"}


class Dom:
    def __init__(self, sockets, v=(2, 3), idle=(4, 30)):
        self.sockets = sockets        # (address, tls attributes)
        self.v = v
        self.idle = idle


class Gen:
    def __init__(self, r, top):
        self.r = r
        self.top = top
        self.n = 0
        self.reject = None        # the reason
        self.info = None
        self.note = []
        self.conf = Conf()

    def addr(self):
        self.n += 1
        return self.r.choice(ADDRS) % self.n

    def file_domain(self):
        r = self.r
        d, socks, want = {}, [], []
        for _ in range(r.choice([1, 1, 2, 3]) if r.random() < 0.96 else r.choice([5, 6, 9, 17, 33])):
            a = self.addr()
            how = r.random()
            if how < 0.5:
                socks.append(a)
                want.append((a, {}))
                continue
            s = {"addr": a}
            attrs = {}
            if a.startswith(("tls", "utls")) and r.random() < 0.8:
                s["tls"] = {}
                for k, x in TLS.items():
                    if r.random() < 0.5:
                        s["tls"][k] = attrs[x] = r.choice(["/etc/c.pem", "x y", "/\u00e5", "10"]) + str(r.randrange(9))
                        if k == "crl":
                            attrs["tls.check_crl"] = True
            socks.append(s)
            want.append((a, attrs))
        d[r.choice(["sockets", "sockets", "addrs"])] = socks
        if r.random() < 0.3:
            d["name"] = r.choice(["oam", "d 1", "", "\u00e5\u4e2d", "0", "null", "%s%d", "{x}"])
        v = [2, 3]
        if r.random() < 0.4:
            pv = {}
            lo, hi = r.choice([(2, 3), (2, 2), (3, 3)])
            if lo == 3 or r.random() < 0.5:
                pv["min"] = v[0] = lo
            if hi == 2 or r.random() < 0.5:
                pv["max"] = v[1] = hi
            d["protocol_version"] = pv
        idle = [4, 30]
        x = r.random()
        if x < 0.5:
            i = {}
            if r.random() < 0.6:
                i["min"] = idle[0] = r.choice([1, 2, 3, 4, 5, 9, 30])
            if r.random() < 0.6:
                i["max"] = idle[1] = idle[0] + r.choice([0, 1, 3, 11, 200])
            if "max" not in i and r.random() < 0.3:
                d["max_idle_time"] = idle[1] = idle[0] + r.choice([0, 2, 7])
            d["idle"] = i
        elif x < 0.65:
            d["max_idle_time"] = idle[1] = 4 + r.choice([0, 1, 13, 70])
        keys = list(d)
        r.shuffle(keys)
        self.conf.domains.append(Dom(want, tuple(v), tuple(idle)))
        return {k: d[k] for k in keys}

    def limits(self):
        r = self.r
        l = {}
        for k in ("clients", "services", "subscriptions"):
            if r.random() < 0.5:
                l[k] = r.choice([0, 1, 2, 3, 4, 5, 6, 1000, 10 ** 12] if k != "clients" else [1, 2, 3, 4, 5, 6, 1000])
        return l

    def file(self):
        r = self.r
        c = self.conf
        root = {}
        if r.random() < 0.85:
            root["domains"] = [self.file_domain() for _ in range(r.choice([1, 1, 2, 3]) if r.random() < 0.97 else r.choice([5, 9, 17, 33]))]
        if r.random() < 0.6:
            root["resources"] = {}
            for k in ("user", "total"):
                if r.random() < 0.6:
                    root["resources"][k] = self.limits()
                    getattr(c, k).update(root["resources"][k])
        if r.random() < 0.7:
            l = root["log"] = {}
            if r.random() < 0.5:
                l["console"] = r.random() < 0.5
            if r.random() < 0.4:
                l["log_file"] = os.path.join(self.top, r.choice(["log1", "log 2"]))
            if r.random() < 0.4:
                l["log_file_max_size"] = r.choice([300, 900, 5000, 10 ** 7])
            if r.random() < (0.8 if "log_file_max_size" in l else 0.4):
                l["log_file_backup"] = r.choice([0, 1, 2, 5])
            if r.random() < 0.5:
                l["syslog"] = r.random() < 0.4
            if r.random() < 0.6:
                l["syslog_socket"] = os.path.join(self.top, r.choice(["s1", "s2"]))
            if r.random() < 0.4:
                l["facility"] = r.choice(list(FACILITIES))
            if r.random() < 0.5:
                l["filter"] = r.choice(list(LEVELS))
            c.log.update(l)
        if r.random() < 0.3:
            ks = list(root)
            r.shuffle(ks)
            root = {k: root[k] for k in ks}
        return root

    # ---- what may be wrong with a file

    def spoil(self, root):
        """-> the file's text (bytes), spoilt"""
        r = self.r
        f = copy.deepcopy(root)
        f.setdefault("domains", [{"sockets": ["ux:x"]}])
        f.setdefault("log", {})
        res = f.setdefault("resources", {})
        res.setdefault("user", {})
        d = r.choice(f["domains"])
        log = f["log"]
        key = "addrs" if "addrs" in d else "sockets"
        ops = []

        def op(what, fun):
            ops.append((what, fun))

        def put(where, k, vals):
            for v in vals:
                op("%s: %r" % (k, v), lambda v=v: where.__setitem__(k, v))
        put(f, "domains", [{}, "ux:x", 3, {"sockets": ["ux:x"]}, True, ["ux:x"], [3], [["ux:x"]]])
        put(f, "log", [[], "info", 3, True])
        put(f, "resources", [[], "x", 5, True])
        put(d, "name", [3, ["x"], {"a": 1}, 1.5, True])
        put(d, key, ["ux:x", {}, 3, {"addr": "ux:x"}, [3], [["ux:x"]], [True], [{}], [{"tls": {}}], [{"addr": 3}], [{"addr": ["ux:x"]}],
                     [{"addr": "tcp:*:1", "tls": {"cert": "x"}}], [{"addr": "ux:tls", "tls": {}}],
                     [{"addr": "btls:*:1", "tls": {}}], [{"addr": "uxf:/tls", "tls": {"cert": "x"}}], [{"addr": "utcp:*:1", "tls": {}}], [{"addr": "tls", "tls": {"x": "y"}}],
                     [{"addr": "tls:*:1", "tls": {"ca": "x"}}], [{"addr": "tls:*:1", "tls": {"cert": 3}}],
                     [{"addr": "tls:*:1", "tls": {"key": True}}], [{"addr": "tls:*:1", "tls": {"tc": ["x"]}}],
                     [{"addr": "tls:*:1", "tls": ["x"]}], [{"addr": "tls:*:1", "tls": "x"}], [{"addr": "tls:*:1", "tls": 3}],
                     ["ux:ok%d" % r.randrange(99), 3]])
        op("no sockets", lambda: d.pop(key))
        op("both names", lambda: d.update(sockets=["ux:p"], addrs=["ux:q"]))
        put(d, "protocol_version", [[], "3", 3, {"min": 1}, {"max": 4}, {"min": 3, "max": 2}, {"min": "2"}, {"max": 2.5}, {"max": "3"},
                                    {"min": [2]}, {"max": 1}, {"min": 4}, {"min": 0, "max": 3}, {"max": 99}, {"max": True}, {"min": [3]}])
        put(d, "idle", [[], "x", 5, {"min": 0}, {"min": -1}, {"min": 5, "max": 4}, {"max": "x"}, {"min": [1]}, {"min": "4"}, {"max": -5}, {"min": True}, {"max": 15.5}])

        def only(k, v, drop):
            for x in drop:
                d.pop(x, None)
            d[k] = v
        op("max below the default min", lambda: only("idle", {"max": 3}, ["max_idle_time"]))
        op("min above the default max", lambda: only("idle", {"min": 31}, ["max_idle_time"]))
        op("max_idle_time below the default min", lambda: only("max_idle_time", 3, ["idle"]))
        op("max_idle_time 'x'", lambda: only("max_idle_time", "x", ["idle"]))
        op("max_idle_time -1", lambda: only("max_idle_time", -1, ["idle"]))
        op("max_idle_time below min", lambda: d.update(idle={"min": 9}, max_idle_time=8))
        op("max_idle_time and idle.max", lambda: d.update(idle={"max": 20}, max_idle_time=20))
        for k in ("user", "total"):
            put(res, k, [[], "x", 3, ["clients"]])
            for n in ("clients", "services", "subscriptions"):
                for v in (-1, "x", "3", 1.5, [1], {}, -10 ** 20, True, False):
                    op("%s.%s: %r" % (k, n, v), lambda k=k, n=n, v=v: res.setdefault(k, {}).__setitem__(n, v))
            for n in ("client", "Clients", "foo", 3, True, "service", "subscription", "subs", "max_clients"):
                op("%s.%s" % (k, n), lambda k=k, n=n: res.setdefault(k, {}).__setitem__(n, 3))
        put(log, "console", ["yes!", 1, [], 0.5])
        put(log, "syslog", ["x", 0, {}])
        put(log, "log_file", [3, [], True])
        put(log, "log_file_backup", ["3", 1.5, [], True])
        put(log, "log_file_max_size", ["3", 1.5, {}])
        put(log, "syslog_socket", [3, ["/dev/log"], False])
        put(log, "facility", ["nope", 3, "", "DAEMON", []])
        put(log, "filter", ["verbose", 3, "", "Info", ["info"], "information"])
        # groups of equal weight
        what, fun = r.choice(ops)
        fun()
        self.reject = "file with " + what
        return self.render(f)

    def garbage(self):
        r = self.r
        t = r.choice([b"a: [", b"{", b"a: b: c\n", b"\"", b"\t- x: y\n\tz", b"\xff\xfe\x00", b"a: \xc3\x28", b"\x00", b"%x\n", b"*x", b"!!python/object:os.system x",
                      b"[1, 2]", b"- domains\n- log\n", b"just text", b"17", b"!!int x", b"2001-99-99", b"&a [*a]", b"? [a]\n: b\n--- x\n---\n",
                      b"[" * 3000, b"a: !!timestamp x", b"!!binary \xe5", b"domains: !!float x", b"{[]: 3}", b"a: 1\n b: 2\n"])
        self.reject = "file %r" % t[:30]
        return t

    def render(self, root):
        import yaml
        r = self.r
        if r.random() < 0.3:
            return json.dumps(root, ensure_ascii=False, indent=r.choice([None, 1])).encode()
        t = yaml.safe_dump(root, default_flow_style=r.choice([None, False, True]), allow_unicode=r.random() < 0.5,
                           sort_keys=False, explicit_start=r.random() < 0.2)
        if r.random() < 0.2:
            t = "# comment\n" + t
        return t.encode()

    # ---- the command line

    def command_line(self):
        r = self.r
        c = self.conf
        l = c.log
        opts = []
        use_file = r.random() < 0.75
        path = os.path.join(self.top, r.choice(["conf.yaml", "c f", "c"]))
        text = b""
        if use_file:
            root = self.file()
            text = self.render(root)
            x = r.random()
            if x < 0.3:
                text = self.spoil(root)
            elif x < 0.36:
                text = self.garbage()
            with open(path, "wb") as f:
                f.write(text)
            if x > 0.98:
                os.unlink(path)
                if r.random() < 0.5:
                    os.mkdir(path)
                self.reject = "missing file"
            opts.append(["-f", path])
            if r.random() < 0.1 and not self.reject:
                other = os.path.join(self.top, "other.yaml")
                with open(other, "wb") as f:
                    f.write(b"{")
                opts.insert(0, ["-f", other])      # the last one counts
        self.text = text
        cli = []
        if r.random() < 0.5 or not c.domains:
            if r.random() < 0.95:
                for _ in range(r.choice([1, 1, 2]) if r.random() < 0.97 else r.choice([5, 9, 17])):
                    if r.random() < 0.5:
                        cli.append((False, [self.addr()]))
                    else:
                        cli.append((True, [self.addr() for _ in range(r.choice([1, 2, 3]) if r.random() < 0.97 else r.choice([5, 9, 17]))]))
        if cli:
            c.domains = [Dom([(a, {}) for a in d]) for _, d in cli]
        args = [d[0] for m, d in cli if not m]
        multi = [["-m", "+".join(d)] for m, d in cli if m]
        if not c.domains:
            self.reject = self.reject or "no domains"
        # an option's last occurrence counts
        def opt(flag, key, vals, p, conv=lambda v: v):
            for _ in range(3):
                if r.random() < p:
                    v = r.choice(vals)
                    opts.append([flag, str(v)])
                    l[key] = conv(v)
        if r.random() < 0.4:
            opts.append(["-s"])
            l["console"] = True
        opt("-o", "log_file", [os.path.join(self.top, n) for n in ("log3", "log 4")], 0.3)
        opt("-b", "log_file_backup", [0, 1, 3], 0.15)
        opt("-x", "log_file_max_size", [200, 1000, 100000], 0.15)
        opt("-u", "syslog_socket", [os.path.join(self.top, n) for n in ("s1", "s2", "s3")], 0.3)
        opt("-y", "facility", list(FACILITIES), 0.15)
        opt("-l", "filter", list(LEVELS), 0.2)
        if l["syslog"] and (l["syslog_socket"] == "/dev/log" or r.random() < 0.3):
            opts.append(["-n"])
            l["syslog"] = False
        if r.random() < 0.3:
            v = r.choice([0, 0, 1, 2, 4, 5])
            opts.append(["-c", str(v)])
            if v:
                c.total["clients"] = v
            else:
                c.total.pop("clients", None)
        x = r.random()
        if x < 0.06:
            opts.append(r.choice([["-Z"], ["-q"], ["--nope"], ["-b", "x"], ["-b", "1.5"], ["-x", ""], ["-x", "k"], ["-c", "x"], ["-c", "-1"],
                                  ["-c", "1.5"], ["-c", ""], ["-l", "loud"], ["-l", ""], ["-l", "INFO"], ["-y", "nope"], ["-y", ""]]))
            self.reject = self.reject or "option %r" % opts[-1]
        elif x < 0.09:
            l["log_file"] = r.choice([os.path.join(self.top, "no", "such"), self.top])
            opts.append(["-o", l["log_file"]])
            self.reject = self.reject or "log file that cannot be opened"
        elif x < 0.12:
            opts.append(["-u", os.path.join(self.top, "none")])
            if l["syslog"]:
                self.reject = self.reject or "missing log socket"
        elif x < 0.14:
            self.info = r.choice(["-v", "-h"])
            opts = [[self.info]] + ([] if r.random() < 0.5 else [["-s"]])
            args, multi = r.choice([[], ["ux:x"]]), []
            self.reject = None
        elif x < 0.15:
            args = []
            multi = []
            opts = [r.choice([["-f"], ["-m"], ["-c"]])]
            self.reject = "option without its argument"
        self.hook = None
        if r.random() < 0.06 and not self.reject and not self.info:
            self.hook = r.choice(["hook", "hook", "bad_hook", "no_such_hook", None])
            opts.append(["-r", "pv.dconf." + self.hook if self.hook else r.choice(["hook", "no.such.module.hook", "pv.dconf."])])
            self.hook = self.hook or "none"
        # options that repeat keep their order
        head = opts[:]
        by = collections.OrderedDict()
        for o in head:
            by.setdefault(o[0], []).append(o)
        order = [o[0] for o in head] + ["-m"] * len(multi)
        by["-m"] = by.get("-m", []) + multi
        if not (self.reject or "").startswith("option without"):
            r.shuffle(order)
        argv = []
        for k in order:
            o = by[k].pop(0)
            if len(o) == 2 and r.random() < 0.3 and o[1]:
                argv.append(o[0] + o[1])
            else:
                argv += o
        if r.random() < 0.2 and args:
            argv.append("--")
        self.argv = ["pafd"] + argv + args


HOOKED = []


def hook(servers):
    HOOKED.append(len(servers))


def bad_hook(servers):
    raise ValueError("bad hook")


class Sys(threading.Thread):
    """A system log daemon."""

    def __init__(self, paths):
        threading.Thread.__init__(self, daemon=True)
        self.socks = {}
        self.got = collections.defaultdict(list)
        for p in paths:
            s = socket.socket(socket.AF_UNIX, socket.SOCK_DGRAM)
            s.bind(p)
            self.socks[p] = s
        self.rp, self.wp = os.pipe()

    def drain(self):
        for p, s in self.socks.items():
            with contextlib.suppress(BlockingIOError):
                while True:
                    self.got[p].append(s.recv(1 << 20, socket.MSG_DONTWAIT))

    def run(self):
        p = simos.REAL_POLL()
        for s in self.socks.values():
            p.register(s.fileno(), 1)
        p.register(self.rp, 1)
        while True:
            fds = [fd for fd, _ in p.poll()]
            self.drain()
            if self.rp in fds:
                return

    def stop(self):
        os.write(self.wp, b"x")
        self.join()
        self.drain()
        for s in self.socks.values():
            s.close()
        os.close(self.rp)
        os.close(self.wp)


class Peer:
    def __init__(self, s, sim):
        self.s = s
        self.sim = sim
        self.got = []
        self.n = 0
        self.closed_at = None

    def rq(self, cmd, **f):
        self.n += 1
        m = {"ta-cmd": cmd, "ta-id": self.n, "msg-type": "request"}
        for k, v in f.items():
            m[k.replace("_", "-")] = v
        self.sim.inbox.append(json.dumps(m).encode())
        return self.n

    def result(self, n):
        for m in self.got:
            if m.get("ta-id") == n and m["msg-type"] in ("accept", "complete", "fail"):
                return m["msg-type"] if m["msg-type"] == "fail" else "ok"
        return None

    def last(self, n):
        return [m for m in self.got if m.get("ta-id") == n]


class Session:
    def __init__(self, r, c, g):
        self.r = r
        self.c = c
        self.g = g
        self.env = simos.Env(r)
        self.env.listener = self
        self.env.poll_cb = self.on_poll
        self.servers = []
        self.peers = {}
        self.polled = False
        self.op_until = None
        self.script = self.probe()
        self.signalled = 0
        self.problem = None
        self.fruitless = 0

    def bug(self, text):
        if self.problem is None:
            self.problem = text
        raise simos.SimStop()

    # transport events
    def ev_server(self, s):
        self.servers.append(s)

    def ev_send(self, c, data):
        p = self.peers.get(c)
        if p is not None:
            p.got.append(dict(json.loads(data), **{"t": self.env.now}))

    def ev_close(self, c):
        p = self.peers.get(c)
        if p is not None:
            p.closed_at = self.env.now

    def ffi_problem(self, text):
        pass

    def __getattr__(self, n):
        if n.startswith("ev_"):
            return lambda *a: None
        raise AttributeError(n)

    def on_poll(self, ep, timeout):
        try:
            return self.do_poll(ep, timeout)
        except simos.SimStop:
            raise
        except Exception:
            self.problem = "HARNESS " + traceback.format_exc()
            raise simos.SimStop()

    def do_poll(self, ep, timeout):
        self.polled = True
        deadline = None if timeout < 0 else self.env.now + timeout
        while True:
            real = ep.real_ready()
            if real:
                return real
            ready = ep.ready()
            if ready:
                self.fruitless += 1
                if self.fruitless > 3000:
                    self.bug("busy loop")
                return [(fd, 1) for fd in ready]
            self.fruitless = 0
            now = self.env.now
            if deadline is not None and (deadline <= now or self.signalled or
                                         self.op_until is not None and deadline <= self.op_until):
                self.env.now = max(now, deadline) + 0.0005
                self.signalled += bool(self.signalled)
                if self.signalled > 20:
                    self.bug("the daemon does not stop on a termination signal")
                return []
            if self.signalled:
                self.bug("the daemon does not stop on a termination signal")
            if self.op_until is not None:
                self.env.now = max(now, self.op_until)
                self.op_until = None
            try:
                t = next(self.script)
                if t is not None:
                    self.op_until = self.env.now + t
            except StopIteration:
                self.signalled = 1
                os.kill(os.getpid(), signal.SIGTERM)

    # probing

    def connect(self, addr, user=0):
        srv = [s for s in self.servers if s.addr == addr][0]
        tp = addr.split(":")[0]
        if tp in ("tcp", "tls", "utls"):
            remote = "%s:10.0.0.%d:%d" % (tp.replace("utls", "tls"), user + 1, self.r.randrange(1024, 65535))
        else:
            remote = tp + ":"
        c = simos.SimConn(self.env, addr=remote, local_addr=addr, transport=tp.replace("utls", "tls"))
        srv.pending.append(c)
        p = Peer(self, c)
        self.peers[c] = p
        return p

    def drop(self, p):
        p.sim.eof = True

    def hello(self, addr, cid, lo=2, hi=3, user=0):
        p = self.connect(addr, user)
        n = p.rq("hello", client_id=cid, protocol_minimum_version=lo, protocol_maximum_version=hi)
        yield
        return p, p.result(n), p.last(n)

    def probe(self):
        g, r, c = self.g, self.r, self.c
        want = [(a, t) for d in g.conf.domains for a, t in d.sockets]
        got = [(s.addr, {k: v for k, v in s.attrs.items() if k.startswith("tls.")}) for s in self.servers]
        if sorted(map(repr, want)) != sorted(map(repr, got)):
            self.bug("sockets %r instead of %r" % (got, want))
        for s in self.servers:
            if s.attrs.get("xcm.blocking") is not False:
                self.bug("blocking socket %s" % s.addr)
        c.counts["sockets compared"] += len(got)
        user, total = g.conf.user, g.conf.total
        cid = 100
        doms = g.conf.domains[:]
        r.shuffle(doms)
        for d in doms:
            if not d.sockets:
                continue
            addr = r.choice(d.sockets)[0]
            # versions
            for lo, hi in [(2, 2), (3, 3), (2, 3), (1, 2), (3, 9), (0, 1), (4, 7)]:
                cid += 1
                p, res, ms = yield from self.hello(addr, cid, lo, hi)
                v = min(hi, d.v[1])
                v = v if v >= max(lo, d.v[0]) else None
                if v is None and res == "ok":
                    self.bug("%s: versions %d-%d agreed on %r, although limited to %d-%d" % ((addr, lo, hi, ms) + d.v))
                if v is not None and (res != "ok" or ms[0].get("protocol-version") != v):
                    self.bug("%s: versions %d-%d: %r instead of %d" % (addr, lo, hi, ms or "no answer", v))
                self.drop(p)
                c.counts["versions compared"] += 1
                yield
            va = dict(lo=d.v[0], hi=d.v[1])
            two = addr.startswith(("tcp", "tls", "utls"))
            # how many clients
            ps = []
            n = [0, 0]
            for u in (0, 1):
                while n[u] < PROBE:
                    cid += 1
                    p, res, _ = yield from self.hello(addr, cid, user=u, **va)
                    if res != "ok":
                        self.drop(p)
                        yield
                        break
                    ps.append(p)
                    n[u] += 1
            ul, tl = user.get("clients", PROBE), total.get("clients", 2 * PROBE)
            w = [min(ul, tl, PROBE), 0]
            w[1] = min(ul if two else ul - w[0], tl - w[0], PROBE)
            if not two and "clients" not in user:
                w[1] = min(tl - w[0], PROBE)
            if n != w:
                self.bug("%s: %r clients admitted for two users (%s), not %r; user limits %r, total limits %r" %
                         (addr, n, "different" if two else "the same", w, user, total))
            c.counts["client limits compared"] += 1
            for p in ps:
                self.drop(p)
            yield
            yield 3
            # how many services and subscriptions
            users = [0, 1] if two and tl >= 2 else [0]
            for what in ("services", "subscriptions"):
                n = []
                ps = []
                for u in users:
                    cid += 1
                    p, res, _ = yield from self.hello(addr, cid, user=u, **va)
                    if res != "ok":
                        self.bug("%s: hello not accepted" % addr)
                    ps.append(p)
                    ids = []
                    for i in range(PROBE):
                        cid += 1
                        if what == "services":
                            ids.append(p.rq("publish", service_id=cid, generation=1, service_props={}, ttl=0))
                        else:
                            ids.append(p.rq("subscribe", subscription_id=cid, filter="(x=%d)" % cid))
                    yield
                    rs = [p.result(i) for i in ids]
                    if None in rs:
                        self.bug("%s: no answer" % addr)
                    n.append(rs.count("ok"))
                ul, tl2 = user.get(what, PROBE), total.get(what, 2 * PROBE)
                w = [min(ul, tl2, PROBE)]
                if len(users) > 1:
                    w.append(min(ul, tl2 - w[0], PROBE))
                if n != w:
                    self.bug("%s: %r %s admitted, not %r; user limits %r, total limits %r" % (addr, n, what, w, user, total))
                c.counts["limits on %s compared" % what] += 1
                for p in ps:
                    self.drop(p)
                yield
                yield 3
            # one domain behind all its sockets
            if min(user.get("services", 9), total.get("services", 9)) >= 1 and tl >= 2 and (two or user.get("clients", 9) >= 2):
                cid += 1
                p, _, _ = yield from self.hello(addr, cid, user=0, **va)
                cid += 1
                p.rq("publish", service_id=cid, generation=1, service_props={}, ttl=100)
                yield
                sid = cid
                for d2 in doms:
                    for a2, _ in d2.sockets:
                        if user.get("clients", 9) < 2 and d2 is d and not a2.startswith(("tcp", "tls", "utls")):
                            continue
                        cid += 1
                        q, _, _ = yield from self.hello(a2, cid, d2.v[0], d2.v[1], user=1)
                        i = q.rq("services")
                        yield
                        if q.result(i) != "ok":
                            self.bug("no answer from %s" % a2)
                        seen = [m for m in q.last(i) if m.get("service-id") == sid]
                        if bool(seen) != (d2 is d):
                            self.bug("a service published at %s is %s at %s" % (addr, "seen" if seen else "not seen", a2))
                        c.counts["domains told apart"] += 1
                        self.drop(q)
                        yield
                p.rq("unpublish", service_id=sid)
                yield
                self.drop(p)
                yield
            # idle times
            if d.v[1] == 3:
                has = min(user.get("services", 9), total.get("services", 9)) >= 1
                for ttl in ([None, 0] if has else [None]):
                    cid += 1
                    p, res, _ = yield from self.hello(addr, cid, 3, 3)
                    m = d.idle[1]
                    if ttl is not None:
                        cid += 1
                        p.rq("publish", service_id=cid, generation=1, service_props={}, ttl=ttl)
                        m = d.idle[0]
                    i = p.rq("track")
                    yield
                    start = self.env.now
                    yield m * 0.44
                    q = [x for x in p.last(i) if x["msg-type"] == "notify"]
                    if q or p.closed_at:
                        self.bug("%s: probed or dropped too early (max idle time %d s)" % (addr, m))
                    yield m * 0.62 - m * 0.44 + 0.1
                    q = [x for x in p.last(i) if x["msg-type"] == "notify"]
                    if not q or p.closed_at:
                        self.bug("%s: %s after more than half the max idle time of %d s: %r %.1f %.1f" % (addr, "dropped" if p.closed_at else "not probed", m, p.got, start, self.env.now))
                    yield max(0, start + m * 0.93 - self.env.now)
                    if p.closed_at:
                        self.bug("%s: dropped after %.2f s, max idle time %d s" % (addr, p.closed_at - start, m))
                    yield m * 0.13 + 0.1
                    if not p.closed_at:
                        self.bug("%s: not dropped after %.2f s, max idle time %d s" % (addr, self.env.now - start, m))
                    c.counts["idle times compared"] += 1
                    yield
                    yield 2


def run(r, c):
    import paf.daemon
    gc.collect()
    gc.disable()
    top = tempfile.mkdtemp(prefix="p19.")
    g = Gen(r, top)
    g.command_line()
    l = g.conf.log
    sl = Sys([os.path.join(top, n) for n in ("s1", "s2", "s3")])
    sl.start()
    s = Session(r, c, g)
    fail_at = None
    del HOOKED[:]
    if not g.reject and not g.info and r.random() < 0.05:
        n = sum(len(d.sockets) for d in g.conf.domains)
        fail_at = r.randrange(n)
        s.env.fail_next["xcm_server_a"] = [0] * fail_at + [r.choice([errno.EADDRINUSE, errno.EINVAL, errno.EPROTONOSUPPORT, errno.EACCES])]
    out, err = io.StringIO(), io.StringIO()
    code = exc = None
    meter = world.CpuMeter(30, 60)
    simos.set_env(s.env)
    root = logging.getLogger()
    saved = (root.handlers[:], root.level, logging.raiseExceptions)
    root.handlers = []
    try:
        with world.clean_signals(), world.cpu_limit(meter), contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            try:
                paf.daemon.main(list(g.argv))
                exc = "main() returned"
            except SystemExit as e:
                code = e.code
            except simos.SimStop:
                pass
            except simos.SimHang as e:
                exc = "hang: %s" % e
            except Exception:
                exc = "unhandled exception: " + traceback.format_exc()[-1500:]
        files = {}
        for h in root.handlers:
            with contextlib.suppress(Exception):
                h.close()
    finally:
        root.handlers, root.level, logging.raiseExceptions = saved
        simos.set_env(None)
        s.env.poll_cb = s.env.listener = None
        s.script = None
        sl.stop()
        gc.enable()
        logs = {}
        for n in sorted(os.listdir(top)):
            if n.startswith("log"):
                with open(os.path.join(top, n), "rb") as f:
                    logs[n] = f.read()
        shutil.rmtree(top)
    out, err = out.getvalue(), err.getvalue()
    ctx = "\ncommand line %r, file:\n%s\noutput: %s" % (g.argv, g.text.decode("utf-8", "replace")[:1200], (out + err)[-600:])
    ctx = ctx.replace(top, "TMP")

    def bug(t):
        raise Bug(T, t + ctx)
    if s.problem and s.problem.startswith("HARNESS"):
        raise RuntimeError(s.problem + ctx)
    if exc:
        bug(exc)
    c.sample = {"argv": [a.replace(top, "TMP") for a in g.argv], "file": g.text.decode("utf-8", "replace")[:400].replace(top, "TMP"),
                "expected": g.reject or g.info or "start"}
    c.distinct.add(digest([a.replace(top, "") for a in g.argv], g.text.replace(top.encode(), b"")))
    c.evaluations += 1
    if g.info:
        if code != 0 or s.servers or not out.strip():
            bug("%s: exit status %r" % (g.info, code))
        c.counts["information printed"] += 1
        return
    if g.reject:
        if s.polled or s.servers:
            bug("accepted although it has a %s" % g.reject)
        if code != 1:
            bug("exit status %r with a %s" % (code, g.reject))
        if not (out + err).strip() or "Traceback" in out + err:
            bug("no error message with a %s" % g.reject)
        c.counts["rejections compared"] += 1
        return
    if fail_at is not None:
        if code != 1 or s.polled:
            bug("exit status %r although a server socket could not be created" % (code,))
        c.counts["failed sockets compared"] += 1
        return
    if g.hook and g.hook != "hook":
        if code != 1 or s.polled:
            bug("exit status %r although the hook fails" % (code,))
        c.counts["failing hooks compared"] += 1
        return
    if HOOKED != ([len(g.conf.domains)] if g.hook else []):
        bug("the hook was called with %r servers" % (HOOKED,))
    if s.problem:
        bug(s.problem)
    if not s.polled:
        bug("the daemon does not start (exit status %r)" % (code,))
    if code != 0:
        bug("exit status %r after a termination signal" % (code,))
    c.counts["starts compared"] += 1
    # ---- the log
    level = LEVELS[l["filter"]]
    want = set()
    if l["syslog"]:
        want.add(l["syslog_socket"])
    for p, got in sl.got.items():
        if got and p not in want:
            bug("messages at the log socket %s, which is not configured" % p)
    name = os.path.basename(l["log_file"]) if l["log_file"] else None
    for n, d in logs.items():
        if name is None or n != name and not n.startswith(name + "."):
            bug("log file %s, which is not configured" % n)
    if name and name not in logs:
        bug("no log file %s" % name)
    # without any destination Python's logging falls back to standard error
    if err and not l["console"] and (name or l["syslog"]):
        bug("output on standard error without console logging: %s" % err[:300])
    vol = {}
    if l["console"]:
        vol["console"] = err
    if name:
        vol["file"] = "".join(logs[n].decode("utf-8", "replace") for n in logs)
    if l["syslog"]:
        got = sl.got.get(l["syslog_socket"], [])
        vol["syslog"] = "\n".join(m.decode("utf-8", "replace") for m in got)
        sevs = collections.Counter()
        for m in got:
            x = re.match(rb"<(\d+)>", m)
            if not x:
                bug("no priority in the log message %r" % m[:100])
            pri = int(x.group(1))
            if pri >> 3 != FACILITIES[l["facility"]]:
                bug("log facility %d instead of %s" % (pri >> 3, l["facility"]))
            sevs[pri & 7] += 1
        c.counts["syslog messages judged"] += len(got)
        if any(x > level for x in sevs):
            bug("messages of severity %r are logged, but the filter is %s" % (sorted(sevs), l["filter"]))
        for x in (6, 7):
            if level >= x and not sevs[x]:
                bug("no messages of severity %d are logged to syslog, but the filter is %s" % (x, l["filter"]))
    for k, v in vol.items():
        if level >= 6 and not v.strip():
            bug("nothing logged to the %s" % k)
        if level <= 3 and v.strip():
            bug("logged to the %s in spite of the filter %s: %s" % (k, l["filter"], v[:300]))
        if k == "console" and re.match(r"(DEBUG|INFO|WARNING|ERROR|CRITICAL):", v):
            seen = set(re.findall(r"(?m)^(DEBUG|INFO|WARNING|ERROR|CRITICAL):", v))
            if any(LEVELS[x.lower()] > level for x in seen):
                bug("logged to the console in spite of the filter %s: %r" % (l["filter"], seen))
            if level == 7 and "DEBUG" not in seen:
                bug("no debug messages on the console")
        c.counts["logs compared"] += 1
    if name:
        b, m = l["log_file_backup"], l["log_file_max_size"]
        backups = sorted(logs)
        if b == 0 and len(logs) > 1:
            bug("log files %r without rotation" % backups)
        if len(logs) > b + 1:
            bug("log files %r with %d backups" % (backups, b))
        if b > 0:
            for n, d in logs.items():
                if len(d) > m and d.count(b"\n") > 1 and d.count(b"Traceback") == 0:
                    first = d.index(b"\n") + 1
                    if len(d) - first > m and len(max(d.split(b"\n"), key=len)) < m:
                        bug("log file %s of %d bytes, but the limit is %d" % (n, len(d), m))
            if len(logs) < b + 1 and len(logs) > 1:
                for n, d in logs.items():
                    if n != name and len(d) + 2000 < m:
                        bug("log file %s rolled over at %d bytes, but the limit is %d" % (n, len(d), m))
            if len(logs) == 1 and m > 2000 and len(logs[name]) > m:
                bug("log not rolled over")
            if len(logs) > 1:
                c.counts["rotations judged"] += 1


def p19(rng, c):
    for _ in range(6):
        run(rng, c)
