"""Runs the real daemon (paf.daemon.main) in the simulated environment under a
workload, with one reference model per domain watching the transport."""

import collections
import contextlib
import copy
import errno
import gc
import hashlib
import heapq
import io
import json
import logging
import os
import random
import select
import shutil
import signal
import sys
import tempfile
import threading
import time
import traceback

from pv import simos
from pv.model import Div, Domain, Limits, parse_sent
from pv import reffilter, refmsg

ALL = "ALL"

REAL_SLEEP = time.sleep

REPO = os.environ.get("PV_REPO", "/repo")


def load_paf():
    """Imports the code under test (after the environment is in place)."""
    sys.dont_write_bytecode = True
    simos.install()
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import paf.logging
    import paf.conf
    import paf.daemon
    import paf.client
    assert os.path.realpath(paf.daemon.__file__).startswith(os.path.realpath(REPO)), paf.daemon.__file__
    gc.collect()
    gc.freeze()
    return paf


class TooAmbiguous(BaseException):
    pass


class LogTrap(logging.Handler):
    """Sees what the daemon logs when it gives up."""

    def __init__(self):
        logging.Handler.__init__(self, logging.WARNING)
        self.crash = None
        self.warnings = 0

    def emit(self, record):
        self.warnings += 1
        if record.exc_info and record.exc_info[0] is not None and self.crash is None:
            tb = traceback.format_exception(*record.exc_info)
            self.crash = "".join(tb)[-3000:]


class DomainMon:
    """The candidate worlds of one domain."""

    MAX_WORLDS = 48

    def __init__(self, mon, model):
        self.mon = mon
        self.worlds = [model]
        self.dead = False
        self.ambiguous = 0
        self.max_worlds = 1

    @property
    def w(self):
        return self.worlds[0]

    def report(self, divs):
        if self.dead:
            return
        self.dead = True
        for d in divs:
            self.mon.report(d, self.w.name)

    def dedupe(self):
        if len(self.worlds) > 1:
            seen = set()
            res = []
            for w in self.worlds:
                sig = w.signature()
                if sig not in seen:
                    seen.add(sig)
                    res.append(w)
            self.worlds = res
            self.max_worlds = max(self.max_worlds, len(res))
            if len(res) > self.MAX_WORLDS:
                raise TooAmbiguous()

    def fork_expiries(self, now):
        """An orphan whose time is up may or may not be gone already."""
        new = []
        for w in self.worlds:
            new.append(w)
            due = w.due(now)
            if not due:
                continue
            self.ambiguous += 1
            groups = {}
            for sid in due:
                s = w.services[sid]
                groups.setdefault(s.otime.lo + s.ttl, []).append(sid)
            prefix = []
            for t in sorted(groups):
                prefix.extend(groups[t])
                f = copy.deepcopy(w)
                for sid in prefix:
                    f.expire(sid)
                new.append(f)
        if len(new) > len(self.worlds):
            self.worlds = new
            self.dedupe()

    def apply(self, fun):
        if self.dead:
            return
        ok = []
        first = None
        for w in self.worlds:
            divs = fun(w)
            if divs:
                if first is None:
                    first = divs
            else:
                ok.append(w)
        if ok:
            self.worlds = ok
            self.dedupe()
        else:
            self.report(first)

    def fork_filter(self, data):
        """A filter of undefined validity may be accepted or not."""
        if b'"filter"' not in data:
            return
        try:
            f = json.loads(data)["filter"]
        except Exception:
            return
        if isinstance(f, str) and reffilter.parse(f)[0] is None:
            new = []
            for w in self.worlds:
                f = copy.deepcopy(w)
                w.assume_filter, f.assume_filter = True, False
                new += [w, f]
            self.worlds = new

    def on_recv(self, cid, data, t0, now):
        self.fork_expiries(now)
        self.fork_filter(data)
        self.apply(lambda w: w.on_recv(cid, data, t0, now))

    def on_close(self, cid, t0, now, pending):
        self.fork_expiries(now)
        self.apply(lambda w: w.on_close(cid, t0, now, pending))

    def on_send(self, cid, m, raw, now):
        if self.dead:
            return
        ok = []
        other = []
        first = None
        for w in self.worlds:
            divs = w.on_send(cid, m, raw, now)
            if not divs:
                ok.append(w)
            else:
                other.append(w)
                if first is None:
                    first = divs
        if other and m.get("ta-cmd") == "subscribe" and m.get("match-type") == "disappeared":
            sid = m.get("service-id")
            for w in other:
                due = w.due(now)
                if sid in due:
                    s = w.services[sid]
                    limit = s.otime.lo + s.ttl
                    due = [x for x in due if w.services[x].otime.lo + w.services[x].ttl <= limit]
                    due.sort(key=lambda x: w.services[x].otime.lo + w.services[x].ttl)
                    for x in due:
                        w.expire(x)
                    if not w.on_send(cid, m, raw, now):
                        ok.append(w)
        if ok:
            self.worlds = ok
            self.dedupe()
        else:
            self.report(first)


class Monitor:
    """env.listener: turns transport events into model events."""

    def __init__(self, env, domains):
        self.env = env
        self.doms = [DomainMon(self, d) for d in domains]
        self.by_addr = {}
        self.t_wake = env.now
        self.divs = []
        self.trace = collections.deque(maxlen=500)
        self.conns = {}
        self.next_cid = 0
        self.counts = collections.Counter()
        self.digest = hashlib.sha1()
        self.delays = []
        self.server_socks = {}
        self.progress = 0
        self.stopped = False
        self.harness_error = None
        self.peers = {}
        self.meter = CpuMeter(25, 60)

    # ------------------------------------------------------- reporting

    def report(self, div, dom=None):
        if self.stopped:
            return
        self.divs.append(div)
        self.log("DIVERGENCE%s %r" % ("" if dom is None else " in domain %s" % dom, div))

    def problem(self, tags, text):
        self.report(Div(tags, text))

    def log(self, text):
        self.trace.append("%.6f %s" % (self.env.now - 1700000000.0, text))

    def event(self, kind):
        self.counts[kind] += 1
        self.digest.update(kind.encode("utf-8", "replace"))

    def harness_failed(self):
        """Our own code raised: never the fault of the code under test."""
        if self.harness_error is None:
            self.harness_error = traceback.format_exc()[-3000:]
            self.log("HARNESS ERROR " + self.harness_error)
        self.stopped = True

    def __getattribute__(self, name):
        if name.startswith("ev_") or name == "ffi_problem":
            fun = object.__getattribute__(self, name)

            def guarded(*args):
                if self.stopped:
                    return None
                meter = self.meter
                meter.enter()
                try:
                    return fun(*args)
                except TooAmbiguous:
                    self.stopped = True
                    raise
                except Exception:
                    self.harness_failed()
                    return None
                finally:
                    meter.leave()
            return guarded
        return object.__getattribute__(self, name)

    def slack(self, since):
        return 0.05 + sum(d for t, d in self.delays if t + d >= since) * 2

    def delayed(self, d):
        if d > 0:
            self.delays.append((self.env.now, d))
            if len(self.delays) > 200:
                # merge the oldest ones
                t, a = self.delays[0]
                t2, b = self.delays[1]
                self.delays[0:2] = [(t2, a + b)]

    # ------------------------------------------------------- transport events

    def ev_server(self, s):
        self.server_socks[s.addr] = s
        self.log("LISTEN %s" % s.addr)
        self.event("listen")

    def ev_server_close(self, s):
        self.server_socks.pop(s.addr, None)
        self.log("UNLISTEN %s" % s.addr)

    def ev_accept(self, s, c):
        self.progress += 1
        dom = self.by_addr[s.addr]
        cid = self.next_cid
        self.next_cid += 1
        c.mon = (dom, cid)
        self.conns[cid] = c
        self.log("ACCEPT c%d %s on %s" % (cid, c.addr, s.addr))
        self.event("accept")
        t0, now = self.t_wake, self.env.now
        dom.apply(lambda w: w.on_accept(cid, c.addr, c.user_id, t0, now))

    def ev_recv(self, c, data):
        self.progress += 1
        dom, cid = c.mon
        self.log("RECV c%d %s" % (cid, _brief(data)))
        t0, now = self.t_wake, self.env.now
        if not dom.dead:
            before = dom.w
            conn = before.conns.get(cid)
            dom.on_recv(cid, data, t0, now)
            kind = "recv"
            try:
                m = json.loads(data)
                kind = "recv %s" % m["ta-cmd"] if isinstance(m["ta-cmd"], str) else "recv ?"
                if m.get("msg-type") != "request":
                    kind += " %s" % m.get("track-type", m.get("msg-type"))
            except Exception:
                pass
            if len(kind) > 40 or not kind.isascii():
                kind = "recv ?"
            if conn is not None and conn.must_close:
                kind = "violation"
            self.event(kind)

    def ev_eof(self, c):
        self.progress += 1
        dom, cid = c.mon
        self.log("EOF c%d" % cid)
        self.event("eof")
        dom.apply(lambda w: w.on_eof(cid))

    def ev_error(self, c, op, e, length, data):
        self.progress += 1
        if not hasattr(c, "mon"):
            return
        dom, cid = c.mon
        self.log("ERROR c%d %s errno %d length %d" % (cid, op, e, length))
        self.event("error %s" % errno.errorcode.get(e, e))
        if op == "send" and length > 65535:
            div = Div({"P06"}, "message of %d bytes, which no transport can carry, sent to connection %d, which is "
                      "torn down for it: %s" % (length, cid, _brief(data)))
            m = parse_sent(data)
            if isinstance(m, dict) and m.get("msg-type") == "notify" and m.get("ta-cmd") in ("services", "subscribe"):
                # otherwise as it should be?
                w = copy.deepcopy(dom.w)
                if not w.on_send(cid, m, data, self.env.now):
                    div.mech = "oversize-notification"
            self.report(div)
        if op == "send" and length == 0:
            self.problem({"P16", "P27"}, "empty message sent")
            return
        dom.apply(lambda w: w.on_eof(cid))

    def ev_attr_error(self, o, name, e):
        self.progress += 1
        if isinstance(o, simos.SimServer) or not hasattr(o, "mon"):
            return
        if name == "tls.peer_subject_key_id":
            return
        dom, cid = o.mon
        self.log("ATTR ERROR c%d %s errno %d" % (cid, name, e))
        self.event("attr error")

        def fun(w):
            w.conns[cid].may_close = "attribute access failed"
            w.conns[cid].attr_failed = True
            return []
        dom.apply(fun)

    def ev_send(self, c, data):
        self.progress += 1
        dom, cid = c.mon
        self.log("SEND c%d %s" % (cid, _brief(data)))
        if dom.dead:
            return
        m = parse_sent(data)
        if not isinstance(m, dict):
            dom.report([Div({"P07", "P13"}, "message sent is not a JSON object: %r" % data[:300])])
            return
        conn = dom.w.conns[cid]
        problem = refmsg.check_server(m, conn.version)
        if problem is not None and m.get("ta-id") not in conn.fuzzy:
            about = {"services": {"P22"}, "subscriptions": {"P22"}, "clients": {"P22"}, "subscribe": {"P01"}, "track": {"P25"},
                     "hello": {"P08"}}.get(str(m.get("ta-cmd")), set())
            dom.report([Div({"P07", "P13"} | about, "malformed message (%s) sent: %s" % (problem, _brief(data)))])
            return
        kind = "send %s %s" % (m["ta-cmd"], m["msg-type"])
        if m["msg-type"] == "fail":
            kind += " %s" % m.get("fail-reason")
        elif m["msg-type"] == "notify" and "match-type" in m:
            kind += " %s%s" % (m["match-type"], " orphan" if "orphan-since" in m else "")
        elif "track-type" in m:
            kind += " %s" % m["track-type"]
        self.event(kind)
        dom.on_send(cid, m, data, self.env.now)
        peer = self.peers.get(c)
        if peer is not None:
            peer.received(m)

    def ev_close(self, c):
        self.progress += 1
        if not hasattr(c, "mon"):
            return
        dom, cid = c.mon
        del self.conns[cid]
        self.log("CLOSE c%d" % cid)
        conn = dom.w.conns.get(cid)
        if conn is not None:
            kind = "close " + ("cause" if conn.must_close else "nohello" if not conn.handshaked else
                               "termination" if dom.w.terminating else "idle")
            self.event(kind)
        t0, now = self.t_wake, self.env.now
        dom.on_close(cid, t0, now, bool(c.cond & simos.SO_SENDABLE))
        peer = self.peers.pop(c, None)
        if peer is not None:
            peer.lost()

    def ffi_problem(self, text):
        self.problem({"P27", "P24"} if "released" in text else {"P27"}, text)

    # ------------------------------------------------------- sleeps

    def at_poll(self):
        now = self.env.now
        for d in self.doms:
            if d.dead:
                continue
            d.apply(lambda w: w.at_poll(self.t_wake, now, self.slack))
            for w in d.worlds:
                w.force_expiries(self.t_wake)
            d.dedupe()

    def terminating(self):
        for d in self.doms:
            for w in d.worlds:
                w.terminating = True


def _brief(data):
    return repr(data[:500])[2:-1] + ("... (%d bytes)" % len(data) if len(data) > 500 else "")


class Peer:
    """A client as the workload sees it."""

    def __init__(self, ctl, dom_idx, sim):
        self.ctl = ctl
        self.dom_idx = dom_idx
        self.sim = sim
        self.next_ta = 0
        self.client_id = None
        self.gone = False          # closed by the server or by the workload
        self.closing = False
        self.keepalive = False
        self.auto_reply = True
        self.reply_delay = 0.0
        self.last_tx = None
        self.subs = {}
        self.track_ta = None
        self.hostile = False

    @property
    def conn(self):
        """The model's view."""
        mon = getattr(self.sim, "mon", None)
        if mon is None:
            return None
        return mon[0].w.conns.get(mon[1])

    def ta(self):
        t = self.next_ta
        self.next_ta += 1
        return t

    def send(self, m, raw=False):
        if self.gone or self.sim.closed or self.sim.eof:
            return False
        self.sim.inbox.append(m if raw else self.ctl.encode(m))
        self.last_tx = self.ctl.env.now
        return True

    def request(self, cmd, ta=None, **fields):
        m = {"ta-cmd": cmd, "ta-id": self.ta() if ta is None else ta, "msg-type": "request"}
        for k, v in fields.items():
            if v is not None:
                m[k.replace("_", "-")] = v
        return self.send(m)

    def hello(self, client_id, vmin=2, vmax=3, ta=None):
        self.client_id = client_id
        return self.send({"ta-cmd": "hello", "ta-id": self.ta() if ta is None else ta, "msg-type": "request",
                          "client-id": client_id, "protocol-minimum-version": vmin,
                          "protocol-maximum-version": vmax})

    def inform(self, track_type, ta=None):
        return self.send({"ta-cmd": "track", "ta-id": self.track_ta if ta is None else ta, "msg-type": "inform",
                          "track-type": track_type})

    def close(self, hard=False):
        self.sim.eof = True
        # with data under way to a closed socket, the transport fails
        self.sim.eof_hard = hard or self.sim.capacity is not None
        self.closing = True

    def reset(self, e=errno.ECONNRESET):
        self.sim.err = e
        self.closing = True

    def stall(self, capacity=0):
        self.sim.capacity = capacity
        self.sim.was_stalled = True

    def unstall(self):
        self.sim.capacity = None

    def usable(self):
        return not (self.gone or self.closing or self.sim.closed)

    # from the monitor
    def received(self, m):
        if m.get("ta-cmd") == "track" and m.get("msg-type") == "notify" and m.get("track-type") == "query" \
                and self.auto_reply and self.usable():
            ta = m["ta-id"]
            if self.reply_delay <= 0:
                self.inform("reply", ta)
            else:
                self.ctl.after(self.reply_delay, lambda: self.usable() and self.inform("reply", ta))

    def lost(self):
        self.gone = True


SETTLE = ("settle",)


def sleep(dt):
    return ("sleep", dt)


def late(dt):
    return ("late", dt)


class Ctl:
    """Drives one history."""

    def __init__(self, rng, spec):
        self.rng = rng
        self.spec = spec
        self.env = simos.Env(rng)
        self.env.tick = spec.get("tick", 0.0)
        self.p_deliver = spec.get("p_deliver", 0.5)
        self.p_spurious = spec.get("p_spurious", 0.05)
        self.lateness = spec.get("lateness", 0.0)
        doms = []
        for i, d in enumerate(spec["domains"]):
            doms.append(Domain(str(i), Limits(spec.get("user_limits"), spec.get("total_limits")),
                               d.get("vmin", 2), d.get("vmax", 3), d.get("idle_min", 4), d.get("idle_max", 30)))
        self.mon = Monitor(self.env, doms)
        for dm, d in zip(self.mon.doms, spec["domains"]):
            for s in d["sockets"]:
                self.mon.by_addr[s] = dm
        self.env.listener = self.mon
        self.env.poll_cb = self.on_poll
        self.heap = []
        self.heap_seq = 0
        self.peers = []
        self.op = None
        self.op_until = None
        self.gen = None
        self.started = False
        self.cut = False           # we have ended the history
        self.polls = 0
        self.empty_polls = []
        self.fruitless = 0
        self.last_progress = -1
        self.phase = "run"
        self.finished = False
        self.exit_code = None
        self.steps = 0
        self.inconclusive = None
        self.quiescences = 0
        self.accept_faults = False
        self.max_backlog = 0
        self.snap_cb = None
        self.on_quiescent = []
        self.min_poll_timeout = None
        self.signal = signal.SIGTERM

    # --- for workloads

    def dom(self, i):
        return self.mon.doms[i]

    def model(self, i):
        return self.mon.doms[i].w

    def encode(self, m):
        r = self.rng.random()
        if r < 0.7:
            return json.dumps(m).encode()
        if r < 0.85:
            return json.dumps(m, ensure_ascii=False, separators=(",", ":")).encode("utf-8", "surrogatepass")
        items = list(m.items())
        self.rng.shuffle(items)
        data = json.dumps(dict(items), indent=1).encode()
        return data if len(data) <= 65535 else json.dumps(m).encode()

    def after(self, dt, fun):
        self.heap_seq += 1
        heapq.heappush(self.heap, (self.env.now + dt, self.heap_seq, fun))

    def connect(self, dom_idx, sock_idx=0, ip=None, ski=None):
        """A connection attempt; None if the daemon does not listen there."""
        d = self.spec["domains"][dom_idx]
        addr = d["sockets"][sock_idx % len(d["sockets"])]
        srv = self.mon.server_socks.get(addr)
        if srv is None:
            return None
        tp = addr.split(":")[0]
        port = 10000 + self.rng.randrange(50000)
        if self.rng.random() < 0.4:
            # a port used before, maybe by somebody else
            again = 40000 + self.rng.randrange(2)
            if not any(p.port == again and not (p.gone or p.sim.closed) for p in self.peers):
                port = again
        if tp in ("tcp", "tls", "utls"):
            if ip is None:
                ip = "10.0.0.1"
            rtp = "tls" if tp in ("tls", "utls") else "tcp"
            remote = "%s:%s:%d" % (rtp, ip, port)
            user = "ski:%s" % ski.hex() if (rtp == "tls" and ski is not None) else "ip:%s" % ip
            transport = rtp
        else:
            remote = "ux:" if tp == "ux" else "%s:" % tp
            user = "default"
            transport = tp
            ski = None
        c = simos.SimConn(self.env, addr=remote, local_addr=addr, transport=transport, ski=ski)
        c.user_id = user
        c.was_stalled = False
        srv.pending.append(c)
        p = Peer(self, dom_idx, c)
        p.sock_addr = addr
        p.port = port
        self.mon.peers[c] = p
        self.peers.append(p)
        return p

    def live_peers(self, dom_idx=None):
        self.peers = [p for p in self.peers if not p.gone]
        return [p for p in self.peers if p.usable() and (dom_idx is None or p.dom_idx == dom_idx)]

    # --- scheduling

    def pick(self, ep, ready, real):
        rng = self.rng
        fds = list(ready)
        rng.shuffle(fds)
        if len(fds) > 1 and rng.random() < 0.4:
            fds = fds[:rng.randrange(1, len(fds) + 1)]
        if rng.random() < self.p_spurious:
            reg = [fd for fd in ep.reg if fd >= 10000 and fd not in fds]
            if reg:
                fds.insert(rng.randrange(len(fds) + 1), rng.choice(reg))
                self.mon.counts["spurious wakeup"] += 1
        res = [(fd, select.EPOLLIN) for fd in fds]
        res.extend(real)
        if self.mon.progress == self.last_progress:
            self.fruitless += 1
            if self.fruitless > 400:
                self.mon.problem({"P15", "P16", "P18", "P06"},
                                 "busy loop: descriptors %r stay ready, but nothing is done about it" % fds)
                raise simos.SimStop()
        else:
            self.fruitless = 0
            self.last_progress = self.mon.progress
        return self.wake(res)

    def wake(self, res):
        self.mon.t_wake = self.env.now
        self.mon.counts["wakeup"] += 1
        return res

    def time_out(self, deadline, jump=True):
        """The poll times out, possibly a little late."""
        l = 0.0
        if self.lateness and self.rng.random() < 0.5:
            l = self.rng.random() * self.lateness
        elif self.rng.random() < 0.3:
            l = 0.0009 * self.rng.random()
        self.mon.delayed(max(0.0, max(self.env.now, deadline) + l - deadline))
        self.env.now = max(self.env.now, deadline) + l
        now = self.env.now
        self.empty_polls.append(now)
        if len(self.empty_polls) > 2000:
            if now - self.empty_polls[0] < 2.0:
                self.mon.problem({"P15", "P17"}, "the server wakes up without need: %d times in %.3f s" %
                                 (len(self.empty_polls), now - self.empty_polls[0]))
                raise simos.SimStop()
            del self.empty_polls[:1000]
        self.mon.counts["timeout wakeup"] += 1
        return self.wake([])

    def on_poll(self, ep, timeout):
        meter = self.mon.meter
        meter.enter()
        try:
            return self.do_poll(ep, timeout)
        except (simos.SimStop, TooAmbiguous, TooLong):
            self.mon.stopped = True
            self.cut = True
            raise
        except Exception:
            self.mon.harness_failed()
            self.cut = True
            raise simos.SimStop()
        finally:
            meter.leave(True)

    def do_poll(self, ep, timeout):
        mon = self.mon
        self.started = True
        self.polls += 1
        if self.min_poll_timeout is None or timeout < self.min_poll_timeout:
            self.min_poll_timeout = timeout
        mon.at_poll()
        self.cur_timeout = timeout
        deadline = None if timeout < 0 else self.env.now + timeout
        if self.polls > self.spec.get("max_polls", 400000):
            self.inconclusive = "too many wakeups"
            raise simos.SimStop()
        while True:
            if mon.divs or mon.stopped:
                raise simos.SimStop()
            now = self.env.now
            while self.heap and self.heap[0][0] <= now:
                heapq.heappop(self.heap)[2]()
            real = ep.real_ready()
            ready = ep.ready()
            if real:
                return self.pick(ep, ready if self.rng.random() < 0.5 else [], real)
            op = self.op
            if op is not None:
                if op[0] == "settle":
                    if ready:
                        return self.pick(ep, ready, [])
                    if deadline is not None and deadline <= now:
                        return self.time_out(deadline)
                    self.quiescent()
                    self.op = None
                    continue
                if op[0] == "sleep":
                    if ready:
                        return self.pick(ep, ready, [])
                    nxt = self.op_until
                    if self.heap:
                        nxt = min(nxt, self.heap[0][0])
                    ka = None
                    for p in self.live_peers():
                        if p.keepalive and p.conn is not None and p.conn.handshaked and p.conn.version >= 3:
                            t = (p.last_tx or now) + 0.4 * p.conn.m_lo
                            if ka is None or t < ka:
                                ka = t
                    if ka is not None:
                        nxt = min(nxt, ka)
                    if deadline is not None and deadline <= nxt:
                        if deadline > now:
                            self.quiescent()
                        return self.time_out(deadline)
                    self.env.now = now = max(now, nxt)
                    if ka is not None and ka <= now:
                        for p in self.live_peers():
                            if p.keepalive and p.conn is not None and p.conn.handshaked and p.conn.version >= 3 and \
                                    (p.last_tx or 0) + 0.4 * p.conn.m_lo <= now + 1e-9:
                                p.request("ping")
                    if now >= self.op_until:
                        self.op = None
                        if not ep.ready() and (deadline is None or deadline > now):
                            self.quiescent()
                    continue
                if op[0] == "late":
                    mon.delayed(op[1])
                    self.env.now += op[1]
                    self.op = None
                    continue
                if op[0] == "signal":
                    self.op = None
                    mon.terminating()
                    self.phase = "signalled"
                    mon.log("SIGNAL %d" % op[1])
                    os.kill(os.getpid(), op[1])
                    continue
            if self.phase == "signalled":
                # nothing wakes the server up any more
                if ready:
                    return self.pick(ep, ready, [])
                self.after_signal = getattr(self, "after_signal", 0) + 1
                if self.after_signal > 50 or deadline is None:
                    mon.problem({"P24"}, "the daemon does not stop on a termination signal")
                    raise simos.SimStop()
                return self.time_out(deadline)
            if ready and self.rng.random() < self.p_deliver:
                return self.pick(ep, ready, [])
            if deadline is not None and deadline <= now and self.rng.random() < 0.7:
                return self.time_out(deadline)
            self.steps += 1
            try:
                op = next(self.gen)
            except StopIteration:
                self.phase = "end"
                self.gen = iter([("signal", self.signal)])
                continue
            self.op = op
            if op is not None and op[0] == "sleep":
                self.op_until = self.env.now + op[1]

    def quiescent(self):
        """Nothing is ready: whatever could be done must have been done."""
        mon = self.mon
        now = self.env.now
        self.quiescences += 1
        for i, d in enumerate(mon.doms):
            if d.dead:
                continue
            # the server sleeps on, so all that had to be done by now has been done
            for w in d.worlds:
                w.force_expiries(now - 0.001, 3)
            d.dedupe()
            d.apply(lambda w: w.at_poll(now - 0.001, now, mon.slack, 0))
            if d.dead:
                continue

            def fun(w):
                divs = []
                for c in w.open_conns():
                    sim = mon.conns.get(c.id)
                    if sim is None:
                        continue
                    owed = w.owed(c.id)
                    if c.must_close:
                        divs.append(Div({"P06", "P13", "P07", "P25"} | ({"P08"} if c.versioned else set()) if c.must_close != "connection lost" else
                                        {"P03", "P10", "P17", "P18"},
                                        "connection not closed in spite of: %s" % c.must_close))
                        continue
                    stalled = sim.capacity is not None and sim.capacity <= 0
                    self.max_backlog = max(self.max_backlog, len(owed))
                    if sim.inbox and (not stalled or len(owed) < 100) and not c.fuzzy:
                        divs.append(Div({"P16", "P15", "P07", "P06"}, "request never read from connection %d: %s" %
                                        (c.id, _brief(sim.inbox[0]))))
                    if (sim.eof or sim.err) and not sim.inbox and (not stalled or len(owed) < 100):
                        divs.append(Div({"P16", "P15", "P03", "P10", "P06", "P17"}, "end of connection %d never noticed" % c.id))
                    if c.query_must and not stalled and not c.may_close and not c.fuzzy and not owed:
                        divs.append(Div({"P09", "P10"}, "no query to client %d, although another client asks for its id" % c.claimed))
                    if owed and not stalled:
                        g, e = owed[0]
                        tags = set(e.tags) | g.tags | {"P16"}
                        if e.type != "notify":
                            tags |= {"P07"}
                        divs.append(Div(tags, "never sent to connection %d (%s): %s" %
                                        (c.id, c.claimed, e.brief())))
                lim = w.limits.total.get("clients")
                n = len(w.open_conns())
                if lim is None or n < lim:
                    for addr, dm in mon.by_addr.items():
                        srv = mon.server_socks.get(addr)
                        if dm is d and srv is not None and srv.pending:
                            divs.append(Div({"P18", "P05", "P23", "P15"} | ({"P06"} if self.accept_faults else set()),
                                            "client waiting on %s is not accepted (%d connections, limit %s)" %
                                            (addr, n, lim)))
                return divs
            d.apply(fun)
        for cb in self.on_quiescent:
            cb(self)

    def empty_domain(self, i):
        w = self.model(i)
        return not w.conns and not w.services and not w.subs


class Result:
    def __init__(self):
        self.divs = []
        self.trace = []
        self.counts = collections.Counter()
        self.digest = None
        self.inconclusive = None
        self.exit_code = None
        self.steps = 0
        self.extra = {}


def write_conf(spec, path):
    conf = {"domains": [], "log": {"syslog": False, "filter": spec.get("log_filter", "info")}}
    for i, d in enumerate(spec["domains"]):
        dc = {}
        if d.get("name") is not None:
            dc["name"] = d["name"]
        socks = []
        for s in d["sockets"]:
            if s.startswith("tls") and d.get("tls"):
                socks.append({"addr": s, "tls": d["tls"]})
            else:
                socks.append(s)
        dc["sockets"] = socks
        if "vmin" in d or "vmax" in d:
            dc["protocol_version"] = {k: d[n] for k, n in (("min", "vmin"), ("max", "vmax")) if n in d}
        if "idle_min" in d or "idle_max" in d:
            dc["idle"] = {k: d[n] for k, n in (("min", "idle_min"), ("max", "idle_max")) if n in d}
        conf["domains"].append(dc)
    res = {}
    for k in ("user", "total"):
        lim = spec.get(k + "_limits")
        if lim:
            res[k] = lim
    if res:
        conf["resources"] = res
    with open(path, "w") as f:
        json.dump(conf, f)


@contextlib.contextmanager
def clean_logging(trap):
    root = logging.getLogger()
    saved = (root.handlers[:], root.level, logging.lastResort, logging.raiseExceptions)
    root.handlers = []
    logging.lastResort = trap
    logging.raiseExceptions = False
    try:
        yield
    finally:
        root.handlers, root.level, logging.lastResort, logging.raiseExceptions = saved[0], saved[1], saved[2], saved[3]


@contextlib.contextmanager
def clean_signals():
    saved = {s: signal.getsignal(s) for s in (signal.SIGTERM, signal.SIGHUP, signal.SIGINT)}
    try:
        yield
    finally:
        with contextlib.suppress(ValueError):
            signal.set_wakeup_fd(-1)
        for s, h in saved.items():
            signal.signal(s, h)


class CpuMeter:
    """CPU time spent in the code under test since it last went to sleep; ours does not count."""

    def __init__(self, limit, total):
        self.limit = limit
        self.total = total
        self.start = self.since = time.process_time()
        self.ours = 0.0
        self.depth = 0
        self.entered = 0.0
        self.mon = None

    def enter(self):
        if self.depth == 0:
            self.entered = time.process_time()
        self.depth += 1

    def leave(self, slept=False):
        self.depth -= 1
        if self.depth == 0:
            now = time.process_time()
            self.ours += now - self.entered
            if slept:
                self.since, self.ours = now, 0.0

    def judge(self):
        """The exception due, if any (called by the watcher)."""
        now = time.process_time()
        if self.depth == 0 and now - self.since - self.ours > self.limit:
            return simos.SimHang
        if now - self.start > self.total:
            if self.mon is not None:
                self.mon.stopped = True
            return TooLong
        return None


class Watcher(threading.Thread):
    """Raises the meter's exception in the main thread, by a signal, which also gets at long-running
    regular expressions. (A periodic timer signal would not do: any signal that Python handles ends up
    in the event loop's wake-up descriptor, and stops the daemon.)"""

    instance = None
    due = None

    @classmethod
    def handler(cls, signo, frame):
        exc, cls.due = cls.due, None
        if exc is not None:
            raise exc()

    def __init__(self):
        threading.Thread.__init__(self, daemon=True)
        self.pid = os.getpid()
        self.meter = None
        self.lock = threading.Lock()
        self.target = threading.get_ident()

    def run(self):
        while True:
            REAL_SLEEP(1.0)
            with self.lock:
                meter = self.meter
                exc = meter.judge() if meter is not None else None
                if exc is not None:
                    self.meter = None
                    Watcher.due = exc
                    signal.pthread_kill(self.target, signal.SIGUSR1)

    @classmethod
    def get(cls):
        if cls.instance is None or cls.instance.pid != os.getpid():
            signal.signal(signal.SIGUSR1, cls.handler)
            cls.instance = cls()
            cls.instance.start()
        return cls.instance


class TooLong(BaseException):
    pass


@contextlib.contextmanager
def cpu_limit(meter):
    w = Watcher.get()
    w.meter = meter
    try:
        yield
    finally:
        with w.lock:
            w.meter = None
        Watcher.due = None    # one that is still to be delivered is too late


SCRATCH = None


def scratch_dir():
    global SCRATCH
    if SCRATCH is None or SCRATCH[0] != os.getpid():
        d = tempfile.mkdtemp(prefix="pv-")
        SCRATCH = (os.getpid(), d)
        import atexit
        atexit.register(shutil.rmtree, d, True)
    return SCRATCH[1]


def run_history(seed, spec, workload, cpu=60):
    """One history: the daemon with configuration `spec` under `workload(ctl)` (a generator)."""
    import paf.daemon
    gc.collect()     # an event loop finalised later would disturb the next one
    res = Result()
    rng = random.Random(seed)
    random.seed(rng.random())
    ctl = Ctl(rng, spec)
    ctl.gen = workload(ctl)
    mon = ctl.mon
    mon.meter = CpuMeter(25, cpu)
    mon.meter.mon = mon
    conf = os.path.join(scratch_dir(), "conf.yaml")
    write_conf(spec, conf)
    trap = LogTrap()
    simos.set_env(ctl.env)
    exc = None
    out, err = io.StringIO(), io.StringIO()
    try:
        with clean_logging(trap), clean_signals(), cpu_limit(mon.meter), contextlib.redirect_stdout(out), \
                contextlib.redirect_stderr(err):
            try:
                paf.daemon.main(["pafd", "-f", conf, "-n"])
                exc = "main() returned"
            except SystemExit as e:
                res.exit_code = e.code
            except simos.SimStop:
                pass
            except TooAmbiguous:
                ctl.inconclusive = "too many possible worlds"
            except TooLong:
                ctl.inconclusive = "judging it took too long"
            except simos.SimHang as e:
                exc = "hang: %s\n%s" % (e, traceback.format_exc()[-2500:])
            except Exception:
                exc = "unhandled exception: " + traceback.format_exc()[-3000:]
        if mon.harness_error is not None:
            ctl.inconclusive = "harness error"
        mon.stopped = False
        if os.environ.get("PV_DEBUG"):
            sys.__stderr__.write("END exc=%s crash=%s exit=%s phase=%s\n" % (exc, trap.crash, res.exit_code, ctl.phase))
        if mon.divs and not ctl.inconclusive and not ctl.cut and (exc or trap.crash):
            # the cause of what was seen while the server went down
            mon.problem({ALL}, exc or "the server stopped: " + trap.crash)
        if not mon.divs and not ctl.inconclusive:
            if exc is not None:
                mon.problem({ALL}, exc)
            elif trap.crash is not None:
                mon.problem({ALL}, "the server stopped: " + trap.crash)
            elif not ctl.started:
                mon.problem({ALL}, "the daemon did not start (exit status %r): %s %s" %
                            (res.exit_code, out.getvalue()[:500], err.getvalue()[:500]))
            elif ctl.phase != "signalled":
                mon.problem({ALL}, "the daemon ended by itself with exit status %r" % res.exit_code)
            else:
                if res.exit_code != 0:
                    mon.problem({"P24"}, "exit status %r after a termination signal" % res.exit_code)
                left = [o for o in ctl.env.handles.values() if not isinstance(o, simos.AttrMap)]
                for o in left[:3]:
                    mon.problem({"P24"}, "not closed on termination: %s %s" %
                                ("connection from" if isinstance(o, simos.SimConn) else "server socket", o.addr))
                maps = [o for o in ctl.env.handles.values() if isinstance(o, simos.AttrMap)]
                if maps:
                    mon.problem({"P27"}, "%d attribute maps never destroyed" % len(maps))
                mon.counts["clean termination"] += 1
    finally:
        ctl.gen = None
        simos.set_env(None)
        ctl.env.poll_cb = None
        ctl.env.listener = None
    res.divs = mon.divs
    res.trace = list(mon.trace)
    res.counts = mon.counts
    res.counts["virtual seconds"] += int(ctl.env.now - 1700000000)
    res.counts["quiescent checks"] += ctl.quiescences
    res.counts["forks on ambiguous expiry"] += sum(d.ambiguous for d in mon.doms)
    res.digest = mon.digest.hexdigest()
    res.inconclusive = ctl.inconclusive
    res.steps = ctl.steps
    res.extra["max backlog"] = ctl.max_backlog
    res.ctl = ctl
    return res
