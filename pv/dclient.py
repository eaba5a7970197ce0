"""P20, P21 (and P27 on the way): the client library paf.client, and through it paf.proto and paf.xcm, against a
scripted server behind the simulated transport."""

import collections
import errno
import gc
import json
import os
import random
import select
import shutil
import sys
import tempfile

from pv import refmsg, simos
from pv.direct import Bug, cpu_bound, digest, internal_error, TimeUp

T20 = {"P20"}
T21 = {"P21"}
I63 = (1 << 63) - 1

TEXTS = ["", "x", "name", "a b", "\u00e5\u00e4\u00f6", "\U0001f600", "\0", "\"\\", "(a=b)", "x" * 200, "1", "\ud7ff", "null", "\n", "50%", "%s%d"]
REASONS = ["permission-denied", "insufficient-resources", "old-generation", "no-hello", "client-id-exists", "", "x-y", "100%", "%s",
           "non-existent-service-id"]


def wire_props(p, rng):
    d = {}
    for k, vs in p.items():
        vs = list(vs)
        rng.shuffle(vs)
        d[k] = vs
    return d


def canon(p):
    return {k: frozenset((type(v).__name__, v) for v in vs) for k, vs in p.items() if vs}


def same(a, b):
    """Values of Python and of JSON: equal, and of the same kind."""
    if isinstance(a, dict) and isinstance(b, dict):
        ks = set(a) | set(b)
        return all(k in a and k in b and same(a[k], b[k]) for k in ks)
    if isinstance(a, (set, frozenset, list, tuple)) and isinstance(b, (set, frozenset)):
        a = list(a)
        return len(a) == len(set(a)) and {(type(v), v) for v in a} == {(type(v), v) for v in b}
    return type(a) is type(b) and a == b


# what a callback gets: mandatory fields in order, optional ones by name
FIELDS = {
    ("hello", "complete"): (["protocol-version"], []),
    ("track", "notify"): (["track-type"], []),
    ("subscribe", "notify"): (["match-type", "service-id"], ["generation", "service-props", "ttl", "client-id", "orphan-since"]),
    ("subscriptions", "notify"): (["subscription-id", "client-id"], ["filter"]),
    ("services", "notify"): (["service-id", "generation", "service-props", "ttl", "client-id"], ["orphan-since"]),
    ("clients", "notify", 2): (["client-id", "client-address", "time"], []),
    ("clients", "notify", 3): (["client-id", "client-address", "time", "idle", "protocol-version"], ["latency"]),
}
SINGLE = ("hello", "publish", "unpublish", "unsubscribe", "ping")


class Ta:
    def __init__(self, ta_id, cmd, how):
        self.id = ta_id
        self.cmd = cmd
        self.how = how           # "sync", "async" or "tracker"
        self.script = collections.deque()   # server messages to come
        self.sent = []           # put on the wire
        self.received = []       # received by the client: (event name, args, optargs, time)
        self.called = 0
        self.done = False        # the terminating message is in the script
        self.over = False        # ... has been received
        self.accepted = False    # sent
        self.sub_id = None
        self.queries = 0         # of the client, not answered yet


class S:
    def __init__(self, rng, c):
        import paf.client
        self.pc = paf.client
        self.rng = rng
        self.c = c
        env = self.env = simos.Env(rng)
        simos.set_env(env)
        env.listener = self
        env.connect_cb = self.on_connect
        env.client_poll_cb = self.on_poll
        env.max_time_calls = 100000
        self.conn = None
        self.log = collections.deque(maxlen=80)
        self.expect = collections.deque()
        self.tas = {}
        self.version = rng.choice([2, 3, 3])
        self.slow = rng.random() < 0.4
        # the server reads nothing as long as the client does not read what it has been sent
        self.polite = rng.random() < 0.3
        self.violated = None
        self.doomed = None
        self.attrs_seen = None
        self.polls = 0
        self.depth = 0
        self.dead = False
        self.client = None
        self.order = []           # (ta id, index) as received
        self.silent = False
        self.hello_mode = "complete"
        self.n_ta = 0
        self.fail_hello_reason = None

    # ---- the transport's events

    def say(self, t):
        self.log.append(t[:300])

    def bug(self, text, tags=T20):
        raise Bug(tags, text + self.tail(2400 - len(text)))

    def tail(self, n=1500):
        return "\n... " + "\n".join(x[:200] for x in self.log)[-max(n, 300):]

    def ffi_problem(self, text):
        self.say("FFI " + text)

    def ev_close(self, o):
        self.say("closed")
        self.dead = True

    def ev_attr_error(self, o, n, e):
        pass

    def ev_eof(self, o):
        self.say("eof seen")
        self.violated = self.violated or "end of connection"

    def ev_error(self, o, op, e, length, data):
        self.say("error seen in %s: %s" % (op, errno.errorcode[e]))
        self.violated = self.violated or "transport error"

    def ev_recv(self, o, msg):
        self.say("client receives %s" % msg[:160])
        e = self.meta.popleft()
        if e is None:
            self.violated = self.violated or "protocol violation"
            return
        ta, m = e
        ta.received.append(self.event(ta, m) + (self.env.now,))
        if m["msg-type"] in ("complete", "fail"):
            ta.over = True
        self.order.append((ta, len(ta.received) - 1))
        self.c.counts["messages received by the client"] += 1

    def on_connect(self, addr, attrs):
        self.attrs_seen = (addr, dict(attrs))
        self.conn = simos.SimConn(self.env, addr)
        self.meta = collections.deque()
        if self.slow:
            self.conn.capacity = self.rng.choice([0, 0, 1, 2])
        return self.conn

    def event(self, ta, m):
        t = m["msg-type"]
        kind = {"accept": "ACCEPT", "notify": "NOTIFY", "complete": "COMPLETE", "fail": "FAIL"}[t]
        if t == "fail":
            return (kind, (), {"fail_reason": m["fail-reason"]} if "fail-reason" in m else {})
        man, opt = FIELDS.get((ta.cmd, t)) or FIELDS.get((ta.cmd, t, self.version)) or ([], [])
        conv = lambda n, v: {k: set(x) for k, x in v.items() if x} if n == "service-props" else v
        return (kind, tuple(conv(n, m[n]) for n in man),
                {n.replace("-", "_"): conv(n, m[n]) for n in opt if n in m})

    def ev_send(self, o, data):
        self.say("client sends %s" % data[:200])
        if self.raised:
            return
        if not self.expect:
            self.bug("the client sends what nobody asked for: %r" % data[:200])
        want, how = self.expect.popleft()
        try:
            m = json.loads(data.decode("utf-8"))
        except ValueError:
            self.bug("the client sends no JSON: %r" % data[:200])
        ta_id = m.get("ta-id")
        if want.get("ta-id") is None:
            want = dict(want, **{"ta-id": ta_id})
            if not isinstance(ta_id, int) or isinstance(ta_id, bool) or not 0 <= ta_id <= I63:
                self.bug("bad transaction id in %r" % data[:200])
            old = self.tas.get(ta_id)
            if old is not None and not (old.over):
                self.bug("transaction id %d used again while in use" % ta_id)
        if not same(m, want):
            self.bug("the client sends %r instead of %r" % (m, want))
        self.c.counts["requests compared"] += 1
        if m["msg-type"] == "inform":
            ta = self.tas[ta_id]
            if m["track-type"] == "query":
                ta.script.append(self.msg(ta, "notify", **{"track-type": "reply"}))
            else:
                ta.replies = getattr(ta, "replies", 0) + 1
            return
        ta = Ta(ta_id, m["ta-cmd"], how)
        self.tas[ta_id] = ta
        self.n_ta += 1
        self.last_request = m
        self.script(ta, m)
        how_q = self.waiting_ta
        if how_q:
            how_q.popleft().append(ta)

    # ---- the server

    def msg(self, ta, kind, **fields):
        m = {"ta-cmd": ta.cmd, "ta-id": ta.id, "msg-type": kind}
        m.update(fields)
        return m

    def num(self):
        r = self.rng
        return r.choice([0, 1, 5, 2 ** 31, 2 ** 53 + 1, I63, r.randrange(1 << 62)])

    def props(self):
        r = self.rng
        p = {}
        for _ in range(r.choice([0, 1, 1, 2, 3])):
            p[r.choice(TEXTS)] = {r.choice([r.choice(TEXTS), r.choice([0, -1, 1, I63, -I63 - 1, 42])])
                                  for _ in range(r.choice([1, 1, 2, 3]))}
        return p

    def service_fields(self):
        r = self.rng
        f = {"service-id": self.num(), "generation": self.num(), "service-props": wire_props(self.props(), r), "ttl": self.num(),
             "client-id": self.num()}
        if r.random() < 0.4:
            f["orphan-since"] = r.choice([0, 1.5, 1700000000.25, 12345])
        return f

    def notification(self, ta):
        r = self.rng
        if ta.cmd == "services":
            return self.msg(ta, "notify", **self.service_fields())
        if ta.cmd == "subscriptions":
            f = {"subscription-id": self.num(), "client-id": self.num()}
            if r.random() < 0.5:
                f["filter"] = r.choice(TEXTS)
            return self.msg(ta, "notify", **f)
        if ta.cmd == "clients":
            f = {"client-id": self.num(), "client-address": r.choice(TEXTS), "time": self.num()}
            if self.version == 3:
                f["idle"] = r.choice([0, 0.25, 17, 1e9])
                f["protocol-version"] = r.choice([2, 3])
                if r.random() < 0.4:
                    f["latency"] = r.choice([0, 0.001, 2])
            return self.msg(ta, "notify", **f)
        if ta.cmd == "subscribe":
            k = r.choice(["appeared", "modified", "disappeared"])
            f = {"match-type": k}
            if k == "disappeared":
                f["service-id"] = self.num()
            else:
                f.update(self.service_fields())
            return self.msg(ta, "notify", **f)
        assert ta.cmd == "track"
        return self.msg(ta, "notify", **{"track-type": "query"})

    def script(self, ta, m):
        r = self.rng
        if ta.cmd == "hello" and self.version_pending:
            self.version_pending = False
            self.offered = (m["protocol-minimum-version"], m["protocol-maximum-version"])
            if self.hello_mode == "fail":
                f = {} if self.fail_hello_reason is None else {"fail-reason": self.fail_hello_reason}
                ta.script.append(self.msg(ta, "fail", **f))
                self.doomed = "refused hello"
            elif self.hello_mode == "version":
                v = self.bad_version
                ta.script.append(self.msg(ta, "complete", **{"protocol-version": v}))
                self.doomed = "bad version"
            else:
                ta.script.append(self.msg(ta, "complete", **{"protocol-version": self.version}))
            ta.done = True
            return
        fail = r.random() < 0.2
        if fail:
            f = {"fail-reason": r.choice(REASONS)} if r.random() < 0.7 else {}
            ta.script.append(self.msg(ta, "fail", **f))
            ta.done = True
            if ta.cmd == "unsubscribe":
                return
        elif ta.cmd in SINGLE:
            if ta.cmd == "unsubscribe":
                for o in self.tas.values():
                    if o.cmd == "subscribe" and o.sub_id == m["subscription-id"] and not o.done and o.accepted:
                        o.script.append(self.msg(o, "complete"))
                        o.done = True
                        break
            f = {"protocol-version": self.version} if ta.cmd == "hello" else {}
            ta.script.append(self.msg(ta, "complete", **f))
            ta.done = True
        else:
            ta.script.append(self.msg(ta, "accept"))
            if ta.cmd == "subscribe":
                ta.sub_id = m["subscription-id"]
            n = r.choice([0, 1, 2, 5]) if r.random() < 0.93 else r.choice([127, 128, 129, 140, 300])
            for _ in range(n if ta.cmd != "track" else r.choice([0, 0, 1])):
                ta.script.append(self.notification(ta))
            if ta.cmd not in ("subscribe", "track"):
                ta.script.append(self.msg(ta, "complete"))
                ta.done = True

    def put(self, ta, m):
        r = self.rng
        if m["msg-type"] == "accept":
            ta.accepted = True
        keys = list(m)
        r.shuffle(keys)
        d = json.dumps({k: m[k] for k in keys}, ensure_ascii=r.random() < 0.7)
        if r.random() < 0.1:
            d = " " + d + "\n"
        self.conn.inbox.append(d.encode())
        self.meta.append((ta, m))

    def serve(self):
        """One step of the server; False if there is nothing to do."""
        if self.conn is None or self.conn.eof or self.conn.err:
            return False
        r = self.rng
        ready = [t for t in self.tas.values() if t.script]
        if r.random() < 0.15:
            # unasked for
            op = [t for t in self.tas.values() if t.cmd in ("subscribe", "track") and t.accepted and not t.done and not t.script]
            if op and not self.silent:
                t = r.choice(op)
                t.script.append(self.notification(t))
                ready.append(t)
        if not ready:
            return False
        t = r.choice(ready)
        for _ in range(r.choice([1, 1, 2, 5, len(t.script)])):
            if t.script:
                self.put(t, t.script.popleft())
        return True

    def violate(self):
        """The server breaks the protocol, or the connection goes down."""
        r = self.rng
        live = [t for t in self.tas.values() if not t.done and not t.script and t.accepted]
        fresh = [t for t in self.tas.values() if t.script and not t.accepted and not t.sent and t.script[0]["msg-type"] != "fail"
                 and not any(x is not None and x[0] is t for x in self.meta) and not t.received]
        over = [t for t in self.tas.values() if t.over]
        kinds = ["eof", "reset", "garbage", "unknown-ta", "nesting", "no-object"]
        if fresh:
            kinds += ["early", "wrong-cmd", "wrong-type"]
        if over:
            kinds += ["late"]
        if live or fresh:
            kinds += ["other-cmd"]
        if live:
            kinds += ["second-accept", "fields", "fields", "fields", "fields", "server-request", "two-way-complete"]
        if [t for t in live if t.how == "tracker"]:
            kinds += ["unsolicited"] * 3
        k = r.choice(kinds)
        m = None
        if k == "eof":
            self.conn.eof = True
            self.conn.eof_hard = r.random() < 0.5
        elif k == "reset":
            self.conn.err = r.choice([errno.ECONNRESET, errno.EPIPE, errno.ETIMEDOUT, errno.EPROTO, errno.ECONNABORTED])
        elif k == "garbage":
            m = r.choice([b"\xff\xfe", b"{", b"{}", b"x", b"{\"ta-cmd\": \"ping\"}", b"\x00", b"{\"ta-id\": NaN}",
                          b"{\"ta-cmd\":\"ping\",\"ta-id\":1e400,\"msg-type\":\"complete\"}", b"\xed\xa0\x80"])
        elif k == "no-object":
            m = r.choice([b"[]", b"null", b"3", b"\"x\"", b"true", b"[{}]", b"[1]", b"\"ta-cmd\""])
        elif k == "nesting":
            m = b"[" * 20000 if r.random() < 0.5 else b"{\"a\":" * 9000
        elif k == "unknown-ta":
            m = {"ta-cmd": "ping", "ta-id": max(self.tas, default=0) + r.choice([1, 1000]), "msg-type": "complete"}
            if any(e for e, _ in self.expect):
                m["ta-id"] = I63
        elif k == "late":
            t = r.choice(over)
            m = self.msg(t, "complete", **({"protocol-version": self.version} if t.cmd == "hello" else {}))
        elif k == "early":
            t = r.choice(fresh)
            if t.cmd in SINGLE:
                m = self.msg(t, r.choice(["accept", "notify"]))
            elif r.random() < 0.5:
                m = self.msg(t, "complete")
            else:
                m = self.notification(t)
        elif k == "wrong-cmd":
            t = r.choice(fresh)
            m = dict(self.msg(t, "complete"), **{"ta-cmd": "ping" if t.cmd != "ping" else "unpublish"})
        elif k == "other-cmd":
            t = r.choice(live + fresh)
            what = r.choice([f for f in FIELDS if f[0] != t.cmd and (len(f) == 2 or f[2] == (self.version or 3))] +
                            [(c, y) for c in ("track", "subscribe", "services", "publish", "ping", "clients") if c != t.cmd
                             for y in ("accept", "complete", "fail", "inform", "request")])
            values = {"service-props": {"a": ["b"]}, "match-type": "appeared", "track-type": "query", "client-address": "ux:x"}
            m = {"ta-cmd": what[0], "ta-id": t.id, "msg-type": what[1]}
            for f in FIELDS.get(what, ([], []))[0]:
                m[f] = values.get(f, 1)
            if what[1] == "inform" and what[0] == "track":
                m["track-type"] = "query"
        elif k == "wrong-type":
            t = r.choice(fresh)
            m = dict(self.msg(t, "complete"), **{"msg-type": r.choice(["request", "inform", "nonsense", 3, None, ["complete"], {}, True])})
        elif k == "second-accept":
            m = self.msg(r.choice(live), "accept")
        elif k == "server-request":
            t = r.choice(live)
            m = self.msg(t, "request") if t.cmd == "track" else dict(self.msg(t, "request"), **{"subscription-id": 5})
        elif k == "two-way-complete":
            t = r.choice(live)
            m = self.msg(t, "complete") if t.cmd == "track" else self.msg(t, "inform")
        elif k == "unsolicited":
            t = r.choice([t for t in live if t.how == "tracker"])
            if any(x is not None and x[0] is t for x in self.meta) or any(e.get("track-type") == "query" for e, _ in self.expect):
                return
            m = self.msg(t, "notify", **{"track-type": "reply"})
        else:
            t = r.choice(live)
            m = self.notification(t)
            f = [x for x in m if x not in ("ta-cmd", "ta-id", "msg-type")]
            nums = [n for n in f if n in ("orphan-since", "idle", "latency")]
            x = r.choice(nums) if nums and r.random() < 0.5 else r.choice(f)
            man = [n for n in f if n in (FIELDS.get((t.cmd, "notify")) or FIELDS[(t.cmd, "notify", self.version)])[0]]
            how = r.choice(["missing", "type", "type", "extra"])
            if how == "missing":
                del m[r.choice(man)]
            elif how == "extra":
                m["x-extra"] = 1
            else:
                bad = {"service-props": [[], "x", {"a": 3}, {"a": [None]}, {"a": [1.5]}, {"a": [True]}, {"a": [2 ** 63]}, {"a": {}}],
                       "match-type": [3, [], {}, True], "track-type": [3, [], {}, True], "filter": [3, [], True],
                       "client-address": [3, []]}.get(x, ["x", -1, [], {}, True])
                if x in ("orphan-since", "idle", "latency"):
                    bad = bad + [-0.5, -1e400, -10 ** 400, -1e300]
                elif isinstance(m[x], int):
                    bad = bad + [1.5, 2 ** 63, 10 ** 30, 1e400, -1e400, float("nan")]
                m[x] = r.choice(bad)
        if m is not None:
            self.conn.inbox.append(json.dumps(m).encode() if isinstance(m, dict) else m)
            self.meta.append(None)
        self.doomed = self.doomed or k
        self.violation = k
        self.silent = True
        self.say("VIOLATION %s %r" % (k, m if m is None else str(m)[:200]))
        self.c.counts["violations by the server: " + k] += 1

    # ---- poll() in the client library

    def on_poll(self, fp, timeout):
        r = self.rng
        self.polls += 1
        if self.polls > 20000:
            self.bug("the client polls without end")
        if self.conn is None or fp.reg.get(self.conn.fd, 0) & select.POLLIN == 0 or self.dead:
            self.bug("the client polls %r, not its connection" % (fp.reg,))
        for _ in range(100000):
            self.env.now += r.choice([0, 0, 0.001, 0.5])
            if self.doomed is None and r.random() < self.p_violate:
                self.violate()
            if self.conn.ready() and (r.random() < 0.7):
                return [(self.conn.fd, select.POLLIN)]
            if timeout is not None and timeout >= 0 and r.random() < 0.3:
                # a slow server; the real client library has no patience to lose
                self.env.now += timeout / 1000.0
                return []
            if r.random() < 0.03:
                self.c.counts["spurious wake-ups"] += 1
                return [(self.conn.fd, select.POLLIN)]
            moved = r.random() < 0.6 and self.serve()
            if self.conn.capacity is not None and (not moved or r.random() < 0.3) and not (self.polite and self.conn.inbox):
                self.conn.capacity = None if r.random() < 0.1 else self.conn.capacity + r.choice([1, 1, 3])
                moved = True
            if not moved and not self.conn.ready() and not self.serve():
                if self.conn.ready():
                    continue
                what = "; not sent: %r" % [e for e, _ in self.expect] if self.expect else ""
                self.bug("a call waits forever although all responses have been delivered%s" % what)
        self.bug("harness: no progress")

    # ---- the user

    def api(self, fun, want, how):
        """Calls the library; the exceptions it may raise are the documented ones."""
        self.expect.append((want, how)) if want is not None else None
        try:
            with cpu_bound(20):
                return fun()
        except (self.pc.Error, Bug):
            raise
        except TimeUp:
            self.bug("the client library spins")
        except simos.SimHang as e:
            self.bug("the client library hangs: %s" % e)
        except simos.MemoryViolation as e:
            self.bug("the client library misuses libxcm: %s" % e, {"P20", "P27"})
        except AssertionError as e:
            raise self.internal("an assertion of the client library fails")
        except Exception:
            raise self.internal("an undocumented exception of the client library")

    def internal(self, what):
        b = internal_error(T20, what)
        return Bug(b.tags, str(b)[:1700] + self.tail(1200))

    def callback(self, slot):
        def cb(ta_id, event, *args, **optargs):
            self.say("callback %r %s %s %s" % (ta_id, event, str(args)[:100], str(optargs)[:100]))
            self.c.counts["callbacks compared"] += 1
            if not slot:
                self.bug("callback before its request was sent")
            ta = slot[0]
            self.compare(ta, ta_id, event, args, optargs)
            if self.depth < 3 and self.doomed is None and self.rng.random() < 0.12:
                self.depth += 1
                self.c.counts["calls from callbacks"] += 1
                self.step(nested=True)
                self.depth -= 1
        return cb

    def compare(self, ta, ta_id, event, args, optargs):
        if ta_id != ta.id:
            self.bug("callback of transaction %r called for %r" % (ta.id, ta_id))
        if ta.called >= len(ta.received):
            self.bug("callback for an event that has not been received (transaction %d)" % ta.id)
        kind, wa, wo, _ = ta.received[ta.called]
        ta.called += 1
        if getattr(event, "name", event) != kind or not same_args(args, wa) or not same_args(optargs, wo):
            self.bug("callback %s%r %r instead of %s%r %r" % (event, args, optargs, kind, wa, wo))

    def check_called(self):
        for t in self.tas.values():
            if t.how == "async" and t.called < len(t.received):
                self.bug("event %r of transaction %d was received, but the callback was not called" % (t.received[t.called], t.id))
        if self.violated and not self.raised:
            self.bug("%s of the server (%s) is not reported" % (self.violated, self.doomed))

    def request(self, cmd, **f):
        m = {"ta-cmd": cmd, "ta-id": None, "msg-type": "request"}
        m.update(f)
        return m

    def step(self, nested=False):
        r = self.rng
        cl = self.client
        cmd = r.choice(["publish", "unpublish", "subscribe", "subscribe", "unsubscribe", "services", "services", "subscriptions", "clients",
                        "ping", "hello", "track", "inform"])
        sync = r.random() < (0.15 if nested else 0.45)
        slot = []
        cb = {} if sync and cmd not in ("subscribe", "track") else {"response_cb": self.callback(slot)}
        if cmd == "publish":
            a = (self.num(), self.num(), self.props(), self.num())
            if r.random() < 0.5:
                a = a[:2] + ({k: list(v) for k, v in a[2].items()},) + a[3:]
            want = self.request(cmd, **{"service-id": a[0], "generation": a[1], "service-props": {k: set(v) for k, v in a[2].items()},
                                        "ttl": a[3]})
            fun = lambda: cl.publish(*a, **cb)
        elif cmd == "unpublish":
            i = self.num()
            want = self.request(cmd, **{"service-id": i})
            fun = lambda: cl.unpublish(i, **cb)
        elif cmd == "subscribe":
            i = self.num()
            want = self.request(cmd, **{"subscription-id": i})
            kw = {}
            if r.random() < 0.5:
                kw["filter"] = want["filter"] = r.choice([t for t in TEXTS if t])
            fun = lambda: cl.subscribe(i, cb["response_cb"], **kw)
            sync = False
        elif cmd == "unsubscribe":
            ids = [t.sub_id for t in self.tas.values() if t.sub_id is not None and not t.done] or [7]
            i = r.choice(ids + [self.num()])
            want = self.request(cmd, **{"subscription-id": i})
            fun = lambda: cl.unsubscribe(i, **cb)
        elif cmd == "services":
            want = self.request(cmd)
            kw = {}
            if r.random() < 0.5:
                kw["filter"] = want["filter"] = r.choice([t for t in TEXTS if t])
            fun = lambda: cl.services(**dict(cb, **kw))
        elif cmd == "track":
            if self.version < 3:
                return
            want = self.request(cmd)
            fun = lambda: cl.track(cb["response_cb"])
            sync = False
        elif cmd == "inform":
            ts = [t for t in self.tas.values() if t.cmd == "track" and t.accepted and not t.done and t.received and
                  t.how == "async"]
            tr = cl.tracker
            if tr is not None and getattr(tr, "accepted", False) and r.random() < 0.5:
                t = [t for t in self.tas.values() if t.how == "tracker"][0]
                self.expect.append(({"ta-cmd": "track", "ta-id": t.id, "msg-type": "inform", "track-type": "query"}, None))
                self.api(tr.query, None, None)
                return
            if not ts:
                return
            t = r.choice(ts)
            k = r.choice(["query", "reply"])
            self.expect.append(({"ta-cmd": "track", "ta-id": t.id, "msg-type": "inform", "track-type": k}, None))
            self.api(lambda: (cl.track_query if k == "query" else cl.track_reply)(t.id), None, None)
            return
        elif cmd == "hello":
            want = self.request(cmd, **{"client-id": self.client_id, "protocol-minimum-version": self.offered[0],
                                        "protocol-maximum-version": self.offered[1]})
            fun = lambda: cl.hello(**cb)
        else:
            want = self.request(cmd)
            fun = lambda: getattr(cl, cmd)(**cb)
        self.waiting_ta.append(slot)
        start = self.env.now
        self.say("API %s %s" % ("sync" if sync else "async", want))
        outer = self.sync_slot
        self.sync_slot = slot if sync else outer
        if not sync:
            ta_id = self.api(fun, want, "async")
            if slot and ta_id != slot[0].id:
                self.bug("the call returns transaction id %r, but %r is used" % (ta_id, slot[0].id))
            return
        self.c.counts["synchronous calls"] += 1
        err = None
        try:
            try:
                res = self.api(fun, want, "sync")
            finally:
                self.sync_slot = outer
        except self.pc.TransactionError as e:
            err = e
        if not slot or not slot[0].over:
            self.bug("the call %s returned before its response was received" % cmd)
        ta = slot[0]
        kind, args, opt, t = ta.received[-1]
        ta.called = len(ta.received)
        if kind == "FAIL":
            if err is None:
                self.bug("the failure of %s is not reported" % cmd)
            rs = opt.get("fail_reason")
            text = str(err)
            if rs is not None and rs not in text:
                self.bug("the failure of %s is reported as %r, without the reason %r" % (cmd, text, rs))
            if rs is None and any(x in text for x in REASONS if x):
                self.bug("the failure of %s is reported with an invented reason: %r" % (cmd, text))
            self.c.counts["failures compared"] += 1
            return
        if err is not None:
            self.bug("%s succeeded, but is reported as failed: %s" % (cmd, err))
        notes = [(a, o) for k, a, o, _ in ta.received if k == "NOTIFY"]
        self.c.counts["results compared"] += 1
        if cmd in ("services", "subscriptions", "clients"):
            if not isinstance(res, list) or len(res) != len(notes):
                self.bug("%s returned %d entries instead of %d" % (cmd, len(res), len(notes)))
            for x, (a, o) in zip(res, notes):
                w = list(a) + ([o] if o else [])
                if len(x) != len(w) or not all(same_args(p, q) for p, q in zip(x, w)):
                    self.bug("%s returned the entry %r instead of %r" % (cmd, x, w))
        elif cmd == "hello":
            if tuple(res) != (self.version,):
                self.bug("hello returned %r instead of %r" % (res, (self.version,)))
        elif cmd == "ping":
            if not isinstance(res, (int, float)) or abs(res - (t - start)) > 1e-6:
                self.bug("ping returned %r instead of %r" % (res, t - start))
        elif res is not None:
            self.bug("%s returned %r" % (cmd, res))

    def process(self):
        self.api(self.client.process, None, None)
        self.check_called()

    def settle(self):
        """Everything the server has to say arrives; then nothing may be left."""
        for _ in range(5000):
            self.conn.capacity = None
            more = self.serve()
            if self.conn.ready():
                self.process()
            elif not more:
                break
        else:
            self.bug("the client never comes to rest")
        if self.expect:
            self.bug("requests never sent: %r" % [e for e, _ in self.expect][:3])
        if self.conn.inbox:
            self.bug("messages never received")
        self.check_called()
        for t in self.tas.values():
            if t.script and not self.conn.eof:
                self.bug("harness: script left")
            if t.how == "tracker":
                q = sum(1 for k, a, _, _ in t.received if k == "NOTIFY" and a[0] == "query")
                if getattr(t, "replies", 0) != q:
                    self.bug("%d track queries, %d replies" % (q, getattr(t, "replies", 0)))
        self.c.counts["sessions at rest"] += 1


def same_args(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        if all(isinstance(v, (set, frozenset)) for v in b.values()) and b:
            a = {k: v for k, v in a.items() if v}
        return set(a) == set(b) and all(same_args(a[k], b[k]) for k in b)
    if isinstance(b, (set, frozenset)):
        return isinstance(a, (set, frozenset, list)) and {(type(v), v) for v in a} == {(type(v), v) for v in b}
    if isinstance(b, tuple):
        return len(a) == len(b) and all(same_args(x, y) for x, y in zip(a, b))
    return type(a) is type(b) and a == b


def session(rng, c):
    s = S(rng, c)
    pc = s.pc
    s.waiting_ta = collections.deque()
    s.sync_slot = None
    s.version_pending = True
    s.raised = False
    s.p_violate = rng.choice([0, 0, 0, 0.002, 0.01, 0.05])
    s.client_id = s.num()
    r = rng.random()
    if r < 0.08:
        s.hello_mode = "fail"
        s.fail_hello_reason = rng.choice(REASONS + [None])
    elif r < 0.14:
        s.hello_mode = "version"
    lo, hi = rng.choice([(2, 3), (2, 3), (s.version, s.version), (s.version, 3), (2, s.version), (1, 3), (2, 9), (s.version, 7)])
    default_range = rng.random() < 0.4
    if default_range:
        lo, hi = 2, 3
    s.bad_version = rng.choice([0, 1, 4, 99, I63] + [v for v in (2, 3) if not lo <= v <= hi] * 3)
    conf = pc.ServerConf("ux:some") if default_range else pc.ServerConf("ux:some", lo, hi)
    extra = {} if rng.random() < 0.6 else {"tls.cert_file": "/x", "tls.key_file": "/y z"}
    conf.attrs.update(extra)
    track = rng.random() < 0.3
    ready = []
    async_start = rng.random() < 0.4
    fail_connect = rng.random() < 0.04
    if fail_connect:
        e = rng.choice([errno.ECONNREFUSED, errno.ENOENT, errno.ETIMEDOUT, errno.EINVAL, errno.EACCES])
        s.env.connect_cb = lambda a, b: e
    kw = {"client_id": s.client_id}
    if track:
        kw["track"] = True
    if async_start:
        kw["ready_cb"] = lambda: ready.append(1)
    s.waiting_ta.append([])
    want = s.request("hello", **{"client-id": s.client_id, "protocol-minimum-version": lo, "protocol-maximum-version": hi})
    if track and s.version == 3 and s.hello_mode == "complete":
        s.later_track = True
    else:
        s.later_track = False
    try:
        try:
            s.say("connect track=%s async=%s range=%r" % (track, async_start, (lo, hi)))
            tracker_slot = []
            orig_recv = s.ev_recv

            def ev_recv(o, msg):
                n = s.meta[0]
                orig_recv(o, msg)
                if n is None:
                    return
                ta, m = n
                if ta.cmd == "hello" and s.later_track and m["msg-type"] == "complete":
                    s.later_track = False
                    s.expect.append((s.request("track"), "tracker"))
                    s.waiting_ta.append(tracker_slot)
                if ta.how == "tracker" and m["msg-type"] == "notify" and m["track-type"] == "query":
                    s.expect.append(({"ta-cmd": "track", "ta-id": ta.id, "msg-type": "inform", "track-type": "reply"}, None))
            s.ev_recv = ev_recv
            s.client = s.api(lambda: pc.connect(conf, **kw), want, "initial")
            if fail_connect:
                s.bug("connect() succeeded although the library's connect failed")
            if s.attrs_seen != ("ux:some", dict({"xcm.blocking": False}, **extra)):
                s.bug("connected with %r" % (s.attrs_seen,), T21 | T20)
            if async_start:
                for _ in range(3000):
                    if ready or s.conn is None:
                        break
                    moved = s.serve()
                    if s.conn.capacity is not None:
                        s.conn.capacity += 1
                    if s.doomed is None and rng.random() < s.p_violate:
                        s.violate()
                    if s.conn.ready():
                        s.process()
                    elif not moved and s.conn.capacity is None:
                        break
                if not ready:
                    s.bug("the ready callback is not called")
            if s.hello_mode != "complete":
                s.bug("connect() succeeded although the handshake failed (%s)" % (s.hello_mode,))
            if s.client.proto_version != s.version:
                s.bug("version %r instead of %r" % (s.client.proto_version, s.version))
            n = rng.choice([2, 6, 15, 30])
            for _ in range(n):
                x = rng.random()
                if x < 0.55:
                    s.step()
                elif x < 0.85:
                    for _ in range(rng.choice([1, 3])):
                        s.serve()
                    if s.doomed is None and rng.random() < s.p_violate * 5:
                        s.violate()
                    if s.conn.ready() or rng.random() < 0.2:
                        s.process()
                else:
                    s.env.now += 1
                    if s.slow:
                        s.conn.capacity = rng.choice([None, 0, 0, 1, 5])
                s.check_called()
            if len(ready) > 1:
                s.bug("the ready callback is called %d times" % len(ready))
            s.settle()
            if s.doomed and s.violated:
                s.bug("%s of the server is not reported" % s.doomed)
        except pc.Error as e:
            s.raised = True
            s.say("raised %s: %s" % (type(e).__name__, e))
            if isinstance(e, pc.TransactionError):
                s.bug("a failure reaches a caller it does not belong to: %s" % e)
            if not fail_connect and not s.violated and s.doomed not in ("refused hello", "bad version"):
                s.bug("an error is reported that has no cause: %s: %s" % (type(e).__name__, e))
            if s.doomed == "refused hello" and not s.violated and s.fail_hello_reason and s.fail_hello_reason not in str(e):
                s.bug("the refused handshake is reported as %r, without its reason %r" % (str(e), s.fail_hello_reason))
            c.counts["errors judged"] += 1
            # afterwards: still no other exceptions, and no hang
            if s.client is not None:
                s.conn.eof = True
                s.conn.inbox.clear()
                s.meta.clear()
                s.expect.clear()
                for _ in range(3):
                    try:
                        s.api(rng.choice([lambda: s.client.ping(), lambda: s.client.process(),
                                          lambda: s.client.services(response_cb=lambda *a, **k: None)]), s.request("ping"), "async")
                    except pc.Error:
                        pass
        if s.client is not None:
            s.api(s.client.close, None, None)
        e = None
    finally:
        cl, s.client = s.client, None
        del cl
        s.env.client_poll_cb = None
    s.tas.clear()
    s.waiting_ta = s.sync_slot = None
    s.ev_send = s.ev_recv = None
    gc.collect()
    if s.env.handles:
        s.bug("library handles left open: %r" % [getattr(o, "addr", "attribute map") for o in s.env.handles.values()], {"P20", "P27"})
    if s.env.ffi_problems:
        s.bug("libxcm misused: %s" % s.env.ffi_problems[0], {"P27"})
    c.distinct.add(digest(list(s.log), s.n_ta, s.polls))
    return s


def p20(rng, c):
    for _ in range(8):
        s = session(rng, c)
        c.evaluations += 1
        c.sample = {"log": list(s.log)[-15:]}
    simos.set_env(None)


class Long:
    """A server for one long connection: everything is answered at once, apart from what stays open."""

    def __init__(self, rng, c):
        self.rng, self.c = rng, c
        self.env = simos.Env(rng)
        simos.set_env(self.env)
        self.env.listener = self
        self.env.connect_cb = self.on_connect
        self.env.client_poll_cb = self.on_poll
        self.env.max_time_calls = 10 ** 9
        self.open = {}            # ta id -> (command, subscription id or None)
        self.log = collections.deque(maxlen=12)
        self.n = 0
        self.polls = 0
        self.refuse = False
        self.hold = False
        self.informs = []            # of the track transaction
        self.held = []
        self.listing = None
        self.last = None

    def ev_close(self, o):
        pass

    def ev_recv(self, o, msg):
        self.polls = 0

    def ffi_problem(self, text):
        pass

    ev_attr_error = ev_eof = ev_error = ev_close

    def bug(self, text):
        raise Bug(T20, "after %d requests: %s\n... %s" % (self.n, text, "\n".join(self.log)))

    def on_connect(self, addr, attrs):
        self.conn = simos.SimConn(self.env, addr)
        return self.conn

    def on_poll(self, fp, timeout):
        self.polls += 1
        if self.polls > 50 or not self.conn.ready():
            self.bug("the client waits forever")
        return [(self.conn.fd, select.POLLIN)]

    def put(self, cmd, ta, mt, **f):
        self.log.append("client receives %s %s of %d" % (cmd, mt, ta))
        m = {"ta-cmd": cmd, "ta-id": ta, "msg-type": mt}
        m.update(f)
        self.conn.inbox.append(json.dumps(m).encode())

    def ev_send(self, o, data):
        m = json.loads(data.decode("utf-8"))
        self.log.append("client sends %s" % data[:120])
        cmd, ta = m["ta-cmd"], m["ta-id"]
        self.last = m
        self.n += 1
        if not isinstance(ta, int) or isinstance(ta, bool) or not 0 <= ta <= I63:
            self.bug("bad transaction id %r" % (ta,))
        if m["msg-type"] == "inform":
            if self.open.get(ta, ("",))[0] != "track":
                self.bug("an inform in %r" % (self.open.get(ta),))
            self.informs.append((ta, m.get("track-type")))
            if m.get("track-type") == "query":
                self.put("track", ta, "notify", **{"track-type": "reply"})
            return
        if ta in self.open:
            self.bug("transaction id %d is used again while a %s transaction has it" % (ta, self.open[ta][0]))
        if cmd == "hello":
            self.put(cmd, ta, "complete", **{"protocol-version": 3})
        elif cmd in ("subscribe", "track"):
            self.open[ta] = (cmd, m.get("subscription-id"))
            self.put(cmd, ta, "accept")
        elif self.refuse:
            self.refuse = False
            self.put(cmd, ta, "fail", **{"fail-reason": "why-%d" % self.n})
        elif cmd == "unsubscribe":
            self.put(cmd, ta, "complete")
            for t, (k, i) in list(self.open.items()):
                if k == "subscribe" and i == m["subscription-id"]:
                    del self.open[t]
                    self.put(k, t, "complete")
        elif self.hold:
            self.open[ta] = (cmd, None)
            self.held.append((cmd, ta))
        elif cmd == "services" and self.listing is not None:
            self.put(cmd, ta, "accept")
            for i in range(self.listing[0]):
                self.put(cmd, ta, "notify", **{"service-id": i, "generation": self.n, "ttl": 1, "client-id": 1,
                                               "service-props": {"n%d" % j: [i] for j in range(self.listing[1])}})
            self.put(cmd, ta, "complete")
        elif cmd == "services":
            self.put(cmd, ta, "accept")
            for i in range(2):
                self.put(cmd, ta, "notify", **{"service-id": self.n * 2 + i, "generation": self.n, "ttl": 1, "client-id": 1,
                                               "service-props": {"n": [self.n]}})
            self.put(cmd, ta, "complete")
        else:
            self.put(cmd, ta, "complete")


def p20_long(rng, c):
    """A connection of very many requests, some transactions of which stay open throughout."""
    import paf.client as pc
    s = Long(rng, c)
    total = rng.choice([150, 300, 600, 1200]) if rng.random() < 0.9 else rng.choice([4500, 9000, 33000, 66500])
    calls = {}                    # subscription id -> [(event, args)]

    def subscriber(i):
        calls[i] = []
        return lambda ta, ev, *a, **o: calls[i].append((ta, ev.name) + a[:2])
    cl = pc.connect(pc.ServerConf("ux:some"), client_id=rng.randrange(1 << 62), track=rng.random() < 0.5)
    tas, late = {}, []
    try:
        n_subs = rng.choice([1, 3, 8])
        ids = [f() for f in (cl.service_id, cl.subscription_id) for _ in range(1000)]
        if len(set(ids)) < len(ids) or not all(type(x) is int and 0 <= x <= I63 for x in ids):
            s.bug("2000 generated identifiers: %d different ones, from %r to %r" % (len(set(ids)), min(ids), max(ids)))
        for i in range(n_subs):
            tas[i] = cl.subscribe(i, subscriber(i))
        n_late = 0
        while s.n < total:
            r = rng.random()
            if cl.tracker is not None and rng.random() < 0.04:
                r = 0.962
            if r < 0.9:
                for _ in range(rng.choice([1, 10, 100])):
                    cl.ping()
            elif r < 0.92:
                s.refuse = True
                try:
                    cl.publish(s.n, 1, {"n": {1}}, 5)
                    s.bug("a refused publish() returns")
                except pc.TransactionError as e:
                    if "why-%d" % s.n not in str(e):
                        s.bug("publish() fails with %r instead of why-%d" % (str(e), s.n))
            elif r < 0.94:
                got = cl.services()
                if [(x[0], x[1]) for x in got] != [(s.n * 2, s.n), (s.n * 2 + 1, s.n)]:
                    s.bug("services() returns %r" % (got,))
            elif r < 0.96 and n_late < 3:
                # answered only at the very end
                n_late += 1
                done = []
                s.hold = True
                t = cl.ping(response_cb=lambda ta, ev, *a, done=done, **o: done.append((ta, ev.name)))
                s.hold = False
                late.append((t, done))
            elif 0.96 <= r < 0.965 and cl.tracker is not None:
                ta = [t for t, (k, _) in s.open.items() if k == "track"][0]
                s.informs = []
                n = rng.choice([1, 5, 150])
                if rng.random() < 0.5:
                    for _ in range(n):
                        s.put("track", ta, "notify", **{"track-type": "query"})
                        cl.process()
                    if s.informs != [(ta, "reply")] * n:
                        s.bug("%d track queries in transaction %d are answered by %r" % (n, ta, s.informs))
                else:
                    for _ in range(n):
                        cl.tracker.query()
                        cl.process()
                    if s.informs != [(ta, "query")] * n:
                        s.bug("%d calls of query() in transaction %d send %r" % (n, ta, s.informs))
                cl.ping()
                c.counts["track queries compared"] += n
            elif r < 0.97 and n_subs > 1:
                i = rng.choice(sorted(tas))
                cl.unsubscribe(i)
                cl.ping()
                if [x[1] for x in calls[i]][-1:] != ["COMPLETE"]:
                    s.bug("subscription %d is not completed: %r" % (i, calls[i][-3:]))
                tas[i] = cl.subscribe(i, subscriber(i))
            else:
                cl.ping()
                i = rng.choice(sorted(tas))
                ta = tas[i]
                n = len(calls[i])
                s.put("subscribe", ta, "notify", **{"match-type": "disappeared", "service-id": s.n})
                cl.process()
                if calls[i][n:] != [(ta, "NOTIFY", "disappeared", s.n)] and calls[i][n:] != [(ta, "ACCEPT"), (ta, "NOTIFY", "disappeared", s.n)]:
                    s.bug("the callback of subscription %d is called with %r" % (i, calls[i][n:]))
                c.counts["callbacks compared"] += 1
            c.counts["requests compared"] += 1
        rng.shuffle(s.held)
        for cmd, ta in s.held:
            del s.open[ta]
            s.put(cmd, ta, "complete")
        cl.process()
        cl.ping()
        for t, done in late:
            if done != [(t, "COMPLETE")]:
                s.bug("the callback of the late ping %r is called with %r" % (t, done))
        for i, ta in tas.items():
            n = len(calls[i])
            s.put("subscribe", ta, "notify", **{"match-type": "disappeared", "service-id": 12345})
            cl.process()
            if calls[i][n:] != [(ta, "NOTIFY", "disappeared", 12345)] and calls[i][n:] != [(ta, "ACCEPT"), (ta, "NOTIFY", "disappeared", 12345)]:
                s.bug("in the end the callback of subscription %d is called with %r" % (i, calls[i][n:]))
        for j, cb in calls.items():
            ev = [x[1] for x in cb]
            if ev.count("ACCEPT") != 1 or ev[0] != "ACCEPT" or ev.count("COMPLETE") > 1:
                s.bug("the callback of subscription %d is called with %r" % (j, ev[:9]))
        c.counts["long sessions' requests"] += s.n
        cl.close()
    except Bug:
        raise
    except Exception:
        b = internal_error(T20, "an exception of the client library after %d requests" % s.n)
        raise Bug(b.tags, str(b)[:2400])
    finally:
        s.env.client_poll_cb = None
        del cl
    c.evaluations += 1
    c.distinct.add(digest(s.n, n_subs, n_late))
    c.sample = {"log": list(s.log)[-6:]}
    simos.set_env(None)


class Mute(Long):
    """A server that answers the first hello and nothing else."""

    def __init__(self, rng, c, version):
        Long.__init__(self, rng, c)
        self.version = version
        self.sent = []

    def ev_send(self, o, data):
        m = json.loads(data.decode("utf-8"))
        self.log.append("client sends %s" % data[:120])
        self.sent.append(m)
        if len(self.sent) == 1:
            self.put("hello", m["ta-id"], "complete", **{"protocol-version": self.version})


CALLS = {
    "hello": lambda cl, cb: cl.hello(response_cb=cb), "publish": lambda cl, cb: cl.publish(1, 2, {"a": {"b"}}, 3, response_cb=cb),
    "unpublish": lambda cl, cb: cl.unpublish(1, response_cb=cb), "subscribe": lambda cl, cb: cl.subscribe(1, cb),
    "unsubscribe": lambda cl, cb: cl.unsubscribe(1, response_cb=cb), "services": lambda cl, cb: cl.services(response_cb=cb),
    "subscriptions": lambda cl, cb: cl.subscriptions(response_cb=cb), "clients": lambda cl, cb: cl.clients(response_cb=cb),
    "ping": lambda cl, cb: cl.ping(response_cb=cb), "track": lambda cl, cb: cl.track(cb),
}


def fields_of(cmd, mt, version):
    if mt == "fail":
        return refmsg.FAIL
    if (cmd, mt) == ("clients", "notify"):
        return refmsg.CLIENTS_NOTIFY[version]
    return refmsg.RESP.get((cmd, mt), refmsg.NOTHING)


def server_variant(r, cmd, version, ta):
    """A message, or one that is a single step away from one, in transaction `ta` of `cmd`."""
    from pv import wellformed as w
    c = cmd if r.random() < 0.85 else r.choice(list(CALLS))
    mt = r.choice(["accept", "notify", "notify", "complete", "fail", "fail", "request", "inform"])
    man, opt = fields_of(c, mt, version)
    m = {"ta-cmd": c, "ta-id": ta, "msg-type": mt}
    for f in man:
        m[f] = w.FIELDS[f]
    for f in opt:
        if r.random() < 0.5:
            m[f] = w.FIELDS[f]
    x = r.random()
    if x < 0.3:
        return m
    f = r.choice(list(m))
    if x < 0.4:
        del m[f]
    elif x < 0.5:
        k = r.choice(list(w.FIELDS))
        m[k] = w.FIELDS[k]
    elif x < 0.6:
        k = r.choice(["ta-cmd", "msg-type"])
        m[k] = r.choice(w.respelled(m[k]))
    elif x < 0.65:
        v = m.pop(f)
        m[r.choice([f.upper(), f.replace("-", "_"), f + " "])] = v
    else:
        m[f] = r.choice(w.kind_of(f, m[f]))
    return m


def p20_judged(rng, c):
    """Every state of a transaction meets every kind of message, one to a session."""
    import paf.client as pc
    from pv import wellformed as w
    seen = []
    for _ in range(150):
        version = rng.choice([2, 3])
        s = Mute(rng, c, version)
        cmd = rng.choice([k for k in CALLS if version == 3 or k != "track"])
        multi = cmd not in SINGLE
        state = rng.choice(["requesting", "accepted", "accepted"]) if multi else "requesting"
        calls = []
        cl = pc.connect(pc.ServerConf("ux:some"), client_id=7)
        try:
            ta = CALLS[cmd](cl, lambda t, ev, *a, **o: calls.append((t, ev.name, a, o)))
            if len(s.sent) != 2 or s.sent[1]["ta-cmd"] != cmd or s.sent[1]["ta-id"] != ta:
                s.bug("%s makes the client send %r" % (cmd, s.sent[1:]))
            if state == "accepted":
                s.put(cmd, ta, "accept")
                cl.process()
                if calls != [(ta, "ACCEPT", (), {})]:
                    s.bug("on the accept the callback is called with %r" % calls)
                calls.clear()
            raw = w.dump(server_variant(rng, cmd, version, ta))
            s.log.append("client receives %s (%s, version %d)" % (raw[:300], state, version))
            s.conn.inbox.append(raw)
            try:
                m = json.loads(raw.decode())
            except ValueError:
                m = None
            wrong = "not JSON" if m is None else refmsg.check_server(m, version)
            if wrong is None:
                mt = m["msg-type"]
                if m["ta-id"] != ta:
                    wrong = "of an unknown transaction"
                elif m["ta-cmd"] != cmd:
                    wrong = "of another command"
                elif mt != "fail" and mt != {("requesting", False): "complete", ("requesting", True): "accept"}.get((state, multi)) and \
                        not (state == "accepted" and (mt == "notify" or mt == "complete" and cmd != "track")):
                    wrong = "out of turn"
            # left open: failing after the accept, what fail reasons there are, null for absent, and numbers that are none
            leave = m is not None and (
                m.get("msg-type") == "fail" and (state == "accepted" or wrong is not None and "undocumented" in wrong) or
                None in m.values() or any(isinstance(x, float) and (x != x or x in (float("inf"), -float("inf"))) for x in m.values()))
            c.counts["messages judged"] += 1
            try:
                with cpu_bound(20):
                    cl.process()
            except pc.Error as e:
                if leave:
                    pass
                elif wrong is None:
                    s.bug("the client library rejects a proper message: %s" % e)
                elif calls:
                    s.bug("a message that is rejected (%s) reaches the callback: %r" % (e, calls))
                else:
                    c.counts["errors judged"] += 1
            else:
                if leave:
                    pass
                elif wrong is not None:
                    s.bug("the client library accepts a message that is wrong (%s): callback %r" % (wrong, calls))
                else:
                    man, opt = fields_of(cmd, m["msg-type"], version)
                    want = (ta, m["msg-type"].upper(), len(man), sorted(k.replace("-", "_") for k in opt if k in m))
                    got = [(t, ev, len(a), sorted(o)) for t, ev, a, o in calls]
                    if got != [want]:
                        s.bug("the callback is called with %r instead of %r" % (got, want))
                    c.counts["callbacks compared"] += 1
            seen.append((cmd, state, wrong is None))
            cl.close()
        except Bug:
            raise
        except Exception:
            b = internal_error(T20, "an exception of the client library")
            raise Bug(b.tags, (str(b) + "\n... " + "\n".join(s.log))[:2400])
        finally:
            s.env.client_poll_cb = None
            del cl
    c.evaluations += 1
    c.distinct.add(digest(tuple(seen)))
    c.sample = {"log": list(s.log)[-6:]}
    simos.set_env(None)


def p20_burst(rng, c):
    """Very many requests at once, while nothing can be sent; very long listings; very large messages."""
    import paf.client as pc
    s = Long(rng, c)
    cl = None
    try:
        cl = pc.connect(pc.ServerConf("ux:some"), client_id=rng.randrange(1 << 62))
        for _ in range(rng.choice([1, 2])):
            # requests queued by the client
            n = rng.choice([40, 70, 140, 270, 530, 1040, 2100])
            s.conn.capacity = rng.choice([0, 0, 1, 7])
            done, want = [], []
            first = len(want)
            for i in range(n):
                k = rng.choice(["ping", "publish", "unpublish", "services"])
                cb = lambda ta, ev, *a, i=i, **o: done.append((i, ta, ev.name))
                if k == "ping":
                    ta = cl.ping(response_cb=cb)
                elif k == "publish":
                    ta = cl.publish(i, 1, {"n": {i}}, 5, response_cb=cb)
                elif k == "unpublish":
                    ta = cl.unpublish(i, response_cb=cb)
                else:
                    ta = cl.services(response_cb=cb)
                want.append((i, ta, k))
                if rng.random() < 0.01:
                    cl.process()
            for _ in range(20 * n + 100):
                if s.conn.capacity is not None:
                    s.conn.capacity = rng.choice([1, 5, 50, None]) if rng.random() < 0.9 else 0
                cl.process()
                if len([1 for x in done if x[2] == "COMPLETE"]) == n:
                    break
            s.conn.capacity = None
            evs = {}
            for i, ta, ev in done:
                evs.setdefault((i, ta), []).append(ev)
            for i, ta, k in want:
                exp = ["ACCEPT", "NOTIFY", "NOTIFY", "COMPLETE"] if k == "services" else ["COMPLETE"]
                if evs.get((i, ta)) != exp:
                    s.bug("%d requests were made at once; the callback of number %d, a %s, is called with %r" % (n, i, k, evs.get((i, ta))))
            if [i for i, ta, ev in done if ev == "COMPLETE"] != list(range(n)):
                s.bug("%d requests made at once are sent out of order" % n)
            c.counts["requests queued by the client"] += n
            # a long listing
            m = rng.choice([100, 260, 520, 1030, 2100, 4200])
            big = rng.choice([1, 1, 1, 30])
            s.listing = (m, big)
            s.polls = 0
            got = cl.services()
            s.listing = None
            if [(x[0], x[1]) for x in got] != [(i, s.n) for i in range(m)]:
                s.bug("services() returns %d of %d services" % (len(got), m))
            if any(x[2] != {"n%d" % j: {x[0]} for j in range(big)} for x in got):
                s.bug("services() returns other properties than those sent, of %d services" % m)
            c.counts["entries of long listings"] += m
            # a large service
            size = rng.choice([1000, 5000, 17000, 33000, 60000])
            form = rng.choice(["one", "keys", "values"])
            if form == "one":
                props = {"k": {"x" * size}}
            elif form == "keys":
                props = {"key%d" % j: {j} for j in range(size // 20)}
            else:
                props = {"k": {"value%d" % j for j in range(size // 16)}}
            s.last = None
            cl.publish(7, 1, props, 5)
            if canon(s.last.get("service-props")) != canon({k: list(v) for k, v in props.items()}):
                s.bug("a service of %d bytes (%s) is sent with other properties" % (size, form))
            # and back
            sub = rng.randrange(1 << 62)
            calls = []
            ta = cl.subscribe(sub, lambda t, ev, *a, **o: calls.append((ev.name, a, o)))
            m = rng.choice([70, 300, 1100, 3000])
            for i in range(m):
                s.put("subscribe", ta, "notify", **{"match-type": "disappeared", "service-id": i})
            s.put("subscribe", ta, "notify", **{"match-type": "appeared", "service-id": 1, "generation": 1, "ttl": 1, "client-id": 1,
                                                "service-props": {k: list(v) for k, v in props.items()}})
            while s.conn.ready():
                cl.process()
            exp = [("ACCEPT", ())] + [("NOTIFY", ("disappeared", i)) for i in range(m)]
            if [(e, a[:2]) for e, a, o in calls[:-1]] != exp:
                s.bug("%d notifications are delivered as %d calls" % (m + 1, len(calls) - 1))
            if calls[-1][0] != "NOTIFY" or calls[-1][1][:2] != ("appeared", 1) or \
                    {k: set(v) for k, v in calls[-1][2].get("service_props", {}).items()} != props:
                s.bug("a service of %d bytes (%s) is delivered otherwise: %s" % (size, form, str(calls[-1])[:300]))
            c.counts["callbacks compared"] += len(calls)
        cl.close()
    except Bug:
        raise
    except Exception:
        b = internal_error(T20, "an exception of the client library after %d requests" % s.n)
        raise Bug(b.tags, str(b)[:2400])
    finally:
        s.env.client_poll_cb = None
        del cl
    c.evaluations += 1
    c.distinct.add(digest(s.n, m, size, form))
    c.sample = {"log": list(s.log)[-6:]}
    simos.set_env(None)


# ---- P21: domains

NAMES = ["d", "oam", "domain.0", "a b", "ux", "\u00e5", "-x", "#c", "tcp", "{x", "UPPER", "upper", "x" * 60, "0", "d.json", ".hidden", "*", "d~"]
ADDRS = ["ux:d", "ux:some name", "ux:#x", "tcp:127.0.0.1:4711", "tcp:[::1]:7", "tls:192.168.1.42:4711", "tls:host.example.com:1",
         "uxf:/tmp/x y", "utls:h:0", "ux:\u00e5", "ux:{", "ux:a#b", "ux:d//",
         "tls:" + ".".join(["h" * 62] * 4) + ":4711", "uxf:/" + "/".join(["some-directory"] * 270) + "/s"]
JSON_KEYS = {"tlsCertificateFile": "tls.cert_file", "tlsKeyFile": "tls.key_file", "tlsTrustedCaFile": "tls.tc_file"}


def plain_file(r):
    """-> text, [(address, credentials, bounds)]"""
    servers, lines = [], []
    for _ in range(r.choice([0, 1, 1, 2, 3, 8]) if r.random() < 0.95 else r.choice([20, 40, 70, 140, 300])):
        while r.random() < 0.4:
            lines.append(r.choice(["", "  ", "\t", "#", "# comment", "  # ux:not-this", "#ux:nor-this", "#{"]))
        a = r.choice(ADDRS)
        servers.append((a, {}, {}))
        lines.append(r.choice(["", "", " ", "\t"]) + a + r.choice(["", "", " ", "\t "]))
    while r.random() < 0.3:
        lines.append(r.choice(["", "# end", " "]))
    end = r.choice(["\n", "\n", "\n", "\r\n"])
    t = end.join(lines)
    if lines and r.random() < 0.7:
        t += end
    if t.strip(" \t\r\n")[:1] == "{":
        t = "# plain" + end + t
    return t, servers


def json_file(r):
    servers, objs = [], []
    for _ in range(r.choice([0, 1, 1, 2, 3, 8]) if r.random() < 0.95 else r.choice([20, 40, 70, 140, 300])):
        a = r.choice(ADDRS)
        o, attrs, bounds = {"address": a}, {}, {}
        for k, x in JSON_KEYS.items():
            if r.random() < 0.4:
                o[k] = attrs[x] = r.choice(["/etc/paf/cert.pem", "key", "/a b/\u00e5", "x" * 300]) + str(r.randrange(9))
        if r.random() < 0.4:
            o["minProtocolVersion"] = bounds["min"] = r.choice([1, 2, 2, 3, 3, 4])
        if r.random() < 0.4:
            o["maxProtocolVersion"] = bounds["max"] = r.choice([1, 2, 2, 3, 3, 4, 9])
        if bounds.get("min", 2) > bounds.get("max", 3):
            o.pop("minProtocolVersion", None)
            bounds.pop("min", None)
        if r.random() < 0.2:
            o["comment"] = "tlsKeyFile"
        if r.random() < 0.5:
            ks = list(o)
            r.shuffle(ks)
            o = {k: o[k] for k in ks}
        objs.append(o)
        servers.append((a, attrs, bounds))
    root = {"servers": objs}
    if r.random() < 0.2:
        root = {"name": "x", "servers": objs}
    t = json.dumps(root, indent=r.choice([None, 2, "\t"]), ensure_ascii=r.random() < 0.5)
    return r.choice(["", "", "\n", " \r\n\t", "\n\n  "]) + t + r.choice(["", "\n"]), servers


watch = []
touched = None


def audit(event, args):
    if touched is not None and event in ("open", "os.open", "os.scandir", "os.listdir") and args:
        try:
            touched.append(os.fsdecode(args[0]))
        except TypeError:
            pass


class Domains:
    def __init__(self, rng, c):
        import paf.client
        self.pc = paf.client
        self.rng = rng
        self.c = c
        self.files = {}
        self.extra_dirs = set()

    def bug(self, text):
        raise Bug(T21, text)

    def run(self):
        r = self.rng
        top = tempfile.mkdtemp(prefix="p21.", dir=scratch())
        old = os.environ.get("PAF_DOMAINS")
        try:
            dirs = [os.path.join(top, "a"), os.path.join(top, "b c")]
            for d in dirs:
                os.mkdir(d)
                self.files[d] = {}
            if r.random() < 0.03:
                for i in range(r.choice([40, 130, 300, 1030])):
                    with open(os.path.join(dirs[0], "d%d" % i), "w") as f:
                        f.write("ux:server%d\n" % i)
                    self.files[dirs[0]]["d%d" % i] = ("ux:server%d\n" % i, [("ux:server%d" % i, {}, {})])
            for _ in range(r.choice([3, 8, 20])):
                self.dir = r.choice(dirs) if r.random() < 0.3 else dirs[0]
                os.environ["PAF_DOMAINS"] = self.dir + r.choice(["", "", "/"])
                self.step()
        finally:
            if old is None:
                os.environ.pop("PAF_DOMAINS", None)
            else:
                os.environ["PAF_DOMAINS"] = old
            shutil.rmtree(top)
            simos.set_env(None)

    def step(self):
        r = self.rng
        files = self.files[self.dir]
        x = r.random()
        name = r.choice(NAMES)
        path = os.path.join(self.dir, name)
        if x < 0.4 or not files:
            if os.path.isdir(path):
                return
            t, servers = (plain_file if r.random() < 0.5 else json_file)(r)
            linked = r.random() < 0.1 and not os.path.lexists(path)
            if linked:
                real = os.path.join(os.path.dirname(self.dir), "real%d" % r.randrange(1 << 40))
                os.symlink(real, path)
            with open(path, "w", encoding="utf-8", newline="") as f:
                f.write(t)
            files[name] = (t, servers)
        elif x < 0.45:
            if name in files:
                os.unlink(path)
                del files[name]
            elif not os.path.lexists(path):
                if r.random() < 0.5:
                    os.mkdir(path)
                else:
                    os.symlink("nowhere", path)
                    os.unlink(path)
        elif x < 0.46:
            self.default_dir()
        elif x < 0.55:
            got = self.call(lambda: list(self.pc.list_domains()))
            if sorted(got) != sorted(files):
                self.bug("list_domains() returns %r; the files are %r" % (sorted(got), sorted(files)))
            self.c.counts["listings of domains compared"] += 1
        elif x < 0.7:
            name = r.choice(sorted(files) + [name])
            t, want = files.get(name, ("", []))
            got = self.call(lambda: self.pc.read_domain(name))
            if len(got) != len(want):
                self.bug("read_domain() of %r returns %d servers instead of %d" % (t, len(got), len(want)))
            for g, (a, attrs, b) in zip(got, want):
                g = (g.addr, dict(g.attrs), (g.proto_version_min, g.proto_version_max))
                w = (a, attrs, (b.get("min", 2), b.get("max", 3)))
                if g != w:
                    self.bug("read_domain() of %r returns %r instead of %r" % (t, g, w))
            self.c.counts["listings of servers compared"] += 1
        else:
            name = r.choice(sorted(files) * 3 + [r.choice(NAMES), r.choice(ADDRS)])
            if os.path.isdir(os.path.join(self.dir, name)):
                want = (name, {}, {})
                what = "directory"
            elif name in files:
                s = files[name][1]
                want = s[0] if s else (name, {}, {})
                what = files[name][0]
            else:
                want = (name, {}, {})
                what = "no file"
            self.connect(lambda **kw: self.pc.connect(name, **kw), want, "%r (%r)" % (name, what))
            if r.random() < 0.4 and name in files and files[name][1]:
                servers = self.call(lambda: self.pc.read_domain(name))
                i = r.randrange(len(servers))
                self.connect(lambda **kw: self.pc.connect(servers[i], **kw), files[name][1][i], "server %d of %r" % (i, files[name][0]))

    def default_dir(self):
        """Without PAF_DOMAINS it is /run/paf/domains.d, which does not exist here."""
        global touched
        name = "no-such-domain%d" % self.rng.randrange(1 << 30)
        path = "/run/paf/domains.d/" + name
        if os.path.exists(os.path.dirname(path)):
            return
        before = os.environ.pop("PAF_DOMAINS")
        try:
            if not watch:
                sys.addaudithook(audit)
                watch.append(True)
            touched = []
            got = self.call(lambda: self.pc.read_domain(name))
            seen, touched = touched, None
        finally:
            touched = None
            os.environ["PAF_DOMAINS"] = before
        seen = [x for x in seen if name in x]
        if seen and [x for x in seen if os.path.normpath(x) != path]:
            self.bug("without PAF_DOMAINS, the domain %s is looked up in %r" % (name, seen))
        if got != []:
            self.bug("read_domain() of a domain without file returns %r" % (got,))
        self.c.counts["look-ups in the default directory"] += 1

    def call(self, f):
        try:
            with cpu_bound(10):
                return f()
        except TimeUp:
            self.bug("the client library spins")
        except self.pc.Error:
            raise
        except Exception:
            raise internal_error(T21, "an exception")

    def connect(self, f, want, what):
        r = self.rng
        env = simos.Env(r)
        simos.set_env(env)
        env.max_time_calls = 100000
        seen = []
        hellos = []
        cid = r.choice([None, 0, 5, I63])

        class Listener:
            def __getattr__(self, n):
                return lambda *a: None

            def ev_send(self, o, data):
                hellos.append(json.loads(data))
        env.listener = Listener()
        conns = []

        def on_connect(addr, attrs):
            seen.append((addr, dict(attrs)))
            conns.append(simos.SimConn(env, addr))
            return conns[-1]

        def on_poll(fp, timeout):
            env.now += 0.01
            if len(hellos) != 1 or len(seen) != 1 or conns[0].inbox:
                self.bug("connecting to %s: the client waits after %r, %r" % (what, seen, hellos))
            h = hellos[0]
            v = min(h["protocol-maximum-version"], 3)
            conns[0].inbox.append(json.dumps({"ta-cmd": "hello", "ta-id": h["ta-id"], "msg-type": "complete",
                                              "protocol-version": v}).encode())
            return [(conns[0].fd, select.POLLIN)]
        env.connect_cb = on_connect
        env.client_poll_cb = on_poll
        a, attrs, b = want
        lo, hi = b.get("min", 2), b.get("max", 3)
        err = cl = None
        try:
            cl = self.call(lambda: f(**({} if cid is None else {"client_id": cid})))
        except self.pc.Error as e:
            err = "%s: %s" % (type(e).__name__, e)
        unusable = lo > 3 or hi < 2
        if unusable:
            if err is None:
                self.bug("connecting to %s succeeds with the version bounds %r" % (what, b))
            if hellos and not lo <= hellos[0]["protocol-minimum-version"] <= hellos[0]["protocol-maximum-version"] <= hi:
                self.bug("connecting to %s offers versions %r" % (what, hellos))
            self.c.counts["unusable version bounds refused"] += 1
        else:
            if err is not None:
                self.bug("connecting to %s fails: %s" % (what, err))
            h = hellos[0]
            if (h["protocol-minimum-version"], h["protocol-maximum-version"]) != (lo, hi):
                self.bug("connecting to %s offers the versions %r, but the bounds are %r" % (what, h, b))
            if cid is not None and h["client-id"] != cid:
                self.bug("connecting with the client id %r uses %r" % (cid, h["client-id"]))
            if len(hellos) != 1 or len(seen) != 1:
                self.bug("connecting to %s: %r %r" % (what, seen, hellos))
        for s in seen:
            got = {k: v for k, v in s[1].items() if k != "xcm.blocking"}
            if s[0] != a or got != attrs:
                self.bug("connecting to %s uses %r with %r instead of %r with %r" % (what, s[0], got, a, attrs))
            if s[1].get("xcm.blocking") is not False:
                self.bug("connecting to %s: xcm.blocking is %r" % (what, s[1].get("xcm.blocking")))
        self.c.counts["connections compared"] += 1
        if attrs:
            self.c.counts["connections with credentials"] += 1
        if b:
            self.c.counts["connections with version bounds"] += 1
        if cl is not None:
            cl.close()
        cl = None
        gc.collect()
        env.listener = None
        env.client_poll_cb = None
        self.c.distinct.add(digest(want, what))


def scratch():
    d = os.environ.get("PV_SCRATCH") or tempfile.gettempdir()
    return d


def p21(rng, c):
    for _ in range(6):
        d = Domains(rng, c)
        d.run()
        c.evaluations += 1
    c.sample = {"directories": {os.path.basename(k): {n: t for n, (t, _) in v.items()} for k, v in d.files.items()}}
