"""P26: the program app/pafc as a process, over shim/xcmshim.c, with a scripted server at the other end."""

import json
import os
import re
import select
import signal
import socket
import subprocess
import sys
import tempfile
import time

from pv import reffilter
from pv.direct import Bug, digest

TAGS = {"P26"}
REASONS = ["permission-denied", "insufficient-resources", "old-generation", "client-id-exists", "no-hello",
           "non-existent-service-id", "non-existent-subscription-id", "same-generation-but-different",
           "invalid-filter-syntax", "subscription-id-exists", "track-exists"]
WAIT = 20
NUM = r"-?\d+(?:\.\d+)?"


class Server:
    n = 0

    def __init__(self, ns):
        self.ns = ns
        self.listeners = {}
        self.s = None

    def listen(self, addr):
        s = socket.socket(socket.AF_UNIX, socket.SOCK_SEQPACKET)
        s.bind("\0%s/s/%s" % (self.ns, addr))
        s.listen(5)
        self.listeners[addr] = s

    def close(self):
        for s in list(self.listeners.values()) + [self.s]:
            if s is not None:
                s.close()


class Session:
    def __init__(self, rng, c):
        self.rng = rng
        self.c = c
        self.log = []
        self.out = ""           # what the program printed and nobody has looked at yet
        self.buf = b""
        self.subs = {}          # subscription id -> ta id
        self.track = None       # ta id
        self.queries = 0
        self.verbose = False
        self.last_ta = -1
        self.proc = None
        self.quiet = False

    def note(self, fmt, *args):
        self.log.append((fmt % args)[:400])
        self.c.trace.append(self.log[-1])
        del self.c.trace[:-80]

    def bug(self, fmt, *args):
        text = fmt % args if args else fmt
        raise Bug(TAGS, "%s\n%s" % (text, "\n".join(self.log[-12:])))

    # ------------------------------------------------------------ the program

    def start(self, args, env):
        from pv.world import REPO
        self.note("pafc %s", " ".join(args))
        self.proc = subprocess.Popen([sys.executable, os.path.join(REPO, "app", "pafc")] + args, stdin=subprocess.PIPE,
                                     stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, cwd="/",
                                     start_new_session=True)
        os.set_blocking(self.proc.stdout.fileno(), False)

    def pump(self, timeout):
        """Takes up output; False on end of file."""
        fd = self.proc.stdout.fileno()
        if not select.select([fd], [], [], timeout)[0]:
            return True
        d = os.read(fd, 1 << 16)
        if not d:
            return False
        self.buf += d
        try:
            self.out += self.buf.decode("utf-8")
            self.buf = b""
        except UnicodeDecodeError as e:
            if e.start < len(self.buf) - 4:
                self.bug("output that is not UTF-8: %r", self.buf[:200])
        return True

    def read_until(self, pattern, what):
        """Output must match the pattern completely before long; returns the match."""
        end = time.monotonic() + WAIT
        while True:
            m = re.fullmatch(pattern, self.out, re.S)
            if m:
                self.out = ""
                self.c.counts["outputs compared"] += 1
                return m
            if time.monotonic() > end:
                self.bug("%s: expected output %s, got %r", what, pattern[:600], self.out[-1500:])
            if not self.pump(max(0.01, end - time.monotonic()) if not self.out.endswith("> ") else 0.5):
                self.proc.wait(WAIT)
                self.bug("%s: the session ends (status %r), expected output %s, got %r", what, self.proc.returncode,
                         pattern[:600], self.out[-1500:])
            if self.out.endswith("> ") and not re.fullmatch(pattern, self.out, re.S):
                # a little patience: more may be on its way
                t = time.monotonic() + 3
                while time.monotonic() < t and not re.fullmatch(pattern, self.out, re.S):
                    if not self.pump(0.2):
                        break
                if not re.fullmatch(pattern, self.out, re.S):
                    self.bug("%s: expected output %s, got %r", what, pattern[:600], self.out[-1500:])

    def type(self, line):
        self.note("> %s", line)
        self.proc.stdin.write(line.encode("utf-8") + b"\n")
        self.proc.stdin.flush()

    # ------------------------------------------------------------ the wire

    def recv(self, what):
        end = time.monotonic() + WAIT
        fds = [self.s, self.proc.stdout]
        while True:
            left = end - time.monotonic()
            if left <= 0:
                self.bug("%s: no request; output %r", what, self.out[-800:])
            ready = select.select(fds, [], [], left)[0]
            if self.proc.stdout in ready and not self.pump(0):
                fds.remove(self.proc.stdout)
            if self.out.endswith("> ") and self.s not in ready:
                # back at the prompt
                if not select.select([self.s], [], [], 1)[0]:
                    self.bug("%s: no request; output %r", what, self.out[-800:])
                continue
            if self.s in ready:
                break
        d = self.s.recv(70000)
        if not d:
            self.pump(0.3)
            self.bug("%s: the program closed the connection; output %r", what, self.out[-1500:])
        try:
            m = json.loads(d.decode("utf-8"))
        except ValueError:
            self.bug("%s: a message that is not JSON: %r", what, d[:200])
        self.note("    <- %s", d[:300].decode("utf-8", "replace"))
        return m

    def request(self, what, cmd, fields, m=None):
        if m is None:
            m = self.recv(what)
        if m.get("ta-cmd") != cmd or m.get("msg-type") != "request":
            self.bug("%s: expected a %s request, got %r", what, cmd, m)
        ta = m.get("ta-id")
        if type(ta) is not int or ta <= self.last_ta:
            self.bug("%s: transaction id %r after %r", what, ta, self.last_ta)
        self.last_ta = ta
        got = {k: v for k, v in m.items() if k not in ("ta-cmd", "ta-id", "msg-type") and v is not None}
        if "service-props" in fields and isinstance(got.get("service-props"), dict):
            want = dict(fields)
            g = dict(got)
            a = {k: sorted(map(repr, v)) for k, v in g.pop("service-props").items() if v}
            b = {k: sorted(map(repr, v)) for k, v in want.pop("service-props").items()}
            if a != b:
                self.bug("%s: the request has the properties %r, typed were %r", what, a, b)
            same = g == want
        else:
            same = got == fields
        if not same or any(type(got[k]) is not type(fields[k]) for k in fields):
            self.bug("%s: the request has %r, expected were %r", what, got, fields)
        self.c.counts["requests compared"] += 1
        self.c.counts["request " + cmd] += 1
        self.c.distinct.add(digest(cmd, sorted(map(repr, fields.items()))))
        return ta

    def inform(self, what, kind):
        m = self.recv(what)
        want = {"ta-cmd": "track", "ta-id": self.track, "msg-type": "inform", "track-type": kind}
        if m != want:
            self.bug("%s: expected %r, got %r", what, want, m)
        self.c.counts["informs compared"] += 1

    def send(self, cmd, ta, kind, **fields):
        m = {"ta-cmd": cmd, "ta-id": ta, "msg-type": kind}
        m.update({k.replace("_", "-"): v for k, v in fields.items()})
        d = json.dumps(m, ensure_ascii=self.rng.random() < .5 if "\\ud" not in json.dumps(m) else True).encode("utf-8")
        self.note("    -> %s", d[:300].decode("utf-8", "replace"))
        self.s.send(d)

    def silent(self, what):
        if select.select([self.s], [], [], 0)[0]:
            d = self.s.recv(70000)
            if d:
                self.bug("%s: a message nobody asked for: %r", what, d[:300])
            self.bug("%s: the connection is closed; output %r", what, self.out[-500:])
        self.c.counts["silences judged"] += 1

    # ------------------------------------------------------------ generators

    def num(self):
        r = self.rng
        return r.choice([0, 1, 2, 60, (1 << 63) - 1, 1 << 62, 0xdeadbeef, r.randrange(1 << 63), r.randrange(1000)])

    def word(self):
        r = self.rng
        k = r.randrange(8)
        if k < 3:
            return r.choice(["name", "address", "a", "b", "x-y", "K"])
        if k < 5:
            return "".join(r.choice("abc =()&|!*\\'\"$;#,.~-_<>{}[]%?") for _ in range(r.randrange(1, 10)))
        if k < 6:
            return "".join(r.choice("\u00e5\u20ac\U0001f600 ab\u0301") for _ in range(r.randrange(1, 6)))
        return "".join(r.choice("abcdefgh0123456789") for _ in range(r.randrange(1, 20)))

    def quote(self, s):
        """s as one argument, the way a user may type it."""
        r = self.rng
        plain = s != "" and re.fullmatch(r"[A-Za-z0-9_@%+=:,./|()&!*<>{}\[\]?;$~-]+", s) is not None
        k = r.randrange(4)
        if plain and k < 2:
            return s
        if k == 2 and "'" not in s:
            return "'" + s + "'"
        if k == 3 and not s.endswith(" "):
            return "".join("\\" + ch for ch in s) if s else '""'
        return '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"'

    def value(self):
        """(typed argument, value in the request)"""
        r = self.rng
        k = r.randrange(12)
        if k < 3:
            v = r.choice([0, 1, -1, 42, (1 << 63) - 1, -(1 << 63), r.randrange(-10000, 10000), r.randrange(1 << 62)])
            return str(v), v
        if k < 5:
            v = str(r.choice([0, 7, -3, 4711, (1 << 63) - 1, 1 << 70]))
            return "|" + v + "|", v
        if k == 5:
            v = r.choice([" 5", "5 ", " ", "5.0", "1e3", "0x1f", "--5", "5-", "- 5", "12 34", "1,000", "true", "None"])
            return v, v
        if k == 6:
            inner = r.choice(["", "|", "||", "|5|", "5|", "|a", "|a|b|", "-1|", "a|b", " ", " 7 ", "007", "'", '"', "\\"])
            return r.choice([("", ""), ("|", "|"), ("||", ""), ("|a", "|a"), ("a|", "a|"), ("a|5|", "a|5|"),
                             ("|5|a", "|5|a")] + [("|" + inner + "|", inner)] * 7)
        v = self.word()
        if re.fullmatch(r"\|.*\||\s*[+-]?[0-9_]+\s*", v, re.S) or v.strip() != v and v.strip().isdigit():
            v += "x"
        return v, v

    def hexid(self, v):
        r = self.rng
        return r.choice(["%x", "%X", "0x%x", "0X%X", "%x", "%020x"]) % v

    def filter(self):
        r = self.rng
        k = r.randrange(5)
        if k == 0:
            return "(name=%s)" % reffilter.escape(self.word())
        if k == 4:
            op = r.choice("&|")
            return "(%s%s)" % (op, "".join("(%s=%s)" % (r.choice(["name", "a b", "it's"]), reffilter.escape(self.word() or "x"))
                                           for _ in range(r.choice([2, 5, 20, 100]))))
        if k == 1:
            return "(&(a=b)(!(c>%d)))" % r.randrange(100)
        if k == 2:
            return "(%s=*)" % r.choice("abc")
        return self.word().strip() or "x"       # the server judges it

    def props(self):
        r = self.rng
        p = {}
        for _ in range(r.choice([0, 1, 2, 3, 6])):
            k = self.word() + r.choice(["", "k"])
            vs = []
            for _ in range(r.choice([1, 1, 2])):
                v = r.choice([self.word(), r.randrange(-1000, 1000), "5", -(1 << 63), (1 << 63) - 1])
                if not any(x == v and type(x) is type(v) for x in vs):
                    vs.append(v)
            p[k] = vs
        if r.random() < 0.08:
            p["odd"] = ["sur\udc80rogate"]
        return p

    # ------------------------------------------------------------ output

    def props_rx(self, props, group):
        return r"\{(?P<%s>.*)\}" % group

    def check_props(self, what, text, props):
        frags = []
        for k, vs in props.items():
            for v in vs:
                frags.append("'%s': '%s'" % (k, v) if isinstance(v, str) else "'%s': %d" % (k, v))
        if "odd" in props:
            return          # how it is shown is left open
        if sorted(text) != sorted(", ".join(frags)) or any(f not in text for f in frags):
            self.bug("%s: properties are shown as {%s}, expected were %r", what, text, frags)

    def error_rx(self, reason):
        return r"[^\n]*%s[^\n]*\n" % re.escape(reason) if reason is not None else r"[^\n]+\n"

    def fail(self, what, cmd, ta, extra=""):
        r = self.rng
        reason = r.choice(REASONS + [None])
        if reason is None:
            self.send(cmd, ta, "fail")
        else:
            self.send(cmd, ta, "fail", fail_reason=reason)
        m = self.read_until(extra + "(?P<e>" + self.error_rx(reason) + ")> ", what)
        if "OK." in m.group("e"):
            self.bug("%s was refused, but the output is %r", what, m.group(0))
        self.c.counts["refusals compared"] += 1

    def malformed(self, line):
        self.type(line)
        m = self.read_until(r"(?P<e>.+)\n> ", line)
        e = m.group("e")
        if "OK." in e or "Traceback" in e:
            self.bug("malformed command %r: output %r", line, e)
        self.silent(line)
        self.c.counts["malformed commands"] += 1

    # ------------------------------------------------------------ notifications of subscriptions

    def notification(self, during=""):
        """Sends one; returns the pattern of the line it should cause and a function that judges the match."""
        r = self.rng
        sub = r.choice(list(self.subs))
        kind = r.choice(["appeared", "modified", "disappeared"])
        sid = self.num()
        f = {"match_type": kind, "service_id": sid}
        rx = "Subscription %x: Match type: %s; Service id: %x" % (sub, kind, sid)
        p = None
        left = None
        if kind != "disappeared":
            p = self.props()
            f.update(generation=self.num(), ttl=r.choice([0, 1, 60, 3600, 10 ** 6, (1 << 32) + 5, 10 ** 11]), client_id=self.num(), service_props=p)
            if r.random() < 0.4:
                f["orphan_since"] = time.time() - r.choice([0, 0.5, 10, 100])
            if r.random() < 0.1:
                f["orphan_since"] = int(f.get("orphan_since", time.time()))
            rx += "; Generation: %d; TTL: %d" % (f["generation"], f["ttl"])
            n = len(self.c.counts)
            if "orphan_since" in f:
                left = f["orphan_since"] + f["ttl"] - time.time()
                rx += r"; Orphan: (?P<left>%s) s until timeout" % NUM
            rx += "; Client Id: 0x%x; Properties: %s" % (f["client_id"], self.props_rx(p, "props"))
        self.send("subscribe", self.subs[sub], "notify", **f)

        def judge(m):
            if p is not None:
                self.check_props("notification", m.group("props"), p)
            if left is not None and abs(float(m.group("left")) - left) > 12:
                self.bug("notification: orphan timeout shown as %s, expected was %.1f", m.group("left"), left)
            self.c.counts["notifications compared"] += 1
        return rx + r"\n", judge

    def op_notify(self):
        if not self.subs:
            return
        rx, judge = self.notification()
        judge(self.read_until(rx, "notification"))

    # ------------------------------------------------------------ commands

    def extra(self):
        """Sometimes a notification arrives before the response."""
        if self.subs and self.rng.random() < 0.25:
            return self.notification()
        return "", lambda m: None

    def simple(self, line, cmd, fields, ok="", extra=""):
        self.type(line)
        ta = self.request(line, cmd, fields)
        x, judge = self.extra()
        if self.rng.random() < 0.3:
            if not x:
                self.fail(line, cmd, ta, extra)
            else:
                self.send(cmd, ta, "fail", fail_reason="x-y")
                judge(self.read_until(extra + x + "[^\\n]*x-y[^\\n]*\n> ", line))
            return False
        f = {}
        if cmd == "hello":
            f["protocol_version"] = self.version
        self.send(cmd, ta, "complete", **f)
        judge(self.read_until(extra + x + ok + "OK\\.\n> ", line))
        return True

    def op_ping(self):
        self.simple("ping", "ping", {}, NUM + r" ms\n")

    def op_hello(self):
        self.simple("hello", "hello", {"client-id": self.client_id, "protocol-minimum-version": self.range[0],
                                       "protocol-maximum-version": self.range[1]},
                    r"[^\n]*\b%d\n" % self.version)

    def op_id(self):
        self.type("id")
        self.read_until("[^\n]*0x%x\n> " % self.client_id, "id")
        self.silent("id")

    def op_version(self):
        self.type("version")
        self.read_until(r"[^\n]*\n[^\n]*2-3\n[^\n]*%d-%d\n[^\n]*\b%d\nOK\.\n> " % (self.range + (self.version,)), "version")
        self.silent("version")

    def op_publish(self):
        r = self.rng
        gen, ttl = self.num(), self.num()
        sid = self.num() if r.random() < 0.6 else None
        words, props = [], {}
        for _ in range(r.choice([0, 1, 1, 2, 4])):
            k = r.choice([self.word(), "name", "name"])
            t, v = self.value()
            words += [k, t]
            if not any(x == v and type(x) is type(v) for x in props.get(k, [])):
                props.setdefault(k, []).append(v)
        head = ([] if sid is None else [self.hexid(sid)]) + [str(gen), str(ttl)]
        line = r.choice([" ", "", "  "]) + "publish " + r.choice([" ", "  "]).join(head + [self.quote(w) for w in words])
        if r.random() < 0.1:
            line += " "
        fields = {"generation": gen, "ttl": ttl, "service-props": props}
        if sid is not None:
            fields["service-id"] = sid
            self.simple(line, "publish", fields)
            return
        self.type(line)
        m = self.read_part(r"[^\n]*?\b(?P<id>[0-9a-f]{1,16})\.?\n", line)
        fields["service-id"] = int(m.group("id"), 16)
        ta = self.request(line, "publish", fields)
        if r.random() < 0.3:
            self.fail(line, "publish", ta)
        else:
            self.send("publish", ta, "complete")
            self.read_until(r"OK\.\n> ", line)

    def read_part(self, pattern, what):
        """A line of output before the prompt comes back."""
        end = time.monotonic() + WAIT
        while "\n" not in self.out:
            if time.monotonic() > end or not self.pump(1) or self.out.endswith("> "):
                self.bug("%s: expected output %s, got %r", what, pattern, self.out[-1500:])
        line, rest = self.out.split("\n", 1)
        m = re.fullmatch(pattern, line + "\n")
        if not m:
            self.pump(0.3)
            self.bug("%s: expected output %s, got %r", what, pattern, self.out[-1500:])
        self.out = rest
        return m

    def op_unpublish(self):
        i = self.num()
        self.simple("unpublish " + self.hexid(i), "unpublish", {"service-id": i})

    def op_unsubscribe(self):
        r = self.rng
        if self.subs and r.random() < 0.6:
            i = r.choice(list(self.subs))
            line = "unsubscribe " + self.hexid(i)
            self.type(line)
            ta = self.request(line, "unsubscribe", {"subscription-id": i})
            if r.random() < 0.3:
                self.fail(line, "unsubscribe", ta)
                return
            first = r.random() < 0.5
            a = "Subscription %x canceled\\.\n" % i
            if first:
                self.send("subscribe", self.subs.pop(i), "complete")
                self.send("unsubscribe", ta, "complete")
                self.read_until(a + "OK\\.\n> ", line)
            else:
                self.send("unsubscribe", ta, "complete")
                self.read_until("OK\\.\n> ", line)
                self.send("subscribe", self.subs.pop(i), "complete")
                self.read_until(a, "end of subscription")
        else:
            i = self.num()
            self.simple("unsubscribe " + self.hexid(i), "unsubscribe", {"subscription-id": i})

    def op_subscribe(self):
        r = self.rng
        line = "subscribe"
        fields = {}
        if r.random() < 0.6:
            f = self.filter()
            line += " " + self.quote(f)
            fields["filter"] = f
        self.type(line)
        m = self.read_part(r"[^\n]*?\b(?P<id>[0-9a-f]{1,16})\.?\n", line)
        i = int(m.group("id"), 16)
        fields["subscription-id"] = i
        ta = self.request(line, "subscribe", fields)
        if i in self.subs:
            self.bug("subscription id %x twice", i)
        if r.random() < 0.25:
            self.fail(line, "subscribe", ta)
            return
        self.send("subscribe", ta, "accept")
        self.subs[i] = ta
        n = r.choice([0, 0, 1, 3])
        self.read_until(r"OK\.\n> ", line)
        for _ in range(n):
            self.op_notify()

    def op_subscriptions(self):
        r = self.rng
        self.type("subscriptions")
        ta = self.request("subscriptions", "subscriptions", {})
        if r.random() < 0.2:
            return self.fail("subscriptions", "subscriptions", ta)
        self.send("subscriptions", ta, "accept")
        rx = r"[^\n]*\n"
        for _ in range(r.choice([0, 1, 2, 5] * 5 + [300])):
            i, o = self.num(), self.num()
            f = {}
            if r.random() < 0.6:
                f["filter"] = self.filter()
            self.send("subscriptions", ta, "notify", subscription_id=i, client_id=o, **f)
            rx += r" *%x +%x +%s *\n" % (i, o, re.escape(f.get("filter", "-")))
            self.c.counts["listed entries compared"] += 1
        if r.random() < 0.1:
            self.send("subscriptions", ta, "fail", fail_reason="x-y")
            self.read_until(r"[^\n]*x-y[^\n]*\n> ", "subscriptions")
            return
        self.send("subscriptions", ta, "complete")
        self.read_until(rx + r"OK\.\n> ", "subscriptions")

    def op_services(self):
        r = self.rng
        line = "services"
        fields = {}
        if r.random() < 0.5:
            f = self.filter()
            line += " " + self.quote(f)
            fields["filter"] = f
        self.type(line)
        ta = self.request(line, "services", fields)
        if r.random() < 0.2:
            return self.fail(line, "services", ta)
        self.send("services", ta, "accept")
        rx = r"[^\n]*\n"
        ps, ls = [], []
        for n in range(r.choice([0, 1, 2, 4])):
            f = dict(service_id=self.num(), generation=self.num(), service_props=self.props(),
                     ttl=r.choice([0, 1, 60, 3600, 10 ** 6, (1 << 32) + 5, 10 ** 11]), client_id=self.num())
            rx += r" *%x +%d +%d +" % (f["service_id"], f["generation"], f["ttl"])
            if r.random() < 0.4:
                f["orphan_since"] = time.time() - r.choice([0, 0.5, 10, 100])
                ls.append(f["orphan_since"] + f["ttl"] - time.time())
                rx += r"(?P<left%d>%s)" % (n, NUM)
            else:
                rx += "-"
                ls.append(None)
            rx += r" +%x +%s\n" % (f["client_id"], self.props_rx(f["service_props"], "props%d" % n))
            self.send("services", ta, "notify", **f)
            ps.append(f["service_props"])
        self.send("services", ta, "complete")
        m = self.read_until(rx + r"OK\.\n> ", line)
        for n, (p, l) in enumerate(zip(ps, ls)):
            self.check_props(line, m.group("props%d" % n), p)
            if l is not None and abs(float(m.group("left%d" % n)) - l) > 12:
                self.bug("%s: orphan timeout shown as %s, expected was %.1f", line, m.group("left%d" % n), l)
            self.c.counts["listed entries compared"] += 1

    def op_clients(self):
        r = self.rng
        self.type("clients")
        ta = self.request("clients", "clients", {})
        if r.random() < 0.2:
            return self.fail("clients", "clients", ta)
        self.send("clients", ta, "accept")
        rx = r"[^\n]*\n"
        ups = []
        for n in range(r.choice([0, 1, 2, 4])):
            up = r.choice([0, 5, 3000, 90000, 864000, 10 ** 7])
            ups.append(up)
            addr = r.choice(["ux:", "tls:192.168.1.59:58700", "tcp:[2001:db8::1]:4711", "ux:a/b"])
            f = dict(client_id=self.num(), client_address=addr, time=int(time.time()) - up)
            rx += r" *%x +%s +(?:(?P<d%d>\d+) days?, )?(?P<h%d>\d+):(?P<m%d>\d\d):(?P<s%d>\d\d)" % (
                f["client_id"], re.escape(addr), n, n, n, n)
            if self.version == 3:
                f.update(idle=r.choice([0, 0.25, 12.5, 3600]), protocol_version=r.choice([2, 3]))
                lat = "-"
                if r.random() < 0.5:
                    f["latency"] = r.choice([0.0005, 0.25, 1.5, 0, 30])
                    lat = re.escape("%.1f" % (f["latency"] * 1000))
                rx += r" +%s +%s +%d" % (re.escape("%.3f" % f["idle"]), lat, f["protocol_version"])
            rx += r" *\n"
            self.send("clients", ta, "notify", **f)
        self.send("clients", ta, "complete")
        m = self.read_until(rx + r"OK\.\n> ", "clients")
        for n, up in enumerate(ups):
            got = ((int(m.group("d%d" % n) or 0) * 24 + int(m.group("h%d" % n))) * 60 + int(m.group("m%d" % n))) * 60 + \
                int(m.group("s%d" % n))
            if abs(got - up) > 12:
                self.bug("clients: up %d s, shown as %d s", up, got)
            self.c.counts["listed entries compared"] += 1

    def op_track(self):
        r = self.rng
        if self.version < 3:
            self.malformed("track" + r.choice(["", " query", " verbose", " quiet"]))
            return
        if self.track is None:
            if r.random() < 0.3 and not self.track_failed:
                self.malformed("track " + r.choice(["query", "verbose", "quiet"]))
                return
            if self.track_failed:
                return
            self.type("track")
            ta = self.request("track", "track", {})
            if r.random() < 0.15:
                self.track_failed = True
                self.fail("track", "track", ta)
                return
            self.send("track", ta, "accept")
            self.read_until(r"OK\.\n> ", "track")
            self.track = ta
            return
        k = r.randrange(6)
        if k == 0:
            self.malformed("track")
        elif k == 1:
            self.verbose = r.random() < 0.6
            self.type("track " + ("verbose" if self.verbose else "quiet"))
            self.read_until(r"OK\.\n> ", "track verbose/quiet")
            self.silent("track verbose/quiet")
        elif k < 4:
            self.type("track query")
            self.inform("track query", "query")
            self.read_until(r"OK\.\n> ", "track query")
            self.queries += 1
        elif self.queries and k == 4:
            self.send("track", self.track, "notify", track_type="reply")
            self.queries -= 1
            self.read_until(r"[^\n]* in %s ms\.?\n" % NUM, "reply to track query")
        else:
            self.send("track", self.track, "notify", track_type="query")
            self.inform("query from the server", "reply")
            if self.verbose:
                self.read_until(r"[^\n]*quer[^\n]*\n", "track query from the server")

    def op_malformed(self):
        r = self.rng
        big = r.choice([1 << 63, 1 << 64, 10 ** 30])
        i = self.hexid(self.num())
        self.malformed(r.choice([
            "publish", "publish 1", "publish x y", "publish 1 x", "publish zz 1 2", "publish x 2 3",
            "publish %s 1 x" % i, "publish %s 0x1 1" % i, "publish 1.5 2", "publish '1 2", "publish 1 2 name \"x",
            "publish 1 2 name x\\", "publish 1 -1", "publish -1 1", "publish -1 1 1", "publish %s -5 5 a b" % i,
            "publish %x 1 1" % big, "publish %d 1" % big, "publish 1 %d" % big, "publish 1 1 a %d" % big,
            "publish 1 1 a -%d" % (big + 1), "publish %s 1 1 a %d" % (i, big),
            "unpublish", "unpublish xyz", "unpublish -1", "unpublish 1 2", "unpublish %x" % big, "unpublish 0x",
            "unsubscribe", "unsubscribe xyz", "unsubscribe -7f", "unsubscribe 1 2", "unsubscribe %x" % big,
            "services '(a=b)", "services \"", "services (a=b) (c=d)", "services (name=a b)",
            "subscribe '(a=b)", "subscribe \"", "subscribe (a=b) (c=d)", "subscribe (name=a b)", "subscribe x\\",
            "track \"", "track bogus", "track query now",
            "nonsense", "PING", "?nonsense", "!ls", "publis 1 2", "help nonsense", "\u00e5", "-", "help publish", "help"]))

    def op_burst(self):
        """Several lines at once: the next command waits for the one before."""
        r = self.rng
        todo = []
        for _ in range(r.randrange(2, 5)):
            k = r.randrange(4)
            if k == 0:
                todo.append(("ping", "ping", {}, NUM + " ms\n"))
            elif k == 1:
                i = self.num()
                todo.append(("unpublish %x" % i, "unpublish", {"service-id": i}, ""))
            elif k == 2:
                todo.append(("id", None, None, "[^\n]*0x%x\n> " % self.client_id))
            else:
                i, g = self.num(), self.num()
                todo.append(("publish %x %d 5 name a" % (i, g), "publish",
                             {"service-id": i, "generation": g, "ttl": 5, "service-props": {"name": ["a"]}}, ""))
        self.type("\n".join(t[0] for t in todo))
        rx = ""
        for line, cmd, fields, ok in todo:
            rx += ok
            if cmd is None:
                continue
            m = self.recv_burst(line)
            ta = self.request(line, cmd, fields, m)
            self.silent("before the response to " + line)
            if r.random() < 0.3:
                self.send(cmd, ta, "fail", fail_reason="x-y")
                rx = rx[:len(rx) - len(ok)] + "[^\n]*x-y[^\n]*\n> "
            else:
                self.send(cmd, ta, "complete")
                rx += "OK\\.\n> "
        self.read_until(rx, "several lines")

    def op_long(self):
        """Long listings, many notifications, a service with very many properties."""
        r = self.rng
        k = r.choice(["services", "clients", "subscriptions", "notify", "publish", "props"])
        n = r.choice([20, 40, 70, 130, 260, 520, 1040])
        if k == "publish" or k == "props":
            props = {}
            for i in range(r.choice([20, 40, 70, 130, 260])):
                props["key%d" % i] = [r.choice([i, "value%d" % i, "v" * r.choice([10, 100, 130])])]
            if r.random() < 0.3:
                props = {"key": ["value%d" % i for i in range(n)]}
            if r.random() < 0.3:
                props = {"key": ["x" * r.choice([200, 300, 1030, 2100, 4200, 9000])]}
        if k == "publish":
            i, g, t = self.num(), self.num(), self.num()
            line = "publish %x %d %d %s" % (i, g, t, " ".join("%s %s" % (a, v) for a, vs in props.items() for v in vs))
            self.simple(line, "publish", {"service-id": i, "generation": g, "ttl": t, "service-props": props})
            self.c.counts["long commands"] += 1
            return
        if k == "props":
            if not self.subs:
                return
            sub = r.choice(list(self.subs))
            self.send("subscribe", self.subs[sub], "notify", match_type="appeared", service_id=1, generation=2, ttl=3, client_id=4,
                      service_props=props)
            m = self.read_until(r"Subscription %x: Match type: appeared; Service id: 1; Generation: 2; TTL: 3; Client Id: 0x4; "
                                r"Properties: \{(?P<p>[^\n]*)\}\n" % sub, "a service with many properties")
            self.check_props("a service with many properties", m.group("p"), props)
            self.c.counts["long lines compared"] += 1
            return
        msgs, rows = [], []
        if k == "notify":
            if not self.subs:
                return
            for i in range(n):
                sub = r.choice(list(self.subs))
                sid = self.num()
                msgs.append(("subscribe", self.subs[sub], "notify", {"match_type": "disappeared", "service_id": sid}))
                rows.append("Subscription %x: Match type: disappeared; Service id: %x" % (sub, sid))
        else:
            self.type(k)
            ta = self.request(k, k, {})
            msgs.append((k, ta, "accept", {}))
            for i in range(n):
                o = self.num()
                if k == "services":
                    f = dict(service_id=i, generation=i + 1, service_props={"n": [i]}, ttl=7, client_id=o)
                    rows.append(" *%x +%d +7 +- +%x +\\{'n': '?%d'?\\}" % (i, i + 1, o, i))
                elif k == "clients":
                    f = dict(client_id=i, client_address="ux:%d" % i, time=int(time.time()))
                    if self.version == 3:
                        f.update(idle=0.5, protocol_version=2)
                    rows.append(" *%x +ux:%d +0:00:[0-9][0-9]%s *" % (i, i, " +0.500 +- +2" if self.version == 3 else ""))
                else:
                    f = dict(subscription_id=i, client_id=o, filter="(a=%d)" % i)
                    rows.append(r" *%x +%x +\(a=%d\) *" % (i, o, i))
                msgs.append((k, ta, "notify", f))
            msgs.append((k, ta, "complete", {}))
        for m in msgs:
            while True:
                ready = select.select([self.proc.stdout], [self.s], [], WAIT)
                if self.proc.stdout in ready[0] and not self.pump(0):
                    self.bug("the session ends in a listing of %d %s: %r", n, k, self.out[-800:])
                if self.s in ready[1]:
                    break
                if not ready[0] and not ready[1]:
                    self.bug("the program reads no more in a listing of %d %s", n, k)
            self.send(*m[:3], **m[3])
        if k == "notify":
            end = r"\n"
        else:
            rows.insert(0, "[^\n]*")
            end = r"\nOK\.\n> "
        if k == "notify" and len(self.subs) == 0:
            return
        m = self.read_until("(?P<all>.*)" + end if k != "notify" else r"(?P<all>(?:[^\n]*\n){%d}[^\n]*)\n" % (n - 1), "%d %s" % (n, k))
        got = m.group("all").split("\n")
        if len(got) != len(rows):
            self.bug("%d lines for %d %s", len(got), n, k)
        for g, w in zip(got, rows):
            if not re.fullmatch(w, g):
                self.bug("of %d %s, %r is shown, expected was %s", n, k, g, w)
        self.c.counts["listed entries compared"] += n

    def recv_burst(self, what):
        if not select.select([self.s], [], [], WAIT)[0]:
            self.pump(0)
            self.bug("%s: no request; output %r", what, self.out[-800:])
        return self.recv(what)

    def op_empty(self):
        self.type(self.rng.choice(["", " ", "\t"]))
        self.read_until("> ", "an empty line")
        self.silent("an empty line")

    # ------------------------------------------------------------ the whole

    def run(self, args, want_id, rng_range, version, env, addr, server):
        r = self.rng
        self.range = rng_range
        self.version = version
        self.track_failed = False
        self.start(args, env)
        l = server.listeners[addr]
        end = time.monotonic() + WAIT
        while True:
            ready = select.select(list(server.listeners.values()) + [self.proc.stdout], [], [], 1)[0]
            wrong = [a for a, s in server.listeners.items() if s in ready and a != addr]
            if wrong:
                self.bug("connects to %s instead of %s", wrong[0], addr)
            if l in ready:
                break
            if self.proc.stdout in ready and not self.pump(0):
                self.bug("ends without connecting: %r", self.out[-800:])
            if time.monotonic() > end:
                self.bug("does not connect: %r", self.out[-800:])
        self.s = server.s = l.accept()[0]
        self.c.counts["connections compared"] += 1
        m = self.recv("start")
        self.client_id = m.get("client-id") if want_id is None else want_id
        if type(self.client_id) is not int or not 0 <= self.client_id < 1 << 63:
            self.bug("client id %r", self.client_id)
        want = {"ta-cmd": "hello", "ta-id": m.get("ta-id"), "msg-type": "request", "client-id": self.client_id,
                "protocol-minimum-version": rng_range[0], "protocol-maximum-version": rng_range[1]}
        if m != want:
            self.bug("the first message is %r, expected was %r", m, want)
        self.last_ta = m["ta-id"]
        if r.random() < 0.06:
            reason = r.choice(REASONS)
            self.send("hello", m["ta-id"], "fail", fail_reason=reason)
            while self.pump(WAIT):
                pass
            self.proc.wait(WAIT)
            if reason not in self.out or "Traceback" in self.out or not self.proc.returncode:
                self.bug("refused hello (%s): status %r, output %r", reason, self.proc.returncode, self.out[-800:])
            self.c.counts["refusals compared"] += 1
            return
        self.send("hello", m["ta-id"], "complete", protocol_version=version)
        self.read_until("> ", "start")
        ops = [(self.op_ping, 1), (self.op_hello, 1), (self.op_id, .5), (self.op_version, .5), (self.op_publish, 5),
               (self.op_unpublish, 1.5), (self.op_subscribe, 2), (self.op_unsubscribe, 1.5), (self.op_subscriptions, 1.5),
               (self.op_services, 3), (self.op_clients, 1.5), (self.op_track, 3), (self.op_malformed, 5), (self.op_empty, .3), (self.op_burst, 1),
               (self.op_notify, 3), (self.op_long, .4)]
        fs, ws = zip(*ops)
        for _ in range(r.choice([10, 25, 40])):
            r.choices(fs, ws)[0]()
            self.c.evaluations += 1
            if self.proc.poll() is not None:
                self.bug("the session ended: %r", self.out[-800:])
        k = r.randrange(3)
        self.note("end %d", k)
        if k == 2:
            self.s.close()
        elif k == 1:
            self.type("quit")
        else:
            self.proc.stdin.close()
        end = time.monotonic() + WAIT
        while self.pump(max(0, end - time.monotonic())):
            if time.monotonic() > end:
                self.bug("the program does not end after %s", ["end of input", "quit", "the server closed"][k])
        self.proc.wait(WAIT)
        if "Traceback" in self.out:
            self.bug("at the end: %r", self.out[-1000:])
        if k < 2 and self.proc.returncode != 0:
            self.bug("status %r, output %r", self.proc.returncode, self.out[-800:])
        if k == 2 and not self.out.strip():
            self.bug("no word of the lost connection")
        if k < 2:
            while True:
                d = self.s.recv(70000)
                if not d:
                    break
                self.bug("after the end: %r", d[:200])
        self.c.counts["ends compared"] += 1


def p26(rng, c):
    from pv import dxcm
    from pv.world import REPO
    Server.n += 1
    ns = "pv26-%d-%d" % (os.getpid(), Server.n)
    with tempfile.TemporaryDirectory(prefix="pv-cli-") as d:
        env = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "PYTHONPATH": REPO, "PYTHONDONTWRITEBYTECODE": "1",
               "PYTHONUNBUFFERED": "1", "PYTHONIOENCODING": "utf-8", "PYTHONHASHSEED": str(rng.randrange(1000)), "HOME": d, "LC_ALL": "C.UTF-8",
               "LD_LIBRARY_PATH": os.path.join(dxcm.DIR, "plain"), "XCM_SHIM_NS": ns, "PAF_DOMAINS": d,
               "XCM_SHIM_LOG": os.path.join(d, ".log")}
        if rng.random() < 0.3:
            env["XCM_SHIM_EAGAIN"] = rng.choice(["2", "3"])
        server = Server(ns)
        s = Session(rng, c)
        try:
            addrs = ["ux:a%d" % i for i in range(3)]
            for a in addrs:
                server.listen(a)
            doms = {}
            for n in rng.sample(["alpha", "beta", "gamma", "a b"], rng.randrange(4)):
                l = rng.sample(addrs, rng.randrange(1, 4))
                ranges = [(2, 3)] * len(l)
                if rng.random() < 0.5:
                    text = "".join(x + "\n" for x in l)
                else:
                    ranges = [rng.choice([(2, 3), (2, 2), (3, 3)]) for _ in l]
                    text = json.dumps({"servers": [{"address": x, "minProtocolVersion": v[0], "maxProtocolVersion": v[1]}
                                                   for x, v in zip(l, ranges)]})
                with open(os.path.join(d, n), "w") as f:
                    f.write(text)
                doms[n] = (l, ranges)
            if rng.random() < 0.5:
                oneshot(rng, s, env, doms)
            args = []
            want_id = None
            vr = (2, 3)
            if rng.random() < 0.5:
                want_id = s.num()
                args += ["-i", s.hexid(want_id)]
            if doms and rng.random() < 0.5:
                n = rng.choice(list(doms))
                l, ranges = doms[n]
                i = 0
                if rng.random() < 0.6:
                    i = rng.randrange(len(l))
                    args += ["-n", str(i)]
                addr, vr = l[i], ranges[i]
            else:
                n = addr = rng.choice(addrs)
            if rng.random() < 0.5:
                v = rng.choice([2, 3])
                args += ["-p", str(v)]
                vr = (v, v)
            s.run(args + [n], want_id, vr, rng.randrange(vr[0], vr[1] + 1), env, addr, server)
            log = os.path.join(d, ".log")
            if os.path.exists(log) and "MISUSE" in open(log, errors="replace").read():
                raise Bug({"P27"}, "library misuse by pafc: %s" % open(log, errors="replace").read()[-500:])
        finally:
            server.close()
            if s.proc is not None:
                try:
                    os.killpg(s.proc.pid, signal.SIGKILL)
                except (ProcessLookupError, PermissionError):
                    pass
                s.proc.wait()
                s.proc.stdout.close()
                try:
                    s.proc.stdin.close()
                except OSError:
                    pass


def oneshot(rng, s, env, doms):
    from pv.world import REPO

    def pafc(*args):
        p = subprocess.run([sys.executable, os.path.join(REPO, "app", "pafc")] + list(args), env=env, cwd="/",
                           stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60)
        s.note("pafc %s: %d, %r", " ".join(args), p.returncode, p.stdout[:300])
        return p.returncode, p.stdout.decode()
    k = rng.choice([0, 1, 2, 2, 2, 3, 4])
    if k == 0:
        rc, out = pafc("-l")
        if rc or sorted(x for x in out.split("\n") if x and not x.startswith(".")) != sorted(doms):
            s.bug("-l: expected were %r", sorted(doms))
    elif k == 1 and doms:
        n = rng.choice(list(doms))
        rc, out = pafc("-a", n)
        if rc or out.split("\n")[:-1] != doms[n][0]:
            s.bug("-a: expected were %r", doms[n][0])
    elif k == 2:
        rc, out = pafc(*rng.choice([("-p", "4", "ux:a0"), ("-p", "1", "ux:a0"), (), ("a", "b"), ("-q", "ux:a0"),
                                    ("-n", "0", "nodomain"), ("ux:nobody",), ("nonsense",),
                                    ("-l", "x"), ("-a",), ("-a", "x", "y"), ("-l", "x", "y")]))
        if not rc or not out.strip() or "Traceback" in out:
            s.bug("a wrong command line: status %d, output %r", rc, out[-800:])
    elif k == 3 and doms:
        n = rng.choice(list(doms))
        rc, out = pafc("-n", str(len(doms[n][0]) + rng.randrange(2)), n)
        if not rc or not out.strip() or "Traceback" in out:
            s.bug("-n too large: status %d, output %r", rc, out[-800:])
    else:
        rc, out = pafc("-h")
        if rc or not out.strip():
            s.bug("-h")
    s.c.counts["one-shot runs"] += 1
