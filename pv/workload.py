"""Workloads: random operation mixes and scripted episodes, steered by the model
towards the interesting states (deadlines, limits, transfers)."""

import errno
import json

from pv import hostile, reffilter
from pv.world import SETTLE, late, sleep

KEYS = ["name", "name", "a", "b", "k(1)*", "ключ", "bang!", "x y", "a=b", "Name", "\\", "<>", "\U0001f600", "100%", "%(x)s",
        "", "e\u0301", "\u00e9", " a", "key" * 100]
STRS = ["alpha", "alphabet", "beta", "a.b", "10", "-5", "aXb", "abab", "aba", "", " ", "line\nfeed", "end\n",
        "(*)", "back\\slash", "&|!=<>", "ä\u00e9", "\U0001f600\u4e2d", "\ud7ff", "tab\t\"q\"", "42", "0", "x" * 40,
        "alpha ", "ALPHA", "80%", "%s%d%n", "{0}{x}", "9223372036854775807", "\ud800", "a\udfffb",
        "e\u0301", "\u00e9", " alpha", "-0", "007", "1.0", "1e3", "0x10", "1_0", "true", "None",
        "\ufb01", "\u0130", "stra\u00dfe", "STRASSE", "y" * 3000]
INTS = [10, -5, 42, 0, 1, -1, 2 ** 31, -2 ** 31 - 1, 2 ** 53 + 1, 2 ** 63 - 1, -2 ** 63, 7, 11, 43]
TTLS = [0, 1, 1, 2, 2, 3, 4, 5, 7, 10, 20, 40, 100, 5, 3, 2, 1, 0, 4, 7, 1, 2, 3, 10 ** 6, 2 ** 31, 2 ** 63 - 1]

BASE_W = {
    "connect": 10, "rawconnect": 1.5, "close": 5, "reset": 1.5, "publish": 16, "republish": 12, "unpublish": 7,
    "subscribe": 9, "unsubscribe": 4, "subscriptions": 2, "services": 4, "clients": 2, "ping": 3, "track": 2,
    "query": 2, "rehello": 1, "sleep": 9, "deadline": 5, "settle": 6, "stall": 2, "unstall": 3, "late": 1.5,
    "reconnect": 4, "pipeline": 2, "nohello": 1, "hostile": 0.0, "fault": 0.2, "accepterr": 0.4, "episode": 3, "idlebehave": 1,
    "tareuse": 1,
}

DEFAULT = dict(steps=(60, 220), n_clients=6, n_sids=7, n_subids=6, weights={}, episodes=None, ttls=TTLS,
               domains=(1, 1), sockets=(1, 2), limits=0.3, big_ids=0.3, versions=True, tick=0.15, lateness=0.3,
               keepalive=0.6, settle_end=0.7, empty_end=0.35, hostile_kinds=None, v2=0.3)


def profile(**kw):
    p = dict(DEFAULT)
    w = dict(BASE_W)
    w.update(kw.pop("weights", {}))
    p.update(kw)
    p["weights"] = w
    return p


ADDRS = [["ux:a%d", "ux:b%d", "ux:c%d"], ["tls:0.0.0.0:47%d1", "ux:x%d", "tcp:0.0.0.0:47%d2"],
         ["tcp:1.2.3.4:55%d", "tls:1.2.3.4:56%d", "ux:y%d"], ["ux:z%d", "tls:[::]:57%d", "utls:*:58%d"]]


IPS = [["10.0.0.1", "10.0.0.2", "[fe80::1]"], ["[fd00::1]", "[fd00::2]", "10.0.0.1"], ["10.0.0.1", "10.0.0.10", "110.0.0.1"],
       ["[fd00::1]", "[fd00::10]", "[fd00:1::1]"], ["[::1]", "[::]", "127.0.0.1"],
       ["[2001:db8:85a3:8d3:1319:8a2e:370:7348]", "[2001:db8:85a3:8d3:1319:8a2e:370:7349]", "[2001:db8:85a3:8d3:1319:8a2e:371:7348]"],
       ["[2001:db8:1:2:3:4:5:6]", "[2001:db8:1:2:3:4:5:7]", "[2001:db8:1:2::6]"],
       ["[fe80::1%eth0]", "[fe80::1%eth1]", "[fe80::1]"], ["10.0.0.9", "10.0.0.9", "10.0.0.9"],
       ["[fd00::9]", "[fd00::9]", "10.0.0.9"], ["192.168.100.200", "192.168.100.20", "192.168.100.100"]]
SKIS = [[b"\x01\x02\x03", b"\x01\x02\x04", None], [b"\x01\x02\x03", b"\x01\x02\x03\x00", b"\x00\x01\x02\x03"],
        [b"\xab" * 20, b"\xab" * 19 + b"\xac", None], [None, None, b"\x12"], [b"\x00", b"\x10", b"\x01\x00"],
        [b"\xff\x80" * 10, b"\x80\xff" * 10, b"\x01" * 32], [b"\x01" * 32, b"\x01" * 31 + b"\x02", b"\x01" * 20],
        [b"\x02" + b"\x01" * 63, b"\x03" + b"\x01" * 63, b"\x02" + b"\x01" * 62]]


def make_spec(rng, prof):
    nd = rng.randint(*prof["domains"])
    doms = []
    base = rng.choice(ADDRS) if rng.random() < 0.8 else ADDRS[1]
    for i in range(nd):
        ns = rng.randint(*prof["sockets"])
        socks = [a % i for a in base[:ns]]
        if rng.random() < 0.3:
            rng.shuffle(socks)
        d = {"sockets": socks}
        if rng.random() < 0.3:
            d["name"] = rng.choice(["dom%d", "dom%d", "dom%d", "100%%%d", "%%s%d", "{%d}"]) % i
        if any(s.startswith("tls") for s in socks):
            d["tls"] = {"cert": "/c", "key": "/k", "tc": "/t"}
        if prof["versions"] and rng.random() < 0.3:
            d["vmin"], d["vmax"] = rng.choice([(2, 3), (2, 2), (3, 3)])
        if rng.random() < 0.7:
            lo = rng.choice([1, 1, 2, 3, 4, 8])
            d["idle_min"], d["idle_max"] = lo, lo + rng.choice([0, 1, 4, 16, 26])
        doms.append(d)
    spec = {"domains": doms, "p_deliver": rng.choice([0.2, 0.5, 0.8, 0.95]),
            "p_spurious": rng.choice([0.0, 0.05, 0.2])}
    if rng.random() < prof["limits"]:
        for cls in ("user", "total"):
            if rng.random() < 0.7:
                lim = {}
                for k, vals in (("clients", [1, 2, 3, 4, 6]), ("services", [0, 1, 2, 3, 5]),
                                ("subscriptions", [0, 1, 2, 3, 5])):
                    if rng.random() < 0.6:
                        lim[k] = rng.choice(vals)
                if cls == "total" and "clients" in lim and lim["clients"] < 2 and rng.random() < 0.6:
                    lim["clients"] = 3
                if lim:
                    spec[cls + "_limits"] = lim
    if rng.random() < prof["tick"]:
        spec["tick"] = rng.choice([1e-6, 1e-5, 2e-4])
    if rng.random() < prof["lateness"]:
        spec["lateness"] = rng.choice([0.001, 0.02, 0.4])
    if rng.random() < 0.15:
        spec["log_filter"] = "debug"
    return spec


class Gen:
    def __init__(self, ctl, prof):
        self.ctl = ctl
        self.rng = ctl.rng
        self.p = prof
        rng = self.rng

        def ids(n):
            res = []
            for i in range(n):
                r = rng.random()
                if r < prof["big_ids"]:
                    res.append(rng.choice([0, 2 ** 63 - 1, rng.getrandbits(63), 2 ** 32, 2 ** 53 + 1]))
                else:
                    res.append(i + 1)
            if n > 1 and rng.random() < 0.12:
                # ids that are alike
                base, step = rng.choice([(2 ** 53, 1), (2 ** 62, 1), (2 ** 63 - 1, -1), (2 ** 31 - 1, 1), (5, 2 ** 32), (5, 2 ** 31), (7, 2 ** 16), (9, 2 ** 8)])
                res[:3] = [base + i * step for i in range(min(3, n))]
            return list(dict.fromkeys(res))
        self.cids = ids(prof["n_clients"])
        self.sids = ids(prof["n_sids"])
        self.subids = ids(prof["n_subids"])
        self.keys = rng.sample(KEYS, rng.randint(2, 5))
        self.strs = rng.sample(STRS, rng.randint(3, 8))
        self.ints = rng.sample(INTS, rng.randint(2, 6))
        # three users, some of them alike
        self.ips = rng.choice(IPS)
        self.skis = rng.choice(SKIS)
        self.nd = len(ctl.spec["domains"])
        self.ops = [k for k, w in prof["weights"].items() if w > 0]
        self.opw = [prof["weights"][k] for k in self.ops]
        eps = prof["episodes"]
        self.episodes = eps if eps is not None else list(EPISODES)
        self.fresh_no = 0

    # --- values

    def props(self):
        rng = self.rng
        p = {}
        for _ in range(rng.choice([0, 1, 1, 2, 2, 3])):
            k = rng.choice(self.keys)
            vals = p.setdefault(k, [])
            for _ in range(rng.choice([1, 1, 1, 2, 3])):
                vals.append(rng.choice(self.strs) if rng.random() < 0.65 else rng.choice(self.ints))
        if rng.random() < 0.06:
            p[rng.choice(self.keys)] = []
        return p

    def vary_props(self, sid, dom):
        """Properties for a republish: often equal or nearly equal to the present ones."""
        rng = self.rng
        s = self.ctl.model(dom).services.get(sid)
        if s is None or rng.random() < 0.35:
            return self.props()
        p = {k: [v for _, v in sorted(vs, key=repr)] for k, vs in s.props.items()}
        r = rng.random()
        if r < 0.5:
            for vs in p.values():
                rng.shuffle(vs)
            if rng.random() < 0.3 and p:
                k = rng.choice(list(p))
                p[k] = p[k] + p[k][:1]
            if rng.random() < 0.5:
                p = dict(rng.sample(list(p.items()), len(p)))
            return p
        if p and r < 0.8:
            k = rng.choice(list(p))
            vs = list(p[k])
            i = rng.randrange(len(vs))
            v = vs[i]
            if isinstance(v, int) and rng.random() < 0.5:
                vs[i] = str(v)
            elif isinstance(v, str) and rng.random() < 0.3:
                vs[i] = v + " "
            else:
                vs[i] = rng.choice(self.strs + self.ints)
            p[k] = vs
            return p
        p[rng.choice(self.keys)] = [rng.choice(self.strs)]
        return p

    def ast(self, depth=0):
        rng = self.rng
        r = rng.random()
        if depth < 3 and r < 0.3:
            op = rng.choice("&|!")
            if op == "!":
                return ("!", self.ast(depth + 1))
            return (op, tuple(self.ast(depth + 1) for _ in range(rng.choice([2, 2, 3]))))
        k = rng.choice(self.keys)
        kind = rng.choice(["=", "=", "*", "sub", "sub", ">", "<"])
        if kind == "*":
            return ("*", k)
        if kind in "<>":
            return (kind, k, rng.choice(self.ints) + rng.choice([0, 0, 1, -1]))
        text = rng.choice(self.strs) if rng.random() < 0.7 else str(rng.choice(self.ints))
        if kind == "=":
            return ("=", k, text) if text else ("*", k)
        n = len(text)
        cuts = sorted(rng.randint(0, n) for _ in range(rng.choice([2, 2, 4, 6])))
        parts = [text[:cuts[0]]] + [text[cuts[i]:cuts[i + 1]] for i in range(1, len(cuts) - 1, 2)] + [text[cuts[-1]:]]
        inter = tuple(x for x in parts[1:-1] if x)
        if not parts[0] and not inter and not parts[-1]:
            return ("*", k)
        return ("sub", k, parts[0], inter, parts[-1])

    def filter(self):
        rng = self.rng
        r = rng.random()
        if r < 0.3:
            return None
        f = reffilter.to_str(self.ast())
        if r > 0.93:
            # damaged
            i = rng.randrange(len(f))
            f = rng.choice([f[:i], f[:i] + f[i + 1:], f + ")", "x" + f, f[:i] + rng.choice("()&|=<>*\\") + f[i:], ""])
            if reffilter.parse(f)[0] is None:
                return None
        return f

    # --- choices

    def dom(self):
        return self.rng.randrange(self.nd)

    def peer(self, dom=None, need_hello=True):
        ps = self.ctl.live_peers(dom)
        if need_hello:
            ps = [p for p in ps if p.client_id is not None]
        return self.rng.choice(ps) if ps else None

    def ready_peer(self, dom=None):
        """Preferably one that has completed its handshake."""
        ps = [p for p in self.ctl.live_peers(dom) if p.conn is not None and p.conn.handshaked]
        r = self.rng.random()
        if ps and r < 0.96:
            return self.rng.choice(ps)
        if r > 0.2 and len(self.ctl.live_peers()) < 10:
            return self.new_peer(dom)
        return self.peer(dom)

    def user_kw(self, who=None):
        rng = self.rng
        if who is None:
            who = rng.choice([0, 0, 0, 0, 1, 1, 2])
        return {"ip": self.ips[who], "ski": self.skis[who]}

    def range(self):
        rng = self.rng
        if rng.random() < 0.93:
            return (2, 2) if rng.random() < self.p["v2"] else rng.choice([(2, 3), (3, 3), (2, 3)])
        return rng.choice([(0, 2 ** 63 - 1), (3, 2), (4, 9), (0, 1), (2, 2 ** 40), (0, 0), (3, 4), (1, 2)])

    def new_peer(self, dom=None, cid=None, who=None, vr=None, sock=None):
        rng = self.rng
        if dom is None:
            dom = self.dom()
        p = self.ctl.connect(dom, rng.randrange(3) if sock is None else sock, **self.user_kw(who))
        if p is None:
            return None
        p.keepalive = rng.random() < self.p["keepalive"]
        p.auto_reply = rng.random() < 0.85
        p.reply_delay = rng.choice([0, 0, 0.01, 0.3, 1.0])
        if rng.random() < 0.1:
            p.next_ta = rng.choice([2 ** 63 - 1 - 400, 2 ** 31, 1000])
        if cid is None:
            cid = rng.choice(self.cids)
            m = self.ctl.model(dom)
            if rng.random() < 0.8:
                asked = {q.client_id for q in self.ctl.live_peers(dom)}
                free = [c for c in self.cids if c not in asked and m.holder(c) is None and
                        m.bound_user(c) in (None, p.sim.user_id)]
                if free:
                    cid = rng.choice(free)
        vmin, vmax = self.range() if vr is None else vr
        p.hello(cid, vmin, vmax)
        return p

    # --- operations; each may return something to yield

    def op_connect(self):
        n = len(self.ctl.live_peers())
        if n > 12 or (n >= self.p["n_clients"] * self.nd and self.rng.random() < 0.8):
            return
        p = self.new_peer()
        if p is not None and self.rng.random() < 0.25:
            p.request("track")
            p.track_ta = p.next_ta - 1
        return

    def op_rawconnect(self):
        if len(self.ctl.live_peers()) <= 12:
            d = self.dom()
            self.ctl.connect(d, self.rng.randrange(3), **self.user_kw())

    def op_reconnect(self):
        p = self.peer()
        if p is None:
            return
        p.close(self.rng.random() < 0.3)
        if self.rng.random() < 0.4:
            return
        self.new_peer(p.dom_idx, p.client_id, None if self.rng.random() < 0.3 else 0)

    def op_close(self):
        p = self.peer(need_hello=False)
        if p is not None:
            p.close(self.rng.random() < 0.3)

    def op_reset(self):
        p = self.peer(need_hello=False)
        if p is not None:
            p.reset(self.rng.choice([errno.ECONNRESET, errno.ETIMEDOUT, errno.EPIPE, errno.EPROTO, errno.EHOSTUNREACH]))

    def publish(self, p, sid=None, gen=None, props=None, ttl=None):
        rng = self.rng
        if sid is None:
            sid = rng.choice(self.sids)
        s = self.ctl.model(p.dom_idx).services.get(sid)
        if gen is None:
            if s is None:
                gen = rng.choice([0, 1, 1, 5, 10, 2 ** 62])
            else:
                gen = max(0, min(2 ** 63 - 1, s.gen + rng.choice([0, 0, 1, 1, 1, 1, 2, 100, -1])))
                if rng.random() < 0.04:
                    gen = rng.choice([0, 2 ** 63 - 1, 2 ** 63 - 1, s.gen ^ 2 ** 32, s.gen ^ 2 ** 31, s.gen ^ 2 ** 53, s.gen % 2 ** 32, min(s.gen + 2 ** 32, 2 ** 63 - 1)])
        if props is None:
            props = self.vary_props(sid, p.dom_idx)
        if ttl is None:
            ttl = s.ttl if s is not None and rng.random() < 0.6 else rng.choice(self.p["ttls"])
        p.request("publish", service_id=sid, generation=gen, service_props=props, ttl=ttl)

    def op_publish(self):
        p = self.ready_peer()
        if p is not None:
            self.publish(p)

    def op_republish(self):
        """By preference of an existing service, of an orphan or somebody else's."""
        rng = self.rng
        d = self.dom()
        m = self.ctl.model(d)
        if not m.services:
            return self.op_publish()
        orphans = [s.sid for s in m.services.values() if s.otime is not None]
        sid = rng.choice(orphans) if orphans and rng.random() < 0.5 else rng.choice(list(m.services))
        p = self.ready_peer(d)
        if p is not None:
            self.publish(p, sid)

    def op_unpublish(self):
        rng = self.rng
        p = self.ready_peer()
        if p is None:
            return
        m = self.ctl.model(p.dom_idx)
        sid = rng.choice(list(m.services)) if m.services and rng.random() < 0.8 else rng.choice(self.sids)
        p.request("unpublish", service_id=sid)

    def op_subscribe(self):
        p = self.ready_peer()
        if p is not None:
            p.request("subscribe", subscription_id=self.rng.choice(self.subids), filter=self.filter())

    def op_unsubscribe(self):
        rng = self.rng
        p = self.ready_peer()
        if p is None:
            return
        m = self.ctl.model(p.dom_idx)
        c = p.conn
        own = sorted(c.subs) if c is not None else []
        if own and rng.random() < 0.7:
            sub = rng.choice(own)
        elif m.subs and rng.random() < 0.6:
            sub = rng.choice(list(m.subs))
        else:
            sub = rng.choice(self.subids)
        p.request("unsubscribe", subscription_id=sub)

    def op_subscriptions(self):
        p = self.ready_peer()
        if p is not None:
            p.request("subscriptions")

    def op_services(self):
        p = self.ready_peer()
        if p is not None:
            p.request("services", filter=self.filter() if self.rng.random() < 0.6 else None)

    def op_clients(self):
        p = self.ready_peer()
        if p is not None:
            p.request("clients")

    def op_ping(self):
        p = self.ready_peer()
        if p is not None:
            p.request("ping")

    def op_track(self):
        p = self.ready_peer()
        if p is not None and p.conn is not None and p.conn.version == 3:
            ta = None
            if self.rng.random() < 0.25:
                ta = self.rng.choice([0, 0, 0, 2 ** 63 - 1])
                if ta in p.conn.tas:
                    ta = None
            p.request("track", ta=ta)
            if p.track_ta is None:
                p.track_ta = p.next_ta - 1 if ta is None else ta

    def op_query(self):
        rng = self.rng
        ps = [p for p in self.ctl.live_peers() if p.conn is not None and p.conn.track_ta is not None]
        if not ps:
            return self.op_track()
        p = rng.choice(ps)
        for _ in range(rng.choice([1, 1, 2, 5])):
            p.inform("query", p.conn.track_ta)

    def op_rehello(self):
        rng = self.rng
        p = self.peer()
        if p is None:
            return
        cid = p.client_id
        if rng.random() < 0.35:
            cid = rng.choice(self.cids)
        vmin, vmax = self.range()
        claimed = p.client_id
        p.hello(cid, vmin, vmax)
        p.client_id = claimed

    def op_nohello(self):
        """Other requests before the handshake."""
        rng = self.rng
        if len(self.ctl.live_peers()) > 12:
            return
        p = self.ctl.connect(self.dom(), rng.randrange(3), **self.user_kw())
        if p is None:
            return
        for _ in range(rng.choice([1, 2, 3])):
            cmd = rng.choice(["ping", "services", "subscriptions", "clients", "publish", "unpublish", "subscribe",
                              "unsubscribe"])
            self.any_request(p, cmd)
        if rng.random() < 0.7:
            vmin, vmax = self.range()
            p.hello(rng.choice(self.cids), vmin, vmax)

    def any_request(self, p, cmd):
        rng = self.rng
        if cmd == "publish":
            self.publish(p)
        elif cmd == "unpublish":
            p.request(cmd, service_id=rng.choice(self.sids))
        elif cmd == "subscribe":
            p.request(cmd, subscription_id=rng.choice(self.subids), filter=self.filter())
        elif cmd == "unsubscribe":
            p.request(cmd, subscription_id=rng.choice(self.subids))
        elif cmd == "services":
            p.request(cmd, filter=self.filter())
        else:
            p.request(cmd)

    def op_pipeline(self):
        """Many requests at once on one connection."""
        rng = self.rng
        p = self.ready_peer()
        if p is None:
            return
        for _ in range(rng.choice([3, 8, 20, 60])):
            self.any_request(p, rng.choice(["ping", "ping", "services", "publish", "publish", "unpublish", "subscribe",
                                            "unsubscribe", "subscriptions", "clients"]))

    def op_tareuse(self):
        """Reuses a transaction id, of a finished transaction (fine) or of an open one (violation)."""
        rng = self.rng
        p = self.ready_peer()
        if p is None or p.conn is None:
            return
        if p.conn.tas and rng.random() < 0.15:
            ta = rng.choice(list(p.conn.tas))
        else:
            done = [t for t in range(max(0, p.next_ta - 20), p.next_ta) if t not in p.conn.tas]
            if not done or p.sim.inbox:
                return
            ta = rng.choice(done)
        cmd = rng.choice(["ping", "services", "subscribe", "publish", "clients"])
        if cmd == "subscribe":
            p.request("subscribe", ta=ta, subscription_id=rng.choice(self.subids), filter=self.filter())
        elif cmd == "publish":
            p.request("publish", ta=ta, service_id=rng.choice(self.sids), generation=1, service_props={}, ttl=5)
        else:
            p.request(cmd, ta=ta)

    def op_sleep(self):
        r = self.rng.random()
        if r < 0.4:
            return sleep(self.rng.random() * 0.2)
        if r < 0.8:
            return sleep(self.rng.random() * 3)
        return sleep(self.rng.choice([5, 10, 31, 61, 120]) * (0.5 + self.rng.random()))

    def deadlines(self):
        now = self.ctl.env.now
        res = []
        for d in range(self.nd):
            m = self.ctl.model(d)
            for s in m.services.values():
                if s.otime is not None:
                    res.append(s.otime.lo + s.ttl)
            for c in m.conns.values():
                if c.handshaked and c.version >= 3:
                    for k in (0.45, 0.5, 0.55, 0.95, 1.0, 1.05):
                        res.append(c.last_rx[0] + k * c.m_lo)
                elif not c.handshaked:
                    res.append(c.t_accept[0] + self.rng.choice([2, 3]))
        return [t for t in res if now < t < now + 200]

    def op_deadline(self):
        """Sleeps up to, just before or just after a moment that matters."""
        dl = self.deadlines()
        if not dl:
            return self.op_sleep()
        rng = self.rng
        t = rng.choice(sorted(dl)[:4]) if rng.random() < 0.7 else rng.choice(dl)
        dt = t - self.ctl.env.now + rng.choice([0, 0, -1e-3, 1e-3, -0.2, 0.2, -1e-6, 1e-6])
        return sleep(max(0.0, dt))

    def op_late(self):
        """The daemon is not scheduled for a while; things pile up."""
        rng = self.rng
        dl = self.deadlines()
        if dl and rng.random() < 0.6:
            t = min(dl) if rng.random() < 0.6 else rng.choice(dl)
            return late(max(0.0, t - self.ctl.env.now + rng.choice([0, 1e-3, 0.2])))
        return late(rng.choice([0.01, 0.3, 2.0]))

    def op_settle(self):
        return SETTLE

    def op_stall(self):
        p = self.peer()
        if p is not None:
            p.stall(self.rng.choice([0, 0, 1, 2, 5]))

    def op_unstall(self):
        ps = [p for p in self.ctl.live_peers() if p.sim.capacity is not None]
        if not ps:
            return
        p = self.rng.choice(ps)
        if self.rng.random() < 0.4:
            p.stall(self.rng.choice([1, 2, 3, 10, 65]))
        else:
            p.unstall()

    def op_idlebehave(self):
        p = self.peer()
        if p is not None:
            p.keepalive = not p.keepalive
            p.auto_reply = self.rng.random() < 0.7

    def op_fault(self):
        """Failing library calls and refused resources."""
        rng = self.rng
        env = self.ctl.env
        r = rng.random()
        if r < 0.3:
            self.op_accepterr()
        elif r < 0.45:
            env.attr_fail["xcm.remote_addr"] = [errno.ENOENT]
            self.op_connect()
        elif r < 0.6:
            env.attr_fail[rng.choice(["xcm.transport", "tcp.keepalive"])] = [rng.choice([errno.ENOENT, errno.EACCES])]
            self.op_connect()
        elif r < 0.75:
            p = self.peer()
            if p is not None:
                p.stall(0)
                self.publish_burst(p)
                p.reset(errno.EPIPE)
        else:
            self.op_reset()

    def op_accepterr(self):
        """Connections that fail while they are accepted; more may follow them, or be in front."""
        rng = self.rng
        ctl = self.ctl
        d = self.dom()
        addr = rng.choice(ctl.spec["domains"][d]["sockets"])
        srv = ctl.mon.server_socks.get(addr)
        if srv is not None:
            ctl.accept_faults = True
            for _ in range(rng.choice([1, 1, 3])):
                srv.pending.append(rng.choice([errno.EMFILE, errno.ECONNABORTED, errno.ENOMEM, errno.EPROTO, errno.ECONNRESET]))
            if rng.random() < 0.4:
                self.op_connect()

    def publish_burst(self, p):
        q = self.ready_peer(p.dom_idx)
        if q is not None and q is not p:
            for _ in range(self.rng.randint(1, 6)):
                self.publish(q)

    def op_hostile(self):
        rng = self.rng
        ps = [p for p in self.ctl.live_peers() if p.hostile]
        if not ps or rng.random() < 0.4:
            if len(self.ctl.live_peers()) > 14:
                return
            p = self.ctl.connect(self.dom(), rng.randrange(3), **self.user_kw())
            if p is None:
                return
            p.hostile = True
            if rng.random() < 0.75:
                p.hello(rng.choice([777, 778, rng.choice(self.cids)]), *rng.choice([(2, 3), (2, 2), (3, 3)]))
                if rng.random() < 0.4:
                    p.request("track")
                    p.track_ta = p.next_ta - 1
                if rng.random() < 0.3:
                    p.request("subscribe", subscription_id=rng.choice(self.subids), filter=self.filter())
        else:
            p = rng.choice(ps)
        for _ in range(rng.choice([1, 1, 2])):
            version = p.conn.version if p.conn is not None else 3
            p.send(hostile.message(rng, self, p, version), raw=True)

    def op_episode(self):
        name = self.rng.choice(self.episodes)
        return EPISODES[name](self)

    # --- the whole

    def run(self):
        rng = self.rng
        ctl = self.ctl
        n = rng.randint(*self.p["steps"])
        for _ in range(rng.randint(1, 4)):
            self.op_connect()
        if self.p.get("start"):
            yield from self.p["start"](self)
        for _ in range(n):
            op = rng.choices(self.ops, self.opw)[0]
            r = getattr(self, "op_" + op)()
            if r is None or isinstance(r, tuple):
                yield r
            else:
                yield from r
        yield from self.ending()

    def ending(self):
        rng = self.rng
        ctl = self.ctl
        if rng.random() > self.p["settle_end"]:
            ctl.mon.counts["terminated under load"] += 1
            return
        for p in ctl.live_peers():
            p.unstall()
        yield SETTLE
        # one last look at everything, by every client
        for p in ctl.live_peers():
            if p.conn is not None and p.conn.handshaked:
                for cmd in ("services", "subscriptions", "clients", "ping"):
                    p.request(cmd)
        yield SETTLE
        if rng.random() < self.p["empty_end"]:
            yield from self.empty()

    def empty(self):
        """Everybody leaves, everything expires; then nothing may be left."""
        ctl = self.ctl
        for p in ctl.live_peers():
            if self.rng.random() < 0.7:
                p.close()
            else:
                p.reset()
        yield SETTLE
        horizon = 0
        for d in range(self.nd):
            for s in ctl.model(d).services.values():
                if s.ttl <= 100000:
                    horizon = max(horizon, s.ttl)
        yield sleep(horizon + 1.0)
        yield SETTLE
        yield sleep(6.0)
        yield SETTLE
        if all(ctl.empty_domain(d) for d in range(self.nd)):
            ctl.mon.counts["emptied"] += 1
            # the loop is asleep now, with this timeout
            if ctl.cur_timeout >= 0:
                ctl.mon.problem({"P17", "P15"}, "the daemon is empty, but does not sleep indefinitely "
                                "(timeout %r)" % ctl.cur_timeout)
            left = [o for o in ctl.env.handles.values() if getattr(o, "transport", None) is not None]
            if left:
                ctl.mon.problem({"P17"}, "%d connections are held though all clients are gone" % len(left))


# ---------------------------------------------------------------- episodes

def _settle_peer(g, p):
    yield SETTLE


def ep_reclaim(g):
    """Orphan, then reclaim around the deadline, by whom and how varies; then orphan again."""
    rng, ctl = g.rng, g.ctl
    d = g.dom()
    sid = rng.choice(g.sids)
    cid = rng.choice(g.cids)
    a = g.new_peer(d, cid, 0, (2, 3), 0)
    if a is None:
        return
    a.keepalive = True
    yield SETTLE
    ttl = rng.choice([0, 1, 2, 3, 5])
    g.publish(a, sid, ttl=ttl)
    yield SETTLE
    a.close()
    yield rng.choice([SETTLE, None])
    for _ in range(rng.choice([1, 2, 3])):
        same = rng.random() < 0.6
        b = g.new_peer(d, cid if same else None, 0, None, 0)
        if b is None:
            return
        b.keepalive = True
        how = rng.random()
        early = rng.random() < 0.5
        if early:
            yield SETTLE
        s = ctl.model(d).services.get(sid)
        if s is not None and s.otime is not None:
            rest = min(s.otime.lo + s.ttl - ctl.env.now, 120)
            if rng.random() < 0.3:
                yield late(max(0.0, rest + rng.choice([-1e-4, 0, 1e-4, 0.1])))
            else:
                yield sleep(max(0.0, rest * rng.choice([0.1, 0.5, 0.9]) if rng.random() < 0.6
                                else rest + rng.choice([-0.001, 0, 0.001])))
        s = ctl.model(d).services.get(sid)
        if how < 0.4 and s is not None:
            p = {k: [v for _, v in vs] for k, vs in s.props.items()}
            g.publish(b, sid, s.gen, p, s.ttl)
        elif how < 0.8:
            g.publish(b, sid, (s.gen + 1) if s is not None and s.gen < 2 ** 62 else None, None,
                      rng.choice([0, 1, 2, 4, 6]))
        else:
            b.request("unpublish", service_id=sid)
        yield SETTLE
        if rng.random() < 0.6:
            yield sleep(rng.choice([0.5, ttl, ttl + 0.5, 2 * ttl + 1]))
            b.request("services")
            yield SETTLE
        if rng.random() < 0.3:
            g.publish(b, rng.choice(g.sids), None, None, rng.choice([1, 3]))
            yield SETTLE
        if rng.random() < 0.8:
            b.close()
            yield rng.choice([SETTLE, None])
        else:
            return
    yield sleep(rng.choice([1, 3, 7]))


def ep_transfer(g):
    """Ownership moves between clients of one user, connected or not."""
    rng, ctl = g.rng, g.ctl
    d = g.dom()
    sids = rng.sample(g.sids, min(2, len(g.sids)))
    ps = []
    for c in rng.sample(g.cids, min(3, len(g.cids))):
        p = g.new_peer(d, c, 0, None, 0)
        if p is not None:
            p.keepalive = True
            ps.append(p)
    yield SETTLE
    for _ in range(rng.randint(3, 9)):
        ps = [p for p in ps if p.usable()]
        if not ps:
            return
        p = rng.choice(ps)
        r = rng.random()
        sid = rng.choice(sids)
        s = ctl.model(d).services.get(sid)
        if r < 0.3 and s is not None:
            g.publish(p, sid, s.gen, {k: [v for _, v in vs] for k, vs in s.props.items()}, s.ttl)
        elif r < 0.65:
            g.publish(p, sid, None, None, rng.choice([1, 2, 3, 8]))
        elif r < 0.75:
            p.request("unpublish", service_id=sid)
        elif r < 0.9:
            cid = p.client_id
            p.close()
            yield SETTLE
            if rng.random() < 0.7:
                q = g.new_peer(d, cid, 0, None, 0)
                if q is not None:
                    q.keepalive = True
                    ps.append(q)
        else:
            yield sleep(rng.choice([0.5, 1, 2, 4]))
        yield SETTLE


def ep_dup(g):
    """A second connection under an id in use; the holder answers, is silent, or goes."""
    rng, ctl = g.rng, g.ctl
    d = g.dom()
    cid = rng.choice(g.cids)
    a = g.new_peer(d, cid, 0, None, 0)
    if a is None:
        return
    a.keepalive = False
    a.auto_reply = rng.random() < 0.6
    a.reply_delay = rng.choice([0, 0.05, 0.5])
    yield SETTLE
    if a.conn is not None and a.conn.handshaked and a.conn.version == 3 and rng.random() < 0.7:
        a.request("track")
        a.track_ta = a.next_ta - 1
        yield SETTLE
    if rng.random() < 0.5 and a.usable():
        g.publish(a, ttl=rng.choice([1, 2, 5, 10]))
        a.request("subscribe", subscription_id=rng.choice(g.subids))
        yield SETTLE
    yield sleep(rng.random() * 3)
    b = g.new_peer(d, cid, 0, None, 1)
    if b is None:
        return
    b.keepalive = False
    fate = rng.random()
    for i in range(rng.choice([1, 2, 4, 6])):
        yield rng.choice([SETTLE, None])
        if fate < 0.25 and i == 1 and a.usable():
            a.close()
        elif fate < 0.5 and a.usable() and rng.random() < 0.6:
            a.request("ping")
        yield sleep(rng.choice([0.1, 0.5, 1.0, 1.9]))
        if not b.usable():
            b = g.new_peer(d, cid, 0, None, 1)
            if b is None:
                return
        elif b.conn is None or not b.conn.handshaked:
            b.hello(cid, *rng.choice([(2, 3), (2, 2), (3, 3)]))
    yield SETTLE


def ep_slow(g):
    """A slow subscriber in front of a busy publisher."""
    rng, ctl = g.rng, g.ctl
    d = g.dom()
    tracked = rng.random() < 0.4
    cid = rng.choice(g.cids)
    s = g.new_peer(d, cid, 0, (2, 3) if tracked else None, 0)
    if s is None:
        return
    s.keepalive = False
    yield SETTLE
    if tracked:
        s.request("track")
    s.request("subscribe", subscription_id=rng.choice(g.subids), filter=g.filter() if rng.random() < 0.3 else None)
    for i in range(rng.choice([0, 0, 0, 3, 14])):
        s.request("subscribe", subscription_id=40000 + i + 100 * rng.randrange(1000))
    yield rng.choice([SETTLE, None])
    s.stall(rng.choice([0, 1, 3]))
    w = g.new_peer(d, 950, 0, (2, 3), 0)
    if w is None:
        return
    w.keepalive = True
    yield SETTLE
    if w.conn is None or not w.conn.handshaked:
        return
    total = rng.choice([10, 60, 140, 200, 300])
    sid = rng.choice(g.sids)
    for i in range(total):
        if rng.random() < 0.85:
            cur = ctl.model(d).services.get(sid)
            g.publish(w, sid, (cur.gen if cur is not None and cur.gen < 2 ** 62 else 0) + 1 + len(w.sim.inbox))
        else:
            w.request(rng.choice(["ping", "ping", "clients"]))
        if rng.random() < 0.15:
            s.request(rng.choice(["ping", "services", "clients"]))
        if i % rng.choice([7, 13, 29]) == 0:
            yield rng.choice([SETTLE, None])
        if rng.random() < 0.03:
            s.stall(rng.choice([1, 5, 30, 64, 70]))
        if not w.usable():
            break
    if tracked and s.usable() and s.conn is not None and rng.random() < 0.8:
        # a query queues up behind the rest
        yield SETTLE
        if s.conn is not None and s.conn.m_lo is not None and rng.random() < 0.5:
            yield sleep(rng.choice([0.5, 0.6, 0.8]) * s.conn.m_lo)
        else:
            g.new_peer(d, cid, 0, None, 0)
    for _ in range(rng.choice([1, 3, 5])):
        s.request("ping")
    yield SETTLE
    r = rng.random()
    if r < 0.2:
        s.close(rng.random() < 0.5)
        yield SETTLE
        return
    while rng.random() < 0.8 and s.usable():
        s.stall(rng.choice([1, 2, 63, 64, 65, 100]))
        yield SETTLE
    s.unstall()
    yield SETTLE


def ep_limits(g):
    """Fills up every kind of resource, fails, frees and fills up again."""
    rng, ctl = g.rng, g.ctl
    d = g.dom()
    for _ in range(rng.choice([1, 2])):
        ps = []
        for i in range(rng.choice([2, 4, 7])):
            p = g.new_peer(d, rng.choice(g.cids + [900 + i]), rng.choice([0, 0, 1]), None)
            if p is not None:
                p.keepalive = rng.random() < 0.8
                ps.append(p)
        yield SETTLE
        ps = [p for p in ps if p.usable()]
        if not ps:
            return
        for i in range(rng.choice([2, 5, 8])):
            p = rng.choice(ps)
            g.publish(p, rng.choice(g.sids + [500 + i]), None, None, rng.choice([0, 1, 3]))
            if rng.random() < 0.6:
                p = rng.choice(ps)
                p.request("subscribe", subscription_id=rng.choice(g.subids + [600 + i]), filter=g.filter())
        yield SETTLE
        rng.shuffle(ps)
        for p in ps[:rng.randint(1, len(ps))]:
            p.close(rng.random() < 0.5)
        yield rng.choice([SETTLE, None, sleep(0.5), sleep(4.0)])


def ep_squat(g):
    """Connections that never say hello take all slots; clients wait on several sockets."""
    rng, ctl = g.rng, g.ctl
    d = g.dom()
    for _ in range(rng.choice([1, 3, 6, 20])):
        p = ctl.connect(d, rng.randrange(3), **g.user_kw())
        if p is None:
            return
        if rng.random() < 0.3:
            yield sleep(rng.random())
        if rng.random() < 0.2:
            p.request("ping")
    if rng.random() < 0.35:
        # not silent, but no hello, or none that is accepted
        noisy = [p for p in (ctl.connect(d, rng.randrange(3), **g.user_kw()) for _ in range(rng.choice([1, 2, 4]))) if p is not None]
        how = rng.randrange(4)
        cid = 7000 + rng.randrange(3)
        for _ in range(rng.choice([4, 7, 12])):
            for p in noisy:
                if not p.usable():
                    continue
                if how == 0:
                    p.request(rng.choice(["ping", "ping", "clients"]))
                elif how == 1:
                    p.hello(cid, *rng.choice([(0, 1), (4, 9), (1, 1)]))
                elif how == 2:
                    p.hello(rng.choice(g.cids), 2, 3) if rng.random() < 0.3 else p.request("ping")
                elif rng.random() < 0.5:
                    p.hello(cid, 9, 9)
            yield rng.choice([SETTLE, None])
            yield sleep(rng.choice([0.3, 0.7, 1.0, 1.5]))
    late_ones = []
    for i in range(rng.choice([0, 1, 3])):
        p = ctl.connect(d, rng.randrange(3), **g.user_kw())
        late_ones.append(p)
    yield sleep(rng.choice([0.5, 1.0, 1.5, 1.9, 2.0]))
    for i, p in enumerate(late_ones):
        if p.usable():
            p.hello(rng.choice(g.cids), 2, 3)
    yield rng.choice([SETTLE, None])
    yield sleep(rng.choice([0.2, 1.0, 2.5, 4.5]))
    for i in range(rng.choice([1, 2])):
        g.new_peer(d)
    yield SETTLE


def ep_track(g):
    """Queries in both directions, with delays, and the latency listed."""
    rng, ctl = g.rng, g.ctl
    d = g.dom()
    a = g.new_peer(d, rng.choice(g.cids), 0, (2, 3), 0)
    if a is None:
        return
    a.keepalive = False
    a.auto_reply = True
    a.reply_delay = rng.choice([0, 0.02, 0.4, 1.1])
    yield SETTLE
    if a.conn is None or not a.conn.handshaked or a.conn.version != 3:
        return
    a.request("track")
    a.track_ta = a.next_ta - 1
    if rng.random() < 0.3:
        a.request("track")
    yield SETTLE
    if rng.random() < 0.5:
        g.publish(a, ttl=rng.choice([1, 2, 5, 20]))
    for _ in range(rng.randint(2, 6)):
        if not a.usable():
            return
        r = rng.random()
        if r < 0.35:
            for _ in range(rng.choice([1, 2, 4])):
                a.inform("query")
        elif r < 0.5:
            a.request("clients")
        else:
            yield sleep(rng.choice([0.3, 0.5, 0.6, 1.0, 1.1]) * (a.conn.m_lo if a.conn is not None else 4))
            q = g.ready_peer(d)
            if q is not None:
                q.request("clients")
        yield rng.choice([SETTLE, None])
    r = rng.random()
    if a.usable() and a.conn is not None:
        if r < 0.25 and a.conn.query_out is None and not a.conn.query_win:
            a.inform("reply")
        elif r < 0.35:
            a.inform(rng.choice(["", "QUERY", "queryx", "notify"]))
        elif r < 0.45:
            a.inform("query", ta=rng.choice([a.track_ta + 1000, 0]))
        elif r < 0.65:
            a.send(hostile.confused(rng, a, 3), raw=True)
    yield SETTLE


def ep_binding(g):
    """A client id with orphans belongs to its user until they are gone."""
    rng, ctl = g.rng, g.ctl
    d = g.dom()
    cid = rng.choice(g.cids)
    sock = rng.randrange(3)
    a = g.new_peer(d, cid, 0, None, sock)
    if a is None:
        return
    yield SETTLE
    sid = rng.choice(g.sids)
    g.publish(a, sid, None, None, rng.choice([1, 2, 4]))
    yield SETTLE
    if rng.random() < 0.6:
        # another client of the user takes it over, before or after the disconnect
        b = g.new_peer(d, rng.choice(g.cids), 0, None, sock)
        yield SETTLE
        if rng.random() < 0.5:
            a.close()
            yield SETTLE
        if b is not None and b.usable():
            if rng.random() < 0.7:
                g.publish(b, sid)
            else:
                b.request("unpublish", service_id=sid)
        yield SETTLE
    a.close()
    yield rng.choice([SETTLE, None])
    c = g.new_peer(d, cid, rng.choice([0, 1, 2]), None, rng.randrange(3))
    yield SETTLE
    yield sleep(rng.choice([0.1, 1, 2, 4.5]))
    if c is not None and c.usable():
        c.hello(cid, 2, 3)
        yield SETTLE
        if c.usable():
            g.publish(c, sid)
            c.request("unpublish", service_id=rng.choice(g.sids))
    yield SETTLE


def ep_generations(g):
    """One client id through several connections, each leaving orphans of its own."""
    rng, ctl = g.rng, g.ctl
    d = g.dom()
    cid = rng.choice(g.cids)
    for _ in range(rng.choice([2, 3, 4])):
        p = g.new_peer(d, cid, 0, None, 0)
        if p is None:
            return
        p.keepalive = rng.random() < 0.5
        yield SETTLE
        for _ in range(rng.choice([0, 1, 2])):
            if not p.usable():
                break
            m = ctl.model(d)
            mine = [s.sid for s in m.services.values() if s.owner == cid]
            r = rng.random()
            if mine and r < 0.5:
                s = m.services[rng.choice(mine)]
                g.publish(p, s.sid, s.gen + (rng.random() < 0.5 and s.gen < 2 ** 62),
                          {k: [v for _, v in vs] for k, vs in s.props.items()} if rng.random() < 0.7 else None,
                          s.ttl if rng.random() < 0.6 else None)
            elif mine and r < 0.65:
                p.request("unpublish", service_id=rng.choice(mine))
            else:
                g.publish(p, rng.choice(g.sids), None, None, rng.choice([2, 3, 6, 10]))
            yield SETTLE
        yield sleep(rng.choice([0.2, 1.0, 2.5, 5, 9]))
        if p.usable():
            p.close(rng.random() < 0.3)
        yield rng.choice([SETTLE, None, sleep(1.0)])
    yield sleep(rng.choice([1, 3, 11]))


def ep_batch(g):
    """Many things become ready at once: closes, arrivals and requests in one wake-up."""
    rng, ctl = g.rng, g.ctl
    yield SETTLE
    for _ in range(rng.choice([3, 6, 12])):
        r = rng.random()
        if r < 0.35:
            g.op_connect()
        elif r < 0.6:
            g.op_close()
        elif r < 0.7:
            g.op_reset()
        else:
            g.op_republish()
    yield late(rng.choice([0.0, 0.001, 1.0]))
    yield SETTLE


def ep_many(g):
    """A client with many services, or subscriptions: one of them decides, early or late, and it goes again."""
    rng, ctl = g.rng, g.ctl
    d = g.dom()
    a = g.new_peer(d, rng.choice(g.cids), 0, (2, 3) if rng.random() < 0.8 else None, 0)
    if a is None:
        return
    a.keepalive = rng.random() < 0.3
    a.auto_reply = True
    yield SETTLE
    if a.conn is None or not a.conn.handshaked:
        return
    n = rng.choice([5, 9, 12, 18, 35, 70]) if rng.random() < 0.95 else rng.choice([130, 280])
    base = 20000 + rng.randrange(1000) * 100
    k = rng.choice([0, 0, 1, n // 2, n - 2, n - 1])
    for i in range(n):
        g.publish(a, base + i, 1, None, rng.choice([1, 2, 3]) if i == k else rng.choice([20, 20, 40, 100]))
        if i % 30 == 29:
            yield SETTLE
    if rng.random() < 0.5:
        for i in range(rng.choice([3, 12, 20, 60])):
            a.request("subscribe", subscription_id=base + i, filter=g.filter() if rng.random() < 0.5 else None)
    if rng.random() < 0.3:
        a.request("track")
    yield SETTLE
    for _ in range(rng.choice([1, 2, 3])):
        if not a.usable() or a.conn is None:
            return
        r = rng.random()
        if r < 0.4:
            yield sleep(rng.choice([0.45, 0.9, 1.06, 1.2]) * a.conn.m_lo)
        elif r < 0.55:
            # the deciding one goes, or changes
            if rng.random() < 0.5:
                a.request("unpublish", service_id=base + k)
            else:
                g.publish(a, base + k, 2, None, rng.choice([1, 4, 50]))
        elif r < 0.7:
            q = g.ready_peer(d)
            if q is not None:
                q.request("services", filter=g.filter() if rng.random() < 0.3 else None)
                q.request("subscriptions")
        elif r < 0.8:
            a.request("unsubscribe", subscription_id=base + rng.randrange(4))
        elif r < 0.9:
            for i in rng.sample(range(n), n // 2):
                a.request("unpublish", service_id=base + i)
        else:
            a.close()
            yield SETTLE
            yield sleep(rng.choice([0.5, 2, 3.5]))
            return
        yield SETTLE
    yield SETTLE


def ep_crowd(g):
    """More clients than usual, all at once."""
    rng, ctl = g.rng, g.ctl
    d = g.dom()
    n = rng.choice([15, 17, 18, 25, 34])
    ps = []
    for i in range(n):
        p = ctl.connect(d, rng.randrange(3), **g.user_kw())
        if p is not None:
            p.client_id = 3000 + i
            p.keepalive = rng.random() < 0.8
            p.auto_reply = True
            if rng.random() < 0.9:
                p.hello(3000 + i, 2, rng.choice([2, 3, 3]))
            ps.append(p)
    yield rng.choice([SETTLE, None])
    for p in ps:
        if p.usable() and rng.random() < 0.7:
            r = rng.random()
            if r < 0.4:
                p.request("subscribe", subscription_id=3000 + p.client_id, filter=g.filter() if rng.random() < 0.3 else None)
            elif r < 0.8:
                g.publish(p)
            else:
                p.request(rng.choice(["ping", "clients"]))
    yield rng.choice([SETTLE, None, sleep(rng.choice([0.5, 2.5]))])
    for p in ps:
        r = rng.random()
        if r < 0.8:
            p.close()
        elif r < 0.9:
            p.reset()
    yield SETTLE


def ep_hello(g):
    """Handshakes in all variants, retried on the same connection."""
    rng, ctl = g.rng, g.ctl
    d = g.dom()
    p = ctl.connect(d, rng.randrange(3), **g.user_kw())
    if p is None:
        return
    p.client_id = cid = rng.choice(g.cids)
    for _ in range(rng.choice([2, 3, 5])):
        if not p.usable():
            return
        r = rng.random()
        if r < 0.25:
            p.hello(cid, *rng.choice([(4, 9), (0, 1), (3, 2), (5, 4), (2 ** 62, 2 ** 63 - 1)]))
        elif r < 0.4:
            g.any_request(p, rng.choice(["ping", "publish", "services", "subscribe", "clients", "unpublish"]))
        elif r < 0.5:
            p.hello(rng.choice(g.cids), 2, 3)
            p.client_id = cid
        else:
            p.hello(cid, *g.range())
        if rng.random() < 0.5:
            yield SETTLE
    yield SETTLE
    if p.usable() and p.conn is not None and p.conn.handshaked:
        g.op_clients()
        p.request("clients")
        if p.conn.version == 2 and rng.random() < 0.2:
            p.request("track")
    yield SETTLE


EPISODES = {k[3:]: v for k, v in list(globals().items()) if k.startswith("ep_")}


def workload(prof):
    def make(ctl):
        return Gen(ctl, prof).run()
    return make


def to_wire(m):
    return json.dumps(m).encode()
