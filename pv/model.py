"""Reference model of one Pathfinder domain, checked against the transport trace.

The model is fed what the server receives, sends, accepts and closes. It keeps
the directory state the properties prescribe and, per connection, the queue of
messages the server still owes. Every observation that the model cannot
explain is a Div(ergence), tagged with the properties it breaks.
"""

import copy
import json

from pv import reffilter, refmsg

EPS = 1e-6


TRACK_VIOLATIONS = ("inform in a transaction", "unsolicited track reply", "unknown track type")


class Div:
    def __init__(self, tags, text):
        self.tags = set(tags)
        self.text = text

    def __repr__(self):
        return "%s: %s" % (",".join(sorted(self.tags)), self.text)


class OTime:
    """A moment known as a window until the server has revealed it."""

    def __init__(self, lo, hi):
        self.lo = lo
        self.hi = hi

    def fits(self, v):
        return self.lo - EPS <= v <= self.hi + EPS

    def adopt(self, v):
        self.lo = self.hi = v


class Svc:
    # mutable: copied with the world
    __slots__ = ("sid", "gen", "props", "ttl", "owner", "user", "conn", "otime", "due_polls")

    def __init__(self, sid, gen, props, ttl, owner, user, conn):
        self.sid = sid
        self.gen = gen
        self.props = props
        self.ttl = ttl
        self.owner = owner
        self.user = user
        self.conn = conn        # connection id of the owner, None for an orphan
        self.otime = None
        self.due_polls = 0


class Sub:
    __slots__ = ("sub_id", "conn", "ta", "ast", "text", "client_id", "user")

    def __deepcopy__(self, memo):
        return self       # never changes


class Exp:
    """A message the server owes."""
    __slots__ = ("cmd", "ta", "type", "fields", "key", "tags", "reasons", "otime", "check", "sig")

    def __init__(self, cmd, ta, type, fields=None, key=None, tags=(), reasons=None, otime=None, check=None):
        self.cmd = cmd
        self.ta = ta
        self.type = type
        self.fields = fields or {}
        self.key = key
        self.tags = set(tags)
        self.reasons = reasons
        self.otime = otime
        self.check = check
        self.sig = None

    def __deepcopy__(self, memo):
        if self.otime is None:
            return self       # never changes
        c = Exp.__new__(Exp)
        for k in Exp.__slots__:
            setattr(c, k, getattr(self, k))
        c.otime = copy.deepcopy(self.otime, memo)
        return c

    def signature(self):
        if self.sig is None:
            # not just its hash: those of 3 and 2**63 - 1 are the same
            self.sig = (self.cmd, self.ta, self.type, self.key, freeze(self.fields), freeze(self.reasons))
        return (self.sig, window(self.otime))

    def diff(self, m):
        """[(field, problem)] between the expectation and message m of the same ta/type."""
        res = []
        if self.type == "fail":
            r = m.get("fail-reason")
            if r not in self.reasons:
                res.append(("fail-reason", "fail reason %r, expected %s" % (r, "/".join(sorted(self.reasons)))))
            return res
        for f, v in self.fields.items():
            if f == "service-props":
                if refmsg.canon_props(m.get(f)) != v:
                    res.append((f, "properties %r, expected %r" % (m.get(f), v)))
            elif f == "filter":
                got = m.get(f)
                if v is None:
                    if got is not None:
                        res.append((f, "filter %r, expected none" % got))
                else:
                    verdict, ast = reffilter.parse(got) if isinstance(got, str) else (False, None)
                    if verdict is False or ast != v:
                        res.append((f, "filter %r, expected the meaning of %r" % (got, v)))
            elif isinstance(v, tuple) and len(v) == 2:
                got = m.get(f)
                if got is None or not v[0] - EPS <= got <= v[1] + EPS:
                    res.append((f, "%s is %r, expected %r" % (f, got, v)))
            else:
                if m.get(f) != v or isinstance(m.get(f), bool):
                    res.append((f, "%s is %r, expected %r" % (f, m.get(f), v)))
        if self.cmd in ("services", "subscribe") and self.type == "notify":
            got = m.get("orphan-since")
            if self.otime is None:
                if got is not None:
                    res.append(("orphan-since", "orphan-since %r for a service that is no orphan" % got))
            elif got is None or not self.otime.fits(got):
                res.append(("orphan-since", "orphan-since %r, expected a time in [%r, %r]" %
                            (got, self.otime.lo, self.otime.hi)))
        if self.check is not None:
            res.extend(self.check.diff(m))
        return res

    def adopt(self, m):
        if self.otime is not None and m.get("orphan-since") is not None:
            self.otime.adopt(m["orphan-since"])

    def brief(self):
        d = {k: v for k, v in self.fields.items()}
        if self.reasons:
            d["fail-reason"] = "/".join(sorted(self.reasons))
        return "%s %s ta=%d %s" % (self.cmd, self.type, self.ta, d)


class LatencyCheck:
    """Presence and plausibility of the optional latency field."""

    def __init__(self, expected):
        self.expected = expected     # None: must be absent; (lo, hi)

    def diff(self, m):
        got = m.get("latency")
        if self.expected is None:
            if got is not None:
                return [("latency", "latency %r listed, but none was measured" % got)]
        elif got is None:
            return [("latency", "latency missing")]
        elif not self.expected[0] - 0.02 <= got <= self.expected[1] + 0.02:
            return [("latency", "latency %r, expected within %r" % (got, self.expected))]
        return []


class Group:
    __slots__ = ("kind", "exps", "tags", "seq")

    def __init__(self, kind, tags, seq):
        self.kind = kind
        self.exps = []
        self.tags = set(tags)
        self.seq = seq


class Conn:
    def __init__(self, cid, addr, user, t0, now):
        self.id = cid
        self.addr = addr
        self.user = user
        self.t_accept = (t0, now)
        self.handshaked = False
        self.claimed = None
        self.version = None
        self.tas = {}             # open transactions: ta -> (cmd, sub_id)
        self.subs = set()
        self.groups = []
        self.closed = False
        self.must_close = None    # reason, when the connection has to be closed
        self.may_close = None     # reason, when it may be closed
        self.versioned = False
        self.recent = ()          # the last few messages sent
        self.taken = None         # when the last message was taken, unless it was answered since
        self.close_polls = 0
        self.terminating = False
        # liveness
        self.last_rx = None       # (lo, hi) time of the last accepted message
        self.m_lo = None          # bounds of the max idle time since then
        self.m_hi = None
        self.dup_at = None        # earliest time of a duplicate hello since
        self.track_ta = None
        self.query_out = None     # time the outstanding server query was seen
        # when a server query may have been made, and not yet seen: (since, cause, after); the effects
        # of that cause are sent after the query, if there is one (None: still open); those of the
        # causes up to 'after' are sent before it
        self.query_win = []
        self.query_must = False   # a second hello calls for a query not seen yet
        self.unknown_since = None  # a connection with refused hellos: since when nothing protects it
        self.pre_query = 0        # last cause known to precede any query of the current silence
        self.latency = None
        self.fuzzy = set()        # transactions whose outcome is left open
        self.hello_absent_since = None
        self.attr_failed = False


class Limits:
    def __init__(self, user=None, total=None):
        self.user = user or {}
        self.total = total or {}


KINDS = ("clients", "subscriptions", "services")


class Domain:
    """The model proper. Must be deep-copyable (worlds)."""

    def __init__(self, name, limits, vmin=2, vmax=3, idle_min=4, idle_max=30):
        self.name = name
        self.limits = limits
        self.vmin, self.vmax = vmin, vmax
        self.idle_min, self.idle_max = idle_min, idle_max
        self.conns = {}
        self.services = {}
        self.subs = {}
        self.gone = {}            # service id -> why it is gone
        self.cause = None
        self.cause_kind = None
        self.cause_tags = ()
        self.cause_seq = 0
        self.other_seq = 0
        self.stats = None         # shared counter (set by the manager)
        self.terminating = False
        self.assume_filter = True     # for filters of undefined validity, in this world

    # ---------------------------------------------------------- causes

    def begin(self, kind, tags=()):
        self.cause = {}
        self.cause_kind = kind
        self.cause_tags = tags
        self.cause_seq += 1
        if kind != "expire":
            self.other_seq = self.cause_seq

    def emit(self, conn, exp):
        if conn.closed or conn.must_close:
            return
        g = self.cause.get(conn.id)
        if g is None:
            g = Group(self.cause_kind, self.cause_tags, self.cause_seq)
            self.cause[conn.id] = g
        g.exps.append(exp)

    def end(self):
        for cid, g in self.cause.items():
            conn = self.conns[cid]
            if g.kind == "expire" and conn.groups and conn.groups[-1].kind == "expire" \
                    and conn.groups[-1].seq > self.other_seq:
                conn.groups[-1].exps.extend(g.exps)
                conn.groups[-1].seq = g.seq
            else:
                conn.groups.append(g)
        self.cause = None

    # ---------------------------------------------------------- accounting

    def count(self, kind, user=None):
        if kind == "clients":
            return sum(1 for c in self.conns.values() if c.handshaked and not c.closed and
                       (user is None or c.user == user))
        coll = self.subs if kind == "subscriptions" else self.services
        return sum(1 for o in coll.values() if user is None or o.user == user)

    def full(self, kind, user):
        lim = self.limits.total.get(kind)
        if lim is not None and self.count(kind) >= lim:
            return True
        lim = self.limits.user.get(kind)
        return lim is not None and self.count(kind, user) >= lim

    def open_conns(self):
        return [c for c in self.conns.values() if not c.closed]

    def holder(self, client_id):
        for c in self.conns.values():
            if c.handshaked and not c.closed and c.claimed == client_id:
                return c
        return None

    def bound_user(self, client_id):
        """The user whose orphans are held under that client id."""
        for s in self.services.values():
            if s.owner == client_id and s.conn is None:
                return s.user
        return None

    def id_known(self, client_id):
        return self.holder(client_id) is not None or self.bound_user(client_id) is not None

    # ---------------------------------------------------------- liveness bounds

    def max_idle(self, conn):
        ttls = [s.ttl for s in self.services.values() if s.conn == conn.id]
        if ttls:
            return min(self.idle_max, max(self.idle_min, min(ttls)))
        return self.idle_max

    def touch_idle(self, conn):
        """Called whenever the set of services of conn may have changed."""
        if conn.handshaked and not conn.closed and conn.last_rx is not None:
            m = self.max_idle(conn)
            if m < conn.m_lo:
                conn.pre_query = 0
            conn.m_lo = min(conn.m_lo, m)
            conn.m_hi = max(conn.m_hi, m)

    def active(self, conn, t0, now):
        m = self.max_idle(conn)
        conn.last_rx = (t0, now)
        conn.m_lo = conn.m_hi = m
        conn.dup_at = None
        if conn.query_win and conn.query_win[-1][1] is None:
            conn.query_win[-1] = (conn.query_win[-1][0],
                                  self.cause_seq if self.cause is not None else self.cause_seq + 1,
                                  conn.query_win[-1][2])

    def may_query(self, conn, since, after):
        if conn.query_out is None and (not conn.query_win or conn.query_win[-1][1] is not None):
            conn.query_win.append((since, None, after))

    def idle_drop_earliest(self, conn):
        """Before this time conn may not be dropped for idleness."""
        t = conn.last_rx[0] + 0.95 * conn.m_lo
        if conn.dup_at is not None:
            t = min(t, max(conn.dup_at, conn.last_rx[0]) + 0.5 * conn.m_lo)
        return t

    def idle_drop_latest(self, conn):
        return conn.last_rx[1] + 1.05 * conn.m_hi

    # ---------------------------------------------------------- service changes

    NOTIFY_TAGS = {"P01"}

    def record_fields(self, s):
        return {"service-id": s.sid, "generation": s.gen, "service-props": s.props, "ttl": s.ttl,
                "client-id": s.owner}

    def notify(self, sub, match, s, sid, tags=()):
        conn = self.conns[sub.conn]
        if match == "disappeared":
            fields = {"match-type": match, "service-id": sid}
            otime = None
        else:
            fields = dict(self.record_fields(s), **{"match-type": match})
            otime = s.otime
        self.emit(conn, Exp("subscribe", sub.ta, "notify", fields, key=sid,
                            tags=self.NOTIFY_TAGS | set(tags), otime=otime))

    def matches(self, sub, props):
        return sub.ast is None or reffilter.match(sub.ast, props)

    def changed(self, before, s, sid, tags=()):
        """before: properties before (None: did not exist); s: record now (None: removed)."""
        for sub in self.subs.values():
            m0 = before is not None and self.matches(sub, before)
            m1 = s is not None and self.matches(sub, s.props)
            if m0 and m1:
                self.notify(sub, "modified", s, sid, tags)
            elif m1:
                self.notify(sub, "appeared", s, sid, tags)
            elif m0:
                self.notify(sub, "disappeared", s, sid, tags)

    def remove_service(self, s, why, tags):
        del self.services[s.sid]
        self.gone[s.sid] = why
        self.changed(s.props, None, s.sid, tags)
        if s.conn is not None:
            self.touch_idle(self.conns[s.conn])

    def expire(self, sid):
        s = self.services[sid]
        self.begin("expire", ("P03",))
        self.remove_service(s, "expired", ("P03",))
        self.end()

    def due(self, now):
        """Orphans that may have expired by now."""
        return [s.sid for s in self.services.values()
                if s.otime is not None and s.otime.lo + s.ttl <= now + EPS]

    # ---------------------------------------------------------- events

    def on_accept(self, cid, addr, user, t0, now):
        divs = []
        self.conns[cid] = Conn(cid, addr, user, t0, now)
        lim = self.limits.total.get("clients")
        # (one whose attributes could not be read is given up at once)
        n = sum(1 for c in self.open_conns() if not c.attr_failed)
        if lim is not None and n > lim:
            divs.append(Div({"P05", "P18"}, "connection accepted beyond the limit of %d clients" % lim))
        return divs

    def violate(self, conn, why):
        conn.must_close = why
        conn.groups = []

    def on_eof(self, cid):
        conn = self.conns[cid]
        if not conn.must_close:
            self.violate(conn, "connection lost")

    def on_recv(self, cid, data, t0, now):
        """The server takes message `data` from connection cid."""
        conn = self.conns[cid]
        if conn.must_close:
            # reading on is harmless, as long as nothing is processed
            return []
        divs = []
        backlog = sum(len(g.exps) for g in conn.groups)
        if backlog >= 128:
            divs.append(Div({"P16"}, "request read from a client for which %d messages are waiting" % backlog))
        verdict, m = refmsg.parse_client(data, conn.version)
        if verdict is False:
            conn.versioned = conn.version in (2, 3) and refmsg.parse_client(data, 5 - conn.version)[0] is True
            self.violate(conn, "malformed message %r" % data[:200])
            return divs
        ta, cmd, mt = m["ta-id"], m["ta-cmd"], m["msg-type"]
        conn.taken = now if verdict else None
        if verdict is None:
            conn.may_close = "message of undefined validity %r" % data[:200]
            conn.fuzzy.add(ta)
            if conn.handshaked:
                self.active(conn, t0, now)
            return divs
        if mt == "inform":
            self.inform(conn, m, t0, now)
            return divs
        if ta in conn.tas:
            self.violate(conn, "transaction id %d reused while in use" % ta)
            return divs
        self.begin("request %s" % cmd)
        if conn.handshaked:
            self.active(conn, t0, now)
        if cmd == "hello":
            self.hello(conn, m, t0, now)
        elif not conn.handshaked:
            self.fail(conn, m, {"no-hello"}, {"P08"})
            if cmd == "track":
                conn.may_close = "track before hello"
        else:
            getattr(self, "do_" + cmd)(conn, m, t0, now)
            if cmd in ("publish", "unpublish"):
                # applies at once
                conn.m_lo = conn.m_hi = self.max_idle(conn)
        self.end()
        return divs

    def fail(self, conn, m, reasons, tags=()):
        self.emit(conn, Exp(m["ta-cmd"], m["ta-id"], "fail", reasons=set(reasons), tags=set(tags) | {"P07"}))

    def complete(self, conn, m, fields=None, tags=()):
        self.emit(conn, Exp(m["ta-cmd"], m["ta-id"], "complete", fields, tags=set(tags) | {"P07"}))

    def hello(self, conn, m, t0, now):
        cid = m["client-id"]
        if conn.claimed is not None and conn.claimed != cid:
            self.fail(conn, m, {"permission-denied"}, {"P08"})
            return
        conn.claimed = cid
        if conn.handshaked:
            self.complete(conn, m, {"protocol-version": conn.version}, {"P08"})
            return
        lo = max(m["protocol-minimum-version"], self.vmin)
        hi = min(m["protocol-maximum-version"], self.vmax)
        reasons = set()
        tags = set()
        if lo > hi:
            reasons.add("unsupported-protocol-version")
            tags.add("P08")
        holder = self.holder(cid)
        if holder is not None:
            reasons.add("client-id-exists")
            tags.add("P10")
            if lo <= hi and holder.dup_at is None:
                holder.dup_at = t0
            if lo <= hi:
                if holder.version >= 3 and holder.track_ta is not None and holder.query_out is None:
                    holder.query_must = True
                self.may_query(holder, t0, self.cause_seq - 1)
        else:
            bound = self.bound_user(cid)
            if bound is not None and bound != conn.user:
                reasons.add("permission-denied")
                tags.add("P04")
            if self.full("clients", conn.user):
                reasons.add("insufficient-resources")
                tags.add("P05")
        conn.version = hi if lo <= hi else None
        if reasons:
            self.fail(conn, m, reasons, tags)
            return
        conn.handshaked = True
        self.active(conn, t0, now)
        self.complete(conn, m, {"protocol-version": hi}, {"P08", "P10", "P05", "P04"})

    # --- commands

    def do_ping(self, conn, m, t0, now):
        self.complete(conn, m, tags={"P16"})

    def do_publish(self, conn, m, t0, now):
        sid, gen, ttl = m["service-id"], m["generation"], m["ttl"]
        props = refmsg.canon_props(m["service-props"])
        s = self.services.get(sid)
        if s is None:
            if self.full("services", conn.user):
                self.fail(conn, m, {"insufficient-resources"}, {"P05", "P02"})
                return
            s = Svc(sid, gen, props, ttl, conn.claimed, conn.user, conn.id)
            self.services[sid] = s
            self.gone.pop(sid, None)
            self.changed(None, s, sid, {"P02"})
            self.complete(conn, m, tags={"P02", "P05", "P13"})
            return
        reasons = set()
        tags = {"P02"}
        if s.user != conn.user:
            reasons.add("permission-denied")
            tags.add("P04")
        if gen == s.gen and (props != s.props or ttl != s.ttl):
            reasons.add("same-generation-but-different")
        if gen < s.gen:
            reasons.add("old-generation")
        if reasons:
            if "permission-denied" in reasons:
                reasons = {"permission-denied"}
            self.fail(conn, m, reasons, tags)
            return
        was_orphan = s.otime is not None
        moved = s.owner != conn.claimed
        tags = {"P02"}
        if was_orphan:
            tags |= {"P03"}
        if gen > s.gen or moved or was_orphan:
            before = s.props
            old_conn = s.conn
            s.gen, s.props, s.ttl = gen, props, ttl
            s.owner, s.conn, s.otime, s.due_polls = conn.claimed, conn.id, None, 0
            if old_conn is not None and old_conn != conn.id:
                self.touch_idle(self.conns[old_conn])
            self.changed(before, s, sid, tags)
        self.complete(conn, m, tags=tags | {"P04"})

    def do_unpublish(self, conn, m, t0, now):
        sid = m["service-id"]
        s = self.services.get(sid)
        if s is None:
            tags = {"P02"}
            if self.gone.get(sid) == "expired":
                tags.add("P03")
            self.fail(conn, m, {"non-existent-service-id"}, tags)
            return
        if s.user != conn.user:
            self.fail(conn, m, {"permission-denied"}, {"P04", "P02"})
            return
        tags = {"P02"}
        if s.otime is not None:
            tags.add("P03")
        if s.otime is not None or s.owner != conn.claimed:
            old_conn = s.conn
            s.owner, s.conn, s.otime = conn.claimed, conn.id, None
            if old_conn is not None and old_conn != conn.id:
                self.touch_idle(self.conns[old_conn])
            self.touch_idle(conn)
            self.changed(s.props, s, sid, tags)
        self.remove_service(s, "unpublished", tags)
        self.complete(conn, m, tags=tags | {"P04"})

    def do_subscribe(self, conn, m, t0, now):
        sub_id = m["subscription-id"]
        reasons = set()
        tags = set()
        ast = None
        if "filter" in m:
            verdict, ast = reffilter.parse(m["filter"])
            if verdict is False:
                reasons.add("invalid-filter-syntax")
                tags.add("P12")
            elif verdict is None and not self.assume_filter:
                reasons.add("invalid-filter-syntax")
        if sub_id in self.subs:
            reasons.add("subscription-id-exists")
        if self.full("subscriptions", conn.user):
            reasons.add("insufficient-resources")
            tags.add("P05")
        if reasons:
            self.fail(conn, m, reasons, tags)
            return
        sub = Sub()
        sub.sub_id, sub.conn, sub.ta, sub.ast, sub.text = sub_id, conn.id, m["ta-id"], ast, m.get("filter")
        sub.client_id, sub.user = conn.claimed, conn.user
        self.subs[sub_id] = sub
        conn.subs.add(sub_id)
        conn.tas[m["ta-id"]] = ("subscribe", sub_id)
        self.emit(conn, Exp("subscribe", m["ta-id"], "accept", tags={"P07", "P01", "P12", "P05", "P10"}))
        for s in self.services.values():
            if self.matches(sub, s.props):
                self.notify(sub, "appeared", s, s.sid)

    def do_unsubscribe(self, conn, m, t0, now):
        sub_id = m["subscription-id"]
        sub = self.subs.get(sub_id)
        if sub is None:
            self.fail(conn, m, {"non-existent-subscription-id"})
            return
        if sub.client_id != conn.claimed:
            self.fail(conn, m, {"permission-denied"}, {"P04"})
            return
        del self.subs[sub_id]
        conn.subs.discard(sub_id)
        conn.tas.pop(sub.ta, None)
        self.emit(conn, Exp("subscribe", sub.ta, "complete", tags={"P07", "P01"}))
        self.complete(conn, m, tags={"P04"})

    def do_subscriptions(self, conn, m, t0, now):
        ta = m["ta-id"]
        self.emit(conn, Exp("subscriptions", ta, "accept", tags={"P07"}))
        for sub in self.subs.values():
            self.emit(conn, Exp("subscriptions", ta, "notify",
                                {"subscription-id": sub.sub_id, "client-id": sub.client_id, "filter": sub.ast},
                                key=sub.sub_id, tags={"P22"}))
        self.emit(conn, Exp("subscriptions", ta, "complete", tags={"P07", "P22"}))

    def do_services(self, conn, m, t0, now):
        ta = m["ta-id"]
        ast = None
        if "filter" in m:
            verdict, ast = reffilter.parse(m["filter"])
            if verdict is False or (verdict is None and not self.assume_filter):
                self.fail(conn, m, {"invalid-filter-syntax"}, {"P12"})
                return
        self.emit(conn, Exp("services", ta, "accept", tags={"P07", "P12"}))
        for s in self.services.values():
            if ast is None or reffilter.match(ast, s.props):
                tags = {"P22", "P02"}
                if s.otime is not None:
                    tags.add("P03")
                self.emit(conn, Exp("services", ta, "notify", self.record_fields(s), key=s.sid,
                                    tags=tags, otime=s.otime))
        self.emit(conn, Exp("services", ta, "complete", tags={"P07", "P22"}))

    def do_clients(self, conn, m, t0, now):
        ta = m["ta-id"]
        self.emit(conn, Exp("clients", ta, "accept", tags={"P07"}))
        for c in self.conns.values():
            if not c.handshaked or c.closed:
                continue
            fields = {"client-id": c.claimed, "client-address": c.addr,
                      "time": (int(c.t_accept[0]), int(c.t_accept[1] + 0.001))}
            check = None
            if conn.version >= 3:
                fields["protocol-version"] = c.version
                idle_hi = now - c.last_rx[0] + 0.02
                idle_lo = 0.0 if c.version < 3 else max(0.0, t0 - c.last_rx[1] - 0.02)
                fields["idle"] = (idle_lo, idle_hi)
                check = LatencyCheck(c.latency if c.track_ta is not None else None)
            self.emit(conn, Exp("clients", ta, "notify", fields, key=c.claimed, tags={"P22"}, check=check))
        self.emit(conn, Exp("clients", ta, "complete", tags={"P07", "P22"}))

    def do_track(self, conn, m, t0, now):
        if conn.track_ta is not None:
            self.fail(conn, m, {"track-exists"}, {"P25"})
            return
        conn.track_ta = m["ta-id"]
        conn.tas[m["ta-id"]] = ("track", None)
        self.emit(conn, Exp("track", m["ta-id"], "accept", tags={"P07", "P25"}))

    def inform(self, conn, m, t0, now):
        open_ta = conn.tas.get(m["ta-id"])
        if open_ta is None or open_ta[0] != "track":
            self.violate(conn, "inform in a transaction that is not an open track transaction")
            return
        self.begin("inform")
        if m["track-type"] == "query":
            self.active(conn, t0, now)
            self.emit(conn, Exp("track", m["ta-id"], "notify", {"track-type": "reply"}, tags={"P25"}))
        elif m["track-type"] == "reply":
            if conn.query_out is not None:
                conn.latency = (max(0.0, t0 - conn.query_out[1]), now - conn.query_out[0])
                conn.query_out = None
                self.active(conn, t0, now)
            elif conn.query_win:
                # an as yet unseen query may have been made
                conn.may_close = "reply to a query not yet sent"
                self.active(conn, t0, now)
            else:
                self.violate(conn, "unsolicited track reply")
        else:
            self.violate(conn, "unknown track type")
        self.end()

    # --- closing

    def on_close(self, cid, t0, now, pending=False):
        """pending: the server still had something to send."""
        conn = self.conns[cid]
        divs = []
        # closing on a well-formed message, instead of handling it
        refused = {"P13"} if conn.taken == now else set()
        for g in conn.groups:
            if g.exps:
                # what it still had to be told is lost
                refused |= {"P16"} | g.tags | g.exps[0].tags
                break
        if not conn.must_close and not conn.may_close and not self.terminating:
            if conn.handshaked:
                if conn.version < 3:
                    divs.append(Div({"P06", "P07", "P09", "P10"} | refused, "version 2 client %d disconnected without cause" %
                                    conn.claimed))
                else:
                    earliest = self.idle_drop_earliest(conn)
                    if now < earliest - 0.001:
                        divs.append(Div(
                            {"P06", "P07", "P09", "P10", "P25"} | refused,
                            "client %d disconnected without cause: %.3f s after its last message, "
                            "its max idle time being %s s (earliest legal drop after %.3f s)" %
                            (conn.claimed, now - conn.last_rx[1], conn.m_lo, earliest - conn.last_rx[0])))
                    elif conn.track_ta is not None and conn.query_out is None and \
                            not pending and not any(g.exps for g in conn.groups):
                        divs.append(Div({"P09"}, "tracked client %d dropped without having been sent a query" %
                                        conn.claimed))
            else:
                age = now - conn.t_accept[0]
                if age <= 2.0:
                    divs.append(Div({"P06", "P18", "P08"} | refused,
                                    "connection without handshake closed after only %.3f s" % age))
        self.begin("disconnect", ("P03", "P01"))
        conn.closed = True
        conn.groups = []
        for sub_id in conn.subs:
            del self.subs[sub_id]
        conn.subs = set()
        otime = OTime(t0, now + 0.01)
        owned = [s for s in self.services.values() if s.conn == cid]
        for s in owned:
            s.conn = None
            s.otime = otime
            s.due_polls = 0
        for s in owned:
            self.changed(s.props, s, s.sid, {"P03"})
        self.end()
        self.conns.pop(cid)
        return divs

    # --- sending

    def on_send(self, cid, m, raw, now):
        """The server sends message m on connection cid; [] if that is what it owes."""
        conn = self.conns[cid]
        conn.taken = None
        what = "sent to %s: %s" % (conn.claimed if conn.claimed is not None else "connection %d" % cid,
                                   raw[:600])
        if conn.must_close:
            tags = {"P06", "P07"}
            if conn.must_close.startswith("malformed message"):
                tags.add("P13")
                if conn.versioned:
                    # fine in the version that was not selected
                    tags.add("P08")
            elif conn.must_close.startswith(TRACK_VIOLATIONS):
                tags.add("P25")
            return [Div(tags, "message after a protocol violation (%s), %s" % (conn.must_close, what))]
        cmd, ta, mt = m["ta-cmd"], m["ta-id"], m["msg-type"]
        if ta in conn.fuzzy:
            return []
        again = {"P16"} if raw in conn.recent else set()
        conn.recent = (raw,) + conn.recent[:3]
        if cmd == "track" and mt == "notify" and m["track-type"] == "query":
            return self.on_query(conn, ta, now, what)
        # the first group that still owes something
        first = None
        for g in conn.groups:
            if g.exps:
                first = g
                break
        cands = []
        if first is not None:
            exp = self.match_in(first, cmd, ta, mt, m, cands)
            if exp is not None:
                exp.adopt(m)
                first.exps.remove(exp)
                if conn.query_win:
                    conn.query_win = [q for q in conn.query_win if q[1] is None or q[1] > first.seq]
                if not first.exps:
                    conn.groups = [g for g in conn.groups if g.exps]
                return []
        # diagnosis
        for g in conn.groups:
            if g is first:
                continue
            if self.match_in(g, cmd, ta, mt, m, []) is not None:
                tags = {"P16"}
                if cmd == "subscribe":
                    tags.add("P01")
                return [Div(tags, "message overtakes an earlier one (%s), %s" % (first.exps[0].brief(), what))]
        return [self.diagnose(conn, first, cmd, ta, mt, m, cands, what, again)]

    def match_in(self, g, cmd, ta, mt, m, cands):
        """The matching expectation in group g; else near misses are added to cands."""
        seen_keys = set()
        barrier = False
        any_before = False
        for e in g.exps:
            if e.ta != ta:
                continue
            ok = not barrier and (not any_before if e.key is None else e.key not in seen_keys)
            if e.cmd == cmd and e.type == mt:
                d = e.diff(m)
                if not d:
                    if ok:
                        return e
                    cands.append((e, [("order", "sent before what has to precede it in its transaction")], ok))
                else:
                    cands.append((e, d, ok))
            any_before = True
            if e.key is None:
                barrier = True
            else:
                seen_keys.add(e.key)
        return None

    FIELD_TAGS = {
        "orphan-since": {"P03"}, "client-id": {"P02"}, "generation": {"P02"}, "service-props": {"P02", "P13"},
        "ttl": {"P02", "P13"}, "filter": {"P12", "P22"}, "latency": {"P25", "P22"}, "idle": {"P22"},
        "protocol-version": {"P08"}, "fail-reason": {"P07"}, "track-type": {"P25"}, "order": {"P07"},
    }

    MAY_LACK = {"generation", "service-props", "ttl", "client-id", "orphan-since", "filter", "latency"}

    def diagnose(self, conn, first, cmd, ta, mt, m, cands, what, again):
        tags = set(again)
        # same object, different content
        key = m.get("service-id", m.get("subscription-id", m.get("client-id")))
        near = [c for c in cands if c[0].key == key] or [c for c in cands if c[0].key is None]
        if near:
            e, d, ok = near[0]
            tags |= e.tags
            for f, t in d:
                tags |= self.FIELD_TAGS.get(f, set())
                if f == "order":
                    # what has been left out is what is wrong
                    for g in conn.groups:
                        for x in g.exps:
                            if x.ta == ta and x is not e:
                                tags |= x.tags
                if f in self.MAY_LACK and f not in m:
                    tags.add("P07")
            if first is not None:
                tags |= first.tags
            return Div(tags, "%s; %s" % ("; ".join(t for f, t in d), what))
        owed = [e for g in conn.groups for e in g.exps if e.ta == ta]
        if owed and mt in ("complete", "fail", "accept") or (owed and cmd != owed[0].cmd):
            e = owed[0]
            tags |= e.tags | {"P07"}
            if first is not None:
                tags |= first.tags
            if mt == "fail":
                r = m.get("fail-reason")
                tags |= {"permission-denied": {"P04"}, "insufficient-resources": {"P05"},
                         "client-id-exists": {"P10"}, "invalid-filter-syntax": {"P12"},
                         "unsupported-protocol-version": {"P08"}, "no-hello": {"P08"},
                         "track-exists": {"P25"}}.get(r, set())
            return Div(tags, "owed %s instead, %s" % (e.brief(), what))
        if cmd == "subscribe" and mt == "notify":
            tags |= {"P01"}
            sid = m["service-id"]
            s = self.services.get(sid)
            if s is None:
                if self.gone.get(sid) == "expired":
                    tags |= {"P03"}
            elif s.otime is not None:
                tags |= {"P03"}
            if ta not in conn.tas:
                tags |= {"P07"}
            if s is not None and not any(sub.ta == ta and sub.conn == conn.id and self.matches(sub, s.props)
                                         for sub in self.subs.values()):
                tags |= {"P11"}
            state = "none" if s is None else "gen %d owner %d%s" % (s.gen, s.owner, " orphan" if s.otime else "")
            return Div(tags, "notification nothing calls for (service: %s), %s" % (state, what))
        if mt == "notify" and cmd in ("services", "subscriptions", "clients"):
            tags |= {"P22"}
            if cmd == "services":
                why = self.gone.get(m["service-id"])
                if why == "expired":
                    tags |= {"P03"}
                elif why == "unpublished":
                    tags |= {"P02"}
            return Div(tags, "listing entry that should not be there, %s" % what)
        return Div({"P07"} | tags | ({"P25"} if cmd == "track" else set()), "message nothing calls for, %s" % what)

    def on_query(self, conn, ta, now, what):
        if conn.track_ta != ta:
            return [Div({"P25", "P07"}, "track query outside the track transaction, %s" % what)]
        for g in conn.groups:
            if any(e.ta == ta and e.type == "accept" for e in g.exps):
                return [Div({"P25", "P07"}, "track query before the track transaction was accepted, %s" % what)]
        if conn.query_out is not None:
            return [Div({"P25", "P09"}, "second track query while one is outstanding, %s" % what)]
        if now >= conn.last_rx[0] + 0.45 * conn.m_lo - 0.001:
            self.may_query(conn, conn.last_rx[0] + 0.45 * conn.m_lo, conn.pre_query)
        if not conn.query_win:
            return [Div({"P09", "P25"},
                        "track query %.3f s after the last message (max idle time %s s), %s" %
                        (now - conn.last_rx[1], conn.m_lo, what))]
        for g in conn.groups:
            if g.exps and g.seq <= conn.query_win[0][2]:
                return [Div({"P16"}, "track query overtakes an earlier message (%s), %s" % (g.exps[0].brief(), what))]
        conn.query_must = False
        conn.query_out = (conn.query_win[0][0], now)
        conn.query_win = []
        return []

    # --- bounded progress, checked when the server goes to sleep

    def at_poll(self, t_prev, now, slack, count=1):
        """t_prev: when the previous sleep ended; slack(t): delays suffered since t."""
        divs = []
        for conn in self.conns.values():
            if conn.must_close:
                conn.close_polls += count
                if conn.close_polls > 3:
                    divs.append(Div({"P06", "P13", "P25", "P07"} | ({"P08"} if conn.versioned else set()) if conn.must_close != "connection lost"
                                    else {"P06", "P03", "P10", "P17"},
                                    "connection not closed in spite of: %s" % conn.must_close))
            elif conn.handshaked:
                if conn.version >= 3:
                    if now >= conn.last_rx[0] + 0.45 * conn.m_lo - 0.001:
                        self.may_query(conn, conn.last_rx[0] + 0.45 * conn.m_lo, conn.pre_query)
                    else:
                        conn.pre_query = self.cause_seq
                    if t_prev > self.idle_drop_latest(conn) + slack(conn.last_rx[0]):
                        divs.append(Div({"P09"}, "client %d not disconnected although silent for %.3f s "
                                        "(max idle time %s s)" % (conn.claimed, t_prev - conn.last_rx[1], conn.m_hi)))
            else:
                if conn.claimed is None and not conn.may_close and t_prev - conn.t_accept[1] > 4.0 + slack(conn.t_accept[0]):
                    divs.append(Div({"P18"}, "connection without hello not dropped after %.3f s" %
                                    (t_prev - conn.t_accept[1])))
                elif conn.claimed is not None and not conn.may_close:
                    # its hellos have been refused
                    if self.id_known(conn.claimed):
                        conn.unknown_since = None
                    elif conn.unknown_since is None:
                        conn.unknown_since = (t_prev, now)
                    elif t_prev - max(conn.unknown_since[1], conn.t_accept[1]) > 4.0 + slack(conn.t_accept[0]):
                        divs.append(Div({"P18"}, "connection %.3f s old, whose hellos have been refused, not dropped "
                                        "although no client %d has been there for %.3f s" %
                                        (t_prev - conn.t_accept[1], conn.claimed, t_prev - conn.unknown_since[1])))
        return divs

    def force_expiries(self, t_prev, count=1):
        """Orphans whose time was up when the previous sleep ended, several times in a row."""
        res = []
        for s in self.services.values():
            if s.otime is not None and s.otime.hi + s.ttl <= t_prev:
                s.due_polls += count
                if s.due_polls >= 3:
                    res.append(s)
        res.sort(key=lambda s: (s.otime.hi + s.ttl, s.sid))
        for s in res:
            self.expire(s.sid)

    def owed(self, cid):
        conn = self.conns.get(cid)
        return [] if conn is None else [(g, e) for g in conn.groups for e in g.exps]

    def signature(self):
        """Equal for worlds which cannot be told apart any more."""
        return (frozenset((s.sid, s.gen, s.owner, s.conn, s.ttl, s.user, freeze(s.props), window(s.otime))
                          for s in self.services.values()),
                frozenset((i, s.conn, s.text) for i, s in self.subs.items()),
                tuple((c.id, tuple([e.signature() for g in c.groups for e in g.exps]),
                       c.handshaked, bool(c.must_close), bool(c.may_close), c.m_lo, c.m_hi, c.last_rx, c.dup_at,
                       c.track_ta, c.query_out is None, len(c.query_win), c.query_must)
                      for c in self.conns.values()))


def window(o):
    return None if o is None else (o.lo, o.hi)


def freeze(v):
    if isinstance(v, dict):
        return frozenset((k, freeze(x)) for k, x in v.items())
    if isinstance(v, (set, frozenset)):
        return frozenset(freeze(x) for x in v)
    if isinstance(v, (list, tuple)):
        return tuple(freeze(x) for x in v)
    return v


def parse_sent(raw):
    try:
        return json.loads(raw.decode("utf-8"))
    except (ValueError, RecursionError):
        return None
