"""P17: what the server keeps must be bounded by what is alive.

The same small amount of activity is repeated many times, always returning to
the same logical state, with identifiers, users, keys and texts that never
recur. At the quiescent point of a cycle everything reachable from the
server's stack frames and modules is counted (objects, and elements of
containers). State that outlives its cause shows as sustained growth.
"""

import atexit
import collections
import gc
import logging
import sys
import threading
import types

from pv import world
from pv.world import SETTLE, sleep

SKIP_TYPES = (types.ModuleType, types.FrameType, types.CodeType, types.BuiltinFunctionType)


def roots():
    """Locals of the server's frames, and its modules' state."""
    res = []
    f = sys._getframe()
    while f is not None:
        if f.f_code.co_filename.startswith(world.REPO + "/"):
            res.append(dict(f.f_locals))
        f = f.f_back
    for name, mod in list(sys.modules.items()):
        if name == "paf" or name.startswith("paf."):
            for k, v in list(vars(mod).items()):
                if not (k.startswith("__") and k.endswith("__")):
                    res.append(v)
    # registries outside the server, where it may leave things
    res += [dict(logging.root.manager.loggerDict), list(logging.root.handlers), list(logging.root.filters),
            list(threading.enumerate()), [0] * atexit._ncallbacks(), list(gc.callbacks), list(sys.modules)]
    return res


def skip(o):
    if isinstance(o, SKIP_TYPES):
        return True
    if isinstance(o, type):
        return not (getattr(o, "__module__", None) or "").startswith("paf")
    m = getattr(type(o), "__module__", None)
    return m is not None and (m.startswith("pv") or m in ("logging", "ctypes", "_ctypes", "select", "threading",
                                                          "random"))


def measure():
    """(objects, elements, {type: elements}) reachable."""
    gc.collect()
    seen = set()
    todo = list(roots())
    keep = []
    objs = 0
    elems = 0
    by_type = collections.Counter()
    while todo:
        o = todo.pop()
        if id(o) in seen or skip(o):
            continue
        seen.add(id(o))
        keep.append(o)
        objs += 1
        t = type(o).__name__
        by_type[t] += 1
        if isinstance(o, types.FunctionType):
            if not (o.__module__ or "").startswith("paf"):
                continue
            todo.extend(x for x in (o.__defaults__, o.__kwdefaults__, o.__dict__) if x)
            todo.extend(c.cell_contents for c in o.__closure__ or () if _filled(c))
            continue
        if isinstance(o, (dict, set, frozenset, list, tuple, collections.deque)):
            elems += len(o)
            by_type["elements of " + t] += len(o)
        elif isinstance(o, (bytearray,)):
            elems += len(o) // 16
        elif isinstance(o, (str, bytes, int, float)):
            continue
        if hasattr(o, "cache_info"):
            n = o.cache_info().currsize
            elems += n
            by_type["cache of " + getattr(o, "__qualname__", t)] += n
        if isinstance(o, type):
            for k, v in list(vars(o).items()):
                if not (k.startswith("__") and k.endswith("__")):
                    todo.append(v)
            continue
        todo.extend(gc.get_referents(o))
    return objs, elems, by_type


def _filled(c):
    try:
        c.cell_contents
        return True
    except ValueError:
        return False


class Retention:
    """A workload: `cycles` times the same, measured late."""

    def __init__(self, kind, cycles, marks):
        self.kind = kind
        self.cycles = cycles
        self.marks = marks
        self.points = []

    def __call__(self, ctl):
        self.ctl = ctl
        return self.run()

    def run(self):
        ctl = self.ctl
        self.n = 10 ** 6
        self.resident = None
        if self.kind not in ("clients", "refused"):
            self.resident = yield from self.login()
            self.resident.keepalive = False
        for i in range(1, self.cycles + 1):
            yield from getattr(self, "cycle_" + self.kind)()
            if i in self.marks:
                yield SETTLE
                # longer than any timer
                yield sleep(130.0 if self.resident is None else 20.0)
                yield SETTLE
                self.points.append((i, measure()))
                ctl.mon.counts["reachability measurements"] += 1
        ctl.mon.counts["retention cycles"] += self.cycles
        self.judge()

    def judge(self):
        # sustained growth, in both segments; bounded caches are full by now
        (i0, m0), (i1, m1), (i2, m2) = self.points[-3:]
        for idx, what in ((0, "objects"), (1, "container elements")):
            g1, g2 = m1[idx] - m0[idx], m2[idx] - m1[idx]
            if g1 >= max(8, (i1 - i0) * 0.06) and g2 >= max(8, (i2 - i1) * 0.06):
                top = (m2[2] - m1[2]).most_common(6)
                self.ctl.mon.problem({"P17"}, "state is retained: %s reachable from the server grew from %d to %d and %d "
                                     "over cycles %d, %d and %d of %r, each ending where it began; growth by type: %s" %
                                     (what, m0[idx], m1[idx], m2[idx], i0, i1, i2, self.kind, top))
                return

    def fresh(self):
        self.n += 1
        return self.n

    def connect(self):
        n = self.fresh()
        ctl = self.ctl
        sock = ctl.rng.randrange(3)
        return ctl.connect(0, sock, ip="10.%d.%d.%d" % (n >> 16 & 255, n >> 8 & 255, n & 255),
                           ski=n.to_bytes(4, "big"))

    def login(self, cid=None, vr=(2, 3)):
        p = self.connect()
        p.hello(self.fresh() if cid is None else cid, *vr)
        p.auto_reply = True
        yield SETTLE
        return p

    def work(self, p, leave=False):
        """All sorts of requests, with nothing remaining unless leave."""
        rng = self.ctl.rng
        sid, sub = self.fresh(), self.fresh()
        key = "key%d" % self.fresh()
        p.request("publish", service_id=sid, generation=1, service_props={key: ["v%d" % sid, sid]}, ttl=3)
        p.request("subscribe", subscription_id=sub, filter="(&(%s=*)(%s>%d))" % (key, key, sid - 1))
        p.request("publish", service_id=sid, generation=2, service_props={key: ["w%d" % sid, sid, 1]}, ttl=2)
        p.request("services", filter="(%s=*%d)" % (key, sid))
        p.request(rng.choice(["subscriptions", "clients", "ping"]))
        p.request("publish", service_id=sid, generation=1, service_props={}, ttl=2)
        p.request("unsubscribe", subscription_id=self.fresh())
        p.request("unpublish", service_id=self.fresh())
        p.request("subscribe", subscription_id=self.fresh(), filter="(%s" % key)
        p.request("subscribe", subscription_id=sub)
        yield SETTLE
        if not leave:
            p.request("unsubscribe", subscription_id=sub)
            p.request("unpublish", service_id=sid)
            yield SETTLE

    def cycle_clients(self):
        """Clients of ever new users come, work and go, in all ways."""
        rng = self.ctl.rng
        r = rng.randrange(9)
        if r == 8:
            # never says hello
            p = self.connect()
            p.request("ping")
            yield sleep(rng.choice([0.5, 4.5]))
            p.close()
            yield SETTLE
            return
        p = yield from self.login(vr=rng.choice([(2, 2), (2, 3)]))
        if r == 7:
            # refused
            q = self.connect()
            q.hello(p.client_id, 2, 3)
            yield SETTLE
            q.close()
        if r % 2 and p.conn is not None and p.conn.version == 3:
            p.request("track")
            p.track_ta = p.next_ta - 1
            yield SETTLE
            p.inform("query")
        yield from self.work(p, leave=r < 5)
        if r == 4:
            # orphan taken over by another client, who unpublishes it
            p.close()
            q = self.ctl.connect(0, 0, ip="10.1.1.1", ski=b"\1\1\1\1")
            q.hello(self.fresh(), 2, 3)
            yield SETTLE
            for s in list(self.ctl.model(0).services.values()):
                q.request("publish", service_id=s.sid, generation=s.gen + 1, service_props={}, ttl=1)
                q.request("unpublish", service_id=s.sid)
            yield SETTLE
            q.close()
        elif r == 3:
            # reclaimed by its owner
            q = self.ctl.connect(0, 0, ip="10.9.9.9", ski=b"\1\1\1\2")
            cid = self.fresh()
            q.hello(cid, 2, 3)
            sid = self.fresh()
            q.request("publish", service_id=sid, generation=1, service_props={}, ttl=5)
            yield SETTLE
            q.close()
            yield SETTLE
            q = self.ctl.connect(0, 0, ip="10.9.9.9", ski=b"\1\1\1\2")
            q.hello(cid, 2, 3)
            q.request("publish", service_id=sid, generation=2, service_props={}, ttl=1)
            yield SETTLE
            q.close()
            p.reset()
        elif r == 2:
            p.stall(0)
            p.request("services")
            yield SETTLE
            p.reset()
        elif r == 1:
            # thrown out
            p.send(b"nonsense", raw=True)
        else:
            p.close()
        yield SETTLE
        if rng.random() < 0.1:
            yield sleep(6.0)

    def cycle_refused(self):
        """Ever new users, who get nothing, or less than they ask for."""
        rng = self.ctl.rng
        p = self.connect()
        cid = self.fresh()
        if rng.random() < 0.2:
            p.request("services")
        if rng.random() < 0.2:
            p.hello(cid, rng.choice([0, 4]), rng.choice([1, 2 ** 62]))
            yield SETTLE
        for _ in range(rng.choice([1, 2])):
            p.hello(cid if rng.random() < 0.9 else self.fresh(), 2, 3)
            yield SETTLE
        sids = [self.fresh() for _ in range(rng.choice([1, 3]))]
        for sid in sids:
            p.request("publish", service_id=sid, generation=1, service_props={"k%d" % sid: [sid]}, ttl=1)
            p.request("subscribe", subscription_id=self.fresh(), filter="(k%d=*)" % sid)
        yield SETTLE
        if rng.random() < 0.5:
            for sid in sids:
                p.request("unpublish", service_id=sid)
            yield SETTLE
        p.close() if rng.random() < 0.7 else p.reset()
        yield SETTLE
        if rng.random() < 0.2:
            yield sleep(3.0)

    def cycle_requests(self):
        """One client issues all kinds of requests for ever."""
        p = self.resident
        yield from self.work(p)
        if p.conn is not None and p.conn.version == 3:
            if p.conn.track_ta is None:
                p.request("track")
                yield SETTLE
            p.inform("query", p.conn.track_ta)
        yield SETTLE

    def cycle_takeover(self):
        """A client keeps taking over what others leave behind; their services outlive them."""
        p = self.resident
        ctl = self.ctl
        m = ctl.model(0)
        user = p.sim
        q = ctl.connect(0, 0, **self.same_user(p))
        q.hello(self.fresh(), 2, 3)
        sid = 4711
        s = m.services.get(sid)
        gen = 1 if s is None else s.gen
        q.request("publish", service_id=sid, generation=gen + 1, service_props={"k%d" % self.fresh(): ["v"]}, ttl=50)
        yield SETTLE
        if ctl.rng.random() < 0.5:
            q.close()
            yield SETTLE
            p.request("publish", service_id=sid, generation=gen + 2, service_props={}, ttl=50)
        else:
            p.request("publish", service_id=sid, generation=gen + 2, service_props={}, ttl=50)
            yield SETTLE
            q.close()
        yield SETTLE

    def cycle_returns(self):
        """A client which comes and goes under the same id, always leaving something behind."""
        rng = self.ctl.rng
        p = self.resident
        cid = p.client_id
        sid = self.fresh()
        p.request("publish", service_id=sid, generation=1, service_props={"k%d" % sid: [sid]}, ttl=rng.choice([1, 2]))
        if rng.random() < 0.5:
            p.request("subscribe", subscription_id=self.fresh())
        yield SETTLE
        p.close() if rng.random() < 0.7 else p.reset()
        yield SETTLE
        old = self.resident
        self.resident = p = self.ctl.connect(0, 0, **self.same_user(old))
        p.auto_reply = True
        p.hello(cid, 2, 3)
        yield SETTLE
        r = rng.randrange(5)
        if r == 0:
            p.request("publish", service_id=sid, generation=2, service_props={}, ttl=1)
            p.request("unpublish", service_id=sid)
        elif r == 1:
            p.request("unpublish", service_id=sid)
        elif r == 2:
            # someone else takes care of it
            q = self.ctl.connect(0, 0, **self.same_user(old))
            q.hello(self.fresh(), 2, 3)
            if rng.random() < 0.5:
                q.request("publish", service_id=sid, generation=2, service_props={}, ttl=1)
            q.request("unpublish", service_id=sid)
            yield SETTLE
            q.close()
        if r < 3:
            # or else there is a time without any
            p.request("publish", service_id=self.fresh(), generation=1, service_props={}, ttl=2)
            yield SETTLE
            p.close()
            yield SETTLE
            self.resident = p = self.ctl.connect(0, 0, **self.same_user(old))
            p.auto_reply = True
            p.hello(cid, 2, 3)
            yield SETTLE
        yield sleep(rng.choice([0, 1.2, 2.5]))

    def same_user(self, p):
        return {"ip": "10.2.2.2", "ski": b"\2\2\2\2"}


class Takeover(Retention):
    def login(self, cid=None, vr=(2, 3)):
        p = self.ctl.connect(0, 0, ip="10.2.2.2", ski=b"\2\2\2\2")
        p.hello(self.fresh(), *vr)
        yield SETTLE
        return p


def make(kind, cycles=600, marks=(300, 450, 600)):
    cls = Takeover if kind in ("takeover", "returns") else Retention
    return cls(kind, cycles, marks)
