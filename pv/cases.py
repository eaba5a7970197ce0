"""Scripted histories: one situation each, with seeded details."""

import json
import random

from pv import wellformed
from pv.world import SETTLE, sleep

SPEC = {"domains": [{"sockets": ["ux:x0", "tcp:0.0.0.0:4712"]}]}


def oversize(seed):
    """A property text within the limits of a request that outgrows a message on its way out."""
    rng = random.Random(seed)
    how = seed % 3
    text = {0: "\u00e5", 1: "\u20ac", 2: "\U0001f600"}[seed // 3 % 3]
    factor = len(text.encode())

    def script(ctl):
        pub = ctl.connect(0)
        sub = ctl.connect(0)
        other = ctl.connect(0)
        for i, p in enumerate((pub, sub, other)):
            p.hello(10 + i)
        yield SETTLE
        for p in (sub, other):
            if how == 0:
                p.request("subscribe", subscription_id=20 + p.client_id, filter=None if p is sub else "(name=x)")
        yield SETTLE
        m = {"ta-cmd": "publish", "ta-id": pub.ta(), "msg-type": "request", "service-id": 5, "generation": 1,
             "service-props": {"name": [text * ((60000 + rng.randrange(3000)) // factor)]}, "ttl": 30}
        pub.send(json.dumps(m, ensure_ascii=False).encode(), raw=True)
        yield SETTLE
        if how == 1:
            sub.request("services")
        elif how == 2:
            sub.request("subscribe", subscription_id=77)
        yield SETTLE
        other.request("ping")
        yield SETTLE
    return script


BIG = [70, 99, 101, 127, 129, 150, 199, 201, 230, 257, 300, 401, 513]


def population(seed):
    """Far more services, subscriptions and clients than usual, listed, matched, orphaned and claimed again."""
    rng = random.Random(seed)
    kind = ["services", "subscriptions", "clients", "orphans"][seed % 4]

    def props(i):
        return {"name": [rng.choice(["x", "y", "é%s"])], "no": [i], "area": [i // 10, "a*"]}

    def script(ctl):
        n = rng.choice(BIG if kind in ("services", "orphans") else BIG[:9])
        ps = [ctl.connect(0, rng.randrange(2)) for _ in range(rng.choice([2, 3, 5]))]
        for i, p in enumerate(ps):
            p.hello(10 + i, 2, rng.choice([2, 3, 3]))
            p.keepalive = True
        yield SETTLE
        a = ps[0]
        if kind in ("services", "orphans"):
            early = rng.random() < 0.5
            if early:
                ps[1].request("subscribe", subscription_id=5000)
            ids = list(range(1000, 1000 + n))
            rng.shuffle(ids)
            for i, sid in enumerate(ids):
                p = a if rng.random() < 0.9 else rng.choice(ps)
                p.request("publish", service_id=sid, generation=1, service_props=props(sid), ttl=rng.choice([20, 30, 60]))
                if i % 25 == 24:
                    yield SETTLE
            yield SETTLE
            reader = rng.choice(ps[1:])
            reader.request("services")
            yield SETTLE
            reader.request("services", filter=rng.choice(["(no>1050)", "(!(no=1050))", "(area=a\\*)", "(name=x)"]))
            reader.request("subscribe", subscription_id=5001)
            yield SETTLE
            if kind == "orphans":
                a.close()
                yield SETTLE
                reader.request("services")
                yield SETTLE
                yield sleep(rng.choice([1, 5, 19.5]))
                reader.request("ping")
                b = ctl.connect(0)
                b.hello(77)
                yield SETTLE
                for i, sid in enumerate(ids):
                    if rng.random() < 0.6:
                        b.request("publish", service_id=sid, generation=rng.choice([1, 2]), service_props=props(sid),
                                  ttl=30)
                    elif rng.random() < 0.3:
                        b.request("unpublish", service_id=sid)
                    if i % 25 == 24:
                        yield SETTLE
                yield SETTLE
                b.request("services")
                yield SETTLE
                yield sleep(21)
                b.request("services")
            else:
                for i, sid in enumerate(rng.sample(ids, n * 2 // 3)):
                    a.request("unpublish", service_id=sid)
                    if i % 25 == 24:
                        yield SETTLE
                yield SETTLE
                reader.request("services")
        elif kind == "subscriptions":
            subs = list(range(1000, 1000 + n))
            rng.shuffle(subs)
            for i, s in enumerate(subs):
                rng.choice(ps).request("subscribe", subscription_id=s,
                                       filter=rng.choice([None, "(no>%d)" % rng.randrange(8), "(name=x)"]))
                if i % 25 == 24:
                    yield SETTLE
            yield SETTLE
            ps[1].request("subscriptions")
            yield SETTLE
            for i in range(3):
                a.request("publish", service_id=i, generation=1, service_props=props(i), ttl=60)
                yield SETTLE
            a.request("publish", service_id=1, generation=2, service_props=props(7), ttl=60)
            a.request("unpublish", service_id=2)
            yield SETTLE
            for s in rng.sample(subs, n // 2):
                rng.choice(ps).request("unsubscribe", subscription_id=s)
            yield SETTLE
            ps[1].request("subscriptions")
            yield SETTLE
            if rng.random() < 0.5:
                ps[1].close()
            else:
                a.close()
            yield SETTLE
            ps[-1].request("ping")
        else:
            n = min(n, 150)
            some = []
            for i in range(n):
                p = ctl.connect(0, rng.randrange(2))
                p.hello(1000 + i, 2, rng.choice([2, 3]))
                p.keepalive = True
                some.append(p)
                if i % 20 == 19:
                    yield SETTLE
            yield SETTLE
            for p in rng.sample(some, n // 3):
                p.request(rng.choice(["track", "ping", "clients" if rng.random() < 0.1 else "ping"]))
            for p in rng.sample(some, n // 3):
                p.request("publish", service_id=p.client_id, generation=1, service_props=props(1), ttl=rng.choice([8, 30]))
            yield SETTLE
            a.request("clients")
            yield SETTLE
            for p in rng.sample(some, n * 2 // 3):
                p.close()
            yield rng.choice([SETTLE, sleep(2)])
            yield SETTLE
            ps[1].request("clients")
            ps[1].request("services")
        yield SETTLE
    return script


LONG = [3000, 3599, 3600, 3601, 7200, 86399, 86400, 86401, 100000, 604800, 2592000, 31536000, 2 ** 31 - 1, 2 ** 31, 2 ** 31 + 1,
        2 ** 32, 2 ** 32 + 5]


def longevity(seed):
    """Services that outlive their owners by hours, days, years; and clients with idle limits as long as that."""
    rng = random.Random(seed)

    def script(ctl):
        ttls = sorted(rng.sample(LONG if seed % 3 else LONG[:11], rng.choice([2, 3, 5])))
        owner = ctl.connect(0, 0)
        owner.hello(10, 2, 2)
        yield SETTLE
        for i, t in enumerate(ttls):
            owner.request("publish", service_id=100 + i, generation=1, service_props={"name": ["x"], "no": [i]}, ttl=t)
        yield sleep(rng.choice([0.5, 3, 10.25]))
        (owner.close if rng.random() < 0.7 else owner.reset)()
        yield SETTLE
        t0 = ctl.env.now

        def look(n):
            p = ctl.connect(0, 0)
            p.hello(rng.choice([10, 11, 12 + n]), 2, 2)
            p.request("services")
            p.request("subscribe", subscription_id=500 + n)
            return p
        back = None
        for i, t in enumerate(ttls):
            for early in (True, False):
                at = t0 + t + (-1 if early else 1) * rng.choice([0.02, 0.5, 1, 60])
                if at <= ctl.env.now:
                    continue
                yield sleep(at - ctl.env.now)
                p = look(2 * i + early)
                yield SETTLE
                if early and back is None and rng.random() < 0.2:
                    # claimed at the last moment, and left behind again
                    p.request("publish", service_id=100 + i, generation=2, service_props={"name": ["y"]}, ttl=t)
                    back = i
                    yield SETTLE
                yield sleep(rng.choice([0.1, 1]))
                p.close()
                yield SETTLE
        if back is not None:
            yield sleep(ttls[back] - 61)
            p = look(90)
            yield sleep(1)
            p.close()
            yield sleep(70)
            look(91)
        yield SETTLE
    return script


def longevity_spec(seed):
    lo = [4, 100, 10 ** 5][seed % 3]
    return {"domains": [{"sockets": ["ux:x0", "tcp:0.0.0.0:4712"], "idle_min": lo, "idle_max": lo * 50}]}


def patience(seed):
    """Version 3 clients with idle limits of minutes to weeks, silent or speaking at the last moment."""
    rng = random.Random(seed)
    lo = [4, 100, 10 ** 5][seed % 3]
    hi = lo * 50

    def script(ctl):
        ps = [ctl.connect(0, 0) for _ in range(3)]
        for i, p in enumerate(ps):
            p.hello(10 + i, 3, 3)
            p.keepalive = False
            p.auto_reply = i != 2
        yield SETTLE
        ps[1].request("track")
        ps[2].request("track")
        limits = []
        for p in ps:
            m = hi
            if rng.random() < 0.6:
                m = rng.choice([lo // 2, lo, lo + 1, lo * 7, hi, hi + 9])
                p.request("publish", service_id=p.client_id, generation=1, service_props={"a": [1]}, ttl=m)
            limits.append(min(hi, max(lo, m)))
        yield SETTLE
        for _ in range(rng.choice([1, 3])):
            yield sleep(0.44 * min(limits))
            for p in ps:
                if rng.random() < 0.7:
                    p.request("ping")
            yield SETTLE
        for f in (0.3, 0.3, 0.3, 0.3):
            yield sleep(f * min(limits))
        yield sleep(max(limits) * 1.2)
        yield SETTLE
    return script


def bulk(seed):
    """Services near the largest message there is: long values and keys, many values, many properties."""
    rng = random.Random(seed)
    room = rng.choice([3000, 8192, 9000, 16384, 17000, 32768, 33000, 50000, 58000, 60000])
    kind = ["value", "values", "properties", "key", "texts", "mixed"][seed % 6]
    alpha = rng.choice(["a", "ab", "xyz ", "a*\\" if room < 20000 else "a*"])

    def text(n):
        return "".join(rng.choice(alpha) for _ in range(min(n, 40))) * (n // min(n, 40)) if n else ""

    def props():
        if kind == "value":
            return {"name": [text(room)]}
        if kind == "values":
            return {"no": [i * 7 for i in range(room // 8)], "name": ["x"]}
        if kind == "properties":
            return {"k%d" % i: [i] for i in range(room // 18)}
        if kind == "key":
            return {text(room): ["x", 1], "name": ["x"]}
        if kind == "texts":
            return {"name": ["%d%s" % (i, text(50)) for i in range(room // 60)]}
        return {"k%d" % i: [text(200), i, "y%d" % i] for i in range(room // 240)}

    def script(ctl):
        ps = [ctl.connect(0) for _ in range(3)]
        for i, p in enumerate(ps):
            p.hello(10 + i, 2, rng.choice([2, 3]))
            p.keepalive = True
        yield SETTLE
        a, b, c = ps
        first = props()
        key = rng.choice(sorted(first))
        value = rng.choice(first[key])
        from pv import reffilter
        exact = "(%s=%s)" % (reffilter.escape(key), reffilter.escape(str(value)))
        part = "(%s=*%s)" % (reffilter.escape(key), reffilter.escape(str(value)[len(str(value)) // 2:]))
        flt = [f for f in (exact, part, "(%s=*)" % reffilter.escape(key)) if len(json.dumps(f)) < 60000]
        if rng.random() < 0.5:
            b.request("subscribe", subscription_id=1, filter=rng.choice(flt + [None]))
            yield SETTLE
        a.request("publish", service_id=5, generation=1, service_props=first, ttl=rng.choice([5, 30]))
        yield SETTLE
        c.request("services", filter=rng.choice(flt + [None]))
        c.request("subscribe", subscription_id=2, filter=rng.choice(flt + [None]))
        c.request("subscriptions")
        yield SETTLE
        # the very same, then all but the last of it
        other = {k: list(v) for k, v in first.items()}
        k = sorted(other)[-1]
        v = other[k].pop()
        other[k].append(v + 1 if isinstance(v, int) else (v[:-1] + "Z"))
        again = {k: list(reversed(v)) for k, v in reversed(list(first.items()))}
        steps = [(1, again), (1, other), (2, other), (1, first), (3, first)]
        for g, p in steps[:rng.randrange(1, 6)]:
            rng.choice([a, a, b]).request("publish", service_id=5, generation=g, service_props=p, ttl=30)
            yield SETTLE
        c.request("services")
        yield SETTLE
        if rng.random() < 0.5:
            a.close()
            yield SETTLE
            c.request("services", filter=rng.choice(flt + [None]))
            yield rng.choice([SETTLE, sleep(31)])
        else:
            a.request("unpublish", service_id=5)
        yield SETTLE
        c.request("services")
        yield SETTLE
    return script


def crowd(seed):
    """More than a thousand services, several hundred subscriptions or clients."""
    rng = random.Random(seed)
    kind = ["services", "subscriptions", "clients", "orphans"][seed % 4]

    def script(ctl):
        ps = [ctl.connect(0) for _ in range(3)]
        for i, p in enumerate(ps):
            p.hello(10 + i, 2, rng.choice([2, 3]))
            p.keepalive = True
        yield SETTLE
        a, b, c = ps
        if kind in ("services", "orphans"):
            n = rng.choice([1025, 1030, 1300, 2049, 2100])
            if rng.random() < 0.5:
                b.request("subscribe", subscription_id=1, filter=rng.choice(["(no>1000)", "(name=x)"]))
            for i in range(n):
                a.request("publish", service_id=i, generation=1, service_props={"no": [i], "name": ["x"]}, ttl=20)
                if i % 50 == 49:
                    yield SETTLE
            yield SETTLE
            c.request("services", filter=rng.choice([None, "(name=x)"]))
            yield SETTLE
            c.request("subscribe", subscription_id=2)
            yield SETTLE
            if kind == "orphans":
                a.close()
                yield SETTLE
                yield sleep(rng.choice([19, 21]))
                c.request("services")
                yield SETTLE
                yield sleep(3)
            else:
                for i in range(n - 40, n):
                    a.request("unpublish", service_id=i)
            yield SETTLE
            c.request("services")
        elif kind == "subscriptions":
            n = rng.choice([260, 300, 520, 1030])
            for i in range(n):
                b.request("subscribe", subscription_id=i, filter=rng.choice([None, "(name=x)", "(name=y)"]))
                if i % 50 == 49:
                    yield SETTLE
            yield SETTLE
            c.request("subscriptions")
            yield SETTLE
            a.request("publish", service_id=1, generation=1, service_props={"name": ["x"]}, ttl=20)
            yield SETTLE
            a.request("publish", service_id=1, generation=2, service_props={"name": ["y"]}, ttl=20)
            yield SETTLE
            rng.choice([a, b]).close()
            yield SETTLE
            c.request("subscriptions")
        else:
            n = rng.choice([257, 270, 300, 1030])
            some = []
            for i in range(n):
                p = ctl.connect(0)
                p.hello(1000 + i, 2, 2)
                some.append(p)
                if i % 20 == 19:
                    yield SETTLE
            yield SETTLE
            a.request("clients")
            yield SETTLE
            for p in rng.sample(some, n // 2):
                p.close()
            yield SETTLE
            a.request("clients")
        yield SETTLE
    return script


FOLK = [9, 12, 17, 33, 40, 70, 130]


def folk_spec(seed):
    n = random.Random(seed).choice(FOLK)
    total = [{}, {"services": n + 3}, {"subscriptions": n}, {"clients": n, "services": 2 * n - 5}][seed // 7 % 4]
    return {"domains": [{"sockets": ["tls:0.0.0.0:4711", "tcp:0.0.0.0:4712"]}],
            "user_limits": {"clients": 2, "services": 2, "subscriptions": 2},
            "total_limits": total}


def folk(seed):
    """Dozens of users, each filling what a user is allowed, giving some of it back and trying what is others'."""
    rng = random.Random(seed)
    n = rng.choice(FOLK)

    def script(ctl):
        ps, who = [], []
        for i in range(n):
            who.append(dict(ip="10.0.%d.%d" % (i // 200, i % 200 + 1), ski=bytes([i + 1, 7, i]) if rng.random() < 0.9 else None))
            p = ctl.connect(0, i % 2, **who[i])
            p.hello(100 + i, 2, rng.choice([2, 2, 3]))
            p.keepalive = True
            ps.append(p)
            if i % 10 == 9:
                yield SETTLE
        yield SETTLE
        order = list(range(n))
        for rnd in range(2):
            rng.shuffle(order)
            for c, i in enumerate(order):
                p = ps[i]
                for k in range(rng.choice([1, 2, 2, 3])):
                    p.request("publish", service_id=i * 10 + k, generation=rnd + 1, service_props={"name": ["x"]}, ttl=rng.choice([5, 60]))
                for k in range(rng.choice([0, 1, 2, 3])):
                    p.request("subscribe", subscription_id=i * 10 + k + rnd * 5, filter="(name=none)")
                if c % 8 == 7:
                    yield SETTLE
            yield SETTLE
            for i in rng.sample(order, n // 2):
                j = rng.randrange(n)
                r = rng.random()
                if r < 0.4:
                    ps[i].request("unpublish", service_id=j * 10)
                elif r < 0.7:
                    ps[i].request("publish", service_id=j * 10, generation=9, service_props={}, ttl=5)
                else:
                    ps[i].request("unsubscribe", subscription_id=j * 10)
            yield SETTLE
            for i in rng.sample(order, n // 3):
                ps[i].request("unpublish", service_id=i * 10 + rng.randrange(2))
        for i in rng.sample(order, n // 3):
            ps[i].close()
        yield SETTLE
        if rng.random() < 0.5:
            yield sleep(6)
        for i in range(n):
            if ps[i].gone or ps[i].sim.closed:
                p = ctl.connect(0, i % 2, **who[i])
                p.hello(100 + i, 2, 2)
                p.keepalive = True
                for k in range(3):
                    p.request("publish", service_id=i * 10 + k, generation=20, service_props={}, ttl=60)
                p.request("services", filter="(name=none)")
        yield SETTLE
    return script


def returns_spec(seed):
    return {"domains": [{"sockets": ["tcp:0.0.0.0:4711"]}]}


def returns(seed):
    """One client that comes and goes dozens of times, leaving a service behind each time."""
    rng = random.Random(seed)
    n = rng.choice([9, 12, 18, 34, 40, 66])
    ours, theirs = dict(ip="10.0.0.1"), dict(ip="10.0.0.2")

    def script(ctl):
        w = ctl.connect(0, 0, **ours)
        w.hello(5, 2, 2)
        w.request("subscribe", subscription_id=1)
        t = ctl.connect(0, 0, **theirs)
        t.hello(6, 2, 2)
        for k in range(3):
            t.request("publish", service_id=7000 + k, generation=1, service_props={}, ttl=9)
        yield SETTLE
        left = []
        for i in range(n):
            p = ctl.connect(0, 0, **ours)
            p.hello(77, 2, rng.choice([2, 3]))
            for k in range(rng.choice([1, 1, 2])):
                p.request("publish", service_id=i * 10 + k, generation=1, service_props={"no": [i]}, ttl=rng.choice([50, 100, 1000]))
                left.append(i * 10 + k)
            if left and rng.random() < 0.1:
                p.request("publish", service_id=rng.choice(left), generation=rng.choice([1, 2]), service_props={"no": [1]}, ttl=1000)
            if rng.random() < 0.2:
                p.request("subscribe", subscription_id=100 + i, filter=rng.choice(["(no=%d)" % i, "(no>3)"]))
                if rng.random() < 0.5:
                    p.request("unsubscribe", subscription_id=100 + i - rng.choice([0, 0, 0, 1]))
            if rng.random() < 0.2:
                k = 3000 + i
                p.request("publish", service_id=k, generation=1, service_props={}, ttl=5)
                p.request("unpublish", service_id=k)
            if rng.random() < 0.2:
                # what belongs to another user
                k = rng.randrange(3)
                if rng.random() < 0.5:
                    p.request("publish", service_id=7000 + k, generation=rng.choice([1, 2]), service_props={}, ttl=9)
                else:
                    p.request("unpublish", service_id=7000 + k)
            if i > 4 and rng.random() < 0.3:
                # what another client of the user has published, gone or not, becomes ours
                o = ctl.connect(0, 0, **ours)
                o.hello(99, 2, 2)
                for k in range(rng.choice([1, 3])):
                    o.request("publish", service_id=5000 + k, generation=i, service_props={"no": [i]}, ttl=60)
                yield SETTLE
                gone = rng.random() < 0.7
                if gone:
                    o.close()
                    yield SETTLE
                for k in range(3):
                    how = rng.choice(["same", "higher", "unpublish"])
                    if how == "unpublish":
                        p.request("unpublish", service_id=5000 + k)
                    else:
                        p.request("publish", service_id=5000 + k, generation=i + (how == "higher"), service_props={"no": [i]}, ttl=60)
                w.request("services")
                yield SETTLE
                if not gone:
                    o.close()
                    yield SETTLE
                o = ctl.connect(0, 0, **theirs)
                o.hello(99, 2, 2)
                yield SETTLE
                o.close()
                for k in range(3):
                    if rng.random() < 0.8:
                        p.request("unpublish", service_id=5000 + k)
            yield SETTLE
            p.close()
            yield rng.choice([SETTLE, SETTLE, sleep(0.7), sleep(3)])
            yield SETTLE
        w.request("services")
        yield SETTLE
        q = ctl.connect(0, 0, **ours)
        who = rng.choice([77, 78])
        q.hello(who, 2, 2)
        for sid in rng.sample(left, len(left) * 2 // 3):
            if rng.random() < 0.7:
                q.request("publish", service_id=sid, generation=5, service_props={"no": [2]}, ttl=40)
            else:
                q.request("unpublish", service_id=sid)
        yield SETTLE
        w.request("services")
        yield SETTLE
        q.close()
        yield SETTLE
        yield sleep(rng.choice([39, 41, 60]))
        w.request("services")
        yield SETTLE
        yield sleep(1000)
        w.request("services")
        yield SETTLE
    return script


SHARES = 120


def judged(seed):
    """The enumerated variants of client messages, each on a connection of its own."""
    rng = random.Random(seed)
    mine = wellformed.share(seed, SHARES)

    def script(ctl):
        w = ctl.connect(0)
        w.hello(5, 2, 2)
        w.request("subscribe", subscription_id=1)
        yield SETTLE
        n = 1000
        for i in range(0, len(mine), 8):
            ps = []
            for v, m, change in mine[i:i + 8]:
                n += 1
                p = ctl.connect(0, rng.randrange(2))
                if v is not None:
                    p.hello(n, v, v)
                ta = None
                if m.get("msg-type") == "inform" and v == 3:
                    p.request("track")
                    ta = p.track_ta = p.next_ta - 1
                ps.append((p, wellformed.encode(m, ta if ta is not None else p.ta(), n, change)))
            yield SETTLE
            for p, raw in ps:
                p.send(raw, raw=True)
            yield SETTLE
            for p, raw in ps:
                if not p.sim.closed:
                    p.request("ping" if p.conn is not None and p.conn.handshaked else "clients", ta=BIG_TA)
            if rng.random() < 0.3:
                w.request("services")
            yield SETTLE
            for p, raw in ps:
                p.close()
            yield SETTLE
        w.request("services")
        yield SETTLE
    return script


BIG_TA = 1 << 61
