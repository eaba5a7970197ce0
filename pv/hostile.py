"""Hostile client messages: damaged, mistyped, misplaced."""

import json

from pv import refmsg

JUNK = [None, True, False, 0, -1, 1, 1.5, 1e400, -1e400, float("nan"), 2 ** 63, 2 ** 63 - 1, -2 ** 63, 2 ** 200, "", "x", "0",
        [], [1], {}, {"a": 1}, {"a": ["b"]}, [[[]]], "\u0000", "\ud800", "(", "(a=b)", {"a": [True]}, {"a": [1.0]},
        {"a": [None]}, {"a": [2 ** 63]}, 1.0, -0.0, 3e0, "1", {"a": ["b", 2.0]}, {"a": [-2 ** 63 - 1]}, {"a": "b"}, {"a": {}}, {"": [""]}]

CMDS = ["hello", "track", "subscribe", "unsubscribe", "subscriptions", "services", "publish", "unpublish", "ping",
        "clients", "", "Hello", "request", "__init__", "process", "track-request", "none"]
TYPES = ["request", "inform", "accept", "notify", "complete", "fail", "", "REQUEST", "__class__"]


def base(rng, g, p):
    cmd = rng.choice(CMDS[:10])
    m = {"ta-cmd": cmd, "ta-id": p.ta(), "msg-type": "request"}
    if cmd == "hello":
        m.update({"client-id": p.client_id if p.client_id is not None else 777, "protocol-minimum-version": 2,
                  "protocol-maximum-version": 3})
    elif cmd == "subscribe":
        m["subscription-id"] = rng.choice(g.subids)
        if rng.random() < 0.5:
            f = g.filter()
            if f is not None:
                m["filter"] = f
    elif cmd == "unsubscribe":
        m["subscription-id"] = rng.choice(g.subids)
    elif cmd == "services":
        if rng.random() < 0.5:
            f = g.filter()
            if f is not None:
                m["filter"] = f
    elif cmd == "publish":
        m.update({"service-id": rng.choice(g.sids), "generation": rng.choice([1, 2, 3]),
                  "service-props": g.props(), "ttl": rng.choice([0, 1, 5])})
    elif cmd == "unpublish":
        m["service-id"] = rng.choice(g.sids)
    return m


def dump(rng, m):
    try:
        return json.dumps(m).encode()
    except (ValueError, TypeError):
        return b"{}"


VALUES = {"int": [0, 1, 2, 3, 7], "str": ["query", "reply", "appeared", "disappeared", "no-hello", "(a=b)", "x"],
          "props": [{}, {"a": ["b", 1]}], "num": [0, 1, 2.5]}


def confused(rng, p, version):
    """Well-formed by itself (any type of message of any command, with the fields it has), but in any transaction:
    one in use, an earlier one, a fresh one."""
    cmd = rng.choice(CMDS[:10])
    mt = rng.choice(TYPES[:6] + ["inform"] * 3)
    mand, opt = {}, {}
    if mt == "request":
        mand, opt = refmsg.REQ[cmd][1:]
    elif mt == "inform":
        mand = {"track-type": "str"} if cmd == "track" else {}
    elif mt == "fail":
        mand, opt = refmsg.FAIL
    elif (cmd, mt) == ("clients", "notify"):
        mand, opt = refmsg.CLIENTS_NOTIFY[2 if version == 2 else 3]
    else:
        mand, opt = refmsg.RESP.get((cmd, mt), refmsg.NOTHING)
    tas = list(p.conn.tas) if p.conn is not None else []
    x = rng.random()
    if x < 0.5 and getattr(p, "track_ta", None) is not None:
        ta = p.track_ta
    elif x < 0.85 and tas:
        ta = rng.choice(tas)
    elif x < 0.93 and p.next_ta > 0:
        ta = rng.randrange(p.next_ta)
    else:
        ta = p.ta()
    m = {"ta-cmd": cmd, "ta-id": ta, "msg-type": mt}
    for f, kind in list(mand.items()) + [x for x in opt.items() if rng.random() < 0.5]:
        m[f] = rng.choice(VALUES[kind])
    return dump(rng, m)


def retyped(rng, m):
    """One value, at any depth, turned into its like of another type (5 into 5.0, "5", [5] or true)."""
    leaves = []

    def walk(o, put):
        if isinstance(o, dict):
            for k in o:
                walk(o[k], lambda v, k=k: o.__setitem__(k, v))
        elif isinstance(o, list):
            for i in range(len(o)):
                walk(o[i], lambda v, i=i: o.__setitem__(i, v))
        else:
            leaves.append((o, put))
    m = json.loads(dump(rng, m))
    walk(m, None)
    v, put = rng.choice(leaves)
    if isinstance(v, int):
        put(rng.choice([float(v), float(v), float(v), str(v), [v], bool(v), v + 0.5, {"value": v}]))
    elif isinstance(v, str):
        put(rng.choice([[v], len(v), {v: v}, True, None, 1.0]))
    return dump(rng, m)


def framed(rng, m, other):
    """A whole object, but not alone in its message, or in another encoding."""
    raw, text = dump(rng, m), json.dumps(m)
    x = rng.randrange(10)
    if x < 3:
        return raw + rng.choice([b" x", b"{}", b"\x00", b",", b"}", b"null", b"\n\n0", b"\xa0"])
    if x < 4:
        return raw + rng.choice([b"", b" ", b"\n"]) + dump(rng, other)
    if x < 5:
        return rng.choice([b"\xef\xbb\xbf", b"\x00", b",", b"\x0b", b"\xc2\xa0", b"//\n"]) + raw
    if x < 7:
        return text.encode(rng.choice(["utf-16", "utf-16-le", "utf-16-be", "utf-32", "utf-32-le", "utf-7"]))
    if x < 8:
        return rng.choice([b" ", b"\t", b"\r\n", b" \n \t"]) + raw + rng.choice([b"", b" ", b"\r\n", b"\t "])
    if x < 9:
        return (b"[" + raw + b"]") if rng.random() < 0.5 else json.dumps(text).encode()
    return json.dumps(m, indent=rng.choice([0, 1, "\t"]), separators=rng.choice([(",", ":"), (" , ", " : ")])).encode()


def message(rng, g, p, version):
    r = rng.random()
    m = base(rng, g, p)
    if rng.random() < 0.06:
        return framed(rng, m, base(rng, g, p))
    if rng.random() < 0.07:
        return retyped(rng, m)
    if rng.random() < 0.15:
        return confused(rng, p, version)
    if r < 0.08:
        n = rng.choice([1, 2, 5, 40, 300])
        return bytes(rng.getrandbits(8) for _ in range(n))
    if r < 0.14:
        raw = bytearray(dump(rng, m))
        for _ in range(rng.choice([1, 1, 3])):
            i = rng.randrange(len(raw))
            raw[i] = rng.getrandbits(8)
        return bytes(raw)
    if r < 0.19:
        raw = dump(rng, m)
        i = rng.randrange(len(raw))
        return raw[:i] or b"{"
    if r < 0.26:
        # any JSON but an object
        return dump(rng, rng.choice(JUNK))
    if r < 0.31:
        depth = rng.choice([50, 900, 2000, 20000])
        kind = rng.random()
        if kind < 0.4:
            return b"[" * depth + b"]" * depth
        if kind < 0.6:
            return b'{"a":' * min(depth, 10000) + b"1" + b"}" * min(depth, 10000)
        if m["ta-cmd"] in ("subscribe", "services"):
            m["filter"] = rng.choice(["(!" * depth + "(a=b)" + ")" * depth, "(!" * depth, "(" * depth,
                                      "(&(a=b)" * depth])[:60000]
            return dump(rng, m)
        return b"[" * depth
    if r < 0.5:
        # one field of the wrong type
        k = rng.choice(list(m))
        m[k] = rng.choice(JUNK)
        return dump(rng, m)
    if r < 0.58:
        k = rng.choice(list(m))
        del m[k]
        return dump(rng, m)
    if r < 0.64:
        m[rng.choice(["x", "filter", "service-id", "fail-reason", "track-type", "ttl", "", "ta_id"])] = \
            rng.choice(JUNK[3:6] + ["x"])
        return dump(rng, m)
    if r < 0.74:
        m["msg-type"] = rng.choice(TYPES)
        if m["msg-type"] == "inform" and rng.random() < 0.5:
            m = {k: m[k] for k in ("ta-cmd", "ta-id", "msg-type")}
        return dump(rng, m)
    if r < 0.8:
        m["ta-cmd"] = rng.choice(CMDS)
        return dump(rng, m)
    if r < 0.9:
        # inform, in all kinds of transactions
        c = p.conn
        tas = list(c.tas) if c is not None else []
        ta = rng.choice(tas) if tas and rng.random() < 0.7 else rng.choice([0, 1, 99999, p.next_ta])
        return dump(rng, {"ta-cmd": rng.choice(["track", "track", "track", "subscribe", "ping"]), "ta-id": ta,
                          "msg-type": "inform", "track-type": rng.choice(["reply", "query", "x", "", 5, None])})
    if r < 0.95:
        # a transaction id in use
        c = p.conn
        if c is not None and c.tas:
            m["ta-id"] = rng.choice(list(c.tas))
        return dump(rng, m)
    # fine after all
    return dump(rng, m)
