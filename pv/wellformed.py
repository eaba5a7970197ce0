"""Every small deviation from, and every boundary within, the form of a client message: the variants that validation must
tell apart, enumerated per command, version and field.

The verdict on each is refmsg's; here they are only produced.
"""

import json
import random

from pv import refmsg

BIG = (1 << 63) - 1

BASES = [
    # valid messages; None: before the handshake
    (None, {"ta-cmd": "hello", "msg-type": "request", "client-id": 0, "protocol-minimum-version": 2, "protocol-maximum-version": 3}),
    (None, {"ta-cmd": "ping", "msg-type": "request"}),
    (None, {"ta-cmd": "services", "msg-type": "request", "filter": "(a=b)"}),
    (None, {"ta-cmd": "publish", "msg-type": "request", "service-id": 1, "generation": 1, "service-props": {"a": ["b"]}, "ttl": 1}),
]
for _v in (2, 3):
    BASES += [(_v, dict(m, **{"msg-type": "request"})) for m in (
        {"ta-cmd": "hello", "client-id": 0, "protocol-minimum-version": _v, "protocol-maximum-version": _v},
        {"ta-cmd": "subscribe", "subscription-id": 0},
        {"ta-cmd": "subscribe", "subscription-id": 0, "filter": "(a=b)"},
        {"ta-cmd": "unsubscribe", "subscription-id": 7},
        {"ta-cmd": "subscriptions"},
        {"ta-cmd": "services"},
        {"ta-cmd": "services", "filter": "(&(a=b)(c>4))"},
        {"ta-cmd": "publish", "service-id": 3, "generation": 1, "service-props": {"a": ["b", 4], "c": [5]}, "ttl": 2},
        {"ta-cmd": "unpublish", "service-id": 9},
        {"ta-cmd": "ping"},
        {"ta-cmd": "clients"},
        {"ta-cmd": "track"},
    )]
BASES += [(3, {"ta-cmd": "track", "msg-type": "inform", "track-type": "query"})] * 2

RAW = "\uffffRAW:"
INTS = [None, True, False, -1, -2, RAW + "-0", 0, 1, 1.0, 0.0, 1.5, RAW + "1e2", RAW + "1E0", RAW + "-1e0", "5", "", [5], [], {},
        {"a": [1]}, BIG, BIG - 1, BIG + 1, 1 << 64, -BIG - 1, 10 ** 400, RAW + "NaN", RAW + "Infinity", RAW + "-Infinity",
        RAW + "1" + "0" * 5000, RAW + "01", RAW + "+1", RAW + "0x1", RAW + "1.", 1 << 53, (1 << 53) + 1, 1 << 32]
STRS = [None, True, False, 0, 1, 2.5, [], ["x"], {}, {"x": 1}, "", " ", "(a=b) ", "\u20ac", "query", "reply", "Query", "query "]
PROPS = [None, True, 0, "a", [], [1], [["a", "b"]], {}, {"a": []}, {"a": [""]}, {"": ["b"]}, {"a": "b"}, {"a": 1}, {"a": None}, {"a": {}},
         {"a": {"b": 1}}, {"a": [None]}, {"a": [True]}, {"a": [False, 0]}, {"a": [1.0]}, {"a": [0.5]}, {"a": [["b"]]}, {"a": [{}]},
         {"a": ["b", None]}, {"a": [BIG]}, {"a": [-BIG - 1]}, {"a": [BIG + 1]}, {"a": [-BIG - 2]}, {"a": [1 << 70]},
         {"a": ["b", "b"]}, {"a": [1, "1", "01"]}, {"a": ["b"], "A": ["b"]}, {"a": ["b"], "c": [True]}, {"a": ["b"], "c": "d"},
         {"a": [RAW + "1e3"]}, {"a": [RAW + "NaN"]}, {"a": [RAW + "-0"]}, {"a": [" b ", "b", "B"]}, {" a ": [1], "a": [1]},
         {"e\u0301": ["e\u0301"], "\u00e9": ["\u00e9"]}, {"a": ["\ud83d\ude00", "\u2028"]}, {"a": [-1, 0, 1]}]
FIELDS = {"client-id": 5, "protocol-minimum-version": 2, "protocol-maximum-version": 3, "subscription-id": 4, "filter": "(a=b)",
          "service-id": 3, "generation": 1, "service-props": {"a": ["b"]}, "ttl": 4, "track-type": "query", "fail-reason": "no-hello",
          "match-type": "appeared", "orphan-since": 1.5, "client-address": "x", "time": 4, "idle": 1, "latency": 1,
          "protocol-version": 3, "x": 1, "": 1, "Ta-Id": 1, "ta_cmd": "ping", "ta-id ": 1, "comment": "x"}
TYPES = ["request", "inform", "accept", "notify", "complete", "fail"]


def respelled(s):
    res = [s.upper(), s.capitalize(), s.title(), s + " ", " " + s, s + "\n", "\t" + s, s[:-1], s[1:], s + "s", s + s, s[::-1],
           s.replace("s", "\u017f"), "\u200b" + s, s.replace("i", "\u0131"), s.swapcase()]
    if "-" not in s:
        res.append(s[:2] + "-" + s[2:])
    return [x for x in res if x != s]


def kind_of(f, v):
    if f == "service-props":
        return PROPS
    if f in ("filter", "track-type", "ta-cmd", "msg-type"):
        return STRS
    return INTS


def dump(o):
    out = json.dumps(o)
    while RAW_J in out:
        a, b = out.split(RAW_J, 1)
        lit, b = b.split('"', 1)
        out = a + lit + b
    return out.encode()


RAW_J = json.dumps(RAW)[:-1]
TA = "ta-id"


def variants():
    """(version, message as a function of transaction id, client id): enumerated in a fixed order."""
    res = []

    def put(v, m, change=None):
        res.append((v, m, change))
    for v, b in BASES:
        m = {TA: TA, **b}
        for _ in range(2):
            put(v, m)
        put(v, m, "reverse")
        put(v, m, "indent")
        put(v, m, "spaces")
        put(v, m, "tail")
        put(v, m, "head")
        put(v, m, "twice")
        put(v, m, "list")
        put(v, m, "text")
        put(v, m, "utf-16")
        put(v, m, "bom")
        put(v, m, "cut")
        put(v, m, "latin")
        put(v, m, "escaped")
        for f in m:
            put(v, {k: x for k, x in m.items() if k != f})
            put(v, {**{k: x for k, x in m.items() if k != f}, f.upper(): m[f]})
            put(v, {**{k: x for k, x in m.items() if k != f}, f.replace("-", "_"): m[f]} if "-" in f else {**m, f + "-": m[f]})
            put(v, {**{k: x for k, x in m.items() if k != f}, f + " ": m[f]})
            for x in kind_of(f, m[f]):
                if f == "client-id" and isinstance(x, int) and v is not None:
                    continue
                put(v, {**m, f: x})
        for f in ("ta-cmd", "msg-type"):
            for x in respelled(m[f]):
                put(v, {**m, f: x})
        for x in TYPES:
            put(v, {**m, "msg-type": x})
        for f, x in FIELDS.items():
            if f not in m:
                put(v, {**m, f: x})
                put(v, {**m, f: None})
    for v in (None, 2, 3):
        for cmd in refmsg.REQ:
            # bare commands, of every version, before and after the handshake
            put(v, {"ta-cmd": cmd, TA: TA, "msg-type": "request"})
            put(v, {"ta-cmd": cmd, TA: TA, "msg-type": "inform"})
            put(v, {"ta-cmd": cmd, TA: TA, "msg-type": "inform", "track-type": "query"})
            put(v, {"ta-cmd": cmd, TA: TA, "msg-type": "inform", "track-type": "reply"})
    return res


def encode(m, ta, own_id, change):
    m = dict(m)
    if m.get(TA) == TA:
        m[TA] = ta
    if m.get("client-id") == 0 and type(m.get("client-id")) is int:
        m["client-id"] = own_id
    if change == "reverse":
        m = dict(reversed(list(m.items())))
    raw = dump(m)
    if change == "indent":
        raw = json.dumps(m, indent=2).encode()
    elif change == "spaces":
        raw = b" \t\r\n" + raw + b"\n "
    elif change == "tail":
        raw += b"x"
    elif change == "head":
        raw = b"\x0b" + raw
    elif change == "twice":
        raw += raw
    elif change == "list":
        raw = b"[" + raw + b"]"
    elif change == "text":
        raw = json.dumps(raw.decode()).encode()
    elif change == "utf-16":
        raw = raw.decode().encode("utf-16")
    elif change == "bom":
        raw = b"\xef\xbb\xbf" + raw
    elif change == "cut":
        raw = raw[:-1]
    elif change == "latin":
        raw = raw.replace(b"ping", b"p\xefng") if b"ping" in raw else raw[:-1] + b', "\xe9": 1}'
    elif change == "escaped":
        raw = raw.replace(b'"ta-cmd"', b'"\\u0074a-cmd"')
    return raw


_all = None


def share(part, parts):
    """The variants of one case of `parts`, each in exactly one."""
    global _all
    if _all is None:
        _all = variants()
        random.Random(1).shuffle(_all)
    return _all[part % parts::parts]
