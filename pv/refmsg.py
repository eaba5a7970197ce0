"""Independent reference of the wire protocol: message schema and validation."""

import json

I63 = (1 << 63) - 1

REQ = {
    # cmd: (versions, mandatory, optional)
    "hello": ((2, 3), {"client-id": "int", "protocol-minimum-version": "int",
                       "protocol-maximum-version": "int"}, {}),
    "track": ((3,), {}, {}),
    "subscribe": ((2, 3), {"subscription-id": "int"}, {"filter": "str"}),
    "unsubscribe": ((2, 3), {"subscription-id": "int"}, {}),
    "subscriptions": ((2, 3), {}, {}),
    "services": ((2, 3), {}, {"filter": "str"}),
    "publish": ((2, 3), {"service-id": "int", "generation": "int", "service-props": "props", "ttl": "int"}, {}),
    "unpublish": ((2, 3), {"service-id": "int"}, {}),
    "ping": ((2, 3), {}, {}),
    "clients": ((2, 3), {}, {}),
}

FAIL = ({}, {"fail-reason": "str"})
NOTHING = ({}, {})

# server to client: (cmd, type) -> version -> (mandatory, optional)
RESP = {
    ("hello", "complete"): ({"protocol-version": "int"}, {}),
    ("track", "accept"): NOTHING,
    ("track", "notify"): ({"track-type": "str"}, {}),
    ("subscribe", "accept"): NOTHING,
    ("subscribe", "notify"): ({"match-type": "str", "service-id": "int"},
                              {"generation": "int", "service-props": "props", "ttl": "int",
                               "client-id": "int", "orphan-since": "num"}),
    ("subscribe", "complete"): NOTHING,
    ("unsubscribe", "complete"): NOTHING,
    ("subscriptions", "accept"): NOTHING,
    ("subscriptions", "notify"): ({"subscription-id": "int", "client-id": "int"}, {"filter": "str"}),
    ("subscriptions", "complete"): NOTHING,
    ("services", "accept"): NOTHING,
    ("services", "notify"): ({"service-id": "int", "generation": "int", "service-props": "props",
                              "ttl": "int", "client-id": "int"}, {"orphan-since": "num"}),
    ("services", "complete"): NOTHING,
    ("publish", "complete"): NOTHING,
    ("unpublish", "complete"): NOTHING,
    ("ping", "complete"): NOTHING,
    ("clients", "accept"): NOTHING,
    ("clients", "complete"): NOTHING,
}
CLIENTS_NOTIFY = {
    2: ({"client-id": "int", "client-address": "str", "time": "int"}, {}),
    3: ({"client-id": "int", "client-address": "str", "time": "int", "idle": "num",
         "protocol-version": "int"}, {"latency": "num"}),
}

FAIL_REASONS = {"no-hello", "track-exists", "client-id-exists", "invalid-filter-syntax",
                "subscription-id-exists", "non-existent-subscription-id", "non-existent-service-id",
                "unsupported-protocol-version", "permission-denied", "old-generation",
                "same-generation-but-different", "insufficient-resources"}


def canon_props(d):
    """Wire object -> {name: frozenset of typed values}, or None if not a property multimap."""
    if not isinstance(d, dict):
        return None
    res = {}
    for k, vs in d.items():
        if not isinstance(vs, list):
            return None
        out = set()
        for v in vs:
            if isinstance(v, str):
                out.add(("s", v))
            elif isinstance(v, int) and not isinstance(v, bool):
                if not -(1 << 63) <= v <= I63:
                    return None
                out.add(("i", v))
            else:
                return None
        if out:
            res[k] = frozenset(out)
    return res


def check_type(kind, v):
    if kind == "int":
        return isinstance(v, int) and not isinstance(v, bool) and 0 <= v <= I63
    if kind == "num":
        return isinstance(v, (int, float)) and not isinstance(v, bool) and v >= 0 and v != float("inf")
    if kind == "str":
        return isinstance(v, str)
    return canon_props(v) is not None


class Dup(Exception):
    pass


def _no_dup(pairs):
    d = dict(pairs)
    if len(d) != len(pairs):
        raise Dup()
    return d


def parse_client(data, version):
    """A client message in a connection of `version` (None: before a handshake).

    Returns (verdict, msg) - verdict True: well-formed, False: violation, None: left open.
    """
    verdict = True
    try:
        text = data.decode("utf-8")
    except UnicodeDecodeError:
        return False, None
    try:
        try:
            m = json.loads(text, object_pairs_hook=_no_dup)
        except Dup:
            verdict = None
            m = json.loads(text)
    except ValueError:
        return False, None
    except RecursionError:
        return False, None
    if not isinstance(m, dict):
        return False, None
    cmd, ta, mt = m.get("ta-cmd"), m.get("ta-id"), m.get("msg-type")
    if not isinstance(cmd, str) or not isinstance(mt, str) or not check_type("int", ta):
        return False, None
    if cmd not in REQ:
        return False, None
    versions, mand, opt = REQ[cmd]
    v = 2 if version is None else version
    if v not in versions:
        if version is None:
            return None, m
        return False, None
    if mt == "request":
        pass
    elif mt == "inform" and cmd == "track":
        mand, opt = {"track-type": "str"}, {}
    else:
        return False, None
    rest = set(m) - {"ta-cmd", "ta-id", "msg-type"}
    for f, kind in mand.items():
        if f not in rest or not check_type(kind, m[f]):
            return False, None
        rest.discard(f)
    for f, kind in opt.items():
        if f in rest:
            if not check_type(kind, m[f]):
                return False, None
            rest.discard(f)
    if rest:
        return False, None
    if verdict is True and "\\u0000" in text:
        verdict = None
    return verdict, m


def check_server(m, version):
    """None, or what is wrong with the form of a message sent by the server."""
    if not isinstance(m, dict):
        return "not a JSON object"
    cmd, ta, mt = m.get("ta-cmd"), m.get("ta-id"), m.get("msg-type")
    if not isinstance(cmd, str) or not isinstance(mt, str) or not check_type("int", ta):
        return "bad ta-cmd, ta-id or msg-type"
    if mt == "fail":
        if cmd not in REQ:
            return "unknown command"
        mand, opt = FAIL
    elif (cmd, mt) == ("clients", "notify"):
        mand, opt = CLIENTS_NOTIFY[3 if version == 3 else 2]
    elif (cmd, mt) in RESP:
        mand, opt = RESP[(cmd, mt)]
    else:
        return "message type '%s' is never sent for command '%s'" % (mt, cmd)
    rest = set(m) - {"ta-cmd", "ta-id", "msg-type"}
    for f, kind in mand.items():
        if f not in rest:
            return "field '%s' is missing" % f
        if not check_type(kind, m[f]):
            return "field '%s' has a value of the wrong type or range: %r" % (f, m[f])
        rest.discard(f)
    for f, kind in opt.items():
        if f in rest:
            if not check_type(kind, m[f]):
                return "field '%s' has a value of the wrong type or range: %r" % (f, m[f])
            rest.discard(f)
    if rest:
        return "unknown fields %s" % sorted(rest)
    if mt == "fail" and m.get("fail-reason") is not None and m["fail-reason"] not in FAIL_REASONS:
        return "undocumented fail reason '%s'" % m["fail-reason"]
    return None
