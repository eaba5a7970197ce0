"""An independent reference of the documented filter language.

parse() returns (verdict, ast): verdict True (must be accepted), False (must be
rejected) or None (left open: an unescaped '!' or a NUL inside a string, more
than MAX_DEPTH levels).
"""

MAX_DEPTH = 50

SPECIAL = set("!&*()<>=\\|")


class Bad(Exception):
    pass


def tokenize(s):
    """[(char, escaped)]; raises Bad on a bad escape."""
    toks = []
    i = 0
    n = len(s)
    while i < n:
        c = s[i]
        if c == "\\":
            if i + 1 >= n or s[i + 1] not in SPECIAL:
                raise Bad("escape")
            toks.append((s[i + 1], True))
            i += 2
        else:
            toks.append((c, False))
            i += 1
    return toks


def parse(s):
    fuzzy = [False]
    try:
        toks = tokenize(s)
        ast = _parse(toks, fuzzy)
    except Bad:
        return False, None
    if fuzzy[0]:
        return None, ast
    return True, ast


def _parse(toks, fuzzy):
    pos = 0
    n = len(toks)

    def special(p):
        """The structural character at p, or None."""
        if p >= n:
            raise Bad("end")
        c, esc = toks[p]
        return c if (not esc and c in SPECIAL) else None

    def string(p):
        out = []
        while True:
            sp = special(p)
            if sp is not None and sp != "!":
                return "".join(out), p
            if sp == "!":
                fuzzy[0] = True
            if toks[p][0] == "\0":
                fuzzy[0] = True
            out.append(toks[p][0])
            p += 1

    # Iterative, so that nesting depth does not matter here.
    # stack of [op, operands]
    stack = []
    done = None
    state = "open"     # expecting "(" of a filter
    while True:
        if len(stack) > MAX_DEPTH:
            fuzzy[0] = True
        if state == "open":
            if special(pos) != "(":
                raise Bad("(")
            pos += 1
            c = special(pos)
            if c in ("&", "|"):
                stack.append([c, []])
                pos += 1
                state = "list"
            elif c == "!":
                stack.append(["!", []])
                pos += 1
                state = "open"
            else:
                item, pos = _item(toks, pos, special, string)
                if special(pos) != ")":
                    raise Bad(")")
                pos += 1
                done = item
                state = "closed"
        elif state == "list":
            c = special(pos)
            if c == "(":
                state = "open"
            elif c == ")":
                op, operands = stack.pop()
                if len(operands) < 2:
                    raise Bad("operands")
                pos += 1
                done = (op, tuple(operands))
                state = "closed"
            else:
                raise Bad("list")
        elif state == "closed":
            if not stack:
                if pos != n:
                    raise Bad("trailing")
                return done
            top = stack[-1]
            if top[0] == "!":
                stack.pop()
                if special(pos) != ")":
                    raise Bad(")")
                pos += 1
                done = ("!", done)
            else:
                top[1].append(done)
                state = "list"


def _integer(text, plain):
    if not plain:
        raise Bad("integer")
    t = text[1:] if text.startswith("-") else text
    if not t or any(c not in "0123456789" for c in t) or (t[0] == "0" and len(t) > 1):
        raise Bad("integer")
    return int(text)


def _item(toks, pos, special, string):
    key, pos = string(pos)
    if key == "":
        raise Bad("key")
    op = special(pos)
    if op in (">", "<"):
        start = pos + 1
        text, pos = string(start)
        if len(text) > 4000:
            raise Bad("integer")
        plain = all(not e for _, e in toks[start:pos])
        return (op, key, _integer(text, plain)), pos
    if op != "=":
        raise Bad("op")
    text, pos = string(pos + 1)
    if special(pos) != "*":
        if text == "":
            raise Bad("value")
        return ("=", key, text), pos
    initial = text
    inter = []
    pos += 1
    while True:
        text, pos = string(pos)
        if special(pos) == "*":
            if text == "":
                raise Bad("value")
            inter.append(text)
            pos += 1
        else:
            break
    if initial == "" and not inter and text == "":
        return ("*", key), pos
    return ("sub", key, initial, tuple(inter), text), pos


def match(ast, props):
    """props: dict name -> iterable of ('s', str) / ('i', int)."""
    # iterative post-order evaluation
    work = [(ast, False)]
    vals = []
    while work:
        node, seen = work.pop()
        op = node[0]
        if op in ("&", "|"):
            if not seen:
                work.append((node, True))
                for x in node[1]:
                    work.append((x, False))
            else:
                k = len(node[1])
                ops = vals[-k:]
                del vals[-k:]
                vals.append(all(ops) if op == "&" else any(ops))
        elif op == "!":
            if not seen:
                work.append((node, True))
                work.append((node[1], False))
            else:
                vals.append(not vals.pop())
        else:
            vals.append(_match_item(node, props))
    return vals[0]


def _text(v):
    return v[1] if v[0] == "s" else str(v[1])


def _match_item(node, props):
    op, key = node[0], node[1]
    values = props.get(key, ())
    if op == "*":
        return len(values) > 0
    if op == "=":
        return any(_text(v) == node[2] for v in values)
    if op == ">":
        return any(v[0] == "i" and v[1] > node[2] for v in values)
    if op == "<":
        return any(v[0] == "i" and v[1] < node[2] for v in values)
    return any(_sub(node[2], node[3], node[4], _text(v)) for v in values)


def _sub(initial, inter, final, text):
    if not text.startswith(initial):
        return False
    pos = len(initial)
    end = len(text) - len(final)
    if end < pos or not text.endswith(final):
        return False
    for p in inter:
        i = text.find(p, pos, end)
        if i < 0:
            return False
        pos = i + len(p)
    return True


def escape(s):
    return "".join("\\" + c if c in SPECIAL else c for c in s)


def to_str(ast):
    op = ast[0]
    if op in ("&", "|"):
        return "(%s%s)" % (op, "".join(to_str(x) for x in ast[1]))
    if op == "!":
        return "(!%s)" % to_str(ast[1])
    if op == "*":
        return "(%s=*)" % escape(ast[1])
    if op == "sub":
        return "(%s=%s*%s%s)" % (escape(ast[1]), escape(ast[2]),
                                 "".join(escape(x) + "*" for x in ast[3]), escape(ast[4]))
    return "(%s%s%s)" % (escape(ast[1]), op, escape(str(ast[2])))
