"""P11, P12: paf.filter against the reference."""

import itertools

from pv import reffilter
from pv.direct import Bug, TimeUp, cpu_bound, digest, internal_error, REAL_CPU

KEYS = ["a", "b", "name", "key with space", "Name", "a=b", "\\", "(x)", "\u00e5", "\U0001f600", "*", "a*b", "!", "0", "-1",
        "__class__", "a\nb", "\u2028", "nam", "\ud800", ".*", "a.b", "[a]", "^a$", "<>", "&|"]
STRS = ["a", "b", "ab", "aba", "abab", "aab", "A", "10", "-10", "0", "007", "1.5", " ", " a", "a ", "x*y", "*", "(a=b)", "\\", "\\*",
        "!", "\u00e5\u00e4", "\U0001f600", "a\nb", "\n", "a\n", ".", ".*", "a.b", "[ab]", "a|b", "^a", "a$", "True", "None",
        "\u2028", "9223372036854775807", "-9223372036854775808", "", "\ud800", "aaaa", "abcabc", "\x00", "\u0130", "\u00df", "ss"]
INTS = [0, 1, -1, 2, 7, 9, 10, 11, -10, 100, 123, 2 ** 31, 2 ** 53, 2 ** 53 + 1, 2 ** 63 - 1, -2 ** 63, 2 ** 63 - 2]


def rstr(rng, pool=STRS, empty=False):
    while True:
        r = rng.random()
        if r < 0.6:
            s = rng.choice(pool)
        elif r < 0.8:
            s = "".join(rng.choice("ab1*") for _ in range(rng.randrange(1, 8)))
        else:
            s = "".join(rng.choice("ab\\()&|!<>=* .\n\u00e5\U0001f600[]{}+?^$-0") for _ in range(rng.randrange(1, 6)))
        if s or empty:
            return s


def rprops(rng):
    p = {}
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        k = rng.choice(KEYS[:6]) if rng.random() < 0.8 else rstr(rng, KEYS)
        p[k] = {rng.choice(INTS) if rng.random() < 0.35 else rstr(rng, empty=True)
                for _ in range(rng.choice([1, 1, 2, 3]))}
    return p


def typed(p):
    return {k: frozenset(("s", v) if isinstance(v, str) else ("i", v) for v in vs) for k, vs in p.items()}


def pieces(rng, text):
    """Initial, intermediates, final which text matches - or nearly."""
    n = len(text)
    cuts = sorted(rng.randrange(n + 1) for _ in range(2 * rng.randrange(1, 4)))
    ini = text[:cuts[0]]
    fin = text[cuts[-1]:]
    inter = [text[cuts[i]:cuts[i + 1]] for i in range(1, len(cuts) - 1, 2)]
    r = rng.random()
    if r < 0.12 and inter:
        rng.shuffle(inter)
    elif r < 0.24:
        inter.append(rng.choice(inter) if inter else text[:1])
    elif r < 0.32:
        # overlapping
        ini = text[:cuts[0] + 1]
    elif r < 0.4:
        fin = text[max(0, cuts[-1] - 1):]
    return ini, tuple(x for x in inter if x), fin


def rast(rng, props, depth):
    r = rng.random()
    if depth > 0 and r < 0.45:
        op = rng.choice("&|!")
        if op == "!":
            return ("!", rast(rng, props, depth - 1))
        return (op, tuple(rast(rng, props, depth - 1) for _ in range(rng.choice([2, 2, 3, 4]))))
    keys = list(props)
    if keys and rng.random() < 0.8:
        k = rng.choice(keys)
        v = rng.choice(sorted(props[k], key=repr))
    else:
        k, v = rstr(rng, KEYS), rstr(rng, empty=True)
    if k == "":
        k = "a"
    kind = rng.random()
    if kind < 0.25:
        t = str(v) if rng.random() < 0.8 else rstr(rng)
        return ("=", k, t) if t else ("*", k)
    if kind < 0.4:
        return ("*", k)
    if kind < 0.65:
        t = str(v)
        ini, inter, fin = pieces(rng, t)
        if not ini and not inter and not fin:
            return ("*", k)
        return ("sub", k, ini, inter, fin)
    n = (v if isinstance(v, int) else 0) + rng.choice([-1, 0, 0, 1]) if rng.random() < 0.8 else \
        rng.choice(INTS + [2 ** 63, -2 ** 63 - 1, 10 ** 30])
    return (rng.choice("<>"), k, n)


def check_match(f, ast, text, props, tags={"P11"}):
    want = reffilter.match(ast, typed(props))
    try:
        got = f.match(props)
    except Exception:
        raise internal_error(tags, "evaluating %r on %r" % (text[:300], str(props)[:300]))
    if bool(got) != want:
        raise Bug(tags, "filter %r on properties %r: %r instead of %r" % (text[:400], str(props)[:600], got, want))


def p11_random(rng, c):
    import paf.filter as pf
    for _ in range(300):
        props = rprops(rng)
        ast = rast(rng, props, rng.choice([0, 0, 1, 2, 3]))
        text = reffilter.to_str(ast)
        try:
            f = pf.parse(text)
        except pf.ParseError as e:
            raise Bug({"P12"}, "valid filter %r rejected: %s" % (text, e))
        except Exception:
            raise internal_error({"P12"}, "parsing %r" % text)
        cases = [props, rprops(rng), {}]
        # values one edit away
        near = {k: set(v) for k, v in props.items()}
        for k in list(near):
            v = rng.choice(sorted(near[k], key=repr))
            if isinstance(v, str):
                i = rng.randrange(len(v) + 1)
                v = rng.choice([v[:i] + v[i + 1:], v[:i] + rng.choice("ab1\n *") + v[i:], v + v, v.upper(), " " + v])
            else:
                v = rng.choice([v + 1 if v < 2 ** 63 - 1 else v, str(v), -v if v > -2 ** 63 else v])
            near[k] = {v} if rng.random() < 0.6 else near[k] | {v}
        cases.append(near)
        for p in cases:
            c.evaluations += 1
            check_match(f, ast, text, p)
            c.counts["match judged %s" % reffilter.match(ast, typed(p))] += 1
        c.counts["filter kind %s" % ast[0]] += 1
        c.distinct.add(digest(text, props))
    c.sample = {"filter": text, "properties": repr(props)}


def p11_substring(rng, c):
    """Every short value against every short pattern over {a, b}."""
    import paf.filter as pf
    alpha = rng.choice(["ab", "a*", "1-", "a\n", "\u00e5.", "a\\"])
    for n in range(0, 6):
        for pat in itertools.product(alpha + "~", repeat=n):
            # ~ stands for the wildcard
            parts = "".join(pat).split("~")
            if len(parts) < 2 or any(x == "" for x in parts[1:-1]):
                continue
            ini, inter, fin = parts[0], tuple(parts[1:-1]), parts[-1]
            ast = ("*", "k") if not ini and not inter and not fin else ("sub", "k", ini, inter, fin)
            text = reffilter.to_str(ast)
            try:
                f = pf.parse(text)
            except Exception:
                raise internal_error({"P12", "P11"}, "parsing %r" % text)
            for m in range(0, 5):
                for v in itertools.product(alpha, repeat=m):
                    c.evaluations += 1
                    check_match(f, ast, text, {"k": {"".join(v)}})
            c.distinct.add(digest(text))
    c.counts["match judged exhaustively over %r" % alpha] += 1
    c.counts["match judged"] += c.evaluations
    c.sample = {"alphabet": alpha, "patterns": "all of up to 5 symbols", "values": "all of up to 4 symbols"}


def p11_wide(rng, c):
    """Many operands, values, properties or pieces, of which a single one decides."""
    import paf.filter as pf
    for _ in range(12):
        n = rng.choice([3, 5, 9, 10, 16, 17, 31, 33, 64, 65, 100, 129, 257, 400])
        at = rng.choice([0, n - 1, n - 2, rng.randrange(n)])
        odd = rng.random() < 0.7
        kind = rng.choice(["&", "|", "values", "properties", "pieces", "depth", "repeat"])
        if kind in "&|":
            hit = kind == "|"
            props = {"k%d" % i: {i if (i != at or not odd) == (not hit) else -1} for i in range(n)}
            ast = (kind, tuple(rng.choice([("=", "k%d" % i, str(i)), ("sub", "k%d" % i, "", (), str(i)),
                                           ("&", ((">", "k%d" % i, i - 1), ("<", "k%d" % i, i + 1)))]) for i in range(n)))
        elif kind == "values":
            vals = ["v%d" % i for i in range(n)] if rng.random() < 0.5 else list(range(1000, 1000 + n))
            want = vals[at] if odd else (-5 if isinstance(vals[0], int) else "w")
            props = {"k": set(vals), "z": {1}}
            ast = rng.choice([("=", "k", str(want)), ("sub", "k", str(want)[:1], (), str(want)[1:]),
                              ("!", ("=", "k", str(want))), ("<", "k", 1001 if odd else 1000), (">", "k", 998 + n if odd else 999 + n)])
        elif kind == "properties":
            props = {"k%d" % i: {"x"} for i in range(n)}
            ast = rng.choice([("*", "k%d" % (at if odd else n)), ("=", "k%d" % (at if odd else n), "x"), ("!", ("*", "k%d" % at))])
        elif kind == "pieces":
            words = ["<%d>" % i for i in range(n)]
            text = "".join(words)
            if odd:
                words[at] = rng.choice(["<%d>" % n, "<0", words[0]])
            props = {"k": {text}}
            ast = ("sub", "k", rng.choice(["", words[0]]), tuple(words[1:-1]), rng.choice(["", words[-1]]))
            if ast[2:] == ("", (), ""):
                ast = ("*", "k")
        elif kind == "depth":
            props = {"k": {"x"}, "m": {5}}
            ast = ("=", "k", "x" if odd else "y")
            for i in range(min(n, 60)):
                o = rng.random()
                ast = ("!", ast) if o < 0.4 else ("&", (ast, ("*", "m"))) if o < 0.7 else ("|", (("=", "m", "6"), ast))
        else:
            # the same operand again and again
            props = {"k": {"x"}}
            ast = ("&", (("=", "k", "x"),) * (n - 1) + (("=", "k", "x" if odd else "y"),)) if rng.random() < 0.5 else \
                ("|", (("=", "k", "y"),) * (n - 1) + (("=", "k", "x" if odd else "y"),))
        text = reffilter.to_str(ast)
        try:
            f = pf.parse(text)
        except Exception:
            raise internal_error({"P12", "P11"}, "parsing %r" % text[:300])
        c.evaluations += 1
        check_match(f, ast, text, props)
        c.counts["match judged"] += 1
        c.counts["match judged, wide: " + kind] += 1
        c.distinct.add(digest(text, repr(at)))
    c.sample = {"filter": text[:200], "kind": kind, "size": n}


COST_LIMIT = 8.0


def p11_cost(rng, c):
    """Filters and values as large as a message can carry."""
    import paf.filter as pf
    n = 60000
    kind = rng.randrange(8)
    v = "a" * n
    if kind == 0:
        k = rng.choice([10, 100, 1000, 20000])
        text = "(k=*%s*b)" % "*".join(["a"] * k)
        vals = {v, v + "c"}
    elif kind == 1:
        k = rng.choice([2, 10, 100, 1000])
        piece = "a" * (n // k // 2) + "b"
        text = "(k=*%s*)" % "*".join([piece] * k)
        vals = {v, ("a" * (n // k // 2) + "c") * k}
    elif kind == 2:
        text = "(k=a*%s*a)" % "*".join(["ab"] * (n // 4))
        vals = {"ab" * (n // 2), "a" * n}
    elif kind == 3:
        text = "(&%s)" % "".join("(k=%d)" % i for i in range(1500))
        vals = {str(i) for i in range(1500)}
    elif kind == 4:
        text = "(|%s)" % "".join("(k=*%d*x)" % i for i in range(1000))
        vals = {str(i) * 3 for i in range(1000)}
    elif kind == 5:
        d = rng.choice([20, 40])
        text = "(!" * d + "(&(k=a)(k=*a*a*))" + ")" * d
        vals = {v}
    elif kind == 6:
        text = "(k>%s)" % ("9" * rng.choice([19, 1000, 4000]))
        vals = set(range(10000))
    else:
        text = "(k=%s)" % reffilter.escape(rng.choice(["*", "\\", "("]) * (n // 2))
        vals = {"*" * (n // 2), "\\" * (n // 2)}
    small = {"k": vals if len(vals) < 10 else set(list(vals)[:6000])}
    try:
        with cpu_bound(COST_LIMIT):
            t0 = REAL_CPU()
            f = pf.parse(text)
            str(f)
            got = f.match(small)
            t = REAL_CPU() - t0
    except TimeUp:
        raise Bug({"P11"}, "parsing, printing or evaluating takes more than %d s of CPU time: %r on a value of %d "
                  "characters" % (COST_LIMIT, text[:200], n))
    except Exception:
        raise internal_error({"P11", "P12"}, "large filter %r..." % text[:100])
    ok, ast = reffilter.parse(text)
    want = reffilter.match(ast, typed(small))
    if bool(got) != want:
        raise Bug({"P11"}, "large filter %r...: %r instead of %r" % (text[:200], got, want))
    c.evaluations = 1
    c.counts["match judged, of extreme size"] += 1
    c.counts["extreme matches, ms in total"] += int(t * 1000)
    c.counts["extreme matches slower than 1 s"] += t > 1
    c.distinct.add(digest(text, str(got)))


# ------------------------------------------------------------------ P12

ALPHABET = "()&|!=<>*\\a1"


def check_text(pf, text, c):
    """The verdict on any string, and what printing an accepted one gives."""
    verdict, ast = reffilter.parse(text)
    try:
        f = pf.parse(text)
    except pf.ParseError:
        if verdict is True:
            raise Bug({"P12"}, "valid filter %r rejected" % text[:500])
        c.counts["rejected"] += 1
        return None
    except TimeUp:
        raise
    except Exception:
        raise internal_error({"P12"}, "parsing %r" % text[:500])
    if verdict is False:
        raise Bug({"P12"}, "%r accepted, which is no filter" % text[:500])
    c.counts["accepted"] += 1
    if ast is None:
        return f
    try:
        printed = str(f)
    except Exception:
        raise internal_error({"P12"}, "printing %r" % text[:500])
    ok, again = reffilter.parse(printed)
    if verdict is True and (ok is not True or again != ast):
        raise Bug({"P12"}, "%r prints as %r, which means something else" % (text[:300], printed[:300]))
    if ok is False:
        raise Bug({"P12"}, "%r prints as %r, which is no filter" % (text[:300], printed[:300]))
    try:
        twice = str(pf.parse(printed))
    except Exception:
        raise internal_error({"P12"}, "parsing the printed form %r" % printed[:300])
    if twice != printed:
        raise Bug({"P12"}, "printed form %r prints as %r" % (printed[:300], twice[:300]))
    c.counts["printed"] += 1
    return f


def p12_exhaustive(rng, c):
    """All strings of a given length over the alphabet, in slices."""
    import paf.filter as pf
    # a wrapped core, so that a good part is accepted
    n = rng.choice([3, 4, 4, 5])
    first = rng.choice(ALPHABET)
    for rest in itertools.product(ALPHABET, repeat=n - 1):
        core = first + "".join(rest)
        for text in (core, "(" + core + ")") if n < 5 else ("(" + core + ")",):
            c.evaluations += 1
            check_text(pf, text, c)
    c.distinct.add("%s%d" % (first, n))
    c.sample = {"strings": "all of length %d starting with %r, bare and in parentheses" % (n, first)}


def loose(rng, ast):
    """Text for ast, with whatever freedom of spelling there is (an unescaped '!' is left open by
    the documentation: not used)."""
    return reffilter.to_str(ast)


def p12_random(rng, c):
    import paf.filter as pf
    for _ in range(400):
        ast = rast(rng, rprops(rng), rng.choice([0, 1, 2, 3, 5]))
        text = reffilter.to_str(ast)
        if "\0" not in text:
            f = check_text(pf, text, c)
            if f is None:
                raise Bug({"P12"}, "valid filter %r rejected" % text)
        for _ in range(4):
            t = list(text)
            for _ in range(rng.choice([1, 1, 2, 4])):
                i = rng.randrange(len(t) + 1)
                r = rng.random()
                if r < 0.3:
                    t[i:i + 1] = []
                elif r < 0.6:
                    t.insert(i, rng.choice(ALPHABET + " \n\u00e5-+_.0\u0662\u00b2\uff11\u00a0"))
                elif r < 0.75:
                    t = t[:i]
                elif r < 0.9 and i < len(t):
                    t[i] = rng.choice(ALPHABET + "-0_ ")
                else:
                    j = rng.randrange(len(t) + 1)
                    t[i:i] = t[min(i, j):max(i, j)]
            t = "".join(t)
            c.evaluations += 1
            check_text(pf, t, c)
            c.distinct.add(digest(t))
        c.evaluations += 1
        c.distinct.add(digest(text))
        # escaping
        k = rstr(rng, KEYS)
        v = rstr(rng)
        try:
            f = pf.parse("(%s=%s)" % (pf.escape(k), pf.escape(v)))
            hits = (f.match({k: {v}}), f.match({k: {v + "x"}}), f.match({k + "x": {v}}))
        except Exception:
            raise internal_error({"P12"}, "escaping key %r and value %r" % (k, v))
        if hits != (True, False, False):
            raise Bug({"P12"}, "escaped key %r and value %r are not matched literally: %r" % (k, v, hits))
        c.counts["escaped"] += 1
    c.sample = {"filter": text, "damaged": t}


def p12_wide(rng, c):
    """Many operands, many pieces, long literals: accepted and printed, or rejected for one flaw among them."""
    import paf.filter as pf
    for _ in range(6):
        n = rng.choice([3, 9, 17, 33, 65, 100, 129, 256, 257, 300, 520, 1025, 2000])
        kind = rng.choice(["composite", "pieces", "key", "value", "specials", "integer"])
        if kind == "composite":
            text = "(" + rng.choice("&|") + "".join(rng.choice(["(a=%d)", "(k%d=*)", "(!(b>%d))", "(|(a=1)(b<%d))"]) % i for i in range(n)) + ")"
        elif kind == "pieces":
            text = "(k=%s*%s)" % (rng.choice(["", "x"]), "*".join("p%d" % i for i in range(n)) + rng.choice(["", "*"]))
        elif kind == "key":
            text = "(%s=x)" % ("k" * n * 8)
        elif kind == "value":
            text = "(k=%s%s)" % ("ab" * n * 4, rng.choice(["", "*"]))
        elif kind == "specials":
            text = "(%s=%s)" % ("\\*" * n, "\\(\\\\" * n)
        else:
            text = "(k%s%s%s)" % (rng.choice("<>"), rng.choice(["", "-"]), "1" + "0" * min(n, 600))
        t = text
        if rng.random() < 0.4:
            i = rng.choice([len(text) - 1, rng.randrange(len(text))])
            t = rng.choice([text[:i], text[:i] + rng.choice("()*=\\&") + text[i:], text[:i] + text[i + 1:]])
        f = check_text(pf, t, c)
        if t is text and f is None:
            raise Bug({"P12"}, "valid filter %s... (%d characters) rejected" % (text[:120], len(text)))
        c.evaluations += 1
        c.counts["wide filters: " + kind] += 1
        c.distinct.add(digest(t))
    c.sample = {"kind": kind, "filter": t[:200]}


INTLITS = ["0", "-0", "00", "01", "-01", "+1", "1_0", " 1", "1 ", "\u0661", "\uff11", "1.0", "1e3", "", "-", "--1", "0x10", "9" * 30,
           "-" + "9" * 30, "1\n", "\\-1", "1-", "- 1", "\u00b2", "1\u00a0", "9" * 4000]


def p12_special(rng, c):
    """Integer literals, deep nesting, long strings, odd characters."""
    import paf.filter as pf
    digits = "01-" + "".join(rng.sample("29+_.e \u0661\u0966\uff11\u00b2\u2168\u00a0\n\t\\,x", 7))
    for t in INTLITS + ["".join(t) for n in (1, 2, 3) for t in itertools.product(digits, repeat=n)]:
        for op in "<>":
            c.evaluations += 1
            check_text(pf, "(k%s%s)" % (op, t), c)
            c.distinct.add(digest(op, t))
    for d in [1, 2, 10, 49, 50, 51, 200, 330, 480, 495, 500, 900, 1000, 3000, 30000]:
        for opening, core, closing in (("(!", "(a=b)", ")"), ("(&(a=b)", "(c=*)", ")"), ("(|", "(a=b)", "(c=*))"),
                                       ("(", "a=b", ")"), ("(!", "(a=b)", ""), ("(&", "", "")):
            text = opening * d + core + closing * d
            if len(text) > 65000:
                continue
            c.evaluations += 1
            with cpu_bound(30):
                try:
                    f = check_text(pf, text, c)
                    if f is not None:
                        f.match({"a": {"b"}, "c": {1}})
                        f == f
                except TimeUp:
                    raise Bug({"P12"}, "nesting of %d levels takes more than 30 s" % d)
                except Bug:
                    raise
                except Exception:
                    raise internal_error({"P12", "P11"}, "filter nested %d levels deep: %r..." % (d, text[:80]))
            c.distinct.add(digest(opening, d))
    for text in ["", " ", "(", ")", "()", "(())", "(a)", "(a=)", "(=a)", "(a=b", "a=b", "(a=b))", "((a=b))", "(a=b)(c=d)",
                 " (a=b)", "(a=b) ", "(&)", "(&(a=b))", "(|(a=b))", "(!)", "(!a=b)", "(!(a=b)(c=d))", "(a=*)", "(a=**)",
                 "(a=***)", "(a=*b**c*)", "(a=b*)", "(a=*b)", "(a=b*c)", "(a>*)", "(a>)", "(a\\", "(a=\\", "(a=b\\)",
                 "(a=\\b)", "(\\!=\\!)", "(a=\\!*\\!)", "(a==b)", "(a=b=c)", "(a=b&c)", "(a=b|c)", "(a&b=c)", "(a=<b)",
                 "(a>=1)", "(a<=1)", "(&(a=b)x(c=d))", "(& (a=b)(c=d))", "(&(a=b) (c=d))", "(\u00e5=\u00e4)",
                 "(a=" + "x" * 60000 + ")", "(" + "x" * 60000 + "=a)", "(\ud800=\udfff)", "\ufeff(a=b)"]:
        c.evaluations += 1
        check_text(pf, text, c)
        c.distinct.add(digest(text))
