#!/usr/bin/env python3
"""mutate.py [-n N] [-s SEED] [-o OUT] [FILE...]: mechanical mutants of paf; which of them the quick checks notice.

Each mutant that passes the stable tests is put before the checks of its file, in order, until one reports a violation
(of any property). The survivors are listed for reading: they are either equivalent or a gap."""
import argparse, ast, json, os, random, shutil, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SIM = "P03,P16,P06,P05,P25,P17,P09,P18"
CHECKS = {"paf/sd.py": SIM, "paf/server.py": SIM + ",P13,P04,P24", "paf/proto.py": "P13,P20,P08,P06,P25",
          "paf/filter.py": "P12,P11,P22", "paf/timer.py": "P14,P03,P09", "paf/eventloop.py": "P15,P16,P24",
          "paf/client.py": "P20,P21,P26", "paf/conf.py": "P19", "paf/daemon.py": "P19,P24,P23",
          "paf/xcm.py": "P27,P20,P16", "paf/logging.py": "P19,P24", "paf/props.py": "P13,P22,P26", "app/pafc": "P26"}
LOGS = {"debug", "info", "warning", "log", "error", "exception", "print"}


def log_call(n):
    if not isinstance(n, ast.Call):
        return False
    f = n.func
    return (f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else "") in LOGS


class Finder(ast.NodeVisitor):
    def __init__(self, src):
        self.src = src
        self.lines = src.splitlines(True)
        self.off = [0]
        for l in self.lines:
            self.off.append(self.off[-1] + len(l.encode()))
        self.raw = src.encode()
        self.found = []

    def span(self, n):
        return self.off[n.lineno - 1] + n.col_offset, self.off[n.end_lineno - 1] + n.end_col_offset

    def text(self, n):
        a, b = self.span(n)
        return self.raw[a:b].decode()

    def sub(self, n, new, what):
        a, b = self.span(n)
        self.found.append((a, b, new, n.lineno, what))

    def visit(self, n):
        if isinstance(n, ast.Expr) and log_call(n.value) or isinstance(n, ast.Call) and log_call(n):
            return
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            return
        if isinstance(n, ast.FunctionDef) and n.name in ("debug", "info", "warning", "log", "__repr__"):
            return
        m = getattr(self, "on_" + type(n).__name__, None)
        if m:
            m(n)
        self.generic_visit(n)

    def generic_visit(self, n):
        for f, v in ast.iter_fields(n):
            for x in (v if isinstance(v, list) else [v]):
                if isinstance(x, ast.AST) and not (isinstance(x, ast.Constant) and isinstance(n, ast.Expr)):
                    self.visit(x)

    CMP = {ast.Eq: ["!="], ast.NotEq: ["=="], ast.Lt: ["<=", ">="], ast.LtE: ["<"], ast.Gt: [">=", "<="], ast.GtE: [">"],
           ast.Is: ["is not"], ast.IsNot: ["is"], ast.In: ["not in"], ast.NotIn: ["in"]}

    def on_Compare(self, n):
        if len(n.ops) == 1:
            for op in self.CMP[type(n.ops[0])]:
                self.sub(n, "%s %s %s" % (self.text(n.left), op, self.text(n.comparators[0])), "compare " + op)

    def on_BoolOp(self, n):
        op = " or " if isinstance(n.op, ast.And) else " and "
        self.sub(n, op.join("(%s)" % self.text(v) for v in n.values), "boolop")
        for i in range(len(n.values)):
            rest = [v for j, v in enumerate(n.values) if j != i]
            o = " and " if isinstance(n.op, ast.And) else " or "
            self.sub(n, o.join("(%s)" % self.text(v) for v in rest), "drop operand %d" % i)

    def on_UnaryOp(self, n):
        if isinstance(n.op, ast.Not):
            self.sub(n, "(%s)" % self.text(n.operand), "drop not")

    def on_BinOp(self, n):
        if isinstance(n.op, ast.Mod) and isinstance(n.left, (ast.Constant, ast.JoinedStr)):
            return
        new = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.BitOr: "&", ast.BitAnd: "|"}.get(type(n.op))
        if new:
            if isinstance(n.op, ast.Add) and any(isinstance(x, ast.Constant) and isinstance(x.value, str) for x in (n.left, n.right)):
                return
            self.sub(n, "%s %s %s" % (self.text(n.left), new, self.text(n.right)), "binop " + new)

    def on_Constant(self, n):
        if n.value is True or n.value is False:
            self.sub(n, repr(not n.value), "flip")
        elif isinstance(n.value, int):
            self.sub(n, repr(n.value + 1), "+1")
            if n.value > 0:
                self.sub(n, repr(n.value - 1), "-1")
        elif isinstance(n.value, float):
            self.sub(n, repr(n.value * 1.5), "*1.5")

    def on_If(self, n):
        if not isinstance(n.test, (ast.Compare, ast.BoolOp, ast.UnaryOp)):
            self.sub(n.test, "not (%s)" % self.text(n.test), "negate")
    on_While = on_If

    def on_IfExp(self, n):
        self.sub(n, self.text(n.body), "always then")
        self.sub(n, self.text(n.orelse), "always else")

    def stmt(self, n, what):
        a, b = self.span(n)
        self.found.append((a, b, "pass", n.lineno, what))

    def on_Expr(self, n):
        if isinstance(n.value, ast.Call):
            self.stmt(n, "delete call")
        elif isinstance(n.value, ast.Yield):
            self.stmt(n, "delete yield")

    def on_Assign(self, n):
        if any(not isinstance(t, ast.Name) for t in n.targets):
            self.stmt(n, "delete assignment")

    def on_AugAssign(self, n):
        self.stmt(n, "delete assignment")

    def on_Delete(self, n):
        self.stmt(n, "delete del")

    def on_Raise(self, n):
        self.stmt(n, "delete raise")

    def on_Break(self, n):
        self.stmt(n, "delete " + type(n).__name__)
    on_Continue = on_Break

    def on_Return(self, n):
        if n.value is None:
            self.stmt(n, "delete return")

    def on_ExceptHandler(self, n):
        if isinstance(n.type, ast.Tuple):
            for e in n.type.elts:
                self.sub(n.type, "(%s,)" % ", ".join(self.text(x) for x in n.type.elts if x is not e), "narrow except")

    def on_Call(self, n):
        if isinstance(n.func, ast.Name) and n.func.id in ("list", "sorted", "dict", "set", "tuple") and len(n.args) == 1:
            self.sub(n, self.text(n.args[0]), "drop %s()" % n.func.id)
        if isinstance(n.func, ast.Name) and n.func.id in ("min", "max"):
            self.sub(n.func, "max" if n.func.id == "min" else "min", "min/max")
        if len(n.args) == 2 and not n.keywords:
            self.sub(n, "%s(%s, %s)" % (self.text(n.func), self.text(n.args[1]), self.text(n.args[0])), "swap arguments")


TWINS = [("user_id", "client_id"), ("service_id", "client_id"), ("idle_min", "idle_max"), ("min", "max"), ("before", "after"),
         ("generation", "ttl"), ("orphan_since", "ttl"), ("readable", "writable"), ("add_source", "del_source"), ("start", "end"),
         ("append", "extend"), ("any", "all"), ("keys", "values"), ("pop", "get"), ("remove", "discard"), ("add", "discard"),
         ("in_queue", "out_queue"), ("SO_RECEIVABLE", "SO_SENDABLE"), ("EPOLLIN", "EPOLLOUT"), ("POLLIN", "POLLOUT"),
         ("MATCH_TYPE_APPEARED", "MATCH_TYPE_MODIFIED"), ("MATCH_TYPE_DISAPPEARED", "MATCH_TYPE_MODIFIED")]


class Second(Finder):
    """Operators of the second set: order of statements, sibling names, whole statements, early returns."""

    def visit(self, n):
        if isinstance(n, ast.Expr) and log_call(n.value) or isinstance(n, (ast.Import, ast.ImportFrom)):
            return
        if isinstance(n, ast.FunctionDef) and n.name in ("debug", "info", "warning", "log", "__repr__"):
            return
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if isinstance(b, list) and not isinstance(n, (ast.Module, ast.ClassDef)):
                self.block(b, n)
        if isinstance(n, (ast.Name, ast.Attribute)):
            name = n.id if isinstance(n, ast.Name) else n.attr
            for x, y in TWINS:
                for p, q in ((x, y), (y, x)):
                    if p in name.split("_") or p == name or "_" in p and p in name:
                        full = self.text(n)
                        self.sub(n, full[:len(full) - len(name)] + name.replace(p, q), "twin")
        if isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Constant):
            self.sub(n.value, "None", "return None")
        self.generic_visit(n)

    def block(self, b, parent):
        b = [x for x in b if not (isinstance(x, ast.Expr) and (log_call(x.value) or isinstance(x.value, ast.Constant)))]
        for x, y in zip(b, b[1:]):
            if isinstance(x, (ast.Import, ast.FunctionDef)) or isinstance(y, (ast.Return, ast.Import, ast.FunctionDef, ast.Raise, ast.Break, ast.Continue)):
                continue
            a0, a1 = self.span(x)
            b0, b1 = self.span(y)
            self.found.append((a0, b1, (self.raw[b0:b1] + self.raw[a1:b0] + self.raw[a0:a1]).decode(), x.lineno, "swap statements"))
        for x in b:
            if isinstance(x, (ast.If, ast.For, ast.While, ast.With)):
                self.sub(x, "pass", "delete " + type(x).__name__)
            if isinstance(x, ast.If) and x.orelse and not isinstance(x.orelse[0], ast.If):
                a = self.span(x.orelse[0])[0]
                self.found.append((a, self.span(x.orelse[-1])[1], "pass", x.orelse[0].lineno, "delete else"))
            if isinstance(x, ast.For) and not isinstance(x.iter, ast.Call):
                self.sub(x.iter, "list(%s)[:1]" % self.text(x.iter), "first only")
                self.sub(x.iter, "list(%s)[1:]" % self.text(x.iter), "skip first")


class Third(Finder):
    """Operators of the third set: statements skipped, and tests that change, in rare states only."""

    def __init__(self, src):
        Finder.__init__(self, src)
        self.rng = random.Random(len(src))

    def visit(self, n):
        if isinstance(n, ast.ClassDef):
            self.box = []
            self.strs = []
            for f in n.body:
                if isinstance(f, ast.FunctionDef) and f.name == "__init__":
                    for x in ast.walk(f):
                        if isinstance(x, ast.Assign) and isinstance(x.targets[0], ast.Attribute):
                            v = x.value
                            if isinstance(v, (ast.Dict, ast.List, ast.Set)) or isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and \
                                    v.func.id in ("dict", "list", "set", "deque", "DB"):
                                self.box.append("self." + x.targets[0].attr)
            for f in n.body:
                if isinstance(f, ast.FunctionDef) and f.name not in ("__init__", "__repr__", "debug", "info", "warning", "log"):
                    self.function(f)
            return
        for x in ast.iter_child_nodes(n):
            if isinstance(x, ast.FunctionDef):
                self.box = []
                self.function(x)
            else:
                self.visit(x)

    def conds(self, f):
        c = []
        for b in self.box:
            c += ["len(%s) == 3" % b, "len(%s) >= 6" % b]
        for a in f.args.args:
            if a.arg.endswith(("_id", "generation", "ttl")):
                c += ["%s == 0" % a.arg, "%s > 4294967295" % a.arg]
            elif a.arg in ("props", "service_props", "filters", "operands", "data", "line", "root", "domains"):
                c += ["len(%s) == 3" % a.arg, "len(%s) == 0" % a.arg]
            elif a.arg in ("filter", "filter_s", "orphan_since", "fail_reason"):
                c += ["%s is not None" % a.arg]
        return c

    def function(self, f):
        cs = self.conds(f)
        if not cs:
            return
        for x in ast.walk(f):
            if isinstance(x, ast.Expr) and isinstance(x.value, ast.Call) and not log_call(x.value) or \
                    isinstance(x, ast.Assign) and not isinstance(x.targets[0], (ast.Name, ast.Tuple)) or isinstance(x, (ast.AugAssign, ast.Delete)):
                c = self.rng.choice(cs)
                t = self.text(x)
                first = t.split("\n")
                ind = " " * (x.col_offset + 4)
                self.sub(x, "if not (%s):\n%s" % (c, ind + "\n".join([first[0]] + ["    " + l for l in first[1:]])), "skip rarely")
            elif isinstance(x, ast.If):
                c = self.rng.choice(cs)
                t = self.text(x.test)
                self.sub(x.test, "(%s) and not (%s)" % (t, c), "rarely false")
                self.sub(x.test, "(%s) or (%s)" % (t, c), "rarely true")
            elif isinstance(x, ast.For):
                c = self.rng.choice(cs)
                self.sub(x.iter, "(list(%s)[:-1] if %s else %s)" % (self.text(x.iter), c, self.text(x.iter)), "rarely without the last")
            elif isinstance(x, ast.Return) and x.value is not None and not isinstance(x.value, ast.Constant):
                c = self.rng.choice(cs)
                self.sub(x.value, "(None if %s else %s)" % (c, self.text(x.value)), "rarely None")


KIND = Finder


def mutants(path):
    src = open("/repo/" + path).read()
    f = KIND(src)
    f.visit(ast.parse(src))
    for a, b, new, line, what in f.found:
        out = f.raw[:a] + new.encode() + f.raw[b:]
        old = f.raw[a:b].decode()
        if "Exception.__init__" in old or "Error.__init__" in old or old.split(" ")[0].endswith((".restype", ".argtypes")) or \
           path == "paf/server.py" and "_VERSION = " in f.lines[line - 1]:
            continue
        try:
            ast.parse(out.decode())
        except SyntaxError:
            continue
        yield path, line, what, f.raw[a:b].decode(), new, out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("-n", type=int, default=0)
    ap.add_argument("-s", type=int, default=1)
    ap.add_argument("-o", default="/tmp/mutants.log")
    ap.add_argument("-k", default="0/1", help="shard i/n")
    ap.add_argument("-j", default="8")
    ap.add_argument("--scale", default="0.3")
    ap.add_argument("--second", action="store_true", help="the second set of operators")
    ap.add_argument("--third", action="store_true", help="the third set")
    ap.add_argument("--count", action="store_true")
    ap.add_argument("files", nargs="*")
    a = ap.parse_args()
    global KIND
    KIND = Third if a.third else Second if a.second else Finder
    todo = [m for f in (a.files or CHECKS) for m in mutants(f)]
    if a.count:
        import collections
        print(collections.Counter(m[0] for m in todo))
        return
    random.Random(a.s).shuffle(todo)
    if a.n:
        todo = todo[:a.n]
    i, n = map(int, a.k.split("/"))
    todo = todo[i::n]
    done = {}
    if os.path.exists(a.o):
        for l in open(a.o):
            r = json.loads(l)
            done[(r["file"], r["line"], r["what"], r["old"], r["new"])] = r
    t = tempfile.mkdtemp(prefix="mut")
    out = open(a.o, "a")
    try:
        shutil.copytree(V, t + "/v", ignore=shutil.ignore_patterns(".git", "replays", "evidence", "seeded"))
        for path, line, what, old, new, text in todo:
            if (path, line, what, old, new) in done:
                continue
            shutil.rmtree(t + "/w", True)
            shutil.copytree("/repo", t + "/w", symlinks=True)
            with open(t + "/w/" + path, "wb") as f:
                f.write(text)
            t0 = time.time()
            res = None
            try:
                r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--noconftest",
                                    "test/test_filter.py", "test/test_timer.py"], cwd=t + "/w", stdout=subprocess.DEVNULL,
                                   stderr=subprocess.DEVNULL, timeout=120)
                if r.returncode:
                    res = "tests"
            except subprocess.TimeoutExpired:
                res = "tests"
            odd = []
            if res is None:
                for p in CHECKS[path].split(","):
                    r = subprocess.run(["python3", "run.py", "--prop", p, "--tier", "quick", "--jobs", a.j], cwd=t + "/v",
                                       env=dict(os.environ, PV_REPO=t + "/w", PV_ANY="1", PV_SCALE=a.scale, PV_CAP="60"), stdout=subprocess.PIPE,
                                       stderr=subprocess.STDOUT, text=True)
                    if r.returncode == 1 and "VIOLATION" in r.stdout:
                        res = p
                        break
                    if r.returncode:
                        odd.append((p, r.returncode, r.stdout[-200:]))
            rec = dict(file=path, line=line, what=what, old=old, new=new, by=res, odd=odd, s=round(time.time() - t0))
            out.write(json.dumps(rec) + "\n")
            out.flush()
            if res is None:
                print("SURVIVED %s:%d %s: %s -> %s %s" % (path, line, what, old[:80].replace("\n", " "), new[:80].replace("\n", " "),
                                                         "ODD %r" % odd if odd else ""), flush=True)
    finally:
        shutil.rmtree(t, True)


main()
