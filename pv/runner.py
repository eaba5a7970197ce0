"""Runs the parts of a check in worker processes, collects what they observed,
and turns it into a verdict and an evidence file."""

import collections
import json
import math
import os
import pickle
import resource
import select
import signal
import struct
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REAL_POLL = select.poll
ANY = os.environ.get("PV_ANY") == "1"      # for tools/mutate.py: violations of any property count
SCALE = float(os.environ.get("PV_SCALE", "1"))     # likewise: a part of the cases, within so many seconds
CAP = float(os.environ.get("PV_CAP", "1e9"))
MONO = time.monotonic


class Case:
    """The outcome of one case (a history, an input, a session)."""

    def __init__(self):
        self.divs = []            # [(set of property tags, text, mechanism or None)]
        self.counts = collections.Counter()
        self.digest = None        # tells distinct cases apart
        self.evaluations = 1
        self.distinct = None      # digests, where a case consists of many evaluations
        self.inconclusive = None
        self.trace = []
        self.sample = None


class Part:
    """A family of cases: fun(seed) -> Case."""

    def __init__(self, name, fun, quick, thorough, what="", wall=150):
        self.name = name
        self.fun = fun
        self.n = {"quick": quick, "thorough": thorough}
        self.what = what
        self.wall = wall


class Check:
    def __init__(self, pid, parts, rule, relevant, least, prepare=None, cap=None, assumptions=""):
        self.pid = pid
        self.parts = parts
        self.rule = rule
        self.relevant = relevant        # predicate on counter names: what the oracle decided on
        self.least = least              # so many relevant events at least (quick)
        self.prepare = prepare
        self.cap = cap or {"quick": 240, "thorough": 780}
        self.assumptions = assumptions


def limit_memory():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, resource.getrlimit(resource.RLIMIT_AS)[1]))


def record_lines(where):
    """For tools/cover.py: the lines of paf executed by this process."""
    mon = sys.monitoring
    f = open("%s/%d" % (where, os.getpid()), "w", buffering=1)

    def line(code, n):
        i = code.co_filename.rfind("/paf/")
        if i >= 0:
            f.write("%s:%d\n" % (code.co_filename[i + 1:], n))
        return mon.DISABLE
    mon.use_tool_id(mon.COVERAGE_ID, "pv")
    mon.register_callback(mon.COVERAGE_ID, mon.events.LINE, line)
    mon.set_events(mon.COVERAGE_ID, mon.events.LINE)


def worker(check, todo_r, out_w, memory=True):
    if "PV_COVER" in os.environ:
        record_lines(os.environ["PV_COVER"])
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    if memory:
        limit_memory()
    out = os.fdopen(out_w, "wb", buffering=0)
    parts = {p.name: p for p in check.parts}
    while True:
        line = _read_exact(todo_r, 4)
        if line is None:
            break
        n = struct.unpack("!I", line)[0]
        name, seed = pickle.loads(_read_exact(todo_r, n))
        try:
            c = parts[name].fun(seed)
        except BaseException:
            c = Case()
            c.inconclusive = "harness error"
            c.trace = [traceback.format_exc()[-3000:]]
        d = pickle.dumps((c.divs, c.counts, c.digest, c.evaluations, c.distinct, c.inconclusive,
                          c.trace if (c.divs or c.inconclusive or c.sample is None) else [], c.sample))
        out.write(struct.pack("!I", len(d)))
        view = memoryview(d)
        while view:
            view = view[out.write(view):]
    out.flush()
    os._exit(0)


def _read_exact(fd, n):
    buf = b""
    while len(buf) < n:
        d = os.read(fd, n - len(buf))
        if not d:
            return None
        buf += d
    return buf


class Worker:
    def __init__(self, check):
        tr, tw = os.pipe()
        orr, ow = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(tw)
            os.close(orr)
            for w in ALL_WORKERS:
                for fd in (w.tw, w.orr):
                    try:
                        os.close(fd)
                    except OSError:
                        pass
            try:
                os.setpgid(0, 0)
                worker(check, tr, ow)
            finally:
                os._exit(3)
        os.close(tr)
        os.close(ow)
        self.pid, self.tw, self.orr = pid, tw, orr
        self.task = None
        self.since = None
        self.buf = b""
        ALL_WORKERS.append(self)

    def give(self, part, seed):
        self.task = (part, seed)
        self.since = MONO()
        d = pickle.dumps((part.name, seed))
        os.write(self.tw, struct.pack("!I", len(d)) + d)

    def kill(self):
        # a watchdog of ours killing a process of ours
        for kill in (os.killpg, os.kill):
            try:
                kill(self.pid, signal.SIGKILL)
            except (ProcessLookupError, PermissionError):
                pass
        try:
            os.waitpid(self.pid, 0)
        except ChildProcessError:
            pass
        os.close(self.tw)
        os.close(self.orr)
        ALL_WORKERS.remove(self)


ALL_WORKERS = []


def load_known():
    """{(property, mechanism)} of the findings that were recorded, not repaired."""
    res = {}
    path = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("finding:"):
                kv = line[8:].split(None, 2)
                prop = kv[0].split("=", 1)[1]
                mech = kv[1].split("=", 1)[1]
                res[(prop, mech)] = kv[2] if len(kv) > 2 else ""
    return res


def run_check(check, tier, seed, nproc=None):
    t0 = MONO()
    if nproc is None:
        nproc = max(2, min(8, os.cpu_count() or 2))
    known = load_known()
    if check.prepare is not None:
        check.prepare()
    # interleave the parts, each in proportion
    todo = []
    for pi, p in enumerate(check.parts):
        n = math.ceil(p.n[tier] * SCALE)
        base = (seed * 1000003 + pi * 7919 + sum(map(ord, check.pid)) * 104729) % (1 << 40) * 1000000
        todo.extend(((i + 0.5) / n, p, base + i) for i in range(n))
    todo.sort(key=lambda x: x[0])
    todo = collections.deque(todo)
    planned = len(todo)
    res = collections.Counter()
    counts = collections.Counter()
    digests = set()
    violations = []
    findings = collections.OrderedDict()
    other = collections.Counter()
    incon = collections.Counter()
    incon_trace = None
    evaluations = 0
    per_part = collections.Counter()
    samples = {}
    cap = min(CAP, check.cap[tier])
    workers = [Worker(check) for _ in range(min(nproc, planned))]
    stop = False
    poll = REAL_POLL()
    for w in workers:
        poll.register(w.orr, select.POLLIN)
    idle = list(workers)

    def lost(w, why):
        nonlocal incon_trace
        part, s = w.task
        incon[why] += 1
        incon_trace = incon_trace or "part %s seed %d: %s" % (part.name, s, why)
        poll.unregister(w.orr)
        w.kill()
        workers.remove(w)
        if not stop and todo:
            n = Worker(check)
            workers.append(n)
            poll.register(n.orr, select.POLLIN)
            idle.append(n)

    while True:
        if MONO() - t0 > cap:
            stop = True
        while idle and todo and not stop:
            w = idle.pop()
            _, p, s = todo.popleft()
            w.give(p, s)
        busy = [w for w in workers if w.task is not None]
        if not busy:
            break
        ready = dict(poll.poll(1000))
        for w in list(busy):
            if w.orr in ready:
                d = os.read(w.orr, 1 << 20)
                if not d:
                    lost(w, "worker died")
                    continue
                w.buf += d
                if len(w.buf) < 4:
                    continue
                n = struct.unpack("!I", w.buf[:4])[0]
                if len(w.buf) < 4 + n:
                    continue
                case = pickle.loads(w.buf[4:4 + n])
                w.buf = w.buf[4 + n:]
                part, s = w.task
                w.task = None
                idle.append(w)
                divs, c, digest, evals, distinct, inconc, trace, sample = case
                counts.update(c)
                evaluations += evals
                per_part[part.name] += 1
                if inconc:
                    incon[inconc] += 1
                    if inconc == "harness error" and incon_trace is None:
                        incon_trace = "part %s seed %d\n%s" % (part.name, s, "\n".join(trace[-3:]))
                rel = sum(v for k, v in c.items() if check.relevant(k))
                if rel and not inconc:
                    if distinct is not None:
                        digests.update(distinct)
                    else:
                        digests.add(digest)
                if sample is not None and rel:
                    samples.setdefault(part.name, [])
                    if len(samples[part.name]) < 2:
                        samples[part.name].append(sample)
                for tags, text, mech in divs:
                    if check.pid in tags or "ALL" in tags or ANY:
                        if mech is not None and (check.pid, mech) in known:
                            findings.setdefault(mech, text)
                        else:
                            violations.append((part, s, tags, text, trace))
                    else:
                        other[",".join(sorted(tags))] += 1
            elif MONO() - w.since > (part_wall(w.task[0], tier)):
                lost(w, "no answer within the wall-clock limit")
        if violations and not stop:
            stop = True
            cap_after = MONO()
        if stop and (violations and MONO() - cap_after > 3 or MONO() - t0 > cap + 60):
            break
    for w in list(workers):
        w.kill()
    done = sum(per_part.values())
    relevant = sum(v for k, v in counts.items() if check.relevant(k))
    # ---- verdict
    verdict = 0
    reason = None
    if violations:
        verdict = 1
    else:
        scale = 1.0
        if done < planned * 0.25:
            verdict, reason = 2, "only %d of %d cases done within %d s" % (done, planned, cap)
        elif sum(incon.values()) > max(2, 0.1 * (done + sum(incon.values()))):
            verdict, reason = 2, "too many inconclusive cases: %s; %s" % (dict(incon), incon_trace)
        elif incon["harness error"]:
            verdict, reason = 2, "harness error: %s" % incon_trace
        elif sum(other.values()) > max(3, 0.5 * done):
            verdict, reason = 2, "most cases ended early, in violations of other properties: %s" % dict(other)
        elif relevant < check.least * SCALE * (done / planned):
            verdict, reason = 2, "the monitor hardly observed anything relevant: %d events" % relevant
        for mech in [m for (p, m) in known if p == check.pid]:
            if mech not in findings and verdict == 0:
                reason = "(known finding %s did not show)" % mech
    out = []
    for mech, text in findings.items():
        out.append("KNOWN-FINDING: property=%s %s: %s" % (check.pid, mech, known[(check.pid, mech)]))
    rdir = os.path.join(VERIF, "replays")
    if violations:
        os.makedirs(rdir, exist_ok=True)
        for i, (part, s, tags, text, trace) in enumerate(violations[:3]):
            path = os.path.join(rdir, "%s-%d.json" % (check.pid, i))
            with open(path, "w") as f:
                json.dump({"property": check.pid, "part": part.name, "seed": s, "tags": sorted(tags), "what": text,
                           "replay": "%s run.py --replay %s" % (sys.executable, path), "trace": trace[-300:]}, f,
                          indent=1)
            if i == 0:
                out.append("%s" % text[:1500])
                for line in trace[-12:]:
                    out.append("   " + line[:400])
            out.append("VIOLATION property=%s replay=%s" % (check.pid, path))
    wall = MONO() - t0
    sample_list = [{"part": k, "case": x} for k, v in samples.items() for x in v][:8]
    ev = {
        "property": check.pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": len(digests),
            "rule": check.rule,
            "samples": sample_list,
            "cases_per_part": dict(per_part),
            "cases_planned": planned,
            "parts": {p.name: p.what for p in check.parts},
            "relevant_observations": relevant,
            "observed_events": {k: v for k, v in sorted(counts.items())},
            "inconclusive": dict(incon),
            "cases_ended_by_other_properties": dict(other),
            "known_findings_seen": list(findings),
        },
        "wall_s": round(wall, 2),
        "violations": len(violations),
        "verdict": {0: "held", 1: "violated", 2: "inconclusive"}[verdict],
        "assumptions": check.assumptions,
    }
    if reason:
        ev["coverage"]["note"] = reason
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", ".%s.tmp" % check.pid)
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True, default=repr)
    os.replace(tmp, os.path.join(VERIF, "evidence", "%s.json" % check.pid))
    for line in out:
        print(line)
    if verdict == 0:
        print("%s held: %d evaluations, %d distinct, %d relevant observations, %.1f s" %
              (check.pid, evaluations, len(digests), relevant, wall))
    elif verdict == 2:
        print("%s INCONCLUSIVE: %s" % (check.pid, reason))
    sys.stdout.flush()
    return verdict


def part_wall(part, tier):
    return part.wall * (2 if tier == "thorough" else 1)
