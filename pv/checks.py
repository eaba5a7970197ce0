"""The checks: which parts decide which property."""

import os
import re
import subprocess
import sys

from pv.runner import Case, Check, Part

SIM_RULE = ("A case is one history of the real daemon (paf.daemon.main and everything below it, paf/xcm.py included) in "
            "the simulated environment: random operation mix plus scripted episodes, random delivery order, stalls, "
            "faults and clock jitter, from one seed. Every message in and out is checked against the reference model. "
            "Non-trivial: at least one observation relevant to this property (%s) was judged; distinct: by the "
            "sequence of observed event kinds.")

SIM_ASSUME = ("libxcm and epoll are stand-ins (libxcm is not installed here); virtual time; the reference model "
              "(pv/model.py) states the documented protocol; no verdict beyond the histories run.")


def sim_case(profile, seed, workload_fun=None):
    import random
    from pv import workload, world
    from pv.profiles import PROFILES
    prof = PROFILES[profile]
    rng = random.Random(seed)
    spec = workload.make_spec(rng, prof)
    return history_case(seed, spec, workload.workload(prof))


def history_case(seed, spec, fun, cpu=60):
    from pv import world
    r = world.run_history(seed, spec, fun, cpu)
    return to_case(r, spec, seed)


def to_case(r, spec, seed):
    c = Case()
    c.divs = [(d.tags, d.text, getattr(d, "mech", None)) for d in r.divs]
    c.counts = r.counts
    c.digest = r.digest
    c.inconclusive = r.inconclusive
    c.trace = [repr(spec)] + r.trace
    if r.inconclusive == "harness error":
        c.trace.append(str(r.ctl.mon.harness_error))
    # a sample: the tail of the history, without the bulk
    c.sample = {"seed": seed, "configuration": spec, "events": sum(r.counts.values()),
                "tail": [l[:200] for l in r.trace[-8:]]}
    return c


def sim(profile, quick, thorough, name=None):
    return Part(name or "sim:" + profile, lambda seed: sim_case(profile, seed), quick, thorough,
                "simulated histories of the whole daemon, workload profile %r" % profile)


def rx(pattern):
    r = re.compile(pattern)
    return lambda k: r.match(k) is not None


def sim_check(pid, parts, relevant, least, what, **kw):
    return Check(pid, parts, SIM_RULE % what, rx(relevant), least, assumptions=SIM_ASSUME,
                 prepare=prepare_sim, **kw)


def prepare_sim():
    from pv import world
    world.load_paf()
    from pv import workload, hostile, profiles


# ---------------------------------------------------------------- P17

def retention_part(kind, quick, thorough):
    def fun(seed):
        import random
        from pv import retention
        rng = random.Random(seed)
        socks = ["tls:0.0.0.0:4711", "tcp:0.0.0.0:4712", "tls:[::]:4713"]
        spec = {"domains": [{"sockets": socks, "tls": {"cert": "/c", "key": "/k", "tc": "/t"}}],
                "p_deliver": rng.choice([0.3, 0.6, 0.9])}
        if rng.random() < 0.5:
            spec["user_limits"] = {"clients": 5, "services": 50, "subscriptions": 50}
            spec["total_limits"] = {"clients": 50, "services": 500, "subscriptions": 500}
        if kind == "refused":
            spec["user_limits"] = {k: rng.choice([0, 0, 1, 2]) for k in rng.sample(["clients", "services", "subscriptions"], 2)}
            spec["total_limits"] = {k: rng.choice([0, 1, 2]) for k in rng.sample(["services", "subscriptions"], rng.randrange(2))}
        if rng.random() < 0.3:
            spec["log_filter"] = "debug"
        return history_case(seed, spec, retention.make(kind), cpu=120)
    return Part("retention:" + kind, fun, quick, thorough,
                "600 cycles of the same activity with ever fresh identifiers; everything reachable from the server "
                "is counted at cycles 300, 450 and 600")


# ---------------------------------------------------------------- P23

def fresh_main(argv):
    """Each history in a process of its own, which has run none before. Prints the first that diverges."""
    prepare_sim()
    profile, seeds = argv[0], [int(x) for x in argv[1:]]
    for seed in seeds:
        pid = os.fork()
        if pid == 0:
            rc = 4
            try:
                rc = 3 if sim_case(profile, seed).divs else 0
            finally:
                os._exit(rc)
        if os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1]) == 3:
            print("diverged", seed)
            return
    print("none diverged")


def fresh(profile, seeds):
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    code = "import sys; sys.path.insert(0, %r); from pv import checks; checks.fresh_main(sys.argv[1:])" % here
    r = subprocess.run([sys.executable, "-c", code, profile] + [str(x) for x in seeds], stdout=subprocess.PIPE, text=True,
                       env=dict(os.environ, PYTHONHASHSEED="0"))
    if r.stdout.strip().endswith("none diverged"):
        return False
    if "diverged" in r.stdout:
        return True
    raise RuntimeError("no answer from the histories run afresh")


ALONE = []


def domains_case(seed):
    """A divergence in a multi-domain history that does not also arise with a single domain is
    put down to the presence of the others. Both are judged in processes that have run nothing before (a server
    which keeps state per process would spoil one history by another)."""
    c = sim_case("domains", seed)
    if c.divs and not any("P23" in d[0] for d in c.divs):
        if not ALONE:
            ALONE.append(fresh("onedomain", range(seed + 500000, seed + 500080)))
        if ALONE[0]:
            c.counts["divergences that single domains show as well"] += 1
        elif fresh("domains", [seed]):
            c.divs = [(set(t) | {"P23"}, "(in none of 80 single-domain histories) " + x, m) for t, x, m in c.divs]
        else:
            c.counts["divergences gone in a process of its own"] += 1
    return c


def scripted(name, make, quick, thorough, what, spec=None):
    def fun(seed):
        from pv import cases
        sp = getattr(cases, spec)(seed) if spec else cases.SPEC
        return history_case(seed, sp, getattr(cases, make)(seed))
    return Part("script:" + name, fun, quick, thorough, what)


def longevity(quick, thorough):
    return scripted("longevity", "longevity", quick, thorough,
                    "services which outlive their owners by up to 136 years, looked at around their deadlines")


def patience(quick, thorough):
    return scripted("patience", "patience", quick, thorough,
                    "version 3 clients with idle limits of up to two months", "longevity_spec")


def population(quick, thorough):
    return scripted("population", "population", quick, thorough,
                    "70-500 services, 70-230 subscriptions or 70-150 clients at once: listed, matched, orphaned, claimed again")


def bulk(quick, thorough):
    return scripted("bulk", "bulk", quick, thorough,
                    "services of 3 to 60 kB: long values and keys, thousands of values or properties")


def judged(quick, thorough):
    return scripted("judged", "judged", quick, thorough,
                    "7000 enumerated variants of client messages, well-formed and not, 120 shares, each variant on a connection of its own")


def crowd(quick, thorough):
    return scripted("crowd", "crowd", quick, thorough,
                    "1025-2100 services, 260-1030 subscriptions or 257-300 clients at once")


def folk(quick, thorough):
    return scripted("folk", "folk", quick, thorough,
                    "9-70 users, each filling what a user is allowed and trying what belongs to others", "folk_spec")


def returns(quick, thorough):
    return scripted("returns", "returns", quick, thorough,
                    "a client that comes and goes up to 66 times, leaving a service behind each time and taking over others'",
                    "returns_spec")


def prepare_shim():
    prepare_sim()
    from pv import dxcm
    dxcm.build()



def prepare_plain_shim():
    prepare_sim()
    from pv import dxcm
    dxcm.build(False)


def direct(module, name, quick, thorough, what, wall=150):
    def fun(seed):
        import importlib
        from pv.direct import collect
        return collect(getattr(importlib.import_module("pv." + module), name))(seed)
    return Part(name.replace("_", ":"), fun, quick, thorough, what, wall)


CHECKS = {}
REAL = "app/pafd as a process over local sockets and real epoll, clients in random order; views compared at rest"


def register(check):
    CHECKS[check.pid] = check


S = sim_check

register(S("P01", [sim("notify", 420, 9000), sim("mix", 140, 3000), population(40, 800), sim("slow", 100, 1500), sim("orphans", 140, 2500), longevity(80, 2000), bulk(40, 1000), crowd(16, 400), returns(40, 1000),
                   direct("dproc", "p01_real", 48, 1500, REAL)],
           r"send subscribe (notify|accept|complete)|real subscriptions", 3000, "subscription accept, notification, completion"))
register(S("P02", [sim("records", 420, 9000), sim("mix", 140, 3000), population(24, 600), bulk(60, 1500), sim("churn", 240, 5000)],
           r"send (publish|unpublish) |send services notify|send subscribe notify modified", 3000,
           "publish or unpublish outcome, record listed or notified"))
register(S("P03", [sim("orphans", 520, 10000), sim("mix", 120, 3000), population(40, 800), crowd(8, 200), sim("users", 120, 2500),
                    longevity(300, 12000), returns(60, 2000)],
           r"send .* orphan|send subscribe notify disappeared|send unpublish fail non-ex", 800,
           "orphan listed or notified, disappearance, unpublish of something gone"))
register(S("P04", [sim("users", 520, 10000), sim("mix", 120, 3000), sim("dup", 120, 2500), folk(60, 2000), returns(40, 1000)],
           r"send .* fail permission-denied|send (unpublish|unsubscribe|hello) complete", 800,
           "access granted or denied"))
register(S("P05", [sim("limits", 560, 10000), sim("squat", 120, 2500), sim("mix", 120, 2500), population(24, 600), crowd(8, 200), folk(60, 2000)],
           r"send .* fail insufficient-resources|send (publish|hello) complete|send subscribe accept|accept", 2000,
           "allocation granted or refused"))
register(S("P07", [sim("replies", 420, 8000), returns(40, 1000), sim("mix", 160, 3000), population(40, 800), sim("hello", 120, 2000), judged(120, 600)],
           r"send ", 20000, "message sent in reply"))
register(S("P08", [sim("hello", 640, 12000), sim("mix", 120, 2500), judged(120, 600)],
           r"send hello |send .* fail no-hello", 2500, "hello answered, request before hello refused"))
register(S("P09", [sim("idle", 700, 14000), sim("mix", 100, 2000), sim("track", 120, 2500), patience(300, 10000)],
           r"close idle|send track notify query|recv track reply|timeout wakeup", 3000,
           "query sent or answered, idle drop, timer wake-up judged"))
register(S("P10", [sim("dup", 560, 11000), sim("hello", 160, 3000), sim("mix", 100, 2000), returns(40, 1000)],
           r"send hello (fail client-id-exists|complete)", 1500, "hello granted or refused for the id"))
register(S("P16", [sim("slow", 460, 9000), sim("replies", 120, 2500), sim("mix", 100, 2000), population(24, 600),
                   direct("dproc", "p01_real", 48, 1500, REAL), bulk(40, 1000)],
           r"send |quiescent checks|real messages", 20000, "message sent, completeness at rest judged"))
register(S("P17", [sim("empty", 360, 8000), retention_part("clients", 6, 60), retention_part("requests", 6, 60),
                   retention_part("takeover", 6, 60),
                   retention_part("returns", 6, 60), retention_part("refused", 6, 60), sim("mix", 60, 1500)],
           r"emptied|reachability", 60, "daemon empty and asleep, reachability measured"))
register(S("P18", [sim("squat", 640, 12000), sim("limits", 120, 2500), sim("mix", 60, 1500)],
           r"close nohello|accept", 2500, "connection accepted, connection without hello dropped"))
register(S("P22", [sim("listings", 520, 10000), sim("mix", 160, 3000), population(80, 1500), bulk(60, 1500), crowd(24, 600)],
           r"send (services|subscriptions|clients) (notify|complete)", 5000, "listing entry or end of listing"))
register(S("P23", [Part("sim:domains", domains_case, 520, 10000,
                        "2-4 domains of 1-3 sockets each, one model per domain; divergences are compared with a "
                        "single-domain control group")],
           r"send |recv ", 20000, "message in or out, attributed to its domain"))
register(S("P25", [sim("track", 640, 12000), population(24, 400), sim("idle", 140, 3000), sim("hostile", 60, 1000),
                    patience(60, 2000), judged(120, 600)],
           r"(send|recv) track", 3000, "track message in or out"))

register(S("P06", [sim("hostile", 420, 8000), sim("faults", 300, 6000), sim("slow", 40, 1000), sim("replies", 60, 1500), judged(120, 600),
                   scripted("oversize", "oversize", 6, 9, "values that fit in a request but not in a notification")],
           r"violation|error |attr error|eof|recv ", 5000, "malformed message, transport fault, end of connection"))
register(S("P13", [sim("values", 420, 8000), sim("hostile", 300, 6000), bulk(120, 4000), judged(120, 1200)],
           r"violation|send services notify|send subscribe notify", 3000,
           "malformed message judged, value reported to another client"))
register(S("P24", [sim("terminate", 900, 16000),
                   direct("dproc", "p24_real", 80, 3000, "app/pafd as a process, real signals, start-up failures")],
           r"clean termination|listen|close termination|terminations judged|start-up failures", 1500, "clean termination, connection closed on termination"))


# ---------------------------------------------------------------- direct calls

def D(pid, parts, rule, relevant, least, technique, note, **kw):
    c = Check(pid, parts, rule, rx(relevant), least, prepare=prepare_sim, **kw)
    c.technique = technique
    c.level_note = note
    return c


register(D("P11", [direct("dfilter", "p11_random", 160, 6000,
                          "random filters with properties drawn from them, equal, near and unrelated"),
                   direct("dfilter", "p11_substring", 24, 120, "short patterns and values over small alphabets, all of them"),
                   direct("dfilter", "p11_wide", 120, 6000, "up to 400 operands, values, properties or pieces, one of which decides"),
                   direct("dfilter", "p11_cost", 80, 1200, "filters and values as large as a message, under a CPU limit"),
                   sim("notify", 60, 1500)],
           "One evaluation is one (filter, properties) pair evaluated by paf.filter and by the reference matcher, or one "
           "simulated history in which filters decide about notifications. Non-trivial: the two were compared. Distinct: "
           "by filter text and properties.",
           r"match judged|send subscribe notify", 50000,
           "runtime monitoring: differential oracle (reference matcher) and CPU-time watchdog on random, exhaustive-small "
           "and extreme-size inputs",
           "Real paf.filter run on the generated inputs only. Trusted: pv/reffilter.py, written from doc/protocol.md.",
           assumptions="values are strings and signed 64-bit integers"))
register(D("P12", [direct("dfilter", "p12_exhaustive", 64, 700, "all strings of 3 to 5 symbols over the grammar's alphabet"),
                   direct("dfilter", "p12_random", 160, 5000, "random filters, damaged ones, and escaped literals"),
                   direct("dfilter", "p12_wide", 120, 4000, "up to 2000 operands or pieces and literals of 16 kB, with and without one flaw"),
                   direct("dfilter", "p12_special", 4, 4, "integer literals, deep nesting, truncation, odd characters"),
                   sim("listings", 60, 1500)],
           "One evaluation is one string given to paf.filter.parse, compared with the reference parser's verdict, printed and "
           "parsed again if accepted; or one simulated history with filters in requests and listings. Distinct: by text (or "
           "by slice of the exhaustive part).",
           r"accepted|rejected|printed|escaped|send subscriptions notify", 100000,
           "runtime monitoring: differential oracle (reference parser) and print/parse round trip on exhaustive-small, random "
           "and damaged inputs",
           "Real paf.filter run on the generated inputs only. Trusted: pv/reffilter.py. Left open (either verdict accepted, but "
           "no other failure): an unescaped '!' inside a string, NUL, more than 50 levels of nesting.",
           assumptions="strings that fit in a message"))

register(D("P14", [direct("dtimer", "p14", 320, 12000, "random additions, removals, clock steps and processing, with "
                          "handlers that add and remove; the clock also stands exactly at deadlines"),
                   direct("dtimer", "p14_large", 24, 300, "hundreds to thousands of timers"),
                   direct("dtimer", "p14_real", 4, 16, "the real clock"),
                   sim("orphans", 60, 1500), sim("idle", 60, 1500)],
           "One evaluation is one operation on a real TimerManager compared with a list of live timers, or one simulated "
           "history of the server (whose timers are all behind one manager). Distinct: by the log of the session.",
           r"fired|states compared|processed|timeout wakeup", 50000,
           "runtime monitoring: model-based checking of TimerManager under random operations and re-entrant handlers",
           "Real paf.timer run on the generated sequences only; the order among timers of equal time is left open, and "
           "only live timers are removed.", assumptions="virtual time except for one part"))
register(D("P15", [direct("dloop", "p15", 240, 9000, "sources over real pipes and sockets, real epoll, virtual clock; handlers "
                          "add, change, remove and close sources, reusing descriptor numbers"),
                   sim("batch", 260, 6000), sim("faults", 80, 2000)],
           "One evaluation is one run of a real EventLoop until stop or signal, or one simulated history of the server. At each "
           "poll the monitor compares the descriptors the kernel watches (fdinfo) and the sleep asked for with the live "
           "sources. Distinct: by the log of events.",
           r"descriptor sets compared|handler calls|wakeup|timeout wakeup|quiescent checks", 60000,
           "runtime monitoring: online checker on the event loop over real epoll descriptors, plus simulated server histories",
           "Real paf.eventloop run on the generated schedules only. Handlers do not remove a source whose timeout fires in the "
           "same round, do not re-arm in the past, and clear their active mark (as all users in paf do).",
           assumptions="descriptors are unregistered from, not shared with, other epoll sets"))

register(D("P20", [direct("dclient", "p20", 1600, 50000, "sessions of the client library with a scripted server: synchronous and "
                          "asynchronous calls, calls from callbacks, delayed and interleaved responses, would-block, servers "
                          "that break the protocol, lost connections"),
                   direct("dclient", "p20_long", 64, 2000, "long connections (150 to 66500 requests) with transactions left open "
                          "from the start"),
                   direct("dclient", "p20_judged", 96, 4000, "150 messages each, proper ones and ones that are a step away from it, met by "
                          "a transaction of every command in every state"),
                   direct("dclient", "p20_burst", 48, 1600, "up to 2100 requests queued at once while nothing can be sent, listings of up "
                          "to 4200 entries, services of up to 60 kB, thousands of notifications at once")],
           "One evaluation is one session of the real client library (paf.client, paf.proto, paf.xcm) with a scripted server over "
           "the simulated transport: every request is compared with the call that caused it, every callback, return value and "
           "exception with the server's script. Distinct: by the tail of the session's log and its length.",
           r"callbacks compared|results compared|failures compared|errors judged|requests compared", 20000,
           "runtime monitoring: online checker of the client API against the script of an adversarial server over a simulated "
           "transport",
           "Real client library run on the generated sessions only. The order of an unsolicited track reply and the text of "
           "messages, apart from the server's reason, are left open.", assumptions="libxcm and poll() are stand-ins; virtual time"))
register(D("P21", [direct("dclient", "p21", 1600, 40000, "random domain directories and files in both formats, connections by name "
                          "and address, listings")],
           "One evaluation is one history of a directory of domain files: writing, replacing, removing, listing, connecting. "
           "Each connection's address, attributes and offered version range are compared with the file's first server; each "
           "listing with the directory. Distinct: by wanted server and file contents.",
           r"connections compared|listings of", 3000,
           "runtime monitoring: outgoing connections observed at the transport stand-in, compared with the generated files",
           "Real paf.client with a stand-in transport, on generated files only. Malformed JSON, unreadable files and a missing "
           "directory are not judged.", assumptions="libxcm is a stand-in; files are valid UTF-8"))

register(D("P19", [direct("dconf", "p19", 400, 14000, "generated configuration files (some spoilt) and command lines; each daemon "
                          "that starts is probed")],
           "One evaluation is one run of paf.daemon.main with a generated command line and configuration file. If it should be "
           "rejected: exit status 1, a message, no server socket. Else: sockets and TLS attributes at the transport, version "
           "ranges, limits, idle times by probing over the protocol, domains told apart, log destinations, facility, levels and "
           "rotation by their contents. Distinct: by command line and file.",
           r"starts compared|rejections compared|versions compared|limits|idle times|sockets compared|logs compared", 8000,
           "runtime monitoring: black-box probing of the real daemon under generated configurations, against the generator's intent",
           "Real paf.conf, paf.daemon, paf.server over a stand-in transport. Left open: unknown keys that are ignored today, null "
           "values, empty socket lists, output of Python's logging when no destination is configured, -r.",
           assumptions="libxcm is a stand-in; virtual time; real log files and a real log socket"))


# ---------------------------------------------------------------- real processes over the C library stand-in

register(D("P27", [direct("dxcm", "p27_plain", 40, 2000, "sessions of paf.xcm over a shared library, freed memory overwritten"),
                   direct("dxcm", "p27_asan", 24, 1200, "the same, the library instrumented by AddressSanitizer"),
                   direct("dxcm", "p27_memcheck", 8, 300, "the same under valgrind memcheck"),
                   sim("faults", 60, 2000), sim("hostile", 40, 1000), direct("dclient", "p20", 160, 4000, "client sessions")],
           "One evaluation is one session of random calls to the real paf/xcm.py over a C library that checks every handle, map and "
           "buffer, with failures injected; results, error codes, messages, attributes (read back past the binding), readiness "
           "and counts of live handles and maps are compared after each call. Also server histories and client sessions, in which "
           "the library stand-in checks handles. Distinct: by message, and by attribute name and value.",
           r"messages received|error codes|attributes|counts compared|bad values|uses after", 50000,
           "runtime monitoring: AddressSanitizer, valgrind memcheck, heap poisoning and a checking library stand-in, with a model "
           "of the binding's contract",
           "Real paf/xcm.py and ctypes over a stand-in for libxcm. CPython itself is not instrumented (memcheck sees it). Left "
           "open: integers outside 64 bits, strings with NUL, the error code of a refused readiness condition.",
           assumptions="libxcm behaves as its documentation says"))
CHECKS["P27"].prepare = prepare_shim


register(D("P26", [direct("dcli", "p26", 800, 40000, "sessions of app/pafc, as a process, with a scripted server")],
           "One evaluation is one command typed into (or notification sent to) the real program app/pafc, run as a process over a C "
           "library stand-in: the requests that reach the scripted server and the output are compared with what was typed and "
           "answered. Distinct: by request.",
           r"requests compared|outputs compared|malformed|refusals|notifications compared|entries compared", 30000,
           "runtime monitoring: black-box sessions of the program between a generator of command lines and a scripted server",
           "Real program on the generated sessions only. Left open: numbers Python accepts beyond [+-]digits, |text| of non-integers, "
           "requests too large for a message, headers and the exact wording of messages, readline editing.",
           assumptions="libxcm is a stand-in over local sockets"))
CHECKS["P26"].prepare = prepare_plain_shim

for _pid in ("P01", "P16", "P24"):
    CHECKS[_pid].prepare = prepare_plain_shim
