"""P27: the binding paf/xcm.py over a real shared library (shim/xcmshim.c), in processes of its own: with freed memory
overwritten, with the library instrumented by AddressSanitizer, and under valgrind's memcheck."""

import atexit
import json
import os
import re
import resource
import shutil
import subprocess
import sys
import tempfile

from pv.direct import Bug, digest

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TAGS = {"P27"}
DIR = None


def build(asan=True):
    """Once, before the workers are started."""
    global DIR
    if DIR is not None:
        return DIR
    DIR = tempfile.mkdtemp(prefix="pv-shim-")
    pid = os.getpid()
    atexit.register(lambda: os.getpid() == pid and shutil.rmtree(DIR, ignore_errors=True))
    for mode, flags in [("plain", []), ("asan", ["-fsanitize=address"])][:2 if asan else 1]:
        os.mkdir(os.path.join(DIR, mode))
        subprocess.run(["gcc", "-O1", "-g", "-shared", "-fPIC", "-Wl,-soname,libxcm.so.0"] + flags +
                       ["-o", os.path.join(DIR, mode, "libxcm.so.0"), os.path.join(VERIF, "shim", "xcmshim.c")], check=True)
    return DIR


def unlimited():
    soft, hard = resource.getrlimit(resource.RLIMIT_AS)
    resource.setrlimit(resource.RLIMIT_AS, (hard, hard))


def drive(mode, rng, c, sessions):
    from pv.world import REPO
    seed = rng.randrange(1 << 40)
    env = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "PYTHONPATH": REPO, "PYTHONDONTWRITEBYTECODE": "1",
           "PYTHONMALLOC": "malloc", "PYTHONHASHSEED": "0", "LD_LIBRARY_PATH": os.path.join(DIR, mode.replace("memcheck", "plain"))}
    cmd = [sys.executable, os.path.join(VERIF, "pv", "xcmdrv.py"), str(seed), str(sessions)]
    if mode == "asan":
        lib = subprocess.run(["gcc", "-print-file-name=libasan.so"], capture_output=True, text=True).stdout.strip()
        env["LD_PRELOAD"] = lib
        env["ASAN_OPTIONS"] = "detect_leaks=0:max_free_fill_size=65536:free_fill_byte=85:abort_on_error=1"
    elif mode == "memcheck":
        cmd = ["valgrind", "-q", "--error-exitcode=99"] + cmd
    else:
        env["MALLOC_PERTURB_"] = "165"
    with tempfile.TemporaryFile() as out, tempfile.TemporaryFile() as err:
        fd = os.dup(out.fileno())
        p = subprocess.Popen(cmd + [str(fd)], env=env, stdin=subprocess.DEVNULL, stdout=err, stderr=err, pass_fds=(fd,),
                             preexec_fn=unlimited, cwd="/")
        os.close(fd)
        try:
            rc = p.wait(140)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            c.inconclusive = "slow"
            return
        out.seek(0)
        err.seek(0)
        lines = out.read().decode("utf-8", "replace").splitlines()
        said = err.read().decode("utf-8", "replace")
    for l in lines:
        if l.startswith("{"):
            d = json.loads(l)
            c.evaluations += 1
            c.counts.update(d["counts"])
            c.counts["sessions " + mode] += 1
            c.distinct.update(digest(x) for x in d["distinct"])
            if d["bug"]:
                c.trace.extend(lines[-30:])
                raise Bug(TAGS, "%s (%s)" % (d["bug"], mode))
    if lines and lines[-1] == "end" and rc == 0:
        return
    c.trace.extend(lines[-30:])
    x = re.search(r"XCM MISUSE [^\n]*|ERROR: AddressSanitizer[^\n]*|Invalid (read|write|free)[^\n]*|"
                  r"[^\n]*uninitialised value[^\n]*|Timeout \(|Fatal Python error[^\n]*", said)
    if x and x.group(0).startswith("Timeout"):
        raise Bug(TAGS, "a call blocks that must not, or none of the other threads can run (%s): %s" % (mode, said[-1500:]))
    if x:
        raise Bug(TAGS, "%s (%s)\n%s" % (x.group(0), mode, said[-2000:]))
    if not lines or not lines[0].startswith("session"):
        raise RuntimeError("driver did not start: %s" % said[-1500:])
    raise Bug(TAGS, "the process ended with status %d (%s): %s" % (rc, mode, said[-2000:]))


def p27_plain(rng, c):
    drive("plain", rng, c, 40)


def p27_asan(rng, c):
    drive("asan", rng, c, 40)


def p27_memcheck(rng, c):
    drive("memcheck", rng, c, 8)
