#!/usr/bin/env python3
"""cover.py [P..]: which lines of paf the quick checks never execute (in-process parts only; a reading aid, decides nothing).

Lines are recorded by sys.monitoring in each worker (PV_COVER names the directory)."""
import glob, os, shutil, subprocess, sys, tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PV_REPO", "/repo")


def code_lines(co, out):
    if co.co_flags & 1:         # functions only: the modules are loaded before the workers start
        out.update(l for _, _, l in co.co_lines() if l and l != co.co_firstlineno)
    for c in co.co_consts:
        if hasattr(c, "co_lines"):
            code_lines(c, out)


def main():
    props = sys.argv[1:] or ["P%02d" % i for i in range(1, 28)]
    t = tempfile.mkdtemp(prefix="cov")
    try:
        for p in props:
            subprocess.run(["python3", V + "/run.py", "--prop", p, "--tier", "quick"], stdout=subprocess.DEVNULL,
                           env=dict(os.environ, PV_COVER=t))
        hit = set()
        for f in glob.glob(t + "/*"):
            for l in open(f):
                a, b = l.rsplit(":", 1)
                hit.add((a, int(b)))
        for f in sorted(glob.glob(REPO + "/paf/*.py")):
            src = open(f).read()
            lines = set()
            code_lines(compile(src, f, "exec"), lines)
            text = src.splitlines()
            miss = sorted(l for l in lines if ("paf/" + os.path.basename(f), l) not in hit)
            print("%s: %d of %d lines" % (os.path.basename(f), len(lines) - len(miss), len(lines)))
            for l in miss:
                print("   %4d %s" % (l, text[l - 1]))
    finally:
        shutil.rmtree(t)


main()
