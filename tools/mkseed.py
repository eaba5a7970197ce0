#!/usr/bin/env python3
"""mkseed.py ID...|all: builds /verif/seeded/ID from tools/seeds/ID.py, confirming it in a scratch copy of /repo.

A seed file sets PROPERTY, NEEDS, BREAKS, EDITS [(file, old, new)], DEMO (python source using demolib)."""
import glob, json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TESTS = ["test/test_filter.py", "test/test_timer.py"]


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def build(i):
    spec = {}
    exec(open("%s/tools/seeds/%s.py" % (V, i)).read(), spec)
    t = tempfile.mkdtemp(prefix="seed")
    try:
        w = t + "/w"
        shutil.copytree("/repo", w)
        sh(["git", "checkout", "-q", "--", "."], w)
        for f, old, new in spec["EDITS"]:
            s = open(w + "/" + f).read()
            if s.count(old) != 1:
                return "edit of %s: %d matches for %r" % (f, s.count(old), old[:60])
            open(w + "/" + f, "w").write(s.replace(old, new))
        patch = subprocess.run(["git", "diff"], cwd=w, stdout=subprocess.PIPE).stdout
        base = sh(["git", "diff", "-U0", "0a32fb3", "HEAD"], w).stdout
        added = {l[1:].strip() for l in base.splitlines() if l.startswith("+")}
        removed = [l[1:].strip() for l in patch.decode().splitlines() if l.startswith("-") and not l.startswith("---")]
        if removed and all(l in added for l in removed):
            return "changes only lines added by our fixes"
        d = "%s/seeded/%s" % (V, i)
        os.makedirs(d, exist_ok=True)
        for f in os.listdir(V + "/tools/demo"):
            if not f.startswith("__"):
                shutil.copy(V + "/tools/demo/" + f, d)
        open(d + "/patch.diff", "wb").write(patch)
        open(d + "/demo.py", "w").write("from demolib import *\n\n" + spec["DEMO"].lstrip("\n"))
        for extra, text in spec.get("FILES", {}).items():
            open(d + "/" + extra, "w").write(text)
        json.dump({"property": spec["PROPERTY"], "needs": spec["NEEDS"], "what_it_breaks": spec["BREAKS"]},
                  open(d + "/meta.json", "w"), indent=1)
        env = dict(os.environ, PYTHONPATH=w, PYTHONDONTWRITEBYTECODE="1")
        demo = t + "/demo"
        shutil.copytree(d, demo, ignore=shutil.ignore_patterns("*.diff", "meta.json", "__pycache__"))
        r = sh(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--noconftest"] + TESTS, w, env=env)
        if r.returncode:
            return "tests fail: " + r.stdout[-800:]
        r = sh(["sh", demo + "/demo.sh"], w, timeout=280)
        if r.returncode != 1:
            return "demo does not fail with the patch (%d): %s" % (r.returncode, r.stdout[-1500:])
        broken = r.stdout.strip()[-200:]
        sh(["git", "checkout", "-q", "--", "."], w)
        for _ in range(2):
            r = sh(["sh", demo + "/demo.sh"], w, timeout=280)
            if r.returncode:
                return "demo fails without the patch: " + r.stdout[-1500:]
        return "ok   [%s]" % broken
    finally:
        shutil.rmtree(t, True)


ids = sys.argv[1:]
if ids == ["all"]:
    ids = sorted(os.path.basename(f)[:-3] for f in glob.glob(V + "/tools/seeds/*.py"))
from concurrent.futures import ThreadPoolExecutor
with ThreadPoolExecutor(4) as ex:
    for i, r in zip(ids, ex.map(build, ids)):
        print(i, r, flush=True)
