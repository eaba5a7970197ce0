#!/usr/bin/env python3
"""hunt.py [-p P01,P02|own] [-t quick] [ID...]: runs checks against planted bugs, each in a scratch copy of /repo (PV_REPO)."""
import argparse, glob, json, os, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser()
ap.add_argument("-p", default="own")
ap.add_argument("-t", default="quick")
ap.add_argument("-r", action="store_true", help="IDs name tools/refactors instead: every check has to stay quiet")
ap.add_argument("-g", action="store_true", help="also print the properties the violations found are taken to break")
ap.add_argument("ids", nargs="*")
a = ap.parse_args()
names = sorted(os.listdir(V + "/seeded")) if not a.r else sorted(os.path.basename(f)[:-3] for f in glob.glob(V + "/tools/refactors/*.py"))


def refactor(name, w):
    spec = {}
    exec(open("%s/tools/refactors/%s.py" % (V, name)).read(), spec)
    for f, old, new in spec["SUBST"]:
        s = open(w + "/" + f).read()
        assert old in s, old
        open(w + "/" + f, "w").write(s.replace(old, new))
    for f, old, new in spec["EDITS"]:
        s = open(w + "/" + f).read()
        assert s.count(old) == 1, (s.count(old), old)
        open(w + "/" + f, "w").write(s.replace(old, new))
    r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--noconftest", "test/test_filter.py",
                        "test/test_timer.py"], cwd=w, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    assert r.returncode == 0, r.stdout


for i in a.ids or names:
    meta = {"property": "all"} if a.r else json.load(open("%s/seeded/%s/meta.json" % (V, i)))
    t = tempfile.mkdtemp(prefix="hunt")
    try:
        shutil.copytree("/repo", t + "/w")
        shutil.copytree(V, t + "/v", ignore=shutil.ignore_patterns(".git", "replays", "evidence", "seeded"))
        if a.r:
            refactor(i, t + "/w")
        else:
            subprocess.check_call(["git", "apply", "%s/seeded/%s/patch.diff" % (V, i)], cwd=t + "/w")
        props = [meta["property"]] if a.p == "own" else a.p.split(",")
        if a.p == "all" or a.r and a.p == "own":
            props = [c["property"] for c in json.load(open(V + "/MANIFEST.json"))["checks"]]
        res = []
        for p in props:
            t0 = time.time()
            r = subprocess.run(["python3", "run.py", "--prop", p, "--tier", a.t], cwd=t + "/v",
                               env=dict(os.environ, PV_REPO=t + "/w", VERIF_SEED=os.environ.get("VERIF_SEED", "1")),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            hit = r.returncode == 1 and "VIOLATION property=%s" % p in r.stdout
            res.append("%s %s (%d s)" % (p, "CAUGHT" if hit else "missed rc=%d" % r.returncode, time.time() - t0))
            if a.g:
                for f in sorted(glob.glob(t + "/v/replays/%s-*.json" % p))[:3]:
                    d = json.load(open(f))
                    res.append("\n    %s %s" % (",".join(d.get("tags", [])), d.get("what", "")[:150].replace("\n", " ")))
            if a.r and r.returncode:
                res.append(r.stdout[-1200:])
            elif a.p != "all" and not a.r and (not hit or "-v" in sys.argv):
                res.append(r.stdout[-300:])
        print(i, meta["property"], "; ".join(x for x in res if a.p != "all" and not a.r or "missed rc=0" not in x), flush=True)
    finally:
        shutil.rmtree(t, True)
