#!/usr/bin/env python3
"""run.py --prop P01 [--tier quick|thorough] | --replay FILE | --list"""

import argparse
import atexit
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PYTHON = "/opt/venv/bin/python"


def reexec():
    """A fixed hash seed and the interpreter that has PyYAML."""
    want = PYTHON if os.access(PYTHON, os.X_OK) else sys.executable
    if os.environ.get("PV_EXEC") != "1":
        env = dict(os.environ, PV_EXEC="1", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1")
        env.pop("PYTHONPATH", None)
        os.execve(want, [want, "-u", os.path.join(HERE, "run.py")] + sys.argv[1:], env)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--prop")
    ap.add_argument("--tier", default=None)
    ap.add_argument("--replay")
    ap.add_argument("--list", action="store_true")
    ap.add_argument("--jobs", type=int)
    args = ap.parse_args()
    reexec()
    sys.path.insert(0, HERE)
    from pv import checks, runner
    if args.list:
        print("\n".join(sorted(checks.CHECKS)))
        return 0
    if args.replay:
        r = json.load(open(args.replay))
        check = checks.CHECKS[r["property"]]
        if check.prepare:
            check.prepare()
        part = [p for p in check.parts if p.name == r["part"]][0]
        case = part.fun(r["seed"])
        for line in case.trace:
            print(line)
        hit = [d for d in case.divs if r["property"] in d[0] or "ALL" in d[0]]
        for tags, text, mech in case.divs:
            print("%s: %s" % (",".join(sorted(tags)), text))
        if hit:
            print("VIOLATION property=%s replay=%s" % (r["property"], args.replay))
        return 1 if hit else 0
    tier = args.tier or os.environ.get("VERIF_TIER") or "quick"
    seed = int(os.environ.get("VERIF_SEED") or 1)
    return runner.run_check(checks.CHECKS[args.prop], tier, seed, args.jobs)


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    atexit._run_exitfuncs()
    os._exit(rc)
