#!/usr/bin/env python3
"""run.py <property id> [--replay FILE]

Runs the check of one property against /repo's working tree.  VERIF_SEED and VERIF_TIER (quick, thorough) select
what is explored.  Exit 0: held on everything explored; exit 1 with a VIOLATION line: broken; exit 2: the check
could not do its work."""
import os, re, sys, traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.path.insert(0, os.path.join(VERIF, "lib"))
from harness import Ctx, Violation, CheckError
import importlib
import subprocess


def known_findings(pid):
    """key -> text of the known (not repaired) findings of this property"""
    res = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == pid:
                res[m.group(2)] = m.group(3)
    return res


def main():
    for f in (sys.stdout, sys.stderr):
        f.reconfigure(errors="replace")
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    reg = importlib.import_module("checks.registry")
    fn = reg.CHECKS[pid]
    ctx = Ctx(pid, tier, seed)
    ctx.replay = None
    if "--replay" in sys.argv:
        ctx.replay = os.path.abspath(sys.argv[sys.argv.index("--replay") + 1])
    known = known_findings(pid)
    rc = 0
    try:
        fn(ctx)
        for key in sorted(ctx.known_seen):
            if key not in known:
                ctx.violation("unlisted", f"a failure that known_findings.txt does not list: {key}\n")
        for key, text in sorted(known.items()):
            if key in ctx.known_seen:
                print(f"KNOWN-FINDING: property={pid} {text}")
    except Violation as v:
        print(v.text[:4000])
        print(f"VIOLATION property={pid} replay={v.replay}")
        rc = 1
    except CheckError as e:
        print("check error:", e)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    if rc < 2 and not ctx.replay:
        ctx.evidence(rc)
    import shutil
    if "--keep" not in sys.argv:
        shutil.rmtree(ctx.build, ignore_errors=True)
    print(f"{pid}: {'held' if rc == 0 else 'violated' if rc == 1 else 'no answer'}; {ctx.evaluations} cases, "
          f"{ctx.nontrivial} distinct non-trivial")
    sys.stdout.flush()
    sys.exit(rc)


main()
