#!/usr/bin/env python3
"""check.py ID [--replay FILE]: decides property ID on /repo's working tree.

Exit 0: held on everything explored. Exit 1 and a VIOLATION line: broken.
Exit 2: the check could not decide. VERIF_SEED and VERIF_TIER are honoured."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from checks import core, plans

def main():
    prop = sys.argv[1]
    if prop == "--setup": return setup()
    run = core.Run(prop)
    try:
        if "--replay" in sys.argv:
            try: return replay(run, sys.argv[sys.argv.index("--replay") + 1])
            except core.Violation as v:
                print(v.msg)
                return 1
        violations = 0
        try:
            plan = plans.PLANS[prop]
            if callable(plan): plan(run)
            else:
                for c in plan: run.run_cfg(c)
        except core.Violation as v:
            violations = 1
            print(v.msg)
            print("VIOLATION property=%s replay=%s" % (prop, v.replay))
        run.evidence(violations)
        for n in run.notes: print("note:", n)
        if not violations: print("%s: held on %d cases, %.0f s" % (prop, sum(r["evaluations"] for _, _, r in run.results), __import__("time").time() - run.t0))
        return violations
    except core.CheckError as e:
        print("ERROR: %s" % e)
        return 2
    finally:
        run.close()

def setup():
    run = core.Run("setup")
    try:
        rc, out = core.sh(["go", "build", "-modfile=" + run.modfile(), "-ldflags=-checklinkname=0", "-o", run.tmp + "/", "./..."], cwd=core.HARNESS, env=core.goenv())
        print(out or "harness builds")
        return rc
    finally:
        run.close()

def replay(run, path):
    d = json.load(open(path))
    run.seed, run.tier = d.get("seed", 1), d.get("tier", "quick")
    plan = plans.PLANS[run.prop]
    if callable(plan): plan = plan(run, replay=d)
    if plan == []: return 0
    for c in plan or []:
        if c.name != d["config"]: continue
        b = run.build(c)
        if d.get("whole_run") or "case" not in d: run.run_suite(c, b, d["suite"]); print("REPLAY-OK"); return 0
        rc, o = run.replay_case(c, b, d["suite"], os.path.abspath(path), cpu=250, timeout=500)
        print(o.strip()[-3000:])
        return 0 if rc == 0 else 1
    print("ERROR: no configuration %r" % d["config"])
    return 2

if __name__ == "__main__":
    try: sys.exit(main())
    except Exception:
        import traceback; traceback.print_exc()
        sys.exit(2)
