#!/usr/bin/env python3
"""mkseed.py NAME...|all: turns definitions in tools/seeds.py into
/verif/seeded/NAME/, after confirming in a scratch copy of /repo that the
change builds, passes the stable tests (three runs), and that the
demonstration passes without it and fails with it."""
import json, os, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools")); sys.dont_write_bytecode = True
import seeds
ENV = dict(os.environ, GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off", GOWORK="off", PATH="/usr/local/go/bin:" + os.environ["PATH"])

DEMO = '''#!/bin/bash
# cwd: the repository. Exit 0 when it behaves, non-zero when it does not.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off PATH=/usr/local/go/bin:$PATH
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
cat > "$t/go.mod" <<END
module demo

go 1.22

replace github.com/theMPatel/streamvbyte-simdgo => $repo

require (
	github.com/theMPatel/streamvbyte-simdgo v0.0.0
	golang.org/x/sys v0.0.0-20210510120138-977fb7262007 // indirect
)
END
cp "$repo/go.sum" "$t/go.sum"
cp "$here/demo.go" "$t/main.go"
cd "$t" || exit 3
%s
'''

def sh(cmd, cwd, timeout=300):
    p = subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)
    return p.returncode, p.stdout

def tests(cwd):
    rc, out = sh(["go", "test", "-vet=off", "-count=1", "./..."], cwd)
    return rc == 0 or "FAIL\t" not in out and "--- FAIL" not in out, out

def make(name, s):
    d = os.path.join(ROOT, "seeded", name)
    w = tempfile.mkdtemp(prefix="seed-")
    try:
        repo = os.path.join(w, "repo")
        shutil.copytree("/repo", repo)
        files = {}
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        body = s.get("demo_sh", 'go run . || exit 1')
        open(d + "/demo.sh", "w").write(s.get("demo_full") or DEMO % body); os.chmod(d + "/demo.sh", 0o755)
        for dst, src in s.get("files", {}).items():
            os.makedirs(os.path.dirname(os.path.join(d, dst)), exist_ok=True); shutil.copy(os.path.join(ROOT, src), os.path.join(d, dst))
        if s.get("demo"): open(d + "/demo.go", "w").write(s["demo"])
        rc, out = sh(["bash", d + "/demo.sh"], repo)
        if rc: return "demo fails on the unchanged tree (%d): %s" % (rc, out[-800:])
        for f, old, new, *how in s["edits"]:
            p = os.path.join(repo, f)
            if old is None:
                open(p, "w").write(new); sh(["git", "add", "-N", f], repo); continue
            t = open(p).read()
            if t.count(old) < 1: return "text not found in %s: %r" % (f, old)
            if how == ["all"]: t = t.replace(old, new)
            else:
                i = t.rfind(old) if how == ["last"] else t.find(old)
                t = t[:i] + new + t[i + len(old):]
            open(p, "w").write(t)
        rc, diff = sh(["git", "diff"], repo)
        open(d + "/patch.diff", "w").write(diff)
        json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
        rc, out = sh(["go", "build", "./..."], repo)
        if rc: return "does not build: " + out
        for k in range(4):
            ok, out = tests(repo)
            if not ok: return "tests fail: " + out[-1500:]
        rc, out = sh(["bash", d + "/demo.sh"], repo)
        if rc == 0: return "demo passes with the change"
        print("   demo:", " ".join(out.strip().splitlines()[-3:])[-200:])
        return None
    finally:
        shutil.rmtree(w, ignore_errors=True)

names = sorted(seeds.SEEDS) if sys.argv[1:] == ["all"] else sys.argv[1:]
for n in names:
    e = make(n, seeds.SEEDS[n])
    print(n, "ok" if e is None else "FAILED " + e, flush=True)
    if e is not None: shutil.rmtree(os.path.join(ROOT, "seeded", n), ignore_errors=True)
