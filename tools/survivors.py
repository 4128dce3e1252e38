#!/usr/bin/env python3
"""survivors.py DIR: runs the relevant checks against every mutant of tools/mutate.py, and names those none reports."""
import glob, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def checks(f):
    if "/main/" in f or "avogen" in f: return ["C15", "C18"]
    if "_base" in f: return ["C12", "C11"]
    for k, c in (("pkg/decode", "C08 C10 C20 C11"), ("pkg/encode", "C07 C10 C20 C11"), ("pkg/shared", "C14 C11 C12"),
                 ("stream/reader", "C05 C06 C09 C11"), ("stream/writer", "C03 C04 C09 C11"), ("rand.go", "C19"), ("pkg/util", "C16 C19"), ("tools/", "C17")):
        if k in f: return [x for x in c.split() if not (x == "C20" and "_amd64" in f)]
    return []
for d in sorted(glob.glob(sys.argv[1] + "/*.diff")):
    done = d[:-5] + ".result"
    if os.path.exists(done): continue
    f = [l[6:].strip() for l in open(d) if l.startswith("+++ b/")][0]
    w = tempfile.mkdtemp(prefix="sv."); r = "SURVIVES"; others = []
    shutil.copytree("/repo", w + "/repo"); subprocess.run(["git", "-C", w + "/repo", "apply", d], check=True)
    for c in checks(f):
        p = subprocess.run([sys.executable, V + "/check.py", c], env=dict(os.environ, VERIF_REPO=w + "/repo"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode == 1 and "VIOLATION property=" + c in p.stdout: r = "killed by " + c; break
        if p.returncode: others.append("%s: exit %d" % (c, p.returncode))
    shutil.rmtree(w)
    open(done, "w").write(" ".join([r] + others))
    print(os.path.basename(d), r, *others, flush=True)
