"""Which programs, in which configurations, decide which property."""
import glob, hashlib, json, os, random, re, shutil, time
from concurrent.futures import ThreadPoolExecutor
from .core import Cfg, CheckError, Violation, goenv, sh

AVXOFF = "cpu.avx=off,cpu.avx2=off,cpu.avx512f=off,cpu.avx512bw=off,cpu.avx512vl=off,cpu.fma=off,cpu.bmi1=off,cpu.bmi2=off"
# what only some of the processors with AVX2 have
EXTRAOFF = "cpu.avx512f=off,cpu.avx512bw=off,cpu.avx512vl=off,cpu.avx512vbmi=off,cpu.fma=off,cpu.bmi1=off,cpu.bmi2=off,cpu.adx=off,cpu.aes=off,cpu.pclmulqdq=off,cpu.rdrand=off,cpu.rdseed=off,cpu.erms=off"
AVX2OFF = "cpu.avx2=off,cpu.avx512f=off,cpu.avx512bw=off,cpu.avx512vl=off,cpu.fma=off,cpu.bmi1=off,cpu.bmi2=off"

def plain(pkg, prop): return [Cfg("amd64", pkg, [prop])]

LARGE = "source-constants-as-counts,large,large-random"

def stream_cfgs(prop):
    """All sections, and the large ones once more as on machines with fewer processors."""
    return [Cfg("amd64", "stream", [prop]),
            Cfg("3 CPUs", "stream", [prop], sections=LARGE, div=3, cpus=3),
            Cfg("1 CPU", "stream", [prop], sections=LARGE, div=6, cpus=1)]

PLANS = {p: stream_cfgs(p) for p in ("C01", "C02", "C03", "C04", "C05", "C06")}
PLANS["C07"] = plain("block", "C07")
PLANS["C08"] = plain("block", "C08")
# the interposed build first: there, a write past a result faults before it can corrupt the heap
PLANS["C09"] = [Cfg("amd64-interposed", "stream", ["C09"], overlay="interpose", pbtcfg="interpose", optional=True),
                Cfg("amd64", "stream", ["C09"])]
PLANS["C10"] = plain("block", "C10")
BITS = dict(avx="1.c-28", avx2="7.b-5", fma="1.c-12", f16c="1.c-29", bmi1="7.b-3", bmi2="7.b-8", osxsave="1.c-27")
WIDE = ",".join("7.b-%d" % b for b in (16, 17, 21, 26, 27, 28, 30, 31)) + ",7.c=0,7.d=0"  # the 512-bit extensions and what came after
EXTRAS = WIDE + ",1.c-1,1.c-12,1.c-25,1.c-30,7.b-3,7.b-8,7.b-9,7.b-18,7.b-19,80000001.c-5"
def lacks(*names): return ",".join([BITS[n] for n in names] + [WIDE])
# a CPU: its name, the masks for a modelled one, the masks for GODEBUG (None: only modelled), the features the functions can use
NOAVX = ("no AVX", lacks("avx", "avx2", "fma", "f16c", "bmi1", "bmi2"), AVXOFF, "none")
AVXONLY = ("AVX only", lacks("avx2", "fma", "bmi1", "bmi2"), AVX2OFF, "avx")
ALL = ("AVX and AVX2", "", "", "full")
ODD = [("AVX2 without AVX", "1.c-28", "cpu.avx=off", "none"),
       ("AVX and AVX2 alone", EXTRAS, EXTRAOFF, "full"),
       ("AVX alone", EXTRAS + ",7.b-5", EXTRAOFF + ",cpu.avx2=off", "avx"),
       ("no XSAVE in the system", "1.c-27", None, "none"),
       ("a system that saves SSE only", "xcr0=3", None, "none"),
       ("a system that saves no 512-bit state", "xcr0=7", None, "full"),
       ("few CPUID leaves", "max=4", None, "avx"),
       ("few CPUID leaves, no AVX", "max=2,1.c-28", None, "none"),
       ("another maker", "vendor=AuthenticAMD", None, "full"),
       ("another maker, AVX only", "vendor=CentaurHauls," + lacks("avx2", "fma", "bmi1", "bmi2"), None, "avx"),
       ("an unknown maker", "vendor=SomeCPUMaker," + EXTRAS, None, "full")]

def on(cpu, fake, name="", build="plain", **kw):
    n, model, mask, features = cpu
    return Cfg(n + name, "dispatch", ["C11"], pbtcfg=features + "/" + build, **(dict(cpu=model) if fake else dict(godebug=mask)), **kw)

def c11_cfgs(fake):
    return ([on(c, fake) for c in (NOAVX, AVXONLY, ALL)] + [on(c, fake, div=4) for c in ODD if fake or c[2] is not None] +
            [on(NOAVX, fake, ", traps", "trap", overlay="trap-avx", optional=True), on(AVXONLY, fake, ", traps", "trap", overlay="trap-avx2", optional=True),
             on(ALL, fake, ", traps", "trap", overlay="trap-new", optional=True), on(AVXONLY, fake, ", must trap", "must-trap", overlay="trap-avx", optional=True),
             on(ALL, fake, ", must trap", "must-trap", overlay="trap-avx", optional=True)])

RUNTIME = ("GODEBUG", "GOGC", "GOMEMLIMIT", "GOMAXPROCS", "GOTRACEBACK", "GORACE", "GOCOVERDIR")

def c11(run, replay=None):
    # every variable the sources name is set: to 1, and to one of the string constants
    _, envs, raws = host_names(run.repo)
    envs = [k for k in envs if not k.startswith("PBT_") and k not in RUNTIME and k not in os.environ]
    fake = run.models_cpus()
    cfgs = c11_cfgs(fake) + [on(c, fake, ", variables set %d" % k, div=6, env={e: raws[hash_int("%d %s" % (run.seed, e)) % len(raws)] if k and raws else "1" for e in envs})
                             for c in (NOAVX, ALL) for k in (0, 1)]
    if replay: return cfgs
    for c in cfgs: run.run_cfg(c)

PLANS["C11"] = c11
PLANS["C13"] = [Cfg("amd64", "indep", ["C13"]), Cfg("3 CPUs", "indep", ["C13"], div=4, cpus=3), Cfg("amd64-race", "indep", ["C13"], race=True, pbtcfg="race")]
PLANS["C14"] = plain("tables", "C14")
PLANS["C16"] = [Cfg("amd64", "util", ["C16"], ldflags="-checklinkname=0")]
PLANS["C19"] = [Cfg("amd64", "util", ["C19"], ldflags="-checklinkname=0")]
PLANS["C20"] = plain("block", "C20")

def c21(run, replay=None):
    cfgs = [Cfg("amd64", "stream", ["C21"]), Cfg("no AVX", "stream", ["C21"], godebug=AVXOFF, cpu=NOAVX[1] if run.models_cpus() else "", div=2),
            Cfg("386", "stream", ["C21"], goarch="386", div=4)]
    if replay: return cfgs
    for c in cfgs: run.run_cfg(c)

PLANS["C21"] = c21


# ---- C12: other architectures -------------------------------------------------
TARGETS = ["386", "arm", "arm64", "loong64", "mips", "mipsle", "mips64", "mips64le", "ppc64", "ppc64le", "riscv64", "s390x"]
OTHER = [("js", "wasm"), ("wasip1", "wasm"), ("darwin", "arm64"), ("windows", "386"), ("windows", "arm64"), ("freebsd", "arm")]
STREAM = ["C01", "C02", "C03", "C04", "C05", "C06"]

def portable_cfgs(run):
    div386, divwasm, divmips = (10, 80, 260) if run.tier == "quick" else (4, 16, 150)
    return [Cfg("386", "dispatch", ["C11"], goarch="386", pbtcfg="portable/plain"),
            Cfg("386", "stream", STREAM, goarch="386", div=div386),
            Cfg("386", "block", ["C07", "C08"], goarch="386", div=div386),
            Cfg("wasm", "dispatch", ["C11"], goos="js", goarch="wasm", pbtcfg="portable/plain", div=divwasm),
            Cfg("wasm", "stream", STREAM, goos="js", goarch="wasm", div=divwasm),
            Cfg("wasm", "block", ["C07", "C08"], goos="js", goarch="wasm", div=divwasm),
            Cfg("mips", "dispatch", ["C11"], goarch="mips", pbtcfg="portable/plain", div=divmips, runner="mips"),
            Cfg("mips", "stream", STREAM, goarch="mips", div=divmips, runner="mips"),
            Cfg("mips", "block", ["C07", "C08"], goarch="mips", div=divmips, runner="mips")]

BIG_ENDIAN = ("mips", "mips64", "ppc64", "s390x")
SMALL = ("386", "arm", "mips", "mipsle")

def selected(run, goos, goarch):
    """The library's source files for a target, and whether they ask for its name."""
    rc, out = sh(["go", "list", "-e", "-json=Dir,GoFiles,SFiles", "./pkg/encode", "./pkg/decode", "./pkg/shared", "./pkg/util", "./pkg/stream/..."],
                 cwd=run.repo, env=goenv(GOOS=goos, GOARCH=goarch, CGO_ENABLED="0"))
    if rc: raise CheckError("go list for %s/%s: %s" % (goos, goarch, out[-1000:]))
    files, named = [], False
    dec = json.JSONDecoder()
    while out.strip():
        d, n = dec.raw_decode(out.strip()); out = out.strip()[n:]
        for f in (d.get("GoFiles") or []) + (d.get("SFiles") or []):
            p = os.path.join(d["Dir"], f)
            files.append(os.path.relpath(p, run.repo))
            if f.endswith(".go") and re.search(r"runtime\.GO(ARCH|OS)\b", open(p, errors="replace").read()): named = True
    return tuple(sorted(files)), named

def impersonate(run, goos, goarch, files):
    """A copy of the repository in which every target builds the given target's files."""
    root = os.path.join(run.tmp, "as-%s-%s" % (goos, goarch))
    shutil.copytree(run.repo, root, ignore=shutil.ignore_patterns(".git"))
    dirs = {os.path.dirname(f) for f in files}
    for d in dirs:
        for f in os.listdir(os.path.join(root, d)):
            if f.endswith((".go", ".s")): os.unlink(os.path.join(root, d, f))
    for n, f in enumerate(files):
        s = open(os.path.join(run.repo, f), errors="replace").read()
        if f.endswith(".s") and goarch != "amd64": return None  # another processor's assembly
        s = re.sub(r"(?m)^//(go:build | \+build ).*$", "", s)
        if re.search(r"runtime\.GO(ARCH|OS)\b", s):
            s = s.replace("runtime.GOARCH", '"%s"' % goarch).replace("runtime.GOOS", '"%s"' % goos)
            if "runtime" in re.findall(r'"(\w+)"', s.split("func ")[0]): s += "\nvar _ = runtime.Compiler\n"
        open(os.path.join(root, os.path.dirname(f), "source%d%s" % (n, f[-2:] if f.endswith(".s") else ".go")), "w").write(s)
    return root

def other_sources(run, targets, done):
    """Targets that get other source files than those executed, or ask for the target's name: their files run in a stand-in target."""
    seen = {}
    with ThreadPoolExecutor(4) as ex: sel = list(ex.map(lambda t: selected(run, *t), targets))
    kinds = {}
    for t, (files, named) in zip(targets, sel): kinds.setdefault((files, t if named else None), []).append(t)
    ran = {(f, t if n else None) for t, (f, n) in zip(targets, sel) if t in done}
    run.extra["source_sets"] = [["%s/%s" % t for t in ts] for ts in kinds.values()]
    for k, ts in kinds.items():
        if k in ran: continue
        for end in (False, True):
            pick = [t for t in ts if (t[1] in BIG_ENDIAN) == end]
            if not pick: continue
            cfgs = stand_ins(run, pick[0], k[0])
            if not cfgs: run.notes.append("%s/%s has assembly of its own, which cannot be run here" % pick[0])
            src, run.repo = run.repo, os.path.join(run.tmp, "as-%s-%s" % pick[0])
            try:
                for c in cfgs:
                    try: run.build(c)
                    except CheckError as e:
                        run.notes.append("the sources of %s/%s do not build in a stand-in target: %s" % (pick[0] + (str(e)[:300],))); break
                    run.run_cfg(c)
            finally: run.repo = src

def stand_ins(run, target, files):
    name = "sources of %s/%s" % target
    if not impersonate(run, *target, files): return []
    if target[1] in BIG_ENDIAN: kw = dict(goarch="mips", div=400, runner="mips")
    else: kw = dict(goarch="386" if target[1] in SMALL else "amd64", div=20)
    if run.tier == "thorough": kw["div"] //= 10
    return [Cfg(name, "dispatch", ["C11"], pbtcfg="portable/plain", **kw),
            Cfg(name, "stream", STREAM, env={"PBT_NOHUGE": "1"}, **kw),
            Cfg(name, "block", ["C07", "C08"], **kw)]

def c12(run, replay=None):
    if replay and "target" in replay:
        ok, out = run.library_builds(*replay["target"])
        print(out)
        if not ok: raise Violation("does not build for %s/%s" % tuple(replay["target"]), "the given one")
        return []
    if replay and replay.get("config", "").startswith("sources of "):
        t = tuple(replay["config"][11:].split("/"))
        cfgs = stand_ins(run, t, selected(run, *t)[0])
        run.repo = os.path.join(run.tmp, "as-%s-%s" % t)
        return [c for c in cfgs if replay["suite"] in c.props]
    cfgs = portable_cfgs(run)
    if replay: return [c for c in cfgs if replay["suite"] in c.props]
    builds = []
    targets = [("linux", a) for a in TARGETS] + OTHER
    with ThreadPoolExecutor(4) as ex:
        done = list(ex.map(lambda t: run.library_builds(*t), targets))
    run.extra["cross_builds"] = ["%s/%s" % t for t in targets]
    for t, (ok, out) in zip(targets, done):
        if not ok:
            raise Violation("the library does not build for %s/%s:\n%s" % (t + (out[-1500:],)),
                            run.save_replay(None, "build", dict(target=t, message=out[-3000:])))
    for c in cfgs: run.run_cfg(c)
    other_sources(run, targets, {(c.goos, c.goarch) for c in cfgs})

PLANS["C12"] = c12

# ---- C15: regenerated code ----------------------------------------------------
# circumstances of a regeneration: the generators must not depend on them
def regenerations(run):
    rng = random.Random(run.seed)
    v = [("", {}), ("again", {}), ("over longer files", {}), ("over changed files", {}), ("no AVX", dict(GODEBUG=AVXOFF)), ("one CPU", dict(GOMAXPROCS="1")), ("386 generators", dict(GOARCH="386", CGO_ENABLED="0")),
         ("another place and time zone", dict(TZ="Asia/Kathmandu", LANG="tr_TR.UTF-8", LC_ALL="tr_TR.UTF-8", COLUMNS="20", TERM="dumb"))]
    _, envs, _ = host_names(run.repo)
    v.append(("variables set", {k: "1" for k in envs if k not in RUNTIME and k not in os.environ}))
    rest = v[1:]
    rng.shuffle(rest)
    n = len(rest) if run.tier == "quick" else 30
    return v[:1] + [(("%s %d" % (rest[k % len(rest)][0], k)), rest[k % len(rest)][1]) for k in range(n)]

def generated(root, since):
    return {os.path.relpath(os.path.join(r, f), root): hashlib.sha256(open(os.path.join(r, f), "rb").read()).hexdigest()
            for r, _, fs in os.walk(root) for f in fs if os.stat(os.path.join(r, f)).st_mtime >= since}

HAND = "// A line put there by hand.\n"

def marked(root): # the files that say they are generated
    return {os.path.relpath(p, root) for p in glob.glob(root + "/pkg/**/*", recursive=True)
            if os.path.isfile(p) and re.match(rb"(//.*\n|[ \t]*\n)*// Code generated .*DO NOT EDIT", open(p, "rb").read(2000))}

def regenerate(run, src, k, name, env, over=()):
    root = os.path.join(run.tmp, "regenerated%s" % (k or ""), "repo%d" % (k % 3))
    shutil.copytree(src, root, ignore=shutil.ignore_patterns(".git"))
    put = {}
    for p in over if name.startswith("over ") else ():
        old = open(os.path.join(root, p)).read()
        head, rest = old[:200], old[200:]
        put[p] = HAND * 50 + "\n" + old if name.startswith("over longer") else head + rest.replace("3", "2")
        open(os.path.join(root, p), "w").write(put[p])
    t = time.time()
    rc, out = sh(["go", "generate", "-x", "./pkg/..."], cwd=root, env=goenv(**env), timeout=600)
    if name.startswith("again") and not rc: # over the new files
        rc, out = sh(["go", "generate", "-x", "./pkg/..."], cwd=root, env=goenv(**env), timeout=600)
    left = sorted(p for p in put if open(os.path.join(root, p)).read() == put[p])
    return root, rc, out, generated(root, t), left

def c15(run, replay=None):
    src = run.repo
    gens = sorted(p for p in glob.glob(src + "/pkg/**/*.go", recursive=True)
                  if any(l.startswith("//go:generate ") for l in open(p, errors="replace")))
    t = time.time()
    todo = [(k, n, e) for k, (n, e) in enumerate(regenerations(run))]
    only = replay and replay.get("regeneration", replay["config"].partition(", ")[2])
    if replay: todo = [x for x in todo if not x[1] or x[1] == only]
    results = [regenerate(run, src, *todo[0])]
    with ThreadPoolExecutor(4) as ex: results += list(ex.map(lambda x: regenerate(run, src, *x, over=marked(src) | {p for p in results[0][3] if os.path.isfile(os.path.join(src, p))}), todo[1:]))
    if replay: todo, results = todo[-1:], results[-1:]
    seen, cfgs = [], []
    for (k, name, env), (root, rc, out, files, left) in zip(todo, results):
        what = "the regenerated library" + (" (%s)" % name if name else "")
        def bad(msg, out): raise Violation("%s:\n%s" % (msg, out[-2000:]), run.save_replay(None, "generate", dict(message=out[-3000:], regeneration=name)))
        if rc and name.startswith("over changed"): continue # a generator that builds on the file
        if rc: bad("go generate fails" + (" (%s)" % name if name else ""), out)
        if left: bad("go generate leaves files as they were, in spite of changes made by hand: " + ", ".join(left), out)
        if files in seen:
            shutil.rmtree(root)
            continue
        seen.append(files)
        run.repo = root
        run.extra.setdefault("generate", []).append(dict(
            circumstances=name, directives_in=[os.path.relpath(p, src) for p in gens], commands=[l for l in out.splitlines() if l.startswith("go run")],
            rewritten=[dict(file=p, sha256=h, same_as_checked_in=same(os.path.join(src, p), os.path.join(root, p))) for p, h in sorted(files.items())]))
        ok, out = run.library_builds()
        if not ok:
            if not run_original_builds(src): raise CheckError("the library does not build: " + out)
            bad(what + " does not build", out)
        div = (3 if run.tier == "quick" else 1) * (2 if name else 1)
        config = "regenerated" + (", " + name if name else "")
        cfgs = [Cfg(config, "tables", ["C14"]), Cfg(config, "block", ["C07", "C08", "C10"], div=div),
                Cfg(config, "stream", ["C03", "C04", "C05", "C06", "C09"], div=2 * div, env={"PBT_NOHUGE": "1"})]
        for c in cfgs: # a routine that is no longer generated shows only when a program is linked
            try: run.build(c)
            except CheckError as e:
                run.repo = src
                run.build(c)
                bad("a program with " + what + " does not build", str(e))
        if replay:
            if "case" not in replay and not replay.get("whole_run"): print("REPLAY-OK: generates and builds")
            return [c for c in cfgs if replay["suite"] in c.props]
        for c in cfgs: run.run_cfg(c)
        if len(seen) > 3: break
    run.extra["regenerations"] = dict(circumstances=[x[1] or "as it is" for x in todo], different_results=len(seen))

def same(a, b):
    try: return open(a, "rb").read() == open(b, "rb").read()
    except OSError: return False

def run_original_builds(src):
    rc, _ = sh(["go", "build", "./pkg/encode", "./pkg/decode", "./pkg/shared", "./pkg/util", "./pkg/stream/..."], cwd=src, env=goenv())
    return rc == 0

PLANS["C15"] = c15

# ---- C18: host programs ---------------------------------------------------------
PACKAGES = {  # package: (import path, a use of it)
    "shared": ("pkg/shared", "_ = shared.ControlByteToSize(0xe4)"),
    "util": ("pkg/util", "util.SortUint32([]uint32{3, 1, 2})"),
    "encode": ("pkg/encode", "_ = encode.Put8uint32(make([]uint32, 8), make([]byte, 32)); _ = encode.GetMode()"),
    "decode": ("pkg/decode", "decode.Get8uint32(make([]byte, 32), make([]uint32, 8), 0x1234); _ = decode.GetMode()"),
    "writer": ("pkg/stream/writer", "_ = writer.WriteAll(make([]uint32, 99)); _ = writer.WriteAllDelta(make([]uint32, 99), 7)"),
    "reader": ("pkg/stream/reader", "reader.ReadAll(4, make([]byte, 32), make([]uint32, 4)); reader.ReadAllDelta(4, make([]byte, 32), make([]uint32, 4), 7)"),
}

HOST = '''package main

import (
	crand "crypto/rand"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"log"
	"math/rand"
	"mime"
	"net"
	"net/http"
	"os"
	"os/signal"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
%(imports)s)

// the state of the process that a package can set for everybody
func process(start bool) {
	if start {
		fmt.Println("goroutines", runtime.NumGoroutine())
	}
	fmt.Println("processors", runtime.GOMAXPROCS(0), runtime.NumCPU())
	gc := debug.SetGCPercent(100)
	debug.SetGCPercent(gc)
	threads := debug.SetMaxThreads(10000)
	debug.SetMaxThreads(threads)
	stack := debug.SetMaxStack(1 << 26)
	debug.SetMaxStack(stack)
	fault := debug.SetPanicOnFault(false)
	debug.SetPanicOnFault(fault)
	fmt.Println("gc", gc, debug.SetMemoryLimit(-1), "threads", threads, "stack", stack, "fault", fault,
		"profiles", runtime.MemProfileRate, runtime.SetMutexProfileFraction(-1))
	mask := syscall.Umask(0o77)
	syscall.Umask(mask)
	fmt.Printf("umask %%o zone %%s", mask, time.Local)
	for _, k := range []int{syscall.RLIMIT_NOFILE, syscall.RLIMIT_CORE, syscall.RLIMIT_STACK, syscall.RLIMIT_AS, syscall.RLIMIT_DATA, syscall.RLIMIT_CPU, syscall.RLIMIT_FSIZE} {
		var l syscall.Rlimit
		syscall.Getrlimit(k, &l)
		fmt.Print(" limit ", l.Cur, "/", l.Max)
	}
	nice, _ := syscall.Getpriority(syscall.PRIO_PROCESS, 0)
	fmt.Println(" nice", nice)
	for _, f := range []string{"comm", "oom_score_adj", "coredump_filter", "personality", "timerslack_ns", "status"} {
		b, _ := os.ReadFile("/proc/self/" + f)
		for _, l := range strings.Split(string(b), "\\n") {
			k := strings.Split(l, ":")[0]
			switch {
			case f == "comm":
				l = fmt.Sprint(strings.HasPrefix(l, "host-") || l == "")
			case f == "status" && !strings.Contains(" Umask Uid Gid Groups SigIgn SigCgt CapInh CapPrm CapEff CapBnd CapAmb NoNewPrivs Seccomp THP_enabled VmLck Cpus_allowed Mems_allowed ", " "+k+" "):
				continue
			}
			fmt.Println(f, l)
		}
	}
	fmt.Println("leader", syscall.Getpgrp() == os.Getpid(), "files", os.Stdin.Name(), os.Stdout.Name(), os.Stderr.Name(), os.Stdin.Fd(), os.Stdout.Fd(), os.Stderr.Fd())
	fmt.Printf("crypto %%T http %%v %%T %%p", crand.Reader, http.DefaultClient.Timeout, http.DefaultClient.Transport, http.DefaultClient.Jar)
	if t, ok := http.DefaultTransport.(*http.Transport); ok {
		fmt.Println(" connections", t.MaxIdleConns, t.MaxConnsPerHost, t.IdleConnTimeout, t.TLSHandshakeTimeout, t.TLSClientConfig == nil, t.DisableKeepAlives, t.DisableCompression)
	}
	fmt.Println("types", mime.TypeByExtension(".svb"), mime.TypeByExtension(".bin"), "resolver", net.DefaultResolver.PreferGo, net.DefaultResolver.Dial == nil)
	fds, _ := os.ReadDir("/proc/self/fd")
	for _, fd := range fds {
		if to, err := os.Readlink("/proc/self/fd/" + fd.Name()); err == nil && !strings.HasPrefix(to, "pipe:") && !strings.HasPrefix(to, "/proc/") && !strings.HasPrefix(to, "/dev/p") && !strings.HasPrefix(to, "anon_inode:") {
			fmt.Println("open", to)
		}
	}
	for _, p := range []string{"/", "/debug/vars", "/debug/pprof/", "/debug/requests", "/metrics", "/streamvbyte", "/health"} {
		r, _ := http.NewRequest("GET", "http://localhost"+p, nil)
		if _, pattern := http.DefaultServeMux.Handler(r); pattern != "" {
			fmt.Println("served", p, pattern)
		}
	}
	if !start {
		return
	}
	if strings.Contains(os.Getenv("GODEBUG"), "randautoseed=0") {
		fmt.Println("random", rand.Int63(), rand.Int63())
		return
	}
	v := rand.Int63()
	for k := int64(0); k < 50; k++ {
		if rand.New(rand.NewSource(k)).Int63() == v {
			fmt.Println("random numbers of seed", k)
		}
	}
}

func use() {
%(use)s}

func main() {
	var spec struct {
		Use     bool
		Handler int
		End     string
	}
	var raw map[string]json.RawMessage
	if err := json.Unmarshal([]byte(os.Getenv("HOST_SPEC")), &raw); err != nil {
		panic(err)
	}
	json.Unmarshal(raw["use"], &spec.Use)
	json.Unmarshal(raw["handler"], &spec.Handler)
	json.Unmarshal(raw["end"], &spec.End)
	var fl []map[string]string
	json.Unmarshal(raw["flags"], &fl)
	defer func() {
		if p := recover(); p != nil {
			fmt.Println("panic:", p)
			os.Exit(9)
		}
	}()
	process(true)
	if spec.Use {
		use()
	}
	if spec.Handler != 1 {
		flag.CommandLine.Init(os.Args[0], flag.ErrorHandling(spec.Handler))
	}
	for _, f := range fl {
		switch f["kind"] {
		case "bool":
			flag.Bool(f["name"], f["default"] == "true" || f["default"] == "1" || f["default"] == "T", "a bool")
		case "int":
			v, _ := strconv.Atoi(f["default"])
			flag.Int(f["name"], v, "an int")
		case "duration":
			v, _ := time.ParseDuration(f["default"])
			flag.Duration(f["name"], v, "a duration")
		case "float":
			v, _ := strconv.ParseFloat(f["default"], 64)
			flag.Float64(f["name"], v, "a float")
		default:
			flag.String(f["name"], f["default"], "a string")
		}
	}
	fmt.Println("error:", flag.CommandLine.Parse(os.Args[1:]))
	flag.VisitAll(func(f *flag.Flag) { fmt.Printf("flag %%s default %%q value %%q usage %%q\\n", f.Name, f.DefValue, f.Value, f.Usage) })
	flag.Visit(func(f *flag.Flag) { fmt.Println("set", f.Name) })
	fmt.Printf("args %%q of %%q parsed %%v\\n", flag.Args(), os.Args, flag.Parsed())
	env := os.Environ()
	sort.Strings(env)
	fmt.Printf("env %%q\\n", env)
	input, err := io.ReadAll(os.Stdin)
	fmt.Printf("input %%q %%v\\n", input, err)
	wd, _ := os.Getwd()
	fmt.Printf("in %%s, log flags %%d prefix %%q\\n", wd, log.Flags(), log.Prefix())
	for _, s := range []syscall.Signal{syscall.SIGINT, syscall.SIGTERM, syscall.SIGHUP, syscall.SIGPIPE} {
		fmt.Println("ignoring", s, signal.Ignored(s))
	}
	log.New(os.Stdout, log.Prefix(), log.Flags()&^(log.LstdFlags|log.Lmicroseconds)).Print("logged")
	if log.Writer() != io.Writer(os.Stderr) {
		fmt.Println("the log goes elsewhere")
	}
	if spec.Use {
		use()
	}
	process(false)
	end(spec.End)
}

// how the program ends
func end(how string) {
	kill := func(s syscall.Signal) {
		if signal.Ignored(s) { // by whoever started it
			fmt.Println("ignored", s)
			return
		}
		syscall.Kill(os.Getpid(), s)
		if s == syscall.SIGUSR1 || s == syscall.SIGUSR2 { // nothing happens
			time.Sleep(200 * time.Millisecond)
		} else {
			time.Sleep(10 * time.Second)
		}
		fmt.Println("alive after", s)
	}
	switch how {
	case "panic elsewhere":
		go func() { panic("elsewhere") }()
		time.Sleep(10 * time.Second)
	case "nil":
		go func() { *(*int)(nil) = 1 }()
		time.Sleep(10 * time.Second)
	case "deadlock":
		select {}
	case "fatal":
		log.SetFlags(0)
		log.Fatal("the end")
	case "exit":
		os.Exit(7)
	case "term":
		kill(syscall.SIGTERM)
	case "int":
		kill(syscall.SIGINT)
	case "hup":
		kill(syscall.SIGHUP)
	case "usr1":
		kill(syscall.SIGUSR1)
	case "usr2":
		kill(syscall.SIGUSR2)
	case "quit":
		kill(syscall.SIGQUIT)
	case "pipe":
		signal.Ignore(syscall.SIGPIPE)
		r, w, _ := os.Pipe()
		r.Close()
		_, err := w.Write([]byte("x"))
		fmt.Println(err)
	}
}
'''

COMMON = """h help v version verbose debug config seed bench w o out output stubs pkg log file name in input simd mode count cpu
cpuprofile memprofile trace test.v test.run test.bench scalar fast force quiet q n""".split()

def host_names(repo):
    names, raws, envs = set(COMMON), set(), {"DEBUG", "VERBOSE", "SBYTE_HOME", "SBYTE_DEBUG", "GOSIMD"}
    for p in glob.glob(repo + "/pkg/**/*.go", recursive=True):
        if p.endswith("_test.go"): continue
        src = open(p, errors="replace").read()
        src = re.sub(r'(?s)\bimport\s*\(.*?\n\)', "", src)
        for m in re.finditer(r'"([^"\s\\]{1,80})"|`([^`\s]{1,80})`', src):
            v = m.group(1) or m.group(2)
            raws.add(v)
            w = re.fullmatch(r"-{0,2}([A-Za-z][\w.-]*)[=:]?.*", v)
            if not w: continue
            (envs if w.group(1).isupper() and len(w.group(1)) > 3 else names).add(w.group(1))
        if len(names) > 150: break
    return sorted(names), sorted(envs), sorted(raws)[:150]

def c18(run, replay=None):
    d = os.path.join(run.tmp, "hosts"); os.makedirs(d)
    src = os.path.join(run.tmp, "hostsrc"); os.makedirs(src)
    open(src + "/go.mod", "w").write(open(run.modfile()).read().replace("module verif/harness", "module verif/hosts"))
    shutil.copy(run.repo + "/go.sum", src + "/go.sum")
    pk = list(PACKAGES)
    full = (1 << len(pk)) - 1
    masks = [m for m in range(1, full + 1)
             if run.tier == "thorough" or bin(m).count("1") in (1, 2, len(pk)) or hash_int("%d %d" % (run.seed, m)) % 8 == 0]
    if replay and "case" in replay: masks = [replay["case"]["subset"]]
    def one(m, arch=""):
        sel = [pk[k] for k in range(len(pk)) if m >> k & 1]
        os.makedirs("%s/h%d" % (src, m), exist_ok=True)
        imports = "".join('\t"github.com/theMPatel/streamvbyte-simdgo/%s"\n' % PACKAGES[p][0] for p in sel)
        open("%s/h%d/main.go" % (src, m), "w").write(HOST % dict(imports=imports, use="".join("\t%s\n" % PACKAGES[p][1] for p in sel)))
        return sh(["go", "build", "-o", "%s/host-%d" % (d + arch, m), "./h%d" % m], cwd=src, env=goenv(CGO_ENABLED="0", GOARCH=arch or "amd64"))
    t = time.time()
    r = one(full)  # fills the build cache
    with ThreadPoolExecutor(6) as ex: rs = list(ex.map(one, [0] + [m for m in masks if m != full]))
    os.makedirs(d + "386")
    for rc, out in [r] + rs + [one(0, "386"), one(full, "386")]:
        if rc: raise CheckError("building a host program: " + out[-2000:])
    run.extra["host_programs"] = len(masks)
    run.extra["build_wall_s"] = round(time.time() - t, 1)
    names, envs, raws = host_names(run.repo)
    for x in (d, d + "386"): json.dump(dict(Packages=pk, Names=names, Envs=envs, Raws=raws), open(x + "/hosts.json", "w"))
    run.extra["flag_names_tried"] = names
    cfgs = [Cfg("hosts", "host", ["C18"], env={"PBT_HOSTS": d}), Cfg("hosts on 386", "host", ["C18"], div=4, env={"PBT_HOSTS": d + "386"})]
    if replay: return cfgs
    for c in cfgs: run.run_cfg(c)

def hash_int(s): return int(hashlib.sha1(s.encode()).hexdigest()[:8], 16)

PLANS["C18"] = c18

# ---- C24: ways of building --------------------------------------------------------
SYSTEMS = ["windows", "darwin", "freebsd", "netbsd", "openbsd", "dragonfly", "solaris", "illumos", "plan9"]

def cpu_flags():
    try: return set(re.search(r"(?m)^flags\s*:(.*)$", open("/proc/cpuinfo").read()).group(1).split())
    except (OSError, AttributeError): return set()

def c24_variants(run):
    """name, settings of Cfg"""
    v3 = {"avx", "avx2", "bmi1", "bmi2", "fma", "f16c", "movbe", "abm"}
    v4 = v3 | {"avx512f", "avx512bw", "avx512cd", "avx512dq", "avx512vl"}
    cov = os.path.join(run.tmp, "cov"); os.makedirs(cov, exist_ok=True)
    v = [("race detector", dict(race=True)),
         ("address sanitizer", dict(flags=["-asan"], buildenv=dict(CGO_ENABLED="1"), env=dict(ASAN_OPTIONS="detect_leaks=0"))),
         ("memory sanitizer", dict(flags=["-msan"], buildenv=dict(CGO_ENABLED="1", CC="clang"))),
         ("no optimisation, checked pointers", dict(flags=["-gcflags=all=-N -l -d=checkptr"])),
         ("no bounds checks, inlined", dict(flags=["-gcflags=github.com/theMPatel/streamvbyte-simdgo/...=-B -l=4"])),
         ("plugin", dict(flags=["-buildmode=plugin"], buildenv=dict(CGO_ENABLED="1"), runner="plugin")),
         ("coverage", dict(flags=["-cover", "-coverpkg=github.com/theMPatel/streamvbyte-simdgo/..."], env=dict(GOCOVERDIR=cov))),
         ("GOAMD64=v2, stripped", dict(flags=["-ldflags=-s -w", "-trimpath"], buildenv=dict(GOAMD64="v2"))),
         ("freed memory overwritten", dict(godebug="clobberfree=1", env=dict(GOGC="5")))]
    flags = cpu_flags()
    deep = run.tier == "thorough"
    if v3 <= flags and (deep or not v4 <= flags): v.append(("GOAMD64=v3", dict(flags=["-buildmode=exe"], buildenv=dict(GOAMD64="v3"))))
    if v4 <= flags: v.append(("GOAMD64=v4", dict(flags=["-buildmode=exe"], buildenv=dict(GOAMD64="v4"))))
    for n in range(23, 28):
        g = "go1.%d" % n
        if (deep or n in (23, 25)) and shutil.which(g, path=goenv()["PATH"]): v.append(("toolchain " + g, dict(go=g, flags=["-buildmode=exe"])))
    return v

def c24_cfgs(run, name, kw):
    slow, div = ("1", 20) if run.tier == "quick" else ("", 4)
    if "detector" in name or "sanitizer" in name: div *= 3
    env = dict(dict(PBT_SLOW=slow, PBT_NOHUGE="1"), **kw.get("env", {}))
    kw = {k: v for k, v in kw.items() if k != "env"}
    return [Cfg(name, "stream", ["C03", "C04", "C05", "C06"], env=env, div=div, **kw),
            Cfg(name, "block", ["C07", "C08"], env=env, div=2 * div, **kw)]

def set_cfgs(run, name):
    div = 6 if run.tier == "quick" else 1
    return [Cfg(name, "stream", ["C03", "C04", "C05", "C06"], div=div, env={"PBT_NOHUGE": "1"}),
            Cfg(name, "block", ["C07", "C08"], div=div), Cfg(name, "tables", ["C14"]),
            Cfg(name, "util", ["C16"], div=2 * div, ldflags="-checklinkname=0")]

def source_sets(run):
    rc, out = sh([run.tool("contexts"), run.repo])
    if rc: raise CheckError("contexts: " + out[-1000:])
    return json.loads(out)

def c24(run, replay=None):
    variants = c24_variants(run)
    if replay:
        name = replay.get("config", "") or replay.get("variant", "")
        if "target" in replay:
            ok, out = run.library_builds(*replay["target"]); print(out)
            if not ok: raise Violation("does not build for %s/%s" % tuple(replay["target"]), "the given one")
            return []
        if name.startswith("sources for "):
            for k, s in enumerate(source_sets(run)):
                if "sources for " + " ".join(s["ways"][0]) != name: continue
                root = impersonate(run, s.get("system") or s["ways"][0][0], "amd64", s["files"])
                run.repo = root
                return [c for c in set_cfgs(run, name) if replay["suite"] in c.props]
            return []
        cfgs = [c for n, kw in variants if n == name for c in c24_cfgs(run, n, kw)]
        if "suite" in replay and replay["suite"] != "build": return [c for c in cfgs if replay["suite"] in c.props]
        for c in cfgs:
            try: run.build(c)
            except CheckError as e: raise Violation(str(e), "the given one")
        return []
    # every system
    targets = [(s, "amd64") for s in SYSTEMS]
    with ThreadPoolExecutor(4) as ex: done = list(ex.map(lambda t: run.library_builds(*t), targets))
    run.extra["cross_builds"] = ["%s/%s" % t for t in targets]
    for t, (ok, out) in zip(targets, done):
        if not ok:
            raise Violation("the library does not build for %s/%s:\n%s" % (t + (out[-1500:],)),
                            run.save_replay(None, "build", dict(target=t, message=out[-3000:])))
    # every way of building and running
    run.modfile(); run.dict_file()
    def prepare(v):
        name, kw = v
        kw = {k: x for k, x in kw.items() if k not in ("env", "godebug")}
        env = goenv(**v[1].get("env", {}))
        try:
            probe = run.build(Cfg(name, "probe", [], **kw))
            rc, out = sh(([run.tool(kw["runner"])] if "runner" in kw else []) + [probe], env=env, timeout=60)
            if rc or "ok" not in out: return "a program that does nothing fails: " + out[-300:]
        except CheckError as e: return "a program that does nothing does not build: " + str(e)[-300:]
        for c in c24_cfgs(run, *v):
            try: run.build(c)
            except CheckError as e: return e
    with ThreadPoolExecutor(4) as ex: ready = list(ex.map(prepare, variants))
    run.extra["ways_of_building"] = [n for (n, _), r in zip(variants, ready) if r is None]
    for (name, kw), r in zip(variants, ready):
        if isinstance(r, str): run.notes.append("%s: not available here: %s" % (name, r))
        elif r is not None:
            if not run.library_builds()[0]: raise r
            raise Violation("%s: %s" % (name, r), run.save_replay(None, "build", dict(variant=name, message=str(r))))
    for (name, kw), r in zip(variants, ready):
        if r is None:
            for c in c24_cfgs(run, name, kw): run.run_cfg(c)
    # every set of source files that some way of building selects
    sets = source_sets(run)
    run.extra["source_sets"] = [dict(files=len(s["files"]), system=s["system"] if "system" in s else "", ways=s["ways"][:8]) for s in sets]
    for s in sets:
        if s["real"] and s.get("system", "") in ("", "linux"): continue
        name = "sources for " + " ".join(s["ways"][0])
        root = impersonate(run, s.get("system") or s["ways"][0][0], "amd64", s["files"])
        src, run.repo = run.repo, root
        try:
            for c in set_cfgs(run, name):
                try: run.build(c)
                except CheckError as e:
                    run.notes.append("the %s do not build in a stand-in target: %s" % (name, str(e)[:300])); break
                run.run_cfg(c)
        finally:
            run.repo = src
            shutil.rmtree(root, ignore_errors=True)

PLANS["C24"] = c24

# ---- C17: the README tool -------------------------------------------------------
def strings_of(d):
    """The string constants of the Go files in d."""
    l = set()
    for p in glob.glob(d + "/*.go"):
        src = re.sub(r'(?s)\bimport\s*\(.*?\n\)', "", open(p, errors="replace").read())
        for m in re.finditer(r'"((?:[^"\\\n]|\\.){1,80})"|`([^`]{1,80})`', src):
            l.add(m.group(1).replace("\\n", "\n").replace("\\t", "\t").replace('\\"', '"').replace("\\\\", "\\") if m.group(1) else m.group(2))
    return sorted(l)[:200]

def c17(run, replay=None):
    tool = os.path.join(run.tmp, "readme-tool")
    rc, out = sh(["go", "build", "-o", tool, "./tools"], cwd=run.repo, env=goenv(CGO_ENABLED="0"))
    if rc: raise CheckError("building the tool: " + out[-2000:])
    cfgs = [Cfg("tool", "readme", ["C17"], env={"PBT_TOOL": tool, "PBT_STRINGS": json.dumps(strings_of(run.repo + "/tools"))})]
    if replay: return cfgs
    for c in cfgs: run.run_cfg(c)

PLANS["C17"] = c17

# ---- C23: cost ----------------------------------------------------------------
def c23(run, replay=None):
    cfgs = [Cfg("amd64", "cost", ["C23"]), Cfg("no AVX", "cost", ["C23"], godebug=AVXOFF, div=2)]
    if replay: return cfgs
    for c in cfgs: run.run_cfg(c)

PLANS["C23"] = c23

# ---- C22: the maintenance scripts -------------------------------------------------
def c22(run, replay=None):
    tool = os.path.join(run.tmp, "readme-tool")
    rc, out = sh(["go", "build", "-o", tool, "./tools"], cwd=run.repo, env=goenv(CGO_ENABLED="0"))
    if rc: raise CheckError("building the tool: " + out[-2000:])
    cfgs = [Cfg("scripts", "scripts", ["C22"], env={"PBT_TOOL": tool, "PBT_REPO": run.repo})]
    if replay: return cfgs
    for c in cfgs: run.run_cfg(c)

PLANS["C22"] = c22
