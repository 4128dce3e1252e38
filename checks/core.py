"""Builds harness programs against /repo's working tree, runs them, turns what
they report into evidence, replay files and verdicts."""
import hashlib, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
HARNESS = os.path.join(VERIF, "harness")
MODULE = "github.com/theMPatel/streamvbyte-simdgo"

def goenv(**kw):
    e = {k: v for k, v in os.environ.items() if not k.startswith(("GO", "PBT_", "CGO_"))}
    e.update(HOME=os.environ.get("HOME") or "/root", PATH="/usr/local/go/bin:/usr/local/bin:/usr/bin:/bin",
             GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off", GOWORK="off", GONOSUMDB="*", GONOSUMCHECK="1",
             GOPATH="/root/go", CGO_ENABLED="1")
    e.setdefault("GOCACHE", "/root/.cache/go-build")
    e.update({k: str(v) for k, v in kw.items()})
    return e

class CheckError(Exception):
    """The check could not decide."""

class Violation(Exception):
    def __init__(self, msg, replay): self.msg, self.replay = msg, replay

def sh(cmd, timeout=600, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout, **kw)
    return p.returncode, p.stdout

class Cfg:
    """One harness program in one build and run configuration."""
    def __init__(self, name, pkg, props, goos="linux", goarch="amd64", race=False, overlay=None, godebug="", div=0,
                 sections="", pbtcfg="", ldflags="", optional=False, runner=None, env=None, cpus=0, cpu="", go="go", flags=(), buildenv=None):
        self.name, self.pkg, self.props = name, pkg, props
        self.goos, self.goarch, self.race, self.overlay = goos, goarch, race, overlay
        self.godebug, self.div, self.sections, self.pbtcfg, self.ldflags = godebug, div, sections, pbtcfg, ldflags
        self.optional, self.runner, self.env, self.cpus, self.cpu = optional, runner, env or {}, cpus, cpu
        self.go, self.flags, self.buildenv = go, tuple(flags), buildenv or {}

class Run:
    def __init__(self, prop):
        self.prop = prop
        self.tier = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
        try: self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError: self.seed = 1
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        self.repo = REPO
        self.results, self.notes, self.builds = [], [], {}
        self.extra = {}
        self._dict = self._fake = None

    # ---- building ----------------------------------------------------------
    def modfile(self):
        d = os.path.join(self.tmp, "mod-" + hashlib.sha1(self.repo.encode()).hexdigest()[:8])
        if not os.path.isdir(d):
            os.makedirs(d)
            m = open(os.path.join(HARNESS, "go.mod")).read().replace("=> /repo", "=> " + self.repo)
            open(os.path.join(d, "go.mod"), "w").write(m)
            shutil.copy(os.path.join(self.repo, "go.sum"), os.path.join(d, "go.sum"))
        return os.path.join(d, "go.mod")

    def gobuild(self, pkg, out, args=(), go="go", **env):
        cmd = [go, "build", "-modfile=" + self.modfile(), "-o", out, *args, pkg]
        return sh(cmd, cwd=HARNESS, env=goenv(**env))

    def library_builds(self, goos="linux", goarch="amd64"):
        rc, out = sh(["go", "build", "./pkg/encode", "./pkg/decode", "./pkg/shared", "./pkg/util", "./pkg/stream/..."],
                     cwd=self.repo, env=goenv(GOOS=goos, GOARCH=goarch, CGO_ENABLED="0"))
        return rc == 0, out

    def tool(self, name):
        """A harness-side helper program."""
        out = os.path.join(self.tmp, "tool-" + name)
        if not os.path.exists(out):
            rc, o = self.gobuild("./cmd/" + name, out)
            if rc: raise CheckError("building %s: %s" % (name, o))
        return out

    def models_cpus(self):
        """Whether programs can be run on modelled CPUs here: CPUID must be able to fault, and tracing be allowed."""
        if self._fake is None:
            t = self.tool("fakecpu")
            p = subprocess.run([t, "probe,max=6,vendor=424242424242", t, "probe"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=60)
            self._fake = p.returncode == 0
            if not self._fake: self.notes.append("no modelled CPUs here, features are masked with GODEBUG only: " + p.stdout.strip()[:200])
        return self._fake

    def dict_file(self):
        if self._dict is None:
            f = os.path.join(self.tmp, "dict.json")
            p = subprocess.run([self.tool("dict"), self.repo], stdout=open(f, "w"), stderr=subprocess.DEVNULL)
            self._dict = f if p.returncode == 0 else ""
        return self._dict

    def build(self, c):
        key = (c.pkg, c.goos, c.goarch, c.race, c.overlay, self.repo, c.go, c.flags, tuple(c.buildenv.items()))
        if key in self.builds: return self.builds[key]
        out = os.path.join(self.tmp, "bin-" + hashlib.sha1(repr(key).encode()).hexdigest()[:12])
        args = list(c.flags)
        if c.race: args.append("-race")
        if c.ldflags: args.append("-ldflags=" + c.ldflags)
        # position independent: globals lie above 4 GB, so that a truncated address shows
        if (c.goos, c.goarch) == ("linux", "amd64") and not c.race and not c.flags and c.pkg != "dispatch": args.append("-buildmode=pie")
        if c.overlay:
            d = os.path.join(self.tmp, "overlay-%d" % len(self.builds))
            p = subprocess.run([self.tool("asmtool"), c.overlay, self.repo, d], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
            if p.returncode: raise CheckError("overlay %s: %s" % (c.overlay, p.stderr.strip()))
            self.extra.setdefault("instrumented", {})[c.name] = p.stdout.strip()
            args.append("-overlay=" + os.path.join(d, "overlay.json"))
        rc, o = self.gobuild("./cmd/" + c.pkg, out, args, go=c.go, **dict(dict(GOOS=c.goos, GOARCH=c.goarch, GOMIPS="softfloat", CGO_ENABLED="1" if c.race else "0"), **c.buildenv))
        if rc: raise CheckError("building %s for %s: %s" % (c.pkg, c.name, o[-3000:]))
        self.builds[key] = out
        return out

    # ---- running -----------------------------------------------------------
    def child(self, c, binary, prop, extra, timeout, cpu=None):
        env = goenv(VERIF_SEED=self.seed, VERIF_TIER=self.tier, PBT_PROP=prop, PBT_CONFIG=c.pbtcfg)
        if c.godebug: env["GODEBUG"] = c.godebug
        if c.div > 1: env["PBT_DIV"] = str(c.div)
        if c.runner or c.goarch == "wasm": env["PBT_SLOW"] = "1"
        if c.sections: env["PBT_SECTIONS"] = c.sections
        if c.race: env["GORACE"] = "halt_on_error=1 exitcode=66"
        if self.dict_file(): env["PBT_DICT"] = self.dict_file()
        env["TMPDIR"] = self.tmp
        env.update({k: str(v) for k, v in c.env.items()})
        env.update(extra)
        cmd = [binary]
        if c.goarch == "wasm":
            rc, root = sh(["go", "env", "GOROOT"], env=goenv())
            cmd = ["node", "--stack-size=8192", root.strip() + "/lib/wasm/wasm_exec_node.js", binary]
        elif c.runner:
            cmd = [self.tool(c.runner), binary]
        elif c.cpu:
            cmd = [self.tool("fakecpu"), c.cpu, binary]
        def pre():
            os.setsid()
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            if c.cpus: os.sched_setaffinity(0, sorted(os.sched_getaffinity(0))[:c.cpus])
            if cpu: resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
        of = tempfile.TemporaryFile(mode="w+b", dir=self.tmp)
        p = subprocess.Popen(cmd, env=env, stdout=of, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, cwd=self.tmp, preexec_fn=pre)
        try: p.wait(timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL); p.wait()
            return "timeout", ""
        of.seek(0, 2)
        n = of.tell(); of.seek(max(0, n - 200000))
        return p.returncode, of.read().decode("utf8", "replace")

    def save_replay(self, c, prop, d):
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        d = dict(property=self.prop, suite=prop, config=c.name if c else "", seed=self.seed, tier=self.tier, **d)
        b = json.dumps(d, indent=1)
        p = os.path.join(VERIF, "replays", "%s-%s.json" % (self.prop, hashlib.sha1(b.encode()).hexdigest()[:10]))
        d["how"] = "python3 check.py %s --replay %s" % (self.prop, p)
        open(p, "w").write(json.dumps(d, indent=1) + "\n")
        return p

    def limit(self): return 700 if self.tier == "quick" else 3 * 3600

    def run_cfg(self, c):
        try: binary = self.build(c)
        except CheckError as e:
            ok, o = self.library_builds(c.goos, c.goarch)
            if c.optional and ok:
                self.notes.append("configuration %s skipped: %s" % (c.name, str(e)[:500]))
                return
            raise
        for prop in c.props: self.run_suite(c, binary, prop)

    def run_suite(self, c, binary, prop):
        out = os.path.join(self.tmp, "out.json")
        def go(extra, timeout=None):
            if os.path.exists(out): os.unlink(out)
            rc, o = self.child(c, binary, prop, dict(PBT_OUT=out, **extra), timeout or self.limit())
            try: r = json.load(open(out))
            except (OSError, ValueError): r = None
            return rc, o, r
        rc, o, r = go({})
        if rc == -9 or "out of memory" in o or "cannot allocate memory" in o:
            self.notes.append("%s: ran out of memory, repeated without the largest inputs" % c.name)
            rc, o, r = go({"PBT_NOHUGE": "1"})
            if rc == -9 or "out of memory" in o or "cannot allocate memory" in o:
                raise CheckError("%s: out of memory" % c.name)
        if rc == "timeout": raise CheckError("%s: no result within %d s" % (c.name, self.limit()))
        if r and r.get("status") == "fail":
            f = r["failure"]
            self.results.append((c, prop, r))
            raise Violation("%s [%s, section %s, case %d]: %s" % (prop, c.name, f["section"], f["index"], f["message"][:2000]),
                            self.save_replay(c, prop, f))
        if rc == 0 and r and r["status"] == "ok":
            self.results.append((c, prop, r)); return
        if rc == 3: raise CheckError("%s: harness error: %s" % (c.name, o[-2000:]))
        if rc == 4 and r: return self.stuck(c, binary, prop, r["failure"])
        return self.crashed(c, binary, prop, rc, o, go)

    def dump(self, c, binary, prop, ident):
        f = os.path.join(self.tmp, "case.json")
        if os.path.exists(f): os.unlink(f)
        rc, o = self.child(c, binary, prop, dict(PBT_OUT=f, PBT_DUMP=ident), 120)
        if rc: return None
        return json.load(open(f))

    def replay_case(self, c, binary, prop, path, cpu=None, timeout=300):
        return self.child(c, binary, prop, dict(PBT_REPLAY=path, PBT_OUT=os.path.join(self.tmp, "r.json")), timeout, cpu)

    def stuck(self, c, binary, prop, f):
        """A case that made no progress: alone in a fresh process, does it end?"""
        d = self.dump(c, binary, prop, "%s:%d" % (f["section"], f["index"]))
        if not d: raise CheckError("%s: stuck, and the case cannot be rebuilt" % c.name)
        p = os.path.join(self.tmp, "stuck.json"); json.dump(d, open(p, "w"))
        blocked = f.get("blocked")
        rc, o = self.replay_case(c, binary, prop, p, cpu=200, timeout=60 if blocked else 400)
        if rc == 0 and blocked: # after earlier calls, not alone
            raise Violation("%s [%s, section %s, case %d]: a call waits for ever after the calls before it: %s" % (prop, c.name, f["section"], f["index"], blocked),
                            self.save_replay(c, prop, dict(d, message=blocked, whole_run=True)))
        if rc == 0: raise CheckError("%s: a case was slow under load: %s" % (c.name, d["section"]))
        msg = "the call does not end" if rc in (-24, -9, "timeout") else o[-1500:]
        raise Violation("%s [%s, section %s, case %d]: %s" % (prop, c.name, f["section"], f["index"], msg),
                        self.save_replay(c, prop, dict(d, message=msg)))

    def crashed(self, c, binary, prop, rc, o, go):
        """The process died: find the case, by log and fresh-process replay."""
        first = o
        log = os.path.join(self.tmp, "log")
        crashes = 1
        for attempt in range(2):
            if os.path.exists(log): os.unlink(log)
            rc2, o2, r2 = go({"PBT_LOG": log})
            if r2 and r2.get("status") == "fail":
                f = r2["failure"]
                raise Violation("%s [%s, section %s, case %d]: %s" % (prop, c.name, f["section"], f["index"], f["message"][:2000]), self.save_replay(c, prop, f))
            if rc2 == 0: continue
            crashes += 1
            last = {}
            if os.path.exists(log):
                for l in open(log):
                    w, _, i = l.strip().partition(" ")
                    if i: last[w] = i
            for i in list(last.values())[:16]:
                d = self.dump(c, binary, prop, i)
                if not d: continue
                p = os.path.join(self.tmp, "crash.json"); json.dump(d, open(p, "w"))
                for k in range(3):
                    rc3, o3 = self.replay_case(c, binary, prop, p)
                    if rc3 not in (0, 3, "timeout"):
                        raise Violation("%s [%s, %s]: the process dies: %s" % (prop, c.name, i, summary(o3)),
                                        self.save_replay(c, prop, dict(d, message=summary(o3))))
            d = self.dump(c, binary, prop, next(iter(last.values()))) if last else {}
            if crashes >= 2 or signature(o2):
                raise Violation("%s [%s]: the process dies during the run (exit %s): %s" % (prop, c.name, rc2, summary(o2)),
                                self.save_replay(c, prop, dict(d or {}, message=summary(o2), whole_run=True)))
        if signature(first):
            raise Violation("%s [%s]: the process died once in three runs (exit %s): %s" % (prop, c.name, rc, summary(first)),
                            self.save_replay(c, prop, dict(message=summary(first), whole_run=True)))
        raise CheckError("%s: exit %s: %s" % (c.name, rc, first[-2000:]))

    # ---- reporting ---------------------------------------------------------
    def evidence(self, violations, technique_rule=None):
        ev, dist, calls, samples, labels, runs, rules = 0, 0, 0, [], {}, [], []
        for c, prop, r in self.results:
            ev += r["evaluations"]; dist += r["distinct_nontrivial"]; calls += r.get("api_calls") or 0
            for s in (r.get("samples") or [])[:4 if len(self.results) > 3 else 12]: samples.append(dict(s, config=c.name) if isinstance(s, dict) else s)
            for k, v in (r.get("labels") or {}).items(): labels[k] = labels.get(k, 0) + v
            runs.append(dict(config=c.name, suite=prop, evaluations=r["evaluations"], distinct_nontrivial=r["distinct_nontrivial"],
                             api_calls=r.get("api_calls"), wall_s=round(r["wall_s"], 2), sections=r["sections"]))
            for n in r.get("notes") or []: self.notes.append("%s: %s" % (c.name, n))
            if r["rule"] not in rules: rules.append(r["rule"])
        cov = dict(evaluations=ev, distinct_nontrivial=dist, rule=" / ".join(rules) or "no case was run", samples=samples[:40],
                   calls_into_code_under_test=calls, labels=labels, runs=runs)
        if len(self.results) > 1:
            cov["distinct_note"] = "distinct cases are counted per configuration and suite, and added up"
        cov.update(self.extra)
        if self.notes: cov["notes"] = self.notes
        d = dict(property=self.prop, tier=self.tier, seed=self.seed, level="exploration", coverage=cov,
                 wall_s=round(time.time() - self.t0, 2), violations=violations)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        p = os.path.join(VERIF, "evidence", self.prop + ".json")
        open(p + ".tmp", "w").write(json.dumps(d, indent=1) + "\n")
        os.replace(p + ".tmp", p)

    def close(self):
        shutil.rmtree(self.tmp, ignore_errors=True)

def signature(o):
    return bool(re.search(r"SIGSEGV|SIGBUS|SIGILL|unexpected fault address|found bad pointer|DATA RACE|invalid pointer|found pointer to free|checkdead|bad sweep|s\.allocCount|corrupt|malloc deadlock|unexpected signal", o))

def summary(o):
    m = re.search(r"(WARNING: DATA RACE|fatal error:|unexpected fault|SIG[A-Z]+:|panic:)", o)
    i = m.start() if m else max(0, len(o) - 1500)
    return o[i:i + 1800]
