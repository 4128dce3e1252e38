#!/usr/bin/env python3
"""mutate.py OUT [N]: first-order mutants of the library; keeps those that build and pass the tests as OUT/*.diff.

A way to look for blind spots: what survives here and survives the checks as
well (tools/matrix.sh style) is either an equivalent edit or a gap."""
import os, random, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
ENV = dict(os.environ, GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off", PATH="/usr/local/go/bin:/usr/local/bin:/usr/bin:/bin")
SWAP = {"+": ["-"], "-": ["+"], "<": ["<=", ">"], "<=": ["<"], ">": [">=", "<"], ">=": [">"], "==": ["!="], "!=": ["=="],
        "&&": ["||"], "||": ["&&"], "&": ["|"], "|": ["&", "^"], "<<": [">>"], ">>": ["<<"], "&^": ["&"], "++": ["--"], "+=": ["-=", "="], "-=": ["+="], "%": ["/"], "/": ["%"], "*": ["+"]}
def tokens(line):
    return list(re.finditer(r'"(?:\\.|[^"\\])*"|//.*|0x[0-9a-fA-F]+|\b\d+\b|&\^|&&|\|\||<<=?|>>=?|[-+*/%&|^]=|\+\+|--|[<>=!]=|:=|<-|[-+*/%&|<>]|\w+', line))
def go_mutants(path, lines):
    incomment = False
    for i, l in enumerate(lines):
        s = l.strip()
        if s.startswith(("//", "package", "import", "func", "type", ")", '"')) or not s: continue
        for m in tokens(l):
            t = m.group()
            if t.startswith(('"', "//")): continue
            if re.fullmatch(r"0x[0-9a-fA-F]+|\d+", t):
                v = int(t, 0)
                for w in sorted({v + 1, max(0, v - 1), v * 2, v // 2} - {v}): yield i, l[:m.start()] + str(w) + l[m.end():]
            for w in SWAP.get(t, []): yield i, l[:m.start()] + w + l[m.end():]
        if not s.endswith(("{", "}", "(", ",")) and ":=" not in s and not s.startswith(("return", "}")): yield i, ""
        if s.startswith("if ") and s.endswith("{") and ";" not in s:
            yield i, re.sub(r"if .* \{", "if true {", l); yield i, re.sub(r"if .* \{", "if false {", l)
        if s == "continue": yield i, l.replace("continue", "break")
        if s == "break": yield i, l.replace("break", "continue")
def asm_mutants(path, lines):
    for i, l in enumerate(lines):
        s = l.strip()
        if not s or s.startswith(("//", "#", "TEXT", "RET")): continue
        yield i, ""
        for m in re.finditer(r"\$(0x[0-9a-f]+|\d+)|\b(\d+)\(|\+(\d+)\(", l):
            k = next(g for g in (1, 2, 3) if m.group(g)); v = int(m.group(k), 0)
            for w in {v + 1, max(v - 1, 0), v * 2, v ^ 8} - {v}: yield i, l[:m.start(k)] + str(w) + l[m.end(k):]
        for m in re.finditer(r"\bX(\d)\b", l):
            for w in {0, 1, 2, 3} - {int(m.group(1))}: yield i, l[:m.start(1)] + str(w) + l[m.end(1):]
        for a, b in (("VLDDQU", "VMOVDQA"), ("VMOVDQU", "VMOVDQA"), ("VPADDD", "VPSUBD"), ("VPADDD", "VPADDW"), ("MOVBQZX", "MOVBQSX"), ("MOVWQZX", "MOVWQSX"), ("ADDQ", "SUBQ"), ("ADDQ", "ADDL"), ("SHRQ", "SHLQ"), ("VPSLLDQ", "VPSRLDQ"), ("VPMINUW", "VPMINSW"), ("VPMINUB", "VPMINSB"), ("VPADDUSW", "VPADDW"), ("VPADDUSB", "VPADDB"), ("VPACKUSWB", "VPACKSSWB"), ("MOVL", "MOVQ"), ("PSHUFD", "PSHUFLW")):
            if a in l: yield i, l.replace(a, b)
        if i + 1 < len(lines) and not lines[i + 1].strip().startswith(("RET", "//")): yield i, lines[i + 1] + "\0" + l
def main():
    out, limit = sys.argv[1], int(sys.argv[2]) if len(sys.argv) > 2 else 10**9
    os.makedirs(out, exist_ok=True)
    fs = subprocess.run(["git", "-C", "/repo", "ls-files"], stdout=subprocess.PIPE, text=True).stdout.split()
    todo = []
    for f in fs:
        if f.endswith("_test.go") or not f.endswith((".go", ".s")) or f.endswith("tables.go") or "testdata" in f: continue
        lines = open("/repo/" + f).read().split("\n")
        for i, new in (asm_mutants if f.endswith(".s") else go_mutants)(f, lines): todo.append((f, i, new))
    random.Random(7).shuffle(todo)
    todo = todo[:limit]
    print(len(todo), "mutants", flush=True)
    ws = []
    for k in range(4):
        w = tempfile.mkdtemp(prefix="mut-"); shutil.copytree("/repo", w + "/repo"); ws.append(w + "/repo")
    def work(k):
        kept, r = 0, ws[k]
        for n in range(k, len(todo), len(ws)):
            f, i, new = todo[n]
            p = os.path.join(r, f); old = open(p).read(); ls = old.split("\n")
            if "\0" in new: ls[i:i + 2] = new.split("\0")
            elif new == "": del ls[i]
            else: ls[i] = new
            open(p, "w").write("\n".join(ls))
            try:
                sh = lambda *c: subprocess.run(c, cwd=r, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60).returncode
                ok = sh("go", "build", "./...") == 0 and sh("go", "test", "-vet=off", "-count=1", "./...") == 0 and sh("go", "test", "-vet=off", "-count=1", "./...") == 0
            except subprocess.TimeoutExpired: ok = False
            if ok:
                d = subprocess.run(["git", "diff"], cwd=r, stdout=subprocess.PIPE, text=True).stdout
                if d: open("%s/%05d-%s-%d.diff" % (out, n, os.path.basename(f), i + 1), "w").write(d); kept += 1
            open(p, "w").write(old)
        return kept
    with ThreadPoolExecutor(len(ws)) as ex: print("kept", sum(ex.map(work, range(len(ws)))))
    for w in ws: shutil.rmtree(os.path.dirname(w))
main()
