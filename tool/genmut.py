#!/usr/bin/env python3
"""genmut.py [-n N] [-s SEED] FILE...: small generic edits of source files (negated conditions, deleted statements, changed operators);
prints those that no check of properties anchored in the file reports (development aid: candidates for gaps, many are equivalent)."""
import sys, os, re, random, shutil, subprocess, tempfile, time
from concurrent.futures import ThreadPoolExecutor
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.argv, args = [sys.argv[0], "C00"], sys.argv[1:]
src = open(H + "/tool/cross.py").read().split("pids = ")[0]
exec(compile(src.replace("os.path.abspath(__file__)", repr(H + "/tool/cross.py")), "cross", "exec"))
N, SEED, files = 100, 1, []
while args:
    a = args.pop(0)
    if a == "-n": N = int(args.pop(0))
    elif a == "-s": SEED = int(args.pop(0))
    else: files.append(a)
def muts(line):
    s = line.strip()
    if not s or s.startswith(("//", "*", "#", "/*", "case", "using", "namespace", "template", "BOOST_LOG", "assert", "COSIM_INPUT_CHECK")): return
    m = re.match(r"(\s*(?:\} else )?(?:if|while) \()(.*)(\) (?:\{|.*;))$", line)
    if m and ";" not in m.group(2) and "auto" not in m.group(2): yield "negate", m.group(1) + "!(" + m.group(2) + ")" + m.group(3)
    if re.match(r"\s+[\w\.\->:\(\)\[\]\*&<>, \"']+;$", line) and re.search(r"[\w\]\)]\s*(\(|=|\+\+|\+=)", s) and not re.match(r"(return|throw|break|continue|const |auto |std::\S+ \w|else|int |double |bool |virtual|explicit|friend|static|\w+(::\w+)* \w+(\(.*\)| =.*)?;|\w+<.*> \w+)", s): yield "delete", re.match(r"\s*", line).group(0) + ";"
    for a, b in ((" == ", " != "), (" != ", " == "), (" < ", " <= "), (" <= ", " < "), (" > ", " >= "), (" >= ", " > "), (" && ", " || "), (" || ", " && "), (" + ", " - "), (" - ", " + "), ("true", "false"), ("false", "true"), ("++", "--"), (" 1", " 0"), (" 0", " 1"), ("first", "second"), ("second", "first"), ("source", "target"), ("target", "source"), ("output", "input"), ("input", "output"), ("begin()", "end()"), ("integer", "real"), ("continue;", "break;"), ("break;", "continue;"), ("front", "back"), ("back()", "front()")):
        for m in re.finditer(r"(?<![\w<>])" + re.escape(a) + r"(?!\w)" if a.isalnum() else re.escape(a), line):
            if a in (" < ", " > ") and "template" in line: continue
            if line[:m.start()].count('"') % 2: continue
            yield a + "->" + b, line[:m.start()] + b + line[m.end():]
jobs = []
for f in files:
    L = open("/repo/" + f).read().split("\n")
    for i, l in enumerate(L):
        for k, n in muts(l): jobs.append((f, i, k, l, n))
random.seed(SEED); random.shuffle(jobs)
def order(f): 
    r = []
    for c in CHECKS:
        n = sum(1 for x in load(c) for e in edits(x) if e[0] == f) + (f in ANCHORS.get(c, []))
        if n: r.append((c in ("C08", "C09"), -n, c))
    return [c for *_, c in sorted(r)]
ORD = {f: order(f) for f in files}
def one(j):
    f, i, k, l, n = j
    d = tempfile.mkdtemp(prefix="gen.", dir="/tmp/gm")
    try:
        for x in ("src", "include", "data"): shutil.copytree("/repo/" + x, d + "/" + x)
        L = open(d + "/" + f).read().split("\n"); L[i] = n
        open(d + "/" + f, "w").write("\n".join(L))
        two = []
        for c in ORD[f]:
            try: r = subprocess.run([sys.executable, H + "/bin/check", c], env=dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE=d), capture_output=True, text=True, timeout=300)
            except subprocess.TimeoutExpired: two.append(c + ":timeout"); continue
            if r.returncode == 1: return j, "caught", c
            if r.returncode != 0:
                if "error:" in r.stdout + r.stderr: return j, "broken", c
                two.append(c)
        return j, "exit2" if two else "SURVIVES", " ".join(two)
    finally: shutil.rmtree(d)
t0, cnt = time.time(), {}
print("%d candidates, checks %s" % (len(jobs), ORD), flush=True)
with ThreadPoolExecutor(8) as ex:
    for j, w, c in ex.map(one, jobs[:N]):
        cnt[w] = cnt.get(w, 0) + 1
        if w not in ("caught", "broken"): print("%s %s:%d [%s] %s   =>   %s  %s" % (w, j[0], j[1] + 1, j[2], j[3].strip(), j[4].strip(), c), flush=True)
print(cnt, "%d s" % (time.time() - t0))
