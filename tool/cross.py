#!/usr/bin/env python3
"""cross.py [Cxx ...]: run every check against the behaviour-preserving mutants of the given checks (development aid).
REL=1: only checks whose own mutants edit one of the same files.  SKIP="Cxx ...": not these checks."""
import sys, os, shutil, subprocess, tempfile, importlib.util, time
from concurrent.futures import ThreadPoolExecutor
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SKIP = set(os.environ.get("SKIP", "").split())
CHECKS = [x for x in sorted(f[:-3].upper() for f in os.listdir(H + "/lib/rules") if f[0] == "c" and f[1:3].isdigit()) if x not in SKIP]
def load(pid):
    if not os.path.exists("%s/tool/mutants/%s.py" % (H, pid)): return []
    s = importlib.util.spec_from_file_location("m_" + pid, "%s/tool/mutants/%s.py" % (H, pid)); m = importlib.util.module_from_spec(s); s.loader.exec_module(m)
    return m.MUTANTS
def edits(m):
    r = m[2:]
    if len(r) == 1 and isinstance(r[0], tuple): r = r[0]
    return [r[i:i + 3] for i in range(0, len(r), 3)] if len(r) % 3 == 0 and all(x.startswith(('src/', 'include/', 'data/')) for x in r[::3]) else [(r[0],) + r[i:i + 2] for i in range(1, len(r), 2)]
FILES = {}
import json
ANCHORS = {p["id"]: p["anchors"]["files"] for p in map(json.loads, open(H + "/properties.jsonl"))}
def relevant(c, m):
    if not os.environ.get("REL"): return True
    if c not in FILES: FILES[c] = {e[0] for x in load(c) for e in edits(x)} | set(ANCHORS.get(c, []))
    return any(e[0] in FILES[c] for e in edits(m))
def run(job):
    pid, m = job
    d = tempfile.mkdtemp(prefix="crs.", dir="/tmp")
    out = []
    try:
        for x in ("src", "include", "data"): shutil.copytree("/repo/" + x, d + "/" + x)
        for f, old, new in edits(m):
            t = open(d + "/" + f).read()
            if old not in t: return pid, m[0], [("??", 0, "text not found")]
            open(d + "/" + f, "w").write(t.replace(old, new, 1))
        for c in CHECKS:
            if c == pid or not relevant(c, m): continue
            try:
                r = subprocess.run([sys.executable, H + "/bin/check", c], env=dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE=d), capture_output=True, text=True, timeout=600)
                if r.returncode: out.append((c, r.returncode, " | ".join([l for l in (r.stdout + r.stderr).split("\n") if l and not l.startswith("  ") and not l.startswith(c + ":") and "VIOLATION" not in l][:3]).replace(d + "/", "")))
            except subprocess.TimeoutExpired: out.append((c, "timeout", ""))
        return pid, m[0], out
    finally: shutil.rmtree(d)
pids = [a for a in sys.argv[1:] if a[0] == "C"] or sorted(f[:-3] for f in os.listdir(H + "/tool/mutants") if f.endswith(".py"))
jobs = [(p, m) for p in pids for m in load(p) if m[1] == 0]
t0 = time.time()
with ThreadPoolExecutor(8) as ex:
    for i, (pid, name, out) in enumerate(ex.map(run, jobs)):
        for c, rc, msg in out: print("%s %s: %s exits %s: %s" % (pid, name, c, rc, msg[:400]), flush=True)
        if i % 20 == 19: print("-- %d of %d, %d s" % (i + 1, len(jobs), time.time() - t0), flush=True)
print("done %d jobs, %d s" % (len(jobs), time.time() - t0))
