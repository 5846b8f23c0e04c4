#!/usr/bin/env python3
"""mutate.py [Cxx ...]: run checks against edited copies of /repo's sources
(development aid).  tool/mutants/Cxx.py lists (name, expected exit, file, old,
new[, file, old, new ...]); nothing in /repo is touched."""
import sys, os, shutil, subprocess, tempfile, importlib.util
from concurrent.futures import ThreadPoolExecutor
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def load(pid):
    p = os.path.join(H, "tool", "mutants", pid + ".py")
    s = importlib.util.spec_from_file_location("m_" + pid, p); m = importlib.util.module_from_spec(s); s.loader.exec_module(m)
    return m.MUTANTS
def run(job):
    pid, m = job
    name, exp = m[0], m[1]
    d = tempfile.mkdtemp(prefix="mut.", dir="/tmp")
    try:
        for x in ("src", "include", "data"): shutil.copytree("/repo/" + x, d + "/" + x)
        r = m[2:]
        if len(r) == 1 and isinstance(r[0], tuple): r = r[0]
        assert len(r) >= 3
        eds = [r[i:i + 3] for i in range(0, len(r), 3)] if len(r) % 3 == 0 and all(x.startswith(('src/', 'include/', 'data/')) for x in r[::3]) else [(r[0],) + r[i:i + 2] for i in range(1, len(r), 2)]
        for f, old, new in eds:
            t = open(d + "/" + f).read()
            if old not in t: return pid, name, exp, "??", "text not found: " + old[:60]
            open(d + "/" + f, "w").write(t.replace(old, new, 1))
        r = subprocess.run([sys.executable, H + "/bin/check", pid], env=dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE=d), capture_output=True, text=True, timeout=400)
        out = [l for l in (r.stdout + r.stderr).split("\n") if l and not l.startswith("  ") and not l.startswith(pid + ":") and "VIOLATION" not in l]
        return pid, name, exp, r.returncode, "\n        ".join(out[:6]).replace(d + "/", "")
    finally: shutil.rmtree(d)
pids = [a for a in sys.argv[1:] if a[0] == "C"] or sorted(f[:-3] for f in os.listdir(H + "/tool/mutants") if f.endswith(".py"))
only = [a for a in sys.argv[1:] if a[0] != "C"]
jobs = [(p, m) for p in pids for m in load(p) if not only or any(o in m[0] for o in only)]
bad = 0
with ThreadPoolExecutor(8) as ex:
    for pid, name, exp, rc, out in ex.map(run, jobs):
        ok = rc == exp
        bad += not ok
        print("%s %s %-40s expected %s got %s\n        %s" % ("ok  " if ok else "BAD ", pid, name, exp, rc, out if (rc or not ok) else ""))
print("%d jobs, %d unexpected" % (len(jobs), bad))
