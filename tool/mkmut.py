#!/usr/bin/env python3
"""mkmut.py Cxx name dir: write one mutant's tree to dir (development aid)."""
import sys, os, shutil, importlib.util
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
pid, name, d = sys.argv[1:4]
s = importlib.util.spec_from_file_location("m", "%s/tool/mutants/%s.py" % (H, pid)); mod = importlib.util.module_from_spec(s); s.loader.exec_module(mod)
m = [m for m in mod.MUTANTS if m[0] == name][0]
os.makedirs(d, exist_ok=True)
for x in ("src", "include", "data"): shutil.copytree("/repo/" + x, d + "/" + x, dirs_exist_ok=True)
for i in range(2, len(m), 3):
    f, old, new = m[i:i + 3]
    t = open(d + "/" + f).read(); assert old in t
    open(d + "/" + f, "w").write(t.replace(old, new, 1))
