#!/usr/bin/env python3
"""Make and verify a planted bug.  usage: seed.py <spec.py>...   (spec: ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO=c++ text, optional MOCK=True)
Applies the edits in /repo, writes seeded/<ID>/, builds, runs tests, demo and the property's check, then undoes the edits."""
import subprocess, sys, os, json, shutil
V, R = "/verif", "/repo"
DEMO_SH = r'''#!/bin/bash
# Compiles demo.cpp against the library built in the working directory and runs it.
here="$(cd "$(dirname "$0")" && pwd)"
tmp="$(mktemp -d)"; trap 'rm -rf "$tmp"' EXIT
g++ -std=c++17 -O1 -g -DBOOST_ALL_DYN_LINK=1 -DBOOST_ALL_NO_LIB -DBOOST_LOG_DYN_LINK -Isrc -Iinclude -I"$here" "$here/demo.cpp" -o "$tmp/demo" \
  _build/output/relwithdebinfo/lib/libcosim.a -lboost_date_time -lboost_log -lboost_chrono -lboost_filesystem -lboost_regex -lboost_thread -lboost_atomic -lzip -lxerces-c -lyaml-cpp -latomic -lpthread || exit 99
mkdir "$tmp/work"; cd "$tmp/work"
timeout 120 "$tmp/demo"
'''
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def main():
    for spec in sys.argv[1:]:
        ns = {}; exec(open(spec).read(), ns)
        d = "%s/seeded/%s" % (V, ns["ID"]); os.makedirs(d, exist_ok=True)
        open(d + "/demo.cpp", "w").write(ns["DEMO"].lstrip("\n")); open(d + "/demo.sh", "w").write(DEMO_SH); os.chmod(d + "/demo.sh", 0o755)
        if ns.get("MOCK", True): shutil.copy(R + "/tests/mock_slave.hpp", d + "/mock_slave.hpp")
        json.dump({"property": ns["PROPERTY"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
        assert not sh("git -C /repo status --porcelain").stdout, "dirty repo"
        r = sh("bash /opt/vp/build.sh", cwd=R); assert r.returncode == 0, r.stdout[-2000:] + r.stderr[-2000:]
        a = [sh("bash %s/demo.sh" % d, cwd=R) for _ in range(3)]
        try:
            for f, old, new in ns["EDITS"]:
                t = open(R + "/" + f).read(); assert t.count(old) == 1, (f, t.count(old), old)
                open(R + "/" + f, "w").write(t.replace(old, new))
            open(d + "/patch.diff", "w").write(sh("git -C /repo diff").stdout)
            r = sh("bash /opt/vp/build.sh", cwd=R)
            if r.returncode: print(ns["ID"], "BUILD FAILED", (r.stdout + r.stderr)[-1500:]); continue
            t = sh("bash /opt/vp/test.sh /tmp/seed_out.json", cwd=R)
            o = json.load(open("/tmp/seed_out.json"))
            base = json.load(open("/opt/vp/BASELINE.json"))
            b = [sh("bash %s/demo.sh" % d, cwd=R) for _ in range(3)]
            ch = sh("VERIF_EVIDENCE=/tmp/seed_ev python3 %s/bin/check %s --tier quick" % (V, ns["PROPERTY"]), cwd=V)
            fl = o.get("failed", o)
            print("%s: base demo %s, patched demo %s, tests failed %s, check %d" % (ns["ID"], [x.returncode for x in a], [x.returncode for x in b], fl if isinstance(fl, list) else str(fl)[:200], ch.returncode))
            print("   demo base:", a[0].stdout.strip()[-200:], a[0].stderr.strip()[-300:]); print("   demo patched:", b[0].stdout.strip()[-200:], b[0].stderr.strip()[-200:])
            print("   check:", "\n          ".join((ch.stdout + ch.stderr).strip().splitlines()[-6:])[:900])
        finally:
            sh("git -C /repo checkout -- ."); sh("bash /opt/vp/build.sh", cwd=R)
main()
