#!/usr/bin/env python3
"""dump.py <qualified name regex>: print flow graphs (development aid)."""
import sys, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [H + "/lib", H + "/lib/rules"]
import facts, ir
from ir import show_term
db = facts.load(); db.roots("")
rx = re.compile(sys.argv[1])
kw = {}
if "--opaque" in sys.argv: kw["spawn"] = "opaque"
for f in db.F.values():
    if f.get("body") is None or f.get("dependent") or not rx.search(f["q"]) or f.get("lambda"): continue
    g = ir.Graph(db, f, **kw)
    print("=====", f["q"], db.where(f), [p.get("t") for p in f["p"]])
    lv = g.live()
    for n in g.nodes:
        if n not in lv: continue
        s = ""
        try:
            if n.k == "write": s = "%s %s %s" % (show_term(g.place(n)), n.d["op"], show_term(g.value(n)) if g.value(n) is not None else "")
            elif n.k == "call": s = "%s obj=%s args=%s" % (g.root(n) or g.name(n), show_term(g.obj(n)) if g.obj(n) else None, [show_term(a) for a in g.args(n)])
            elif n.k == "branch": a, p = g.atom(n); s = "%s%s" % ("" if p else "!", show_term(a))
            elif n.k == "switch": s = show_term(g.T(n.e, n.fr))
            elif n.k == "decl": s = "%s = %s" % (n.d["var"].n, show_term(g.T(n.d["init"], n.fr)) if n.d.get("init") is not None else None)
            elif n.k == "ret": s = show_term(g.T(n.e, n.fr)) if n.e is not None else ""
            elif n.k == "throw": s = str(n.e and n.e.get("t"))
            elif n.k in ("enter", "leave"): s = n.d["frame"].fn["q"]
            elif n.k in ("loop", "loophead"):
                lp = [l for l in g.loops if l.head is n]
                s = str([(l.kind, l.algo, l.partial, show_term(g.container(l)) if g.container(l) else None) for l in lp])
            elif n.k == "dtor": s = n.d["var"].n
        except Exception as e: s = "!!%r" % e
        print("%4d %-9s %-60s -> %s" % (n.id, n.k + ":" + str(n.l), s, " ".join("%s%s" % (("" if l is None else str(l) + ":"), m.id) for l, m in n.succ)))
