"""C28: the status of every FMU call is examined."""
from fmisim import *
RULE = """
Every class that implements the slave interface on FMI Library is driven through its lifecycle (construction, setup, start, step, transfer of values,
end) by propagating structured values through its member functions and their helpers, once with all FMI calls succeeding and once per FMI call and status
value. (success) With ok or warning, the function returns. (failure) With error, fatal or pending (and with discard where no meaning of its own
is defined), no path returns; a discarded step gives step_result::failed on every path, a discarded value ends in nonfatal_bad_value;
(no effect) no flag that success sets is set, and nothing is stored in the caller's values, on a path that throws. (values) The references and values that
the caller gives, with booleans and texts converted, are what the FMI function of that type gets, in order and number, and what the FMU delivers
is what the caller gets.
"""
ASSUME = ["the stub of FMI Library's header has the signatures of the real one", "two variables stand for any number (no operation compares sizes with a constant other than zero)"]
PRE = {"setup": "created", "start_simulation": "setup", "end_simulation": "running", "do_step": "running"}
REFS = ("vec", (11, 22))
T = {"real": ((1.5, -2.25), (1.5, -2.25)), "integer": ((7, -3), (7, -3)), "boolean": ((1, 0), (True, False)), "string": ((("str", "ab"), ("str", "")), (("str", "ab"), ("str", "")))}
FIELD = {"real": "real", "integer": "integer", "boolean": "boolean", "string": "string"}

def slaves(db):
    for q, fs in classes(db).items():
        d = {f["q"].split("::")[-1]: f for f in fs}
        ct = [f for f in fs if f["q"].split("::")[-1] == q.split("::")[-1]]
        if "do_step" in d and any(s for f in ct for s, t in calls_fmi(db, f)): yield q, d, ct[0]

def ctor_args(f): return [("str", "a") if "string" in p["t"] else ("ptr", ("arg", p["n"]), ()) for p in f["p"]]

def drive(c, F, q, d, ct):
    """Objects in each state of the lifecycle, when all calls succeed."""
    st = {}
    def go(f, this, args, trace=()):
        for r in F.run(f, this, args, trace=trace):
            if r.kind == "return" and isinstance(r.this, tuple): return r
    r = go(ct, ("rec", q, ()), ctor_args(ct))
    if r: st["created"] = r
    for m, a, b in (("setup", "created", "setup"), ("start_simulation", "setup", "running"), ("end_simulation", "running", "ended")):
        if a in st and m in d:
            r = go(d[m], st[a].this, [None] * len(d[m]["p"]), trace=st[a].trace)
            if r: st[b] = r
    return st

def thrown(r):
    """Types that a path throws last."""
    for m in reversed([r.node] + [x for x in reversed(r.ai.path(r.key))][::-1]):
        if m.k == "throw" and m.e is not None: return strip_t((m.e.get("t") or "")), m
    return None, r.node

def bools(th): return {k: v for k, v in th[2] if isinstance(v, bool)} if isinstance(th, tuple) and th[:1] == ("rec",) else {}

def check(c):
    db = c.db
    F = Fmi(c, db)
    covered = set()
    for q, d, ct in slaves(db):
        nm = q.replace("cosim::", "")
        st = drive(c, F, q, d, ct)
        if "created" not in st:
            c.note("%s: construction is not decided" % db.where(ct)); continue
        funcs = [(ct, None)] + [(d[m], s) for m, s in PRE.items() if m in d] + [(f, "running") for m, f in sorted(d.items()) if re.match(r"[gs]et_\w+_variables$", m)]
        for f, pre in funcs:
            m = f["q"].split("::")[-1]
            if pre is not None and pre not in st:
                c.note("%s: the state before %s() is not decided" % (db.where(f), m)); continue
            kind = re.match(r"([gs])et_(\w+)_variables$", m)
            this = ("rec", q, ()) if pre is None else st[pre].this
            args = ctor_args(f) if pre is None else [None] * len(f["p"])
            out = None; init = None
            if kind and kind.group(2) in T and len(f["p"]) == 2:
                fmi, mine = T[kind.group(2)]
                init = ("vec", tuple(("sym", "old%d" % i) for i in range(2)))
                args = [REFS, init if kind.group(1) == "g" else ("vec", mine)]
                out = fmi
            g = F.graph(f)
            vt = g.frames[0].vars[f["p"][1]["d"]].term if kind else None
            ok = F.run(f, this, args, out=out)
            rets = [r for r in ok if r.kind == "return"]
            name = "%s::%s" % (nm, m)
            if not rets:
                if any(t[2] is not None for r in ok for t in r.trace) and not any(r.ai.odd for r in ok):
                    c.viol("success", loc(c, f, ok[0].node), "%s() does not return although every FMI call succeeds" % name, key="ok:" + name, path=F.path(ok[0]), g=g)
                else: c.note("%s: %s() is not decided" % (db.where(f), name))
                continue
            r0 = rets[0]
            sets = {k for k, v in bools(r0.this).items() if v is True and bools(this).get(k) is not True}
            steps = {}
            for r in rets:
                for s, a, k, l in r.trace:
                    for e in status_calls(db, g, s): steps[s] = bare_t(e.get("t"))
            for s, t in sorted(steps.items()):
                covered.add(s)
                for k in kinds(t):
                    what = "%s(): %s gives %s" % (name, s, k)
                    c.ob("status", what)
                    rs = F.run(f, this, args, {s: k}, out=out)
                    c.queries += 1
                    rs = [r for r in rs if any(x[0] == s for x in r.trace)]
                    if not rs: c.note("%s: %s is not decided" % (db.where(f), what)); continue
                    bad = [r for r in rs if r.kind == "return"]
                    if k in ("ok", "success", "warning"):
                        if t == "jm_status_enu_t" and k == "warning": continue
                        if not bad: c.viol("success", loc(c, f, rs[0].node), "%s, and it does not return" % what, key="st:" + what, path=F.path(rs[0]), g=g)
                        elif m == "do_step":
                            x = [r for r in bad if last_of(r.ret) not in ("complete", None)]
                            if x: c.viol("success", loc(c, f, x[0].node), "%s, and the step is reported as %s" % (what, last_of(x[0].ret)), key="st:" + what, path=F.path(x[0]), g=g)
                        continue
                    if k == "discard" and m == "do_step":
                        x = [r for r in bad if last_of(r.ret) not in ("failed", None)]
                        if x: c.viol("discarded step", loc(c, f, x[0].node), "%s, and the step is reported as %s" % (what, last_of(x[0].ret)), key="st:" + what, path=F.path(x[0]), g=g)
                        elif not bad: c.viol("discarded step", loc(c, f, rs[0].node), "%s, and it does not return step_result::failed" % what, key="st:" + what, path=F.path(rs[0]), g=g)
                        elif any(r.ret is None for r in bad): c.note("%s: the result after %s is not decided" % (db.where(f), what))
                        continue
                    if bad:
                        c.viol("failure", loc(c, f, next((x for x in F.path(bad[0]) if x.k == "call" and x.e is not None and short(x.e.get("fn")) == s), bad[0].node)),
                               "%s, and the function returns as if it had succeeded" % what, key="st:" + what, path=F.path(bad[0]), g=g)
                        continue
                    for r in rs:
                        if r.kind == "throw":
                            up = [x for x in sets if bools(r.this).get(x) is True]
                            if up and pre is not None: c.viol("no effect", loc(c, f, r.node), "%s, but %s is set" % (what, ", ".join(up)), key="fx:" + what, path=F.path(r), g=g); break
                            if kind and kind.group(1) == "g" and kind.group(2) in ("boolean", "string"):
                                v = r.env.get(vt)
                                if isinstance(v, tuple) and v[0] == "vec" and any(x in mine and x is not None for x in v[1]):
                                    c.viol("no effect", loc(c, f, r.node), "%s, but values were stored" % what, key="fx:" + what, path=F.path(r), g=g); break
                            if k == "discard" and kind and kind.group(1) == "s":
                                th, w = thrown(r)
                                if th and not re.search(r"nonfatal_bad_value$", th): c.viol("discarded value", loc(c, f, w), "%s, and %s is thrown instead of nonfatal_bad_value" % (what, th.replace("cosim::", "")), key="st:" + what, path=F.path(r), g=g); break
                                elif not th: c.note("%s: what is thrown after %s is not decided" % (db.where(f), what))
            if kind and kind.group(2) in T:
                ty = kind.group(2)
                c.ob("values", name)
                for r in rets:
                    for s, a, k, l in r.trace:
                        if not re.match("[gs]et_", s) or len(a) != 4: continue
                        if s != "%set_%s" % (kind.group(1), FIELD[ty]):
                            c.viol("values", "%s:%d" % (db.rel(f), l), "%s() calls %s" % (name, s), key="val:" + name, path=F.path(r), g=g); break
                        if isinstance(a[1], tuple) and a[1][:1] == ("at",) and a[1][2] is not None:
                            if a[1][1] != 0 or a[1][2] != REFS: c.viol("values", "%s:%d" % (db.rel(f), l), "%s() passes other references than the caller's" % name, key="val:" + name, path=F.path(r), g=g); break
                        else: c.note("%s: the references that %s() passes are not decided" % (db.where(f), name))
                        if isinstance(a[2], int) and a[2] != 2: c.viol("values", "%s:%d" % (db.rel(f), l), "%s() passes %d variables of 2" % (name, a[2]), key="val:" + name, path=F.path(r), g=g); break
                        if kind.group(1) == "g" and not (isinstance(a[3], tuple) and a[3][:1] == ("at",) and a[3][1] == 0):
                            c.note("%s: the values that %s() gives are not decided" % (db.where(f), name)); break
                        if kind.group(1) == "s":
                            v = a[3][2] if isinstance(a[3], tuple) and a[3][:1] == ("at",) and a[3][1] == 0 else None
                            if isinstance(v, tuple) and v[0] == "vec" and None not in v[1]:
                                if tuple(norm(x) for x in v[1]) != tuple(norm(x) for x in fmi): c.viol("values", "%s:%d" % (db.rel(f), l), "%s() passes other values than the caller's" % name, key="val:" + name, path=F.path(r), g=g); break
                            else: c.note("%s: the values that %s() passes are not decided" % (db.where(f), name))
                    else:
                        if kind.group(1) == "g" and r.trace:
                            v = r.env.get(vt)
                            if isinstance(v, tuple) and v[0] == "vec" and None not in v[1]:
                                if tuple(norm(x) for x in v[1]) != tuple(norm(x) for x in mine): c.viol("values", db.where(f), "%s() gives other values than the FMU's" % name, key="val:" + name, path=F.path(r), g=g); break
                            else: c.note("%s: the values that %s() gives are not decided" % (db.where(f), name))
                        continue
                    break
    # calls that no scripted run made
    for f in fns_of(db):
        if "~" in f["q"] or not re.search(r"\bfmi\b", f["q"]): continue
        for s, t in calls_fmi(db, f):
            if t and s not in covered: c.note("%s: the status of %s is not judged" % (db.where(f), s))
    c.need("status", 120); c.need("values", 16)

def norm(x): return int(x) if isinstance(x, bool) else x
def status_calls(db, g, s):
    for n in g.nodes:
        if n.k == "call" and n.e is not None and short(n.e.get("fn")) == s and status_fn(db, n.e): yield n.e; return
