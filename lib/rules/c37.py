"""C37: failures of remote simulators surface as exceptions."""
from fmisim import *
from fmisim import Fmi as _Fmi
RULE = """
The class that implements the slave interface on a proxy slave is driven through its lifecycle by propagating structured values through its member
functions and helpers, with every call of the proxy succeeding, each one reporting failure, and each one throwing. (success) When all calls succeed, the
function returns. (failure) When a call reports failure or throws, no path returns. (no effect) A path that throws stores nothing in the caller's
values. (values) References and values arrive at the proxy's function of the same type in order and number, and what it delivers is
what the caller gets. (end) In every history that ends with destruction, also after failures and after repeated end_simulation(), the remote instance
is terminated at most once and freed exactly once, last, and destruction lets no reported failure out. (model) The description made of a proxy's
has the name, identifier and author of the model, and each variable's own name, reference and start value.
"""
ASSUME = ["the stub of proxy-fmu's headers has the signatures of the real ones", "destruction while the connection itself fails is not judged",
          "two variables stand for any number (no operation compares sizes with a constant other than zero)"]
P = "proxyfmu::fmi::slave"
REFS = ("vec", (11, 22))
T = {"real": (1.5, -2.25), "integer": (7, -3), "boolean": (True, False), "string": (("str", "ab"), ("str", ""))}
def pcall(e):
    fn = e.get("fn") or ""
    return fn[len(P) + 2:] if e.get("k") == "call" and fn.startswith(P + "::") and "~" not in fn else None

class RAI(FAI):
    def callval(self, e, fr, env, depth):
        s = pcall(e)
        if s is None: return FAI.callval(self, e, fr, env, depth)
        if bare_t(e.get("t")) == "bool": return self.script.get(s, "ok") == "ok"
        return None
    def effects(self, n, env):
        e = n.e
        s = pcall(e)
        if s is None: return FAI.effects(self, n, env)
        env = dict(env)
        args = tuple(self.ev(a, n.fr, env) for a in e.get("a") or [])
        env[("TRACE",)] = env.get(("TRACE",), ()) + ((s, args, self.script.get(s, "ok"), n.l),)
        if s.startswith("get_") and self.out is not None and len(e["a"]) == 2:
            p = self.lv(e["a"][1], n.fr, env)
            if p is not None:
                o = env.get(p[0])
                old = self.get(p, env)
                env = self.set(p, ("vec", self.out + tuple(old[1][len(self.out):]) if isinstance(old, tuple) and old[0] == "vec" else self.out), env)
        return env
    def exc_(self, n, env):
        if n.k == "call" and n.e is not None:
            s = pcall(n.e)
            if s is not None: return self.script.get(s) == "raise"
        return FAI.exc_(self, n, env)

class Prx(Fmi):
    def run(self, f, this, args=(), script=None, out=None, trace=(), env=None):
        g = self.graph(f)
        e0 = dict(env or {})
        e0.update({("this",): this, ("TRACE",): trace})
        for p, a in zip(f["p"], args):
            v = g.frames[0].vars.get(p["d"])
            if a is not None and v is not None: e0[v.term] = a
        ai = RAI(g, call=Runner.call)
        ai.script, ai.out = script or {}, out
        self.ran += 1
        res = []
        outs = ai.outcomes(e0)
        if ai.exceeded: self.c.note("%s: too many states" % self.db.where(f)); return []
        for kind, n, e, key in outs:
            if kind == "end":
                callee = next((self.db.F.get((m.e or {}).get("id")) for m in reversed(ai.path(key)) if m.k == "call" and m.e is not None), None)
                kind = "throw" if callee is not None and callee.get("body") is not None and "panic" not in callee["q"] and throws(callee["body"]) else "end"
            where = next((m for m in reversed(ai.path(key)) if m.k in ("throw", "ret", "call", "write") and m.fr is not None), n)
            res.append(Run(kind, e, where, ai, key, f, e.get(("RET", g.frames[0].id)) if kind == "return" else None))
        return res

def proxies(db):
    out = {}
    for f in fns_of(db):
        if f.get("cls"): out.setdefault(f["cls"], []).append(f)
    for q, fs in sorted(out.items()):
        d = {f["q"].split("::")[-1]: f for f in fs}
        if "do_step" in d and uses(db, d["do_step"]): yield q, d, d.get(q.split("::")[-1]), d.get("~" + q.split("::")[-1])
def uses(db, f, seen=None):
    seen = set() if seen is None else seen
    if f["id"] in seen: return False
    seen.add(f["id"])
    def go(x):
        if isinstance(x, dict):
            if pcall(x): return True
            h = db.F.get(x.get("id")) if x.get("k") == "call" else None
            if h is not None and h.get("body") is not None and uses(db, h, seen): return True
            return any(go(y) for y in x.values())
        return isinstance(x, list) and any(go(y) for y in x)
    return go(f.get("body"))

def judge(trace):
    ended = freed = 0
    for s, a, st, l in trace:
        if freed: return "%s is called after the instance was freed" % s if s != "freeInstance" else "the remote instance is freed twice", l
        if s == "terminate":
            if ended: return "the remote instance is terminated twice", l
            ended = 1
        if s == "freeInstance": freed = 1
    return None if freed else ("the remote instance is not freed", None)
def norm(x): return int(x) if isinstance(x, bool) else x

def check(c):
    db = c.db
    F = Prx(c, db)
    for q, d, ct, dt in proxies(db):
        nm = q.replace("cosim::", "")
        obj = None
        if ct is not None:
            a = [("ptr", ("slave",), ()) if P in p["t"] else ("ptr", ("arg", p["n"]), ()) for p in ct["p"]]
            for r in F.run(ct, ("rec", q, ()), a):
                if r.kind == "return" and isinstance(r.this, tuple): obj = r.this
        if obj is None: c.note("%s: construction is not decided" % nm); continue
        st = {"created": obj}
        for m, x, y in (("setup", "created", "setup"), ("start_simulation", "setup", "running")):
            if m in d and x in st:
                for r in F.run(d[m], st[x], [None] * len(d[m]["p"])):
                    if r.kind == "return" and isinstance(r.this, tuple): st[y] = r.this
        ms = [(m, s) for m, s in (("setup", "created"), ("start_simulation", "setup"), ("do_step", "running"), ("end_simulation", "running")) if m in d]
        ms += [(m, "running") for m in sorted(d) if re.match(r"[gs]et_\w+_variables$", m)]
        for m, pre in ms:
            f = d[m]
            if pre not in st: c.note("%s: the state before %s() is not decided" % (db.where(f), m)); continue
            kind = re.match(r"([gs])et_(\w+)_variables$", m)
            ty = kind.group(2) if kind and kind.group(2) in T else None
            args, out = [None] * len(f["p"]), None
            if ty:
                init = ("vec", (("sym", "old0"), ("sym", "old1")))
                args = [REFS, init if kind.group(1) == "g" else ("vec", T[ty])]; out = T[ty]
            g = F.graph(f)
            vt = g.frames[0].vars[f["p"][1]["d"]].term if ty else None
            name = "%s::%s" % (nm, m)
            ok = F.run(f, st[pre], args, out=out)
            rets = [r for r in ok if r.kind == "return"]
            if not rets:
                if any(r.trace for r in ok) and not any(r.ai.odd for r in ok): c.viol("success", loc(c, f, ok[0].node), "%s() does not return although every call succeeds" % name, key="ok:" + name, path=F.path(ok[0]), g=g)
                else: c.note("%s: %s() is not decided" % (db.where(f), name))
                continue
            if m == "do_step":
                x = [r for r in rets if last_of(r.ret) not in ("complete", None)]
                if x: c.viol("success", loc(c, f, x[0].node), "%s() reports a successful step as %s" % (name, last_of(x[0].ret)), key="ok:" + name, path=F.path(x[0]), g=g)
            for s in sorted({t[0] for r in rets for t in r.trace}):
                for k in ("fail", "raise"):
                    what = "%s(): %s %s" % (name, s, "reports failure" if k == "fail" else "throws")
                    if k == "fail" and not any(n.k == "call" and n.e is not None and pcall(n.e) == s and bare_t(n.e.get("t")) == "bool" for n in g.nodes): continue
                    c.ob("failures", what); c.queries += 1
                    rs = [r for r in F.run(f, st[pre], args, {s: k}, out=out) if k == "raise" or any(t[0] == s for t in r.trace)]
                    bad = [r for r in rs if r.kind == "return"]
                    if not rs: c.note("%s: %s is not decided" % (db.where(f), what))
                    elif bad:
                        at = next((x for x in F.path(bad[0]) if x.k == "call" and x.e is not None and pcall(x.e) == s), bad[0].node)
                        c.viol("failure", loc(c, f, at), "%s, and the function returns as if it had succeeded" % what, key="st:" + what, path=F.path(bad[0]), g=g)
                    elif ty and kind.group(1) == "g":
                        for r in rs:
                            v = r.env.get(vt)
                            if isinstance(v, tuple) and v[0] == "vec" and any(x in T[ty] and x is not None for x in v[1]):
                                c.viol("no effect", loc(c, f, r.node), "%s, but values were stored" % what, key="fx:" + what, path=F.path(r), g=g); break
            if ty:
                c.ob("values", name)
                for r in rets:
                    for s, a, k, l in r.trace:
                        if not re.match("[gs]et_", s) or len(a) != 2: continue
                        bad = None
                        if s != "%set_%s" % (kind.group(1), ty): bad = "calls %s" % s
                        elif isinstance(a[0], tuple) and a[0][0] == "vec" and None not in a[0][1]:
                            if a[0] != REFS: bad = "passes other references than the caller's"
                        else: c.note("%s: the references that %s() passes are not decided" % (db.where(f), name))
                        if not bad and kind.group(1) == "s":
                            if isinstance(a[1], tuple) and a[1][0] == "vec" and None not in a[1][1]:
                                if tuple(map(norm, a[1][1])) != tuple(map(norm, T[ty])): bad = "passes other values than the caller's"
                            else: c.note("%s: the values that %s() passes are not decided" % (db.where(f), name))
                        if not bad and kind.group(1) == "g":
                            if isinstance(a[1], tuple) and a[1][0] == "vec" and len(a[1][1]) != 2: bad = "asks for %d values of 2" % len(a[1][1])
                            v = r.env.get(vt)
                            if not bad and isinstance(v, tuple) and v[0] == "vec" and None not in v[1] and isinstance(a[1], tuple):
                                if tuple(map(norm, v[1])) != tuple(map(norm, T[ty])): bad = "gives other values than the remote simulator's"
                            elif not bad: c.note("%s: the values that %s() gives are not decided" % (db.where(f), name))
                        if bad: c.viol("values", "%s:%d" % (db.rel(f), l), "%s() %s" % (name, bad), key="val:" + name, path=F.path(r), g=g)
                    break
        histories(c, F, q, nm, d, dt, obj)
    model(c, F)
    c.need("failures", 24); c.need("values", 8); c.need("histories", 15); c.need("model", 5)

def histories(c, F, q, nm, d, dt, obj):
    db = c.db
    if dt is None: c.note("%s: no destructor" % nm); return
    class R0: pass
    r0 = R0(); r0.this, r0.trace = obj, ()
    work = [("constructed", r0, ("setup",))]; seen = set(); bad = False
    NEXT = {"setup": ("start_simulation",), "start_simulation": ("do_step", "end_simulation"), "do_step": ("end_simulation",), "end_simulation": ("end_simulation",)}
    while work and not bad:
        label, r0, nxt = work.pop()
        key = (r0.this, tuple((t[0], t[2]) for t in r0.trace), nxt)
        if key in seen: continue
        seen.add(key)
        c.ob("histories", label)
        for sc in ({}, {"terminate": "fail"}):
            for x in F.run(dt, r0.this, (), sc, trace=r0.trace):
                if x.kind != "return" and (x.kind == "throw" or any(y.k == "throw" for y in F.path(x))):
                    c.viol("end", loc(c, dt, x.node), "%s destroyed after: %s: the destructor throws when terminate reports failure" % (nm, label), key="end:%s:throw" % nm, path=F.path(x), g=F.graph(dt)); bad = True; break
                m = judge(x.trace) if x.kind == "return" else None
                if m:
                    c.viol("end", "%s:%d" % (db.rel(dt), m[1]) if m[1] else loc(c, dt, x.node), "%s destroyed after: %s: %s" % (nm, label, m[0]), key="end:%s:%s" % (nm, m[0]), path=F.path(x), g=F.graph(dt)); bad = True; break
            if bad: break
        if bad: break
        for m in nxt:
            if m not in d or label.count("end_simulation") > 1: continue
            base = F.run(d[m], r0.this, [None] * len(d[m]["p"]), trace=r0.trace)
            scs = [{}] + [{s: k} for s in sorted({t[0] for r in base for t in r.trace[len(r0.trace):]}) for k in ("fail", "raise")]
            for sc in scs:
                for r in (base if not sc else F.run(d[m], r0.this, [None] * len(d[m]["p"]), sc, trace=r0.trace)):
                    if r.kind not in ("return", "throw") or not isinstance(r.this, tuple): continue
                    c.queries += 1
                    nx = NEXT[m] if r.kind == "return" or m == "end_simulation" else ("end_simulation",) if m == "do_step" else ()
                    work.append(("%s, %s%s" % (label, m, " (%s)" % ", ".join("%s %s" % (s, "fails" if v == "fail" else "throws") for s, v in sc.items()) if sc else ""), r, nx))

def model(c, F):
    """The description made of a proxy's description."""
    db = c.db
    MD, V = "proxyfmu::fmi::model_description", "proxyfmu::fmi::scalar_variable"
    fs = [f for f in fns_of(db) if len(f["p"]) == 1 and MD in f["p"][0]["t"] and "cosim::model_description" in (f.get("rt") or "")]
    for f in fs:
        def var(i, t, start): return ("rec", V, (("vr", 10 + i), ("name", ("str", "v%d" % i)), ("description", ("str", "d")), ("causality", ("str", "input")), ("variability", ("str", "continuous")), ("initial", ("str", "")),
                                                 ("typeAttribute", ("var", "proxyfmu::fmi::" + t, ("rec", "proxyfmu::fmi::" + t, (("start", start),))))))
        cases = [("real", 1.5), ("integer", 7), ("boolean", True), ("string", ("str", "x")), ("real", NULL)]
        md = ("rec", MD, (("guid", ("str", "G")), ("author", ("str", "A")), ("modelName", ("str", "N")), ("description", ("str", "D")), ("version", ("str", "V")),
                          ("modelVariables", ("vec", tuple(var(i, t, s) for i, (t, s) in enumerate(cases))))))
        g = F.graph(f)
        ai = MAI(g, call=Runner.call); ai.script = {}
        outs = ai.outcomes({g.frames[0].vars[f["p"][0]["d"]].term: md, ("TRACE",): ()})
        outs = [o for o in outs if o[0] == "return"]
        c.ob("model", f["q"].split("::")[-1])
        got = None
        if len(outs) == 1:
            r = outs[0][2].get(("RET", g.frames[0].id))
            if isinstance(r, tuple) and r[:1] == ("ptr",): r = ai.get((r[1], r[2]), outs[0][2])
            got = dict(r[2]) if isinstance(r, tuple) and r[:1] == ("rec",) else None
        if got is None: c.note("%s: the description is not decided" % db.where(f)); continue
        def cmp(what, have, want):
            c.ob("model", what)
            if have is None: c.note("%s: %s is not decided" % (db.where(f), what)); return
            if have != want: c.viol("model", db.where(f), "%s is %s instead of %s" % (what, show(have), show(want)), key="model:" + what)
        for k, w in (("name", "N"), ("uuid", "G"), ("author", "A"), ("description", "D")): cmp("the model's " + k, got.get(k), ("str", w))
        vs = got.get("variables")
        if not (isinstance(vs, tuple) and vs[0] == "vec"): c.note("%s: the variables are not decided" % db.where(f)); continue
        if len(vs[1]) != len(cases): c.viol("model", db.where(f), "%d of %d variables are described" % (len(vs[1]), len(cases)), key="model:count"); continue
        for i, (v, (t, s)) in enumerate(zip(vs[1], cases)):
            v = dict(v[2]) if isinstance(v, tuple) and v[:1] == ("rec",) else {}
            n = "a %s variable" % t + (" without start value" if s == NULL else "")
            cmp("the name of " + n, v.get("name"), ("str", "v%d" % i))
            cmp("the reference of " + n, v.get("reference"), 10 + i)
            x = v.get("start")
            x = x[2] if isinstance(x, tuple) and x[:1] == ("var",) else x
            cmp("the start value of " + n, x, s)

class MAI(RAI):
    """make_unique gives an object; is_real() and so on look at the type's attribute."""
    def callval(self, e, fr, env, depth):
        fn = e.get("fn") or ""
        if fn in ("std::make_unique", "std::make_shared") and not e.get("a") and ("NEW", id(e)) in env: return ("ptr", ("NEW", id(e)), ())
        m = re.match(r"proxyfmu::fmi::scalar_variable::is_(\w+)$", fn)
        if m and e.get("obj") is not None:
            v = self.ev(e["obj"], fr, env, depth + 1)
            a = dict(v[2]).get("typeAttribute") if isinstance(v, tuple) and v[:1] == ("rec",) else None
            return a[1].endswith("::" + m.group(1)) if isinstance(a, tuple) and a[:1] == ("var",) else None
        return RAI.callval(self, e, fr, env, depth)
    def effects(self, n, env):
        e = n.e
        if e["k"] == "call" and e.get("fn") in ("std::make_unique", "std::make_shared") and not e.get("a"):
            env = dict(env); env[("NEW", id(e))] = self.default(strip_t(targ(e.get("t")))); return env
        return RAI.effects(self, n, env)
from c36 import throws
