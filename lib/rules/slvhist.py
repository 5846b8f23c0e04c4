"""Histories of operations on the simulator that caches a slave's variable values, followed with structured values."""
from fmisim import *
from c36 import throws
SLAVE, SLV = "cosim::slave", ("ptr", ("SLAVE",), ())
TYPES = {"real": ("double", 1.5, 2.5, 0.5), "integer": ("int", 3, 4, 7), "boolean": ("bool", True, False, True),
         "string": ("std::string", ("str", "p"), ("str", "q"), ("str", "s"))}
def initial(t, r): return {"real": 0, "integer": 0, "boolean": 0, "string": ("str", "")}[t] if r == 2 else TYPES[t][3]      # the second has no start value
def vt(t): return ("enum", "cosim::variable_type::" + t)
def isa(db, c, base):
    R = db.R.get(c)
    return R is not None and any((b if isinstance(b, str) else b["t"]) == base or isa(db, (b if isinstance(b, str) else b["t"]), base) for b in R.get("bases") or [])
def virtuals(db):
    """Operations of the slave interface."""
    return set(f["q"].split("::")[-1] for f in db.F.values() if f.get("cls") and isa(db, f["cls"], SLAVE))

class HAI(FAI):
    """The slave's operations are recorded in ("TRACE",); spans denote what they were made of."""
    FRESH = True
    ops = set(); reads = None; descr = None; result = ("enum", "cosim::step_result::complete")
    def sop(self, e):
        fn = e.get("fn") or ""
        if e.get("k") != "call" or e.get("obj") is None or "::" not in fn: return None
        cls, nm = fn.rsplit("::", 1)
        return nm if nm in self.ops and (cls == SLAVE or isa(self.db, cls, SLAVE)) and nm not in ("get_variables", "set_variables") else None
    def under(self, p, env):
        """The container a span denotes."""
        for _ in range(4):
            if p is None: return None
            try: v = self.get0(p, env)
            except OutOfRange: return p
            if isinstance(v, tuple) and v[:1] == ("ptr",): p = (v[1], v[2])
            else: return p
        return p
    def ranged(self, v, p, env):
        if isinstance(v, tuple) and v[:1] == ("ptr",):
            q = self.under((v[1], v[2]), env)
            try: x = self.get0(q, env) if q is not None else None
            except OutOfRange: x = None
            if isinstance(x, tuple) and x[:1] == ("vec",): return x, q
        return v, p
    def get0(self, p, env): return FAI.get(self, p, env)
    def norm(self, p, env):
        if p is None: return None
        root, path = p
        for i in range(len(path)):
            if isinstance(path[i], tuple) and path[i][0] == "i":
                try: v = part(env.get(root), path[:i])
                except OutOfRange: return p
                if isinstance(v, tuple) and v[:1] == ("ptr",): return self.norm((v[1], v[2] + path[i:]), env)
        return p
    def get(self, p, env): return FAI.get(self, self.norm(p, env), env)
    def set(self, p, x, env): return FAI.set(self, self.norm(p, env), x, env)
    def contents(self, e, fr, env):
        v = self.ev(e, fr, env)
        if isinstance(v, tuple) and v[:1] == ("ptr",):
            p = self.under((v[1], v[2]), env)
            try: v = self.get0(p, env)
            except OutOfRange: v = None
        return v[1] if isinstance(v, tuple) and v[:1] == ("vec",) else None
    def callval(self, e, fr, env, depth):
        fn, A, o = e.get("fn") or "", e.get("a") or [], e.get("obj")
        last = fn.split("::")[-1]
        if fn in ("std::uncaught_exceptions", "std::uncaught_exception"):
            while fr is not None:
                if getattr(fr, "unwinding", None): return 1
                fr = fr.parent
            return 0
        if last == "operator bool" and o is not None and "std::function<" in (o.get("t") or ""):
            v = self.ev(o, fr, env, depth + 1)
            return None if v is None else v != NULL
        if fn in ("gsl::make_span", "gsl::as_span") and len(A) == 1:
            v = self.ev(A[0], fr, env, depth + 1)
            if isinstance(v, tuple) and v[:1] == ("ptr",): return v
            p = self.lv(A[0], fr, env, depth + 1)
            return ("ptr",) + p if p is not None else None
        s = self.sop(e)
        if s is not None:
            if s == "model_description": return self.descr
            if s == "do_step": return self.result
            return None
        if e.get("op") == "()" or last == "operator()":
            x = o if o is not None else (A[0] if A else None)
            if x is not None and "std::function<" in (x.get("t") or ""):
                v = self.ev(x, fr, env, depth + 1)
                args = tuple(self.ev(a, fr, env, depth + 1) for a in (A if o is not None else A[1:]))
                return ("app", v[1]) + args if isinstance(v, tuple) and v[:1] == ("fun",) and None not in args else None
        if fn in ("std::chrono::duration::zero",) or last == "zero" and "chrono::duration" in (e.get("t") or ""): return 0
        if o is not None and last in ("size", "length", "empty", "begin", "end", "cbegin", "cend", "data", "size_bytes") and "span<" in (o.get("t") or ""):
            v = self.ev(o, fr, env, depth + 1)
            if isinstance(v, tuple) and v[:1] == ("ptr",):
                p = self.under((v[1], v[2]), env)
                try: x = self.get0(p, env)
                except OutOfRange: x = None
                if not (isinstance(x, tuple) and x[:1] == ("vec",)): return None
                m = len(x[1])
                return m if last in ("size", "length") else m == 0 if last == "empty" else ("it", p[0], p[1], m if last in ("end", "cend") else 0, "i")
        return FAI.callval(self, e, fr, env, depth)
    def conv(self, v, frm, to):
        if isinstance(v, tuple) and v[:1] in (("fun",), ("app",), ("rd",)): return v
        return FAI.conv(self, v, frm, to)
    def construct(self, e, fr, env, depth):
        t = strip_t(e.get("t"))
        A = [a for a in e.get("a") or [] if not (isinstance(a, dict) and a["k"] == "defarg")]
        if "span<" in t[:12] and len(A) == 1: 
            v = self.ev(A[0], fr, env, depth + 1)
            if isinstance(v, tuple) and v[:1] == ("ptr",): return v
            p = self.lv(A[0], fr, env, depth + 1)
            return ("ptr",) + p if p is not None else None
        if "std::function<" in t[:20]: return self.ev(A[0], fr, env, depth + 1) if A else NULL
        if "chrono::duration<" in t and len(A) == 1: return self.ev(A[0], fr, env, depth + 1)
        return FAI.construct(self, e, fr, env, depth)
    def default(self, t, depth=0):
        if "std::function<" in strip_t(t)[:20]: return NULL
        return FAI.default(self, t, depth)
    def effects(self, n, env):
        e = n.e
        s = self.sop(e)
        if e["k"] == "call" and e.get("fn") in ("gsl::make_span", "gsl::as_span"): return env
        if s is None:
            if e["k"] == "call" and (e.get("op") == "()" or (e.get("fn") or "").endswith("operator()")) and e.get("obj") is not None and "std::function<" in (e["obj"].get("t") or ""): return env
            return FAI.effects(self, n, env)
        env = dict(env)
        A = e.get("a") or []
        m = re.match(r"(get|set)_(\w+)_variables$", s)
        if m:
            refs = self.contents(A[0], n.fr, env)
            if m.group(1) == "set": rec = (s, refs, self.contents(A[1], n.fr, env), n)
            else:
                rec = (s, refs, None, n)
                v = self.ev(A[1], n.fr, env)
                p = self.under((v[1], v[2]), env) if isinstance(v, tuple) and v[:1] == ("ptr",) else None
                if p is not None:
                    try: old = self.get0(p, env)
                    except OutOfRange: old = None
                    new = tuple(self.reads(m.group(2), r) for r in refs) if refs is not None else None
                    if new is not None and isinstance(old, tuple) and old[0] == "vec": env = self.set(p, ("vec", new + tuple(old[1][len(new):])), env)
                    else: env = self.set(p, None, env)
        else: rec = (s, tuple(self.ev(a, n.fr, env) for a in A), None, n)
        env[("TRACE",)] = env.get(("TRACE",), ()) + (rec,)
        return env
    def exc_(self, n, env):
        if n.k == "call" and n.e is not None and self.sop(n.e) is not None: return False
        return FAI.exc_(self, n, env)

class Hist:
    """One object of the class."""
    def __init__(self, c, db, cls):
        self.c, self.db, self.cls = c, db, cls
        self.ops = virtuals(db)
        self.graphs, self.ran, self.nodes = {}, 0, 0
        self.undecided = {}
    def graph(self, f):
        if id(f) not in self.graphs:
            stop = lambda h: bool(h.get("cls")) and isa(self.db, h["cls"], SLAVE) and h["q"].split("::")[-1] not in ("get_variables", "set_variables")
            self.graphs[id(f)] = self.c.graph(f, track_all=True, stop=stop)
        return self.graphs[id(f)]
    def run(self, f, heap, args, reads=None, descr=None, result=None):
        """[(kind, heap, result, trace, Run)] of a member function; heap holds the object under ("this",)."""
        g = self.graph(f)
        env = dict(heap)
        for p, a in zip(f["p"], args):
            v = g.frames[0].vars.get(p["d"])
            if a is not None and v is not None: env[v.term] = a
        ai = HAI(g, call=Runner.call, limit=12000)
        ai.ops, ai.reads, ai.descr = self.ops, reads, descr
        if result is not None: ai.result = ("enum", result)
        self.ran += 1
        out = []
        for kind, n, e, key in ai.outcomes(env):
            if kind == "end":
                callee = next((self.db.F.get((m.e or {}).get("id")) for m in reversed(ai.path(key)) if m.k == "call" and m.e is not None), None)
                kind = "throw" if callee is not None and callee.get("body") is not None and "panic" not in callee["q"] and throws(callee["body"]) else "end"
            where = next((m for m in reversed(ai.path(key)) if m.k in ("throw", "ret", "call", "write") and m.fr is not None), n)
            r = Run(kind, e, where, ai, key, f, e.get(("RET", g.frames[0].id)) if kind == "return" else None)
            r.heap = {k: v for k, v in e.items() if k in heap or k[0] in ("IMPL",)}
            if kind == "return" and r.ret is None and ("RETLV", g.frames[0].id) in e:
                try: r.ret = ai.get(e[("RETLV", g.frames[0].id)], e)
                except OutOfRange: pass
            out.append(r)
        if ai.exceeded: return None
        return out

# ------------------------------------------------------------------ histories
ZERO, DT = 0, ("sym", "dt")
def words(op):
    k = op[0]
    if k == "set": return "set %s input %s" % (op[1], "ab"[op[2] - 1])
    if k == "mod": return "%s input modifier of %s %s" % ("attach the" if op[3] != NULL else "remove the", op[1], "ab"[op[2] - 1])
    if k == "omod": return "%s output modifier of %s %s" % ("attach the" if op[3] != NULL else "remove the", op[1], "ab"[op[2] - 1])
    if k in ("xset", "xget"): return "expose %s %s for %s" % (op[1], "ab"[op[2] - 1], k[1:] + "ting")
    if k == "get": return "get %s output %s" % (op[1], "ab"[op[2] - 1])
    return {"iter": "iterate", "start": "start", "step": "step" + (" (%s)" % op[1].split("::")[-1] if len(op) > 1 and not op[1].endswith("complete") else ""), "setup": "set up"}[k]

class Explore:
    """Product of the object and an oracle: oracle = (phase, parity, inputs, outputs); an input is (last value, to be sent, modifier), an output
    (modifier, whether the value read last is still expected, parity of that reading, modifier applied to it, step length of that)."""
    def __init__(self, c, db, cls, rule, limit):
        self.c, self.db, self.cls, self.rule, self.limit = c, db, cls, rule, limit
        self.H = Hist(c, db, cls)
        self.D = {}
        for f in fns_of(db):
            if f.get("cls") == cls: self.D.setdefault(f["q"].split("::")[-1], []).append(f)
        self.seen_viol = set()
        self.bad = None
        self.steps = [("step", "cosim::step_result::" + x["n"]) for x in (db.E.get("cosim::step_result") or {"e": [{"n": "complete"}]})["e"]]
    def fn(self, n, k=None):
        l = [f for f in self.D.get(n, []) if k is None or len(f["p"]) == k]
        return l[0] if len(l) == 1 else None
    def start(self):
        """The heap after construction, or None."""
        db = self.db
        ct = [f for f in self.D.get(self.cls.split("::")[-1], []) if len(f["p"]) == 2 and "slave" in f["p"][0]["t"]]
        if len(ct) != 1: return None
        ai0 = HAI(self.H.graph(ct[0]))
        R = db.R.get(self.cls)
        if R is None: return None
        vf = {f["n"]: f["t"] for f in (db.R.get("cosim::variable_description") or {"fields": []})["fields"]}
        vs = []
        for t, (ct_, a, b, s) in TYPES.items():
            for r in (1, 2):
                st = NULL if r == 2 else ai0.conv(s, {"string": "const char[]"}.get(t, ct_), vf.get("start"))
                vs.append(("rec", "cosim::variable_description", tuple((n, {"name": ("str", "%s%d" % (t, r)), "reference": r, "type": vt(t), "start": st}.get(n)) for n in vf)))
        self.descr = ("rec", "cosim::model_description", (("variables", ("vec", tuple(vs))),))
        d = ai0.default(self.cls)
        if not (isinstance(d, tuple) and d[0] == "rec"): return None
        # an implementation object behind a pointer
        impl, heap = None, {}
        for f in R["fields"]:
            m = re.match(r"std::unique_ptr<(.*?)(, std::default_delete<.*)?>$", strip_t(f["t"]))
            if m and strip_t(m.group(1)) in db.R: impl = (f["n"], strip_t(m.group(1)))
        if impl is not None:
            ic = [f for f in fns_of(db) if f.get("cls") == impl[1] and f["q"].split("::")[-1] == impl[1].split("::")[-1] and len(f["p"]) == 2]
            if len(ic) != 1: return None
            rs = self.H.run(ic[0], {("this",): ai0.default(impl[1])}, [SLV, ("str", "x")], None, self.descr)
            if not rs or len(rs) != 1 or rs[0].kind != "return": return None
            heap[("IMPL",)] = rs[0].this
            heap[("this",)] = put(d, (impl[0],), ("ptr", ("IMPL",), ()))
        rs = self.H.run(ct[0], heap or {("this",): d}, [SLV, ("str", "x")], None, self.descr)
        if not rs or len(rs) != 1 or rs[0].kind != "return": return None
        h = dict(rs[0].heap)
        if impl is not None: h[("IMPL",)] = heap[("IMPL",)]; h[("this",)] = put(h[("this",)], (impl[0],), ("ptr", ("IMPL",), ()))
        return h
    def call(self, heap, name, args, k=0, result=None):
        f = self.fn(name, len(args))
        if f is None: self.bad = "%s::%s is not found" % (self.cls, name); return None
        rs = self.H.run(f, heap, args, lambda t, r: ("rd", t, r, k), self.descr, result)
        if rs is None or len(rs) != 1: self.bad = "%s: outcome is not decided" % self.db.where(f); return None
        return rs[0]
    def viol(self, key, r, node, msg, hist):
        k = self.rule + "|" + key
        if k in self.seen_viol: return
        self.seen_viol.add(k)
        self.c.viol(self.rule, r.ai.g.at_line(node), "after %s: %s" % (", ".join(words(o) for o in hist) if hist else "exposing", msg), key=k)
    def explore(self, name, ins, outs, alphabet, late=()):
        """ins, outs: [(type, reference)]; alphabet: operations; late: what is not exposed at first, as ("xset"/"xget", type, reference)."""
        h = self.start()
        if h is None: self.c.note("%s: construction is not decided" % self.cls); return
        for t, r in ins:
            if ("xset", t, r) in late: continue
            x = self.call(h, "expose_for_setting", [vt(t), r])
            if x is None or x.kind != "return": return self.give_up(name, x)
            h = x.heap
        for t, r in outs:
            if ("xget", t, r) in late: continue
            x = self.call(h, "expose_for_getting", [vt(t), r])
            if x is None or x.kind != "return": return self.give_up(name, x)
            h = x.heap
        st = ("created", 0, tuple(None if ("xset", t, r) in late else (initial(t, r), False, NULL) for t, r in ins),
              tuple(None if ("xget", t, r) in late else (NULL, False, 0, NULL, ZERO) for t, r in outs))
        fz = lambda h, s: (frozenset(h.items()), s)
        todo, seen, ops = [(h, st, ())], {fz(h, st)}, 0
        while todo:
            h, st, hist = todo.pop(0)
            ph = st[0]
            cand = {"created": [("setup",)] + [o for o in alphabet if o[0] in ("xset", "xget")], "init": [("iter",), ("start",)], "run": self.steps}[ph] + (list(alphabet) if ph != "created" else [])
            for op in cand:
                if ops >= (self.limit if len(ins) < 4 else 500): self.c.ob("histories", "%s: %d operations from %d states (bounded)" % (name, ops, len(seen))); return
                ops += 1
                nx = self.apply(h, st, op, ins, outs, hist + (op,))
                if nx is None:
                    if self.bad: return self.give_up(name, None, hist + (op,))
                    continue
                k = fz(*nx)
                if k not in seen: seen.add(k); todo.append((nx[0], nx[1], hist + (op,)))
        self.c.ob("histories", "%s: %d operations from %d states (all)" % (name, ops, len(seen)))
    def give_up(self, name, x, hist=()):
        why = self.bad or ("%s ends with %s" % (self.db.where(x.f), x.kind) if x is not None else "?")
        self.bad = None
        self.c.note("histories, %s: %s (after %s)" % (name, why, ", ".join(words(o) for o in hist)))
    def apply(self, h, st, op, ins, outs, hist):
        ph, par, I, O = st
        k = op[0]
        rejected = False
        if k in ("set", "mod", "omod", "xset", "xget", "get"):
            t, r = op[1], op[2]
            rejected = k in ("set", "mod") and dict(zip(ins, I)).get((t, r)) is None or k in ("omod", "get") and dict(zip(outs, O)).get((t, r)) is None
            name, args = {"get": ("get_" + t, [r]), "set": ("set_" + t, [r, op[-1]]), "mod": ("set_%s_input_modifier" % t, [r, op[-1]]), "omod": ("set_%s_output_modifier" % t, [r, op[-1]]),
                          "xset": ("expose_for_setting", [vt(t), r]), "xget": ("expose_for_getting", [vt(t), r])}[k]
        else:
            name, args = {"setup": ("setup", [0, NULL, NULL]), "iter": ("do_iteration", []), "start": ("start_simulation", []), "step": ("do_step", [("sym", "t"), DT])}[k]
        x = self.call(h, name, args, par ^ 1, op[1] if k == "step" and len(op) > 1 else None)
        if x is None: return None
        if (x.kind != "return" or rejected) and (x.ai.odd or x.ai.forked): self.bad = "%s: outcome is not decided" % self.db.where(x.f); return None
        if rejected:
            if x.kind == "throw":
                et = self.thrown(x)
                if et in STD or et in self.db.R and not isa(self.db, et, "std::out_of_range"): self.viol("type|" + k, x, x.node, "%s of a variable that is not exposed throws %s" % (name, et), hist); return None
                if k in ("mod", "omod"):
                    y = self.call(x.heap, "get_modified_%s_variables" % t, [])
                    if y is None: self.bad = None
                    elif y.kind == "return" and isinstance(y.ret, tuple) and y.ret[:1] == ("vec",) and r in y.ret[1]:
                        self.viol("tracked|" + k, x, x.node, "%s is rejected, but the variable counts as modified" % name, hist); return None
                k = None
            else: self.viol("accepted|" + k, x, x.node, "%s of a variable that is not exposed %s" % (name, "succeeds" if x.kind == "return" else "ends the program"), hist); return None
        elif x.kind != "return":
            self.viol("fails|" + k, x, x.node, "%s %s" % (name, "throws" if x.kind == "throw" else "ends the program"), hist)
            return None
        if k == "set": I = tuple((op[3], True, i[2]) if v == (op[1], op[2]) else i for v, i in zip(ins, I))
        elif k == "mod": I = tuple((i[0], True, op[3]) if v == (op[1], op[2]) else i for v, i in zip(ins, I))
        elif k == "xset": I = tuple((initial(op[1], op[2]), False, NULL) if v == (op[1], op[2]) and i is None else i for v, i in zip(ins, I))
        elif k == "xget": O = tuple((NULL, False, 0, NULL, ZERO) if v == (op[1], op[2]) and o is None else o for v, o in zip(outs, O))
        elif k == "omod": O = tuple((op[3], False) + o[2:] if v == (op[1], op[2]) else o for v, o in zip(outs, O))
        elif k in ("setup", "iter", "start", "step"):
            dt = DT if k == "step" else ZERO
            par ^= 1
            if not self.trace(x, k, I, O, ins, outs, dt, hist): return None
            if k != "setup": I = tuple(i and (i[0], False, i[2]) for i in I)
            O = tuple(o and (o[0], True, par, o[0], dt) for o in O)
            ph = {"setup": "init", "iter": "init", "start": "run", "step": "run"}[k]
        for (t, r), o in zip(outs, O):
            if o is None or not o[1]: continue
            m, known, p, am, dt = o
            y = self.call(x.heap, "get_" + t, [r])
            if y is None: return None
            want = ("rd", t, r, p) if am == NULL else ("app", am[1], ("rd", t, r, p), dt)
            if y.kind == "return" and y.ret is None: self.bad = "%s: value is not decided" % self.db.where(y.f); return None
            if y.kind != "return" or y.ret != want:
                self.viol("read|" + t, y, y.node, "the value of %s output %s is %s, not %s" % (t, "ab"[r - 1], self.say(y.ret) if y.kind == "return" else "not available", self.say(want)), hist)
                return None
        return x.heap, (ph, par, I, O)
    def thrown(self, x):
        """Type of the exception that was thrown last."""
        for n in reversed(x.ai.path(x.key)):
            if n.k == "throw" and n.e is not None:
                e = n.e.get("e") if n.e.get("k") == "throw" else n.e
                t = strip_t((e or {}).get("t"))
                return t if t.startswith(("std::", "cosim::")) else None
            if n.k == "call" and (n.e.get("fn") or "").endswith("::at"): return "std::out_of_range"
        return None
    def say(self, v):
        if isinstance(v, tuple) and v[:1] == ("rd",): return "what the slave gave for %s %s at %s" % (v[1], "ab"[v[2] - 1] if v[2] in (1, 2) else v[2], ("an even transmission", "an odd transmission")[v[3]])
        if isinstance(v, tuple) and v[:1] == ("app",): return "modifier(%s, %s)" % (self.say(v[2]), ", ".join(show(x) if x != 0 else "0" for x in v[3:]))
        return show(v)
    def trace(self, x, k, I, O, ins, outs, dt, hist):
        """What the slave is asked in an operation that transmits."""
        act = {"setup": "setup", "start": "start_simulation", "step": "do_step", "iter": None}[k]
        tr = x.trace
        pos = [i for i, e in enumerate(tr) if e[0] == act]
        if act is not None and len(pos) != 1:
            self.viol("act|" + k, x, x.node, "%s of the slave is called %d times" % (act, len(pos)), hist); return False
        gets = [i for i, e in enumerate(tr) if e[0].startswith("get_")]
        sent = {}
        for i, e in enumerate(tr):
            m = re.match(r"set_(\w+)_variables$", e[0])
            if not m: continue
            if e[1] is None or e[2] is None: self.bad = "%s: what is sent is not decided" % self.db.where(x.f); return False
            if len(e[1]) != len(e[2]): self.viol("lengths", x, e[3], "%d references and %d values are sent" % (len(e[1]), len(e[2])), hist); return False
            for r, v in zip(e[1], e[2]):
                if v is None: self.bad = "%s: a value sent is not decided" % self.db.where(x.f); return False
                sent[(m.group(1), r)] = (v, i, e[3])
        if k != "setup":
            for (t, r), i in zip(ins, I):
                if i is None: continue
                l, p, m = i
                want = l if m == NULL else ("app", m[1], l, dt)
                nm = "%s input %s" % (t, "ab"[r - 1])
                if (t, r) not in sent:
                    if p or m != NULL: self.viol("sent|" + t, x, x.node, "%s is not sent to the slave (%s is expected)" % (nm, self.say(want)), hist); return False
                    continue
                v, i, n = sent[(t, r)]
                if v != want: self.viol("value|" + t, x, n, "%s is sent as %s, not %s" % (nm, self.say(v), self.say(want)), hist); return False
                if (p or m != NULL) and (pos and i > pos[0] or not pos and gets and any(g < i for g in gets if tr[g][0] == "get_%s_variables" % t)):
                    self.viol("order|" + t, x, n, "%s is sent after the slave has acted" % nm, hist); return False
        for (t, r) in sent:
            if dict(zip(ins, I)).get((t, r)) is None and k != "setup": self.viol("other|" + t, x, sent[(t, r)][2], "%s variable %s is sent, which was not exposed for setting" % (t, r), hist); return False
        for (t, r), o in zip(outs, O):
            if o is None: continue
            at = [i for i in gets if tr[i][0] == "get_%s_variables" % t and tr[i][1] is not None and r in tr[i][1]]
            if any(tr[i][1] is None for i in gets): self.bad = "%s: what is read is not decided" % self.db.where(x.f); return False
            if not at or pos and at[-1] < pos[0]: self.viol("readback|" + t, x, x.node, "%s output %s is not read back" % (t, "ab"[r - 1]), hist); return False
        return True

STD = {"std::exception", "std::logic_error", "std::runtime_error", "std::invalid_argument", "std::domain_error", "std::length_error", "std::range_error", "std::overflow_error", "std::underflow_error", "std::bad_alloc"}
class Log:
    """Takes the place of a rule context in another process."""
    def __init__(self, c): self.c, self.out = c, []
    def graph(self, *a, **k): return self.c.graph(*a, **k)
    def ob(self, *a): self.out.append(("ob", a, {}))
    def note(self, *a): self.out.append(("note", a, {}))
    def viol(self, *a, **k): self.out.append(("viol", a, k))
def scenarios(X, t, access):
    if t is None:
        if not access: X.explore("variables of every type", [(t, 1) for t in TYPES], [(t, 2) for t in TYPES], [("set", t, 1, TYPES[t][1]) for t in TYPES])
        return
    ct, a, b, s = TYPES[t]
    if access:
        X.explore("access to %s inputs" % t, [(t, 1), (t, 2)], [], [("set", t, 1, a), ("set", t, 2, b), ("mod", t, 2, ("fun", "f")), ("xset", t, 1), ("xset", t, 2)], late={("xset", t, 2)})
        X.explore("access to %s outputs" % t, [], [(t, 1), (t, 2)], [("get", t, 2), ("omod", t, 1, ("fun", "g")), ("omod", t, 2, ("fun", "h")), ("xget", t, 1), ("xget", t, 2)], late={("xget", t, 2)})
        return
    full = t in ("real", "string")      # the others are instances of the same templates
    X.explore("one %s input" % t, [(t, 1)], [], [("set", t, 1, a), ("set", t, 1, b), ("mod", t, 1, ("fun", "f")), ("mod", t, 1, NULL)])
    X.explore("one %s output" % t, [], [(t, 1)], [("omod", t, 1, ("fun", "g")), ("omod", t, 1, ("fun", "h")), ("omod", t, 1, NULL)])
    X.explore("two %s outputs" % t, [], [(t, 2), (t, 1)], [("omod", t, 1, ("fun", "g"))])
    X.explore("one %s input and one output" % t, [(t, 1)], [(t, 2)], [("set", t, 1, a), ("get", t, 2)])
    if not full: return
    X.explore("one %s input, two modifiers" % t, [(t, 1)], [], [("set", t, 1, a), ("mod", t, 1, ("fun", "f")), ("mod", t, 1, ("fun", "g")), ("mod", t, 1, NULL)])
    X.explore("two %s inputs" % t, [(t, 1), (t, 2)], [], [("set", t, 1, a), ("set", t, 2, b), ("mod", t, 2, ("fun", "f")), ("mod", t, 2, NULL)])
    X.explore("%s variables exposed late" % t, [(t, 1), (t, 2)], [(t, 1), (t, 2)], [("set", t, 2, b), ("xset", t, 2), ("xget", t, 2)], late={("xset", t, 2), ("xget", t, 2)})

def histories(c, db, cls, rule="history", limit=1500, access=False):
    """True: every outcome was decided.  access: also operations on what is not exposed, and exposing at any time."""
    import multiprocessing
    X = Explore(c, db, cls, rule, limit)
    if X.start() is None: c.note("%s: construction is not decided" % cls); return False
    for l in X.D.values():
        for f in l: X.H.graph(f)        # before the processes are made
    def one(t):
        X.c = X.H.c = L = Log(c)
        try: scenarios(X, t, access)
        except (AttributeError, TypeError, KeyError, IndexError, RecursionError) as x: L.note("%s: not decided (%s: %s)" % (cls, type(x).__name__, x))
        return L.out
    global _one
    _one = one
    with multiprocessing.get_context("fork").Pool(5) as pool: res = pool.map(_call, list(TYPES) + [None], 1)
    ok = True
    for out in res:
        for k, a, kw in out:
            if k == "note": ok = False
            if k == "viol" or k == "ob" or k == "note": getattr(c, k)(*a, **kw)
    return ok
def _call(t): return _one(t)
