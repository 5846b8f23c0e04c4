"""C36: function blocks validate every reference and compute the declared result."""
from conc import *
import itertools
RULE = """
Every operation of a function block is explored with structured values: symbols for the numbers, representatives of every class of a reference
(each index below, at, between and above the bounds, and extreme), all small numbers of vectors and components.
(accessors) For every reference, a setter returns and an accessor gives the value that was set exactly if the block has that variable, with that
type and causality; it throws and leaves the object as it was in all other cases; setting changes no other variable.
(calculate) After calculate(), every output is the documented function of the inputs and parameters at that time, also when it is called again.
(instantiate) A parameter that is not given has its default; one that is given reaches the constructor argument it belongs to;
wrong types, values out of bounds and unsupported types are refused; constructors refuse counts below one.
(description) What an instance describes is what its type describes with the parameters substituted, and what the accessors accept;
substitution refuses unknown parameters, wrong types and values out of bounds.
"""
ASSUME = ["std::vector, std::variant, std::optional and std::unordered_map behave as specified",
          "function classes other than the two that are documented are not judged (a note names them)",
          "numbers of vectors and components up to 3 stand for all (no operation compares them with a larger constant)"]
F = "cosim::function"
REF = "cosim::function_io_reference"
RF = ("group", "group_instance", "io", "io_instance")
TYPES = ("real", "integer", "boolean", "string")
V = "cosim::variable_type::"
BIG, SMALL = 2**31 - 1, -2**31

def ref(*a): return ("rec", REF, tuple(zip(RF, a)))

class Runner:
    AIC = CAI
    def __init__(self, c, db):
        self.c, self.db = c, db
        self.stop = lambda f: bool(f.get("dflt"))
        self.thr = lambda e: e.get("fn") == "std::get" and len(e.get("a") or []) == 1 and VAR.search(strip_t(e["a"][0].get("t"))) is not None
        self.notes = set()
        self.ran = 0
    def graph(self, f): return self.c.graph(f, track_all=True, stop=self.stop, extra_throw=self.thr)
    def run(self, f, this=None, args=(), extra=None):
        """Outcome of a function: (kind, value, object afterwards, path, ai) or None when it is not decided."""
        g = self.graph(f)
        env = {}
        if this is not None: env[("this",)] = this
        for p, a in zip(f["p"], args):
            v = g.frames[0].vars[p["d"]]
            if a is not None: env[v.term] = a
        ai = self.AIC(g, call=self.call, mut=None)
        self.ran += 1
        out = ai.outcomes(env)
        self.ai = ai
        if ai.oob:
            n, e = next(iter(ai.oob.items()))
            return ("outside", None, None, n, ai)
        if ai.exceeded or not out: return None
        res = []
        for kind, n, e, key in out:
            if kind == "end":
                # a function that does not return
                callee = next((self.db.F.get((m.e or {}).get("id")) for m in reversed(ai.path(key)) if m.k == "call" and m.e is not None), None)
                kind = "throw" if callee is not None and callee.get("body") is not None and throws(callee["body"]) else "end"
            r = e.get(("RET", g.frames[0].id))
            if r is None and ("RETLV", g.frames[0].id) in e: r = ai.get(e[("RETLV", g.frames[0].id)], e)
            if kind != "return": r = None
            t = (kind, r, e.get(("this",)))
            if t not in [x[0] for x in res]: res.append((t, n, key))
        if len(res) != 1: 
            kinds = {x[0][0] for x in res}
            if len(kinds) == 1 and this is not None and all(x[0][2] == res[0][0][2] for x in res) and "return" not in kinds: pass
            else: return None
        (kind, r, th), n, key = res[0]
        where = next((m for m in reversed(ai.path(key)) if m.k in ("throw", "ret", "call", "write") and m.fr is not None), n)
        return (kind, r, th, where, ai)
    @staticmethod
    def call(ai, e, fr, env):
        fn = e.get("fn") or ""
        if e["k"] == "call" and fn in ("std::make_unique", "std::make_shared"):
            t = targ(e.get("t"))
            return ("made", strip_t(t), tuple(ai.ev(a, fr, env) for a in e.get("a") or [])) if t else None
        if e["k"] == "new" and e.get("a") is not None:
            x = e["a"][0] if len(e["a"]) == 1 and isinstance(e["a"][0], dict) and e["a"][0]["k"] == "ctor" else e
            return ("made", strip_t(x.get("t")).rstrip(" *"), tuple(ai.ev(a, fr, env) for a in x.get("a") or []))
        return NotImplemented

def throws(b):
    if isinstance(b, dict):
        if b.get("k") == "throw": return True
        return any(throws(x) for x in b.values())
    if isinstance(b, list): return any(throws(x) for x in b)
    return False

def loc(c, f, n): return n.fr and "%s:%d" % (c.db.rel(n.fr.fn), n.l or n.fr.fn["l"]) if n is not None and n.fr is not None else c.db.where(f)

class Block:
    """A function class with what is documented about it."""
    def __init__(self, q, ty, groups, oracle, ctor, state):
        self.q, self.ty, self.groups, self.oracle, self.ctor = q, ty, groups, oracle, ctor
def variables(b):
    """{(group, instance, io, index): (type, causality)}"""
    out = {}
    for gi, (name, count, ios) in enumerate(b["groups"]):
        for k in range(count):
            for ii, (t, caus, n) in enumerate(ios):
                for j in range(n): out[(gi, k, ii, j)] = (t, caus)
    return out

def blocks(classes):
    for q in classes:
        short = q.replace("cosim::", "")
        if short == "linear_transformation_function":
            yield q, {"name": short, "args": (("sym", "offset"), ("sym", "factor")), "num": "real",
                      "groups": [("in", 1, [("real", "input", 1)]), ("out", 1, [("real", "output", 1)])],
                      "oracle": lambda inp: {(1, 0, 0, 0): arith("+", ("sym", "offset"), arith("*", ("sym", "factor"), inp[(0, 0, 0, 0)]))}}
        elif short in ("vector_sum_function<double>", "vector_sum_function<int>"):
            t = "real" if "double" in short else "integer"
            for n, d in ((1, 1), (2, 3), (3, 2), (1, 2)):
                def oracle(inp, n=n, d=d):
                    r = {}
                    for j in range(d):
                        s = 0
                        for i in range(n): s = arith("+", s, inp[(0, i, 0, j)])
                        r[(1, 0, 0, j)] = s
                    return r
                yield q, {"name": "%s(%d, %d)" % (short, n, d), "args": (n, d), "num": t, "groups": [("in", n, [(t, "input", d)]), ("out", 1, [(t, "output", d)])], "oracle": oracle}

def same_descr(d, groups, what):
    """Differences between a described structure and the expected groups: a message, None (equal) or False (not known)."""
    gs = part(d, ("io_groups",)) if isinstance(d, tuple) and d[0] == "rec" else None
    if not (isinstance(gs, tuple) and gs[0] == "vec"): return False
    if len(gs[1]) != len(groups): return "it describes %d groups instead of %d" % (len(gs[1]), len(groups))
    for i, (x, (name, count, ios)) in enumerate(zip(gs[1], groups)):
        if x is None: return False
        nm, cn, io = part(x, ("name",)), part(x, ("count",)), part(x, ("ios",))
        cn = cn[2] if isinstance(cn, tuple) and cn[:1] == ("var",) else cn
        if nm is None or cn is None or io is None: return False
        if nm != ("str", name): return "group %d is called %s instead of '%s'" % (i, show(nm), name)
        if cn != count: return "group '%s' has count %s instead of %s" % (name, show(cn), count)
        if len(io[1]) != len(ios): return "group '%s' has %d variables instead of %d" % (name, len(io[1]), len(ios))
        for y, (t, caus, n) in zip(io[1], ios):
            if y is None: return False
            yt, yc, yn = part(y, ("type",)), part(y, ("causality",)), part(y, ("count",))
            yt = yt[2] if isinstance(yt, tuple) and yt[:1] == ("var",) else yt
            yn = yn[2] if isinstance(yn, tuple) and yn[:1] == ("var",) else yn
            if None in (yt, yc, yn): return False
            if yt != ("enum", V + t): return "the variables of group '%s' have type %s instead of %s" % (name, show(yt), t)
            if yc != ("enum", "cosim::variable_causality::" + caus): return "the variables of group '%s' have causality %s instead of %s" % (name, show(yc), caus)
            if yn != n: return "the variables of group '%s' have count %s instead of %s" % (name, show(yn), n)
    return None

def check(c):
    db = c.db
    R = Runner(c, db)
    classes = sorted({f["q"].rsplit("::", 1)[0] for f in c.impls(F + "::calculate")})
    m = {(q, f["q"].rsplit("::", 1)[1]): f for q in classes for f in db.F.values() if f.get("body") is not None and not f.get("dependent") and f["q"].rsplit("::", 1)[0] == q and not f.get("ck")}
    ctors = {q: [f for f in db.F.values() if f.get("ck") and f.get("ck") != "dtor" and f.get("body") is not None and f["q"].rsplit("::", 1)[0] == q and not f.get("dflt") and len(f["p"]) == 2] for q in classes}
    judged = 0
    known = set()
    for q, b in blocks(classes):
        known.add(q)
        if len(ctors[q]) != 1: c.note("%s: constructor not recognised" % q); continue
        ct = ctors[q][0]
        s0 = R.run(ct, this=start(db, q), args=b["args"])
        if s0 is None or s0[0] != "return" or s0[2] is None:
            if s0 is not None and s0[0] in ("throw", "end"): c.viol("accessors", loc(c, ct, s0[3]), "%s cannot be constructed" % b["name"], key="construct:" + b["name"])
            else: c.note("%s: the constructor is not understood" % b["name"])
            continue
        if judge_block(c, R, q, b, m, s0[2], ct): judged += 1
    for q in classes:
        if q not in known: c.note("%s implements cosim::function but is not documented in the rule" % q)
        elif q.startswith("cosim::vector_sum_function") and len(ctors[q]) == 1:
            for a in ((0, 1), (1, 0), (-1, 1), (1, -1), (0, 0)):
                c.ob("constructor")
                r = R.run(ctors[q][0], this=start(db, q), args=a)
                if r is None: c.note("%s%s: not decided" % (q, a))
                elif r[0] != "throw": c.viol("instantiate", loc(c, ctors[q][0], r[3]), "%s can be constructed with %d vectors of dimension %d" % (q, a[0], a[1]), key="ctor:%s:%s" % (q, a))
    types(c, R, m, ctors)
    parameters(c, R)
    substitution(c, R)
    c.ob("blocks", n=judged)
    c.need("blocks", n=3)
    c.ob("operations explored", n=R.ran)

def start(db, q):
    R = db.R.get(q)
    return ("rec", q, ())

def set_of(m, q, t): return m.get((q, "set_" + t))
def get_of(m, q, t): return m.get((q, "get_" + t))

def judge_block(c, R, q, b, m, S, ct):
    var = variables(b)
    ok = True
    dims = []
    g, k, i, j = (sorted({x[p] for x in var}) for p in range(4))
    refs = [r for r in itertools.product(*[sorted({-1, BIG, SMALL, *range(0, max(z) + 2)}) for z in (g, k, i, j)])
            if sum(x in (BIG, SMALL) for x in r) <= 1]
    num = b["num"]
    sym = {r: ("sym", "x%d_%d" % (r[1], r[3])) for r, (t, caus) in var.items() if caus == "input"}
    sample = {"real": ("sym", "w"), "integer": ("sym", "w"), "boolean": True, "string": ("str", "w")}
    bad = set()
    # every variable has a value
    st = S
    for r, x in sorted(sym.items()):
        f = set_of(m, q, num)
        o = R.run(f, this=st, args=(ref(*r), x)) if f is not None else None
        c.ob("accessors")
        if o is None: c.note("%s: setting %s is not decided" % (b["name"], r)); return False
        if o[0] != "return":
            c.viol("accessors", loc(c, f, o[3]), "%s: input %s cannot be set (%s)" % (b["name"], r, o[0]), key="set:%s:%s" % (q, r)); return True
        st = o[2]
    calc = m.get((q, "calculate"))
    # outputs exist from the beginning
    for r, (t, caus) in var.items():
        if caus != "output": continue
        c.ob("accessors")
        o = R.run(get_of(m, q, t), this=st, args=(ref(*r),)) if get_of(m, q, t) is not None else None
        if o is not None and o[0] != "return":
            c.viol("accessors", loc(c, ct, o[3]), "%s: output %s cannot be read before the first calculation" % (b["name"], r), key="early:" + q)
            break
    o = R.run(calc, this=st) if calc is not None else None
    if o is not None and o[0] == "return" and o[2] is not None: st = o[2]
    for t in TYPES:
        for which in ("set", "get"):
            f = m.get((q, which + "_" + t))
            if f is None: c.note("%s has no %s_%s" % (q, which, t)); continue
            for r in refs:
                valid = r in var and var[r][0] == t and (which == "get" or var[r][1] == "input")
                c.ob("accessors")
                o = R.run(f, this=st, args=(ref(*r), sample[t]) if which == "set" else (ref(*r),))
                name = "%s: %s_%s with group %d, instance %d, variable %d, index %d" % ((b["name"], which, t) + r)
                if (which, t, valid) in bad: continue
                if o is None:
                    c.note(name + " is not decided"); bad.add((which, t, valid)); continue
                w = loc(c, f, o[3])
                key = "%s_%s:%s:%s" % (which, t, q, "valid" if valid else "invalid")
                if o[0] == "outside":
                    c.viol("accessors", w, name + " accesses what does not exist", key=key, path=None); bad.add((which, t, valid)); continue
                if o[0] == "end":
                    c.viol("accessors", w, name + " ends the program instead of throwing", key=key); bad.add((which, t, valid)); continue
                if valid and o[0] != "return":
                    c.viol("accessors", w, name + " is refused, although the block has this variable", key=key); bad.add((which, t, valid)); continue
                if not valid and o[0] == "return":
                    c.viol("accessors", w, name + " succeeds, although the block has no such %s" % ("input" if which == "set" else "variable"), key=key); bad.add((which, t, valid)); continue
                if not valid or which == "get":
                    if o[2] != st:
                        c.viol("accessors", w, name + (" throws but" if not valid else "") + " changes the block", key=key); bad.add((which, t, valid)); continue
                if valid and which == "get" and var[r][1] == "input":
                    if o[1] is None: c.note(name + ": what it returns is not known")
                    elif o[1] != sym[r]:
                        c.viol("accessors", w, name + " gives %s instead of the value that was set (%s)" % (show(o[1]), show(sym[r])), key=key); bad.add((which, t, valid)); continue
                if valid and which == "set":
                    # the other inputs are as before
                    for r2, x2 in sym.items():
                        p = R.run(get_of(m, q, num), this=o[2], args=(ref(*r2),))
                        want = sample[t] if r2 == r else x2
                        c.ob("accessors")
                        if p is None or p[0] == "return" and p[1] is None: c.note(name + ": its effect is not decided"); continue
                        if p[0] != "return" or p[1] != want:
                            c.viol("accessors", w, name + ": input %s is %s afterwards instead of %s" % (r2, show(p[1]), show(want)), key=key); bad.add((which, t, valid)); break
    # calculation
    calc = m.get((q, "calculate"))
    if calc is None: return False
    hist = [dict(sym)]
    for r in sorted(sym)[:1] + sorted(sym)[-1:]:
        d = dict(hist[-1]); d[r] = ("sym", "y%d_%d" % (r[1], r[3])); hist.append(d)
    prev = None
    for step, inp in enumerate(hist):
        for r, x in inp.items():
            if prev is None or prev[r] != x:
                o = R.run(set_of(m, q, num), this=st, args=(ref(*r), x))
                if o is None or o[0] != "return": return True
                st = o[2]
        prev = inp
        o = R.run(calc, this=st)
        c.ob("calculate")
        if o is None: c.note("%s: calculate is not decided" % b["name"]); return True
        if o[0] != "return":
            c.viol("calculate", loc(c, calc, o[3]), "%s: calculate %s" % (b["name"], {"outside": "accesses what does not exist", "throw": "throws", "end": "ends the program"}[o[0]]), key="calculate:" + q); return True
        st = o[2]
        want = b["oracle"](inp)
        for r in var:
            p = R.run(get_of(m, q, num), this=st, args=(ref(*r),))
            c.ob("calculate")
            w = want.get(r, inp.get(r))
            if p is None or p[0] != "return" or p[1] is None:
                if p is not None and p[0] in ("throw", "outside", "end"):
                    c.viol("calculate", loc(c, calc, p[3]), "%s: after calculate, %s cannot be read any more" % (b["name"], r), key="calculate:" + q); return True
                c.note("%s: %s after calculate is not known" % (b["name"], r)); continue
            if p[1] != w and not (isinstance(p[1], (int, float)) and p[1] == w):
                how = "" if step == 0 else " when calculate is called again after an input has changed"
                c.viol("calculate", loc(c, calc, o[3]) if r in want else c.db.where(calc), "%s: %s %s is %s instead of %s%s" % (b["name"], "output" if r in want else "input", r, show(p[1]), show(w), how), key="calculate:" + q)
                return True
    # description
    f = m.get((q, "description"))
    if f is not None:
        o = R.run(f, this=st)
        c.ob("description")
        d = same_descr(o[1], b["groups"], b["name"]) if o is not None and o[0] == "return" else False
        if d is False: c.note("%s: description() is not understood" % b["name"])
        elif d: c.viol("description", c.db.where(f), "%s: %s" % (b["name"], d), key="description:" + q)
    return True

PM = "cosim::function_parameter_value_map"
def pmap(d): return ("map", tuple(d.items()))
def real(x): return ("var", "double", x)
def integer(x): return ("var", "int", x)
def vtype(n): return ("var", "cosim::variable_type", ("enum", V + n))

def types(c, R, m, ctors):
    """instantiate() and description() of the function types."""
    db = c.db
    L, S = "cosim::linear_transformation_function_type", "cosim::vector_sum_function_type"
    def want_lin(p):
        a = []
        for i, dflt in ((0, 0.0), (1, 1.0)):
            v = p.get(i, real(dflt))
            if v[1] != "double": return "throw"
            a.append(v[2])
        return ("cosim::linear_transformation_function", tuple(a))
    def want_sum(p):
        a = []
        for i, dflt, t in ((0, integer(1), "int"), (1, vtype("real"), "cosim::variable_type"), (2, integer(1), "int")):
            v = p.get(i, dflt)
            if v[1] != t: return "throw"
            if t == "int" and v[2] < 1: return "throw"
            a.append(v[2])
        n, t, d = a
        if t == ("enum", V + "real"): return ("cosim::vector_sum_function<double>", (n, d))
        if t == ("enum", V + "integer"): return ("cosim::vector_sum_function<int>", (n, d))
        return "throw"
    bads = [integer(3), vtype("real")]
    lin = [dict(x) for x in itertools.chain.from_iterable(itertools.combinations(z, k) for z in [[(0, ("var", "double", ("sym", "a"))), (1, ("var", "double", ("sym", "b")))]] for k in range(3))]
    lin += [{0: integer(2)}, {1: integer(2)}, {0: vtype("real")}, {0: real(1.0), 1: vtype("real")}, {0: real(-5.0), 1: real(0.0)}, {1: real(-1e9)}]
    summ = [{}, {0: integer(3)}, {2: integer(4)}, {0: integer(3), 2: integer(4)}, {0: integer(0)}, {2: integer(0)}, {0: integer(-1)}, {2: integer(-3)}, {0: integer(1), 2: integer(1)},
            {0: integer(1000000)}, {2: integer(1000000)}, {0: real(2.0)}, {2: real(2.0)}, {1: integer(1)}, {1: real(1.0)}, {0: vtype("real")}]
    summ += [{0: integer(2), 1: vtype(t), 2: integer(3)} for t in ("real", "integer", "boolean", "string", "enumeration")]
    made = {}
    for q, cases, want in ((L, lin, want_lin), (S, summ, want_sum)):
        f = next((f for f in db.byq.get(q + "::instantiate", []) if f.get("body") is not None), None)
        d = next((f for f in db.byq.get(q + "::description", []) if f.get("body") is not None), None)
        if f is None: c.note("%s::instantiate not found" % q); continue
        for p in cases:
            c.ob("instantiate")
            o = R.run(f, this=("rec", q, ()), args=(pmap(p),))
            txt = "%s::instantiate with %s" % (q.split("::")[-1], ", ".join("parameter %d = %s" % (k, show(v)) + ("" if not isinstance(v[2], (int, float)) else " (%s)" % v[1]) for k, v in sorted(p.items())) or "no parameters")
            w = want(p)
            if o is None: c.note(txt + ": not decided"); continue
            at = loc(c, f, o[3])
            key = "instantiate:%s:%s" % (q, ",".join("%d=%s" % (k, show(v)) for k, v in sorted(p.items())))
            if o[0] != "return":
                if o[0] != "throw": c.viol("instantiate", at, txt + ": " + {"outside": "accesses what does not exist", "end": "ends the program"}[o[0]], key=key)
                elif w != "throw": c.viol("instantiate", at, txt + " is refused", key=key)
                continue
            r = o[1]
            if w == "throw":
                # the constructor may still refuse
                if isinstance(r, tuple) and r[0] == "made" and len(ctors.get(r[1], [])) == 1:
                    x = R.run(ctors[r[1]][0], this=start(db, r[1]), args=r[2])
                    if x is not None and x[0] == "throw": continue
                if r is None: c.note(txt + ": result not known"); continue
                c.viol("instantiate", at, txt + " is not refused", key=key); continue
            if not (isinstance(r, tuple) and r[0] == "made") or None in r[2]: c.note(txt + ": what is made is not known"); continue
            if (r[1], r[2]) != w:
                c.viol("instantiate", at, "%s makes %s(%s) instead of %s(%s)" % (txt, r[1], ", ".join(map(show, r[2])), w[0], ", ".join(map(show, w[1]))), key=key)
        # description
        if d is None: continue
        o = R.run(d, this=("rec", q, ()))
        c.ob("description")
        if o is None or o[0] != "return" or o[1] is None: c.note("%s::description is not understood" % q); continue
        descr = o[1]
        at = c.db.where(d)
        ps = part(descr, ("parameters",))
        PT = "cosim::function_parameter_type::"
        exp = [("offset", PT + "real", real(0.0), NULL), ("factor", PT + "real", real(1.0), NULL)] if q == L else \
              [("inputCount", PT + "integer", integer(1), integer(1)), ("numericType", PT + "type", vtype("real"), NULL), ("dimension", PT + "integer", integer(1), integer(1))]
        E = next((e for k, e in db.E.items() if k.startswith(q + "::")), None)
        if not (isinstance(ps, tuple) and ps[0] == "vec"): c.note("%s: the described parameters are not understood" % q)
        else:
            if len(ps[1]) != len(exp): c.viol("description", at, "%s describes %d parameters instead of %d" % (q, len(ps[1]), len(exp)), key="parameters:" + q)
            else:
                for i, (x, (n, t, dv, mn)) in enumerate(zip(ps[1], exp)):
                    c.ob("description")
                    got = [part(x, (y,)) for y in ("name", "type", "default_value", "min_value", "max_value")]
                    for a, w, what in zip(got, (("str", n), ("enum", t), dv, mn, NULL), ("name", "type", "default value", "minimum", "maximum")):
                        if a is None: c.note("%s: the %s of parameter %d is not understood" % (q, what, i)); continue
                        if a != w: c.viol("description", at, "%s: parameter %d has the %s %s instead of %s" % (q, i, what, show(a), show(w)), key="parameter:%s:%d:%s" % (q, i, what))
        if E is not None:
            for x in E["e"]:
                n = x["n"].replace("_parameter_index", "")
                i = next((i for i, y in enumerate(exp) if y[0] == n), None)
                c.ob("description")
                if i is not None and x["v"] != i: c.viol("description", at, "%s: the index of parameter %s is %d, but it is described at position %d" % (q, n, x["v"], i), key="index:%s:%s" % (q, n))
        # with the parameters substituted
        sf = next((f for f in db.byq.get("cosim::substitute_function_parameters", []) if f.get("body") is not None), None)
        if sf is None: continue
        for p in (lin[:1] if q == L else summ):
            w = want(p)
            c.ob("description")
            o = R.run(sf, args=(descr, pmap(p)))
            txt = "the description of %s with %s" % (q.split("::")[-1], ", ".join("parameter %d = %s" % (k, show(v)) for k, v in sorted(p.items())) or "default parameters")
            if o is None: c.note(txt + ": not decided"); continue
            at2 = loc(c, sf, o[3])
            if w == "throw":
                if 1 in p and p[1][1] == "cosim::variable_type": continue
                if o[0] == "return": c.viol("description", at2, txt + ": the parameters are not refused", key="substitute:%s:%s" % (q, sorted(p.items())))
                continue
            if o[0] != "return": c.viol("description", at2, txt + " is refused", key="substitute:%s:%s" % (q, sorted(p.items()))); continue
            if q == L: gs = [("in", 1, [("real", "input", 1)]), ("out", 1, [("real", "output", 1)])]
            else:
                n, dm = w[1]; t = "real" if "double" in w[0] else "integer"
                gs = [("in", n, [(t, "input", dm)]), ("out", 1, [(t, "output", dm)])]
            x = same_descr(o[1], gs, "")
            if x is False: c.note(txt + ": not understood")
            elif x: c.viol("description", at2, "%s: %s" % (txt, x), key="substitute:%s" % q)

def param(name, ty, dflt, mn=NULL, mx=NULL):
    return ("rec", "cosim::function_parameter_description", (("name", ("str", name)), ("type", ("enum", "cosim::function_parameter_type::" + ty)), ("default_value", dflt), ("min_value", mn), ("max_value", mx)))
def tdescr(ps, groups=()):
    return ("rec", "cosim::function_type_description", (("io_groups", ("vec", tuple(groups))), ("parameters", ("vec", tuple(ps)))))

def expect(t, dflt, mn, mx, given):
    v = given if given is not None else dflt
    if v[1] != t: return "throw"
    if given is not None and t in ("int", "double"):
        for b, f in ((mn, lambda x, y: x < y), (mx, lambda x, y: x > y)):
            if b == NULL: continue
            if b[1] != t: return None        # described wrongly
            if f(v[2], b[2]): return "throw"
    return v[2]

def cases():
    for t, mk in (("int", integer), ("double", lambda x: real(float(x)))):
        for mn, mx in ((NULL, NULL), (mk(2), NULL), (NULL, mk(5)), (mk(2), mk(5))):
            for x in (None, mk(1), mk(2), mk(3), mk(5), mk(6), vtype("real"), real(3.0) if t == "int" else integer(3)):
                yield t, mk(4), mn, mx, x
        yield t, (real(4.0) if t == "int" else integer(4)), NULL, NULL, None
    for x in (None, vtype("real"), vtype("string"), integer(1), real(1.0)):
        yield "cosim::variable_type", vtype("integer"), NULL, NULL, x

def parameters(c, R):
    """get_function_parameter"""
    db = c.db
    fs = [f for f in db.byq.get("cosim::get_function_parameter", []) if f.get("body") is not None and not f.get("dependent")]
    for f in fs:
        t = strip_t(f.get("rt"))
        for ct, dflt, mn, mx, x in cases():
            if ct != t: continue
            for idx in (0, 1):
                ps = [param("p", "integer", integer(77)), param("q", "integer", dflt, mn, mx)]
                if idx == 0: ps = ps[::-1]
                other = 1 - idx
                vals = {other: integer(55)}
                if x is not None: vals[idx] = x
                c.ob("instantiate")
                o = R.run(f, args=(tdescr(ps), pmap(vals), idx))
                judge_value(c, R, f, o, expect(t, dflt, mn, mx, x), "get_function_parameter<%s>" % t.split("::")[-1], dflt, mn, mx, x)
        for idx in (-1, 2):
            o = R.run(f, args=(tdescr([param("p", "integer", integer(1)), param("p", "integer", integer(1))]), pmap({idx: integer(1) if t == "int" else real(1.0)}), idx))
            c.ob("instantiate")
            if o is not None and o[0] != "throw": c.viol("instantiate", loc(c, f, o[3]), "get_function_parameter<%s> accepts the index of a parameter that does not exist" % t, key="gfp:index:%s" % t)
    if not fs: c.note("get_function_parameter is not used")

def judge_value(c, R, f, o, w, name, dflt, mn, mx, x):
    if w is None: return
    txt = "%s, default %s%s%s, %s" % (name, show(dflt), ", minimum %s" % show(mn) if mn != NULL else "", ", maximum %s" % show(mx) if mx != NULL else "", "not given" if x is None else "value %s (%s)" % (show(x), x[1].split("::")[-1]))
    key = "%s:%s:%s:%s:%s" % (name, show(dflt), show(mn), show(mx), x)
    if o is None: c.note(txt + ": not decided"); return
    at = loc(c, f, o[3])
    if o[0] in ("outside", "end"): c.viol("instantiate", at, txt + " accesses what does not exist or ends the program", key=key)
    elif w == "throw":
        if o[0] == "return": c.viol("instantiate", at, txt + ": it is not refused", key=key)
    elif o[0] == "throw": c.viol("instantiate", at, txt + ": it is refused", key=key)
    elif o[1] is None: c.note(txt + ": the result is not known")
    elif o[1] != w: c.viol("instantiate", at, txt + ": the result is %s" % show(o[1]), key=key)

def substitution(c, R):
    """substitute_function_parameters"""
    db = c.db
    f = next((f for f in db.byq.get("cosim::substitute_function_parameters", []) if f.get("body") is not None), None)
    if f is None: c.note("substitute_function_parameters is not defined"); return
    PH = "cosim::function_parameter_placeholder"
    hold = lambda i: ("var", PH, ("rec", PH, (("parameter_index", i),)))
    def grp(count, type_, n):
        io = lambda nm, t, k: ("rec", "cosim::function_io_description", (("name", ("str", nm)), ("type", t), ("causality", ("enum", "cosim::variable_causality::input")), ("count", k)))
        return ("rec", "cosim::function_io_group_description", (("name", ("str", "g")), ("count", count), ("ios", ("vec", (io("a", vtype("string"), integer(8)), io("b", type_, n))))))
    fixed = (integer(7), vtype("boolean"), integer(9))
    for pos, (sel, what) in enumerate(((("count",), "int"), (("ios", ("i", 1), "type"), "cosim::variable_type"), (("ios", ("i", 1), "count"), "int"))):
        for gi in (0, 1):
            for ct, dflt, mn, mx, x in cases():
                if ct != what: continue
                ps = [param("p", "integer", integer(77)), param("q", "integer", dflt, mn, mx)]
                a = list(fixed); a[pos] = hold(1)
                gs = [grp(*fixed), grp(*fixed)]; gs[gi] = grp(*a)
                vals = {0: integer(55)}
                if x is not None: vals[1] = x
                c.ob("description")
                o = R.run(f, args=(tdescr(ps, gs), pmap(vals)))
                name = "substitution of the %s" % ("group count", "variable type", "variable count")[pos]
                w = expect(what, dflt, mn, mx, x)
                if o is not None and o[0] == "return" and w not in (None, "throw"):
                    v = part(o[1], ("io_groups", ("i", gi)) + sel) if o[1] is not None else None
                    v = v[2] if isinstance(v, tuple) and v[:1] == ("var",) else v
                    wanted = list(fixed); wanted[pos] = ("var", what, w)
                    gw = [grp(*fixed), grp(*fixed)]; gw[gi] = grp(*wanted)
                    judge_value(c, R, f, (o[0], v) + o[2:], w, name, dflt, mn, mx, x)
                    if v == w:
                        got = part(o[1], ("io_groups",))
                        if got is not None and got != ("vec", tuple(gw)): 
                            if known_all(got): c.viol("description", loc(c, f, o[3]), name + " changes something else in the description as well", key="subst:else:%d" % pos)
                            else: c.note(name + ": the rest of the description is not known")
                else: judge_value(c, R, f, o, w, name, dflt, mn, mx, x)
            for idx in (-1, 2, BIG, SMALL):
                a = list(fixed); a[pos] = hold(idx)
                gs = [grp(*fixed), grp(*fixed)]; gs[gi] = grp(*a)
                ps = [param("p", "integer", integer(77)), param("q", "integer", integer(2))]
                for vals in ({}, {idx: vtype("real") if pos == 1 else integer(3)}):
                    o = R.run(f, args=(tdescr(ps, gs), pmap(vals)))
                    c.ob("description")
                    if o is None: c.note("substitution with parameter index %d: not decided" % idx)
                    elif o[0] != "throw": c.viol("description", loc(c, f, o[3]), "a placeholder for parameter %d is not refused although there are 2 parameters" % idx, key="subst:index:%d:%d" % (pos, idx))
def known_all(v):
    if v is None: return False
    if isinstance(v, tuple): return v == NULL or all(known_all(x) for x in v if isinstance(x, tuple) or x is None)
    return True
