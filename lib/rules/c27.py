"""C27: manual overrides are applied at the next step, once, in order."""
from travel import *
from c26 import logger, judge, VA, TYPES, isnull, exprs_in
RULE = """
One request is followed through the containers of override_manipulator by an abstract interpretation of its members (everything inlined), the
state of the object after one call being carried over into the next.
(request) Each override_*_variable and reset_variable (for each type) that returns has appended exactly one action with the given simulator
and variable, the modifier of its type - a function that returns the given value whatever it is passed, or an empty one for a reset -
and the direction that follows from the variable's causality: input for inputs and parameters, output for outputs and calculated
parameters; the causality is that of the variable with this type and reference, and for others the request is refused.
(applied) The next step exposes the variable - for setting or getting, with its type - and then installs this modifier on this variable
of this simulator, exactly once; later steps do not; for each type and direction, alone and among other requests.
(order) Requests are appended at one end and carried out from the other.
"""
ASSUME = ["the modifier setters of manipulable replace what was set before (C06, C10)", "the accesses to the list of requests are serialised (C14)"]
OM = "cosim::override_manipulator"
VD = "cosim::variable_description"
CA = {"input": True, "parameter": True, "output": False, "calculated_parameter": False}
T = ("tok",)
def casev(t): return t if t[0] == "enum" else AI.caseval(None, t)

class T27(Trav):
    def caseval(self, t): return t if t[0] == "enum" else super().caseval(t)
    def ev(self, e, fr, env, depth=0):
        if isinstance(e, dict) and e["k"] == "ref" and e.get("dk") == "enum": return ("enum", e.get("q"))
        if isinstance(e, dict) and e["k"] == "mem" and e.get("q") in self.fields and e["q"].startswith(VD): return self.fields[e["q"]]
        return super().ev(e, fr, env, depth)

def fieldval(ai, e, fr, env, name):
    """(value, expression, frame) of a field of a structure that is handed over."""
    e, fr = origin(ai.g, e, fr)
    while isinstance(e, dict) and (e["k"] in ("ctor",) and len(e.get("a") or []) == 1 and not e.get("fields") or e["k"] == "call" and e.get("fn") in ("std::move", "std::forward")): e, fr = origin(ai.g, e["a"][0], fr)
    if not isinstance(e, dict): return None
    if e.get("fields"):
        for f, a in zip(e["fields"], e["a"]):
            if f == name: return ai.ev(a, fr, env), a, fr
        return None
    k = ai.lkey(e, fr, env)
    if k is not None:
        ws = [n for n in ai.g.live() if n.k == "write" and ai.g.place(n) == ("f", k, name)]
        if len(ws) == 1: return env.get(("f", k, name)), ws[0].d.get("val"), ws[0].fr
    return None

def add_log(ai, n, e, env):
    if e.get("obj") is None or last_(e.get("fn")) not in ADD: return None
    A = [a for a in e.get("a") or [] if a["k"] != "defarg"]
    if "variable_action" not in (e["obj"].get("t") or ""): return None
    at = None
    if last_(e["fn"]) in ("insert", "emplace", "emplace_hint") and len(A) in (2, 5):
        b, _ = origin(ai.g, A[0], n.fr)
        while isinstance(b, dict) and b["k"] in ("ctor", "icast", "cast") and (len(b.get("a") or []) == 1 or b.get("e")): b = b["a"][0] if b.get("a") else b["e"]
        at = "back" if isinstance(b, dict) and last_(b.get("fn")) in ("end", "cend") else "front"
        A = A[1:]
    if len(A) == 4:      # constructed in place
        vals = [(ai.ev(a, n.fr, env), a, n.fr) for a in A]
    elif len(A) == 1: vals = [fieldval(ai, A[0], n.fr, env, x) for x in ("simulator", "variable", "modifier", "is_input")]
    else: return ("add", None)
    sim, var, mod, inp = vals
    val = lambda x: x[0] if x else None
    ty, null, fe = None, None, None
    if mod:
        for x, f in exprs_in(ai, mod[1], mod[2]):
            m = re.search(r"scenario::(\w+)_modifier$", (x.get("t") or "").replace("const ", ""))
            if m and x["k"] in ("init", "ctor") and not (x["k"] == "ctor" and x.get("copy")):
                ty = m[1]
                A2 = x.get("a") or []
                null = not A2 or isnull(ai, A2[0], f, env) or any(y["k"] == "cond" and (isnull(ai, y["a"], yf, env) or isnull(ai, y["b"], yf, env)) for y, yf in conds(ai, A2[0], f))
                fe = None if null else (A2[0], f)
                break
    return ("add", val(sim), val(var), ty, null, val(inp), at or ("front" if last_(e["fn"]) in FRONT else "back"), lam(ai, fe, env))
def conds(ai, e, fr):
    e, fr = origin(ai.g, e, fr)
    while isinstance(e, dict) and e["k"] in ("ctor", "init", "icast", "cast") and (len(e.get("a") or []) == 1 or e.get("e")): e, fr = origin(ai.g, e["a"][0] if e.get("a") else e["e"], fr)
    return [(e, fr)] if isinstance(e, dict) and e["k"] == "cond" else []
def lam(ai, fe, env):
    """What the function of a modifier returns: ("captured", d) / ("own",) / None."""
    if fe is None: return None
    e, fr = origin(ai.g, *fe)
    while isinstance(e, dict) and e["k"] in ("ctor", "init", "icast", "cast") and (len(e.get("a") or []) == 1 or e.get("e")): e, fr = origin(ai.g, e["a"][0] if e.get("a") else e["e"], fr)
    if not isinstance(e, dict) or e["k"] != "lambda": return None
    out = set()
    fs = [f for f in ai.g.db.F.values() if f.get("lambda") in e.get("ids", ()) or f.get("id") in e.get("ids", ())]
    if len(fs) != 1: return None
    rets = []
    def walk(s):
        if isinstance(s, dict):
            if s.get("k") == "return": rets.append(s.get("e"))
            if s.get("k") != "lambda":
                for v in s.values(): walk(v)
        elif isinstance(s, list):
            for v in s: walk(v)
    walk(fs[0]["body"])
    for r in rets:
        while isinstance(r, dict) and (r["k"] in ("icast", "cast") or r["k"] in ("ctor", "init") and len(r.get("a") or []) == 1): r = r["e"] if r["k"] in ("icast", "cast") else r["a"][0]
        if not isinstance(r, dict): return None
        if r["k"] == "ref":
            cap = [x for x in e.get("caps", []) if x["d"] == r["d"]]
            if cap:
                v = ai.ev(r, fr, env)
                out.add(("captured", v, bool(cap[0].get("byref"))))
            elif r["d"] in [p["d"] for p in fs[0]["p"]]: out.add(("own",))
            else: return None
        elif r["k"] in ("int", "bool", "float", "str"): out.add(("const",))
        else: return None
    return out.pop() if len(out) == 1 else None

def check(c):
    G = {}
    def graph(name):
        if name not in G:
            fs = [f for f in c.db.byq.get("%s::%s" % (OM, name), []) if f.get("body") is not None]
            G[name] = (fs[0], c.graph(fs[0], track_all=True)) if fs else None
        return G[name]
    def wh(name): f = graph(name)[0]; return "%s:%s" % (c.db.rel(f), f["l"])
    seen = set()
    def V(rule, name, msg, key, r=None):
        if key in seen: return
        seen.add(key)
        c.viol(rule, wh(name), msg, key=key, path=r[2][0].path(r[2][1]) if r else None, g=graph(name)[1])
    def add(name, causality, ty=None, ref=5, vt=None):
        """One request; ref, vt: reference and type of the variable the model has."""
        fg = graph(name)
        f, g = fg
        fld = {VD + "::causality": ("enum", "cosim::" + causality), VD + "::reference": ref, VD + "::type": ("enum", "cosim::variable_type::" + vt)}
        ai = T27(g, fld, None, add_log, False)
        env = {}
        for i, p in enumerate(f["p"]):
            pv = g.frames[0].vars.get(p["d"])
            t = p["t"]
            v = ("enum", "cosim::variable_type::" + ty) if "variable_type" in t else ("tok", "sim") if i == 0 else 5 if t.startswith(("unsigned", "const unsigned", "cosim::value_ref")) else ("tok", "val")
            env[pv.term] = v
            env[("p", i, p.get("n"))] = v
        # a container of the object holds the request once it has been added
        out = []
        for n, e, key in ai.go(env):
            if n is g.exit and not any(x.k in ("throw", "term") for x in ai.path(key)): out.append((Trav.state(e), e.get(("log",), ()), (ai, key)))
        if ai.exceeded: c.note("too many states in " + name)
        return out
    names = [(n, t, False) for t in TYPES for n in ["override_%s_variable" % t] if graph("override_%s_variable" % t)]
    if graph("reset_variable"): names += [("reset_variable", t, True) for t in TYPES]
    if not names or graph("step_commencing") is None: c.need("request", 1); return
    ends = {}
    for name, ty, rst in names:
        for ca in CA:
            c.ob("request", "%s %s %s" % (name, ty, ca))
            rs = add(name, ca, ty, 5, ty)
            if not rs: V("request", name, "a request for a %s variable with causality %s is refused" % (ty, ca), "%s|%s|refused" % (name, ca if not rst else ty + ca)); continue
            for r in rs:
                ad = [x for x in r[1] if x[0] == "add"]
                what = "%s (%s)" % (name, ty) if rst else name
                if len(ad) != 1:
                    V("request", name, "%s returns after %s" % (what, "nothing has been requested" if not ad else "more than one action has been requested"), "%s|%s|%s" % (name, ty, "none" if not ad else "many"), r); continue
                a = ad[0]
                if len(a) < 3: c.note("%s: the action is not recognised" % what); continue
                _, sim, var, mt, null, inp, end, fn = a
                ends.setdefault(end, (name, r))
                if sim is not None and sim != ("tok", "sim"): V("request", name, "the action requested by %s names another simulator" % what, "%s|%s|sim" % (name, ty), r)
                if var is not None and var != 5: V("request", name, "the action requested by %s names another variable" % what, "%s|%s|var" % (name, ty), r)
                if mt is None: c.note("%s: the modifier is not recognised" % what)
                elif mt != ty: V("request", name, "the action requested by %s has a modifier for %s variables" % (what, mt), "%s|%s|type" % (name, ty), r)
                if null is not None and mt is not None and null != rst: V("request", name, "%s %s" % (what, "does not remove the modifier" if rst else "removes the modifier"), "%s|%s|null" % (name, ty), r)
                if inp is None: c.note("%s: the direction is not recognised" % what)
                elif truth(inp) != CA[ca]: V("request", name, "%s: a variable with causality %s is treated as an %s" % (what, ca, "input" if truth(inp) else "output"), "%s|%s|%s|dir" % (name, ty, ca), r)
                if not rst and null is False:
                    if fn is None: c.note("%s: what the modifier returns is not recognised" % what)
                    elif fn == ("own",) or fn == ("const",) or fn[0] == "captured" and fn[1] not in (None, ("tok", "val")): V("request", name, "the modifier installed by %s does not return the given value" % what, "%s|value" % name, r)
                    elif fn[2]: V("request", name, "the modifier installed by %s refers to the given value after the call has ended" % what, "%s|dangling" % name, r)
        # other variables of the model
        other = TYPES[(TYPES.index(ty) + 1) % 4]
        for text, ref, vt in (("another reference", 6, ty), ("another type", 5, other)):
            c.ob("request", "%s %s: %s" % (name, ty, text))
            for r in add(name, "input", ty, ref, vt):
                V("request", name, "%s takes the causality of a variable with %s" % (name, text), "%s|%s" % (name, text), r)
    # ------------------------------------------------------------ the step
    f, g = graph("step_commencing")
    r = c.db.R.get(OM)
    conts = [x for x in r["fields"] if "variable_action" in x["t"] and CONT.match(x["t"])] if r else []
    if len(conts) != 1: c.note("the list of requests is not recognised"); c.need("request", 20); return
    A = ("f", ("this",), conts[0]["n"])
    for ty in TYPES:
        for inp in (True, False):
            d, ex = ("input", "setting") if inp else ("output", "getting")
            for alone in (True, False):
                c.ob("applied", "%s %s%s" % (ty, d, " alone" if alone else ""))
                def run(st):
                    ai = Trav(g, {VA + "::is_input": inp}, "cosim::scenario::%s_modifier" % ty, logger, alone)
                    return [(Trav.state(e), e.get(("log",), ()), (ai, key)) for n, e, key in ai.go(st) if n is g.exit and not any(x.k == "throw" for x in ai.path(key))]
                for r in run({A: IN}):
                    k = sum(1 for x in r[1] if x[0] == "install")
                    if k > 1: V("applied", "step_commencing", "a request is carried out more than once in a step", "many", r); continue
                    judge(lambda rule, *a: V("applied", *a), r, "step_commencing", "%s %s" % (ty, d), ty, d, ex)
                    c.ob("applied", "not again")
                    for r2 in run(r[0]):
                        if r2[1]: V("applied", "step_commencing", "a request is carried out again in the next step", "again", r2)
    # ------------------------------------------------------------ order
    c.ob("order", "ends")
    lps = [lp for lp in g.loops if lp.kind in ("rfor", "algo", "for", "while")]
    rev = any(last_(n.e.get("fn")) in ("rbegin", "crbegin", "back", "pop_back") for n in g.live() if n.k == "call" and n.e.get("obj") is not None and "variable_action" in (n.e["obj"].get("t") or ""))
    rev = rev or any(lp.partial == "reverse" for lp in lps)
    if set(ends) == {"back"} and rev: V("order", "step_commencing", "requests are carried out in the reverse order", "reverse")
    if "front" in ends and not rev: V("order", ends["front"][0], "requests are inserted before earlier ones", "front", ends["front"][1])
    c.need("request", 30)
    c.need("applied", 16)
