"""C11: what a system structure accepts."""
from slvsim import *
RULE = """
system_structure::connect_variables and add_entity, with everything they call inlined, are explored once per way in
which the request can be invalid (unknown entity, unknown variable or group, non-existing instance, each forbidden
causality and variability, different types, connected target; empty or used name, negative step size): with the
branches decided accordingly, the node that stores the connection / entity must not be reachable.  Every path that
returns normally stores it, under the target / the name, with the given value; no exception other than
cosim::error(invalid_system_structure) is thrown out of these functions, and none after a member was changed.
is_valid_connection is explored the same way, result true being the goal.  The lookups report what was stored.
"""
SS = "cosim::system_structure::"
CA, VA = "cosim::variable_causality::", "cosim::variable_variability::"
SRC_OK = {"output", "calculated_parameter"}
TGT_OK = {"input"}
VAR_BAD = {"constant", "fixed"}

def enums(db, q):
    e = db.E.get(q)
    if not e: raise AnalysisError("enumeration %s not found" % q)
    return [x["n"] for x in e["e"]] if isinstance(e, dict) else [x[0] if isinstance(x, (list, tuple)) else x for x in e]

def unscoped(x, pre):
    """Enumerator name, for scoped and unscoped enumerations."""
    if enum_of(x, pre): return enum_of(x, pre)
    ns = pre[:-2].rsplit("::", 1)[0] + "::"
    r = enum_of(x, ns)
    return r if r and "::" not in r else None
def decided(g, pred, val):
    """Edge filter: the branches on the boolean condition accepted by pred (-> value or None) are taken as decided."""
    def edge(n, lab, m):
        a, v = says(g, n, lab)
        if a is None: return True
        w = pred(a)
        return True if w is None else v == w
    return edge
def enumval(g, place, pre, val):
    """... every comparison of a place with enumerators: the place has value val."""
    def edge(n, lab, m):
        if n.k == "switch":
            cases = [l[1] for l, _ in n.succ if isinstance(l, tuple) and l[0] == "case"]
            names = [unscoped(x, pre) for x in cases]
            if not any(names) or not place(Bg(g)(g.T(n.e, n.fr))): return True
            if isinstance(lab, tuple) and lab[0] == "case": return unscoped(lab[1], pre) == val
            return lab in ("exc", "term") or val not in names
        a, v = says(g, n, lab)
        if a is None or a[0] != "==": return True
        es = [x for x in a[1:] if unscoped(x, pre)]
        ot = [x for x in a[1:] if not unscoped(x, pre)]
        if len(es) != 1 or not place(ot[0]): return True
        return v == (unscoped(es[0], pre) == val)
    return edge
def both(*es): return lambda n, lab, m: all(e(n, lab, m) for e in es if e)

def fld(t):
    """Name of the field a place designates, through std::get."""
    if isinstance(t, tuple) and t and t[0] in ("get", "alt") : return fld(t[1])
    if isinstance(t, tuple) and t and t[0] == "call" and last(str(t[1])) in ("get", "get_if") and len(t) > 2: return fld(t[2])
    return t[2] if isinstance(t, tuple) and len(t) > 2 and t[0] == "f" else None
def member_of(side, name): return lambda t: fld(t) == name and side(t)

def dims(db, side_s, side_t, tgt_var=True):
    """The ways in which a pair of variables cannot be connected: (text, edge filter factory)."""
    for v in enums(db, "cosim::variable_causality"):
        if v not in SRC_OK: yield "a source of causality '%s'" % v, lambda g, v=v: enumval(g, member_of(side_s, "causality"), CA, v)
        if v not in TGT_OK: yield "a target of causality '%s'" % v, lambda g, v=v: enumval(g, member_of(side_t, "causality"), CA, v)
    if tgt_var:
        for v in enums(db, "cosim::variable_variability"):
            if v in VAR_BAD: yield "a target of variability '%s'" % v, lambda g, v=v: enumval(g, member_of(side_t, "variability"), VA, v)
    def differ(a):
        if a[0] == "==" and len(a) == 3 and fld(a[1]) == "type" and fld(a[2]) == "type":
            if (side_s(a[1]) and side_t(a[2])) or (side_s(a[2]) and side_t(a[1])): return False
        return None
    yield "variables of different types", lambda g: decided(g, differ, None)

def check(c):
    connect(c); entity(c); valid(c); lookups(c); values(c)
    c.need("invalid connections", 45); c.need("invalid entities", 3); c.need("invalid pairs", 20); c.need("errors raised", 8); c.need("lookups", 3)

# ------------------------------------------------------------------ connections
def connect(c):
    f = [x for x in c.fns(SS + "connect_variables") if len(x["p"]) == 1][0]
    g = c.graph(f, track_all=True)
    B = Bg(g)
    P = pname(f, 0)
    def end(t, name): return isinstance(t, tuple) and len(t) == 3 and t[0] == "f" and t[2] == name and is_param(t[1], P)
    sts = []
    for n in g.live():
        for p, v in stores(g, n):
            if p[0] == "at" and member(p[1]) and (end(v, "source") or end(v, "target") or end(p[2], "target") or end(p[2], "source")): sts.append((n, p, v))
        if n.k == "call" and n.e.get("obj") is not None and last(n.e.get("fn")) in APPEND and member(B(g.obj(n))) and any(mentions(B(a), lambda x: end(x, "source")) for a in g.args(n)):
            c.note("connections are not kept in a map: %s" % g.at_line(n)); return
    if not sts: raise AnalysisError("no place where connect_variables records a connection")
    for n, p, v in sts:
        c.ob("connections stored", "%s %s := %s" % (g.at_line(n), show_term(p), show_term(v)))
        if not (end(p[2], "target") and end(v, "source")):
            c.viol("connection stored", g.at_line(n), "the connection is stored as %s := %s, not under its target" % (show_term(p), show_term(v)), key="role")
            return
    goal = lambda m: any(m is n for n, _, _ in sts)
    p = c.path(g, [g.entry], lambda m: m is g.exit, avoid=goal)
    if p: c.viol("connection stored", c.db.where(f), "connect_variables returns without storing the connection", key="dropped", path=p, g=g)
    side = {s: (lambda t, s=s: mentions(t, lambda x: end(x, s))) for s in ("source", "target")}
    kind = lambda s, sim: (lambda a: sim if a[0] == "empty" and isinstance(a[1], tuple) and a[1][0] == "f" and a[1][2] == "variable_group_name" and end(a[1][1], s) else None)
    def absent(s, part):
        def e(n, lab, m):
            a, v = says(g, n, lab)
            if a is not None and a[0] == "has" and isinstance(a[2], tuple) and a[2][0] == "f" and a[2][2] == part and end(a[2][1], s): return v is False
            if n.k == "call" and lab not in ("exc", "term") and n.e.get("obj") is not None and last(n.e.get("fn")) == "at" and g.args(n):
                k = B(g.args(n)[0])
                if isinstance(k, tuple) and k[0] == "f" and k[2] == part and end(k[1], s): return False
            return True
        return e
    def inst(s, part, low):
        pl = lambda t: isinstance(t, tuple) and t[0] == "f" and t[2] == part and end(t[1], s)
        def pr(a):
            # the instance is -1, or equal to the number of instances
            if a[0] == "<" and pl(a[1]): return low if a[2] == ("int", "0") else (None if low else False)
            if a[0] == "<" and pl(a[2]): return not low if a[1] in (("int", "-1"), ("-", ("int", "1"))) else (None if low else False)
            return None
        return decided(g, pr, None)
    for ks, kt in ((True, True), (True, False), (False, True)):
        kinds = both(decided(g, kind("source", ks), None), decided(g, kind("target", kt), None))
        name = {True: "simulator", False: "function"}
        for what, mk in dims(c.db, side["source"], side["target"], kt):
            scen(c, g, goal, "%s to %s: %s" % (name[ks], name[kt], what), both(kinds, mk(g)), f)
        for s, k in (("source", ks), ("target", kt)):
            scen(c, g, goal, "%s to %s: an unknown %s entity" % (name[ks], name[kt], s), both(kinds, absent(s, "entity_name")), f)
            scen(c, g, goal, "%s to %s: an unknown %s variable" % (name[ks], name[kt], s), both(kinds, absent(s, "variable_name")), f)
            if not k:
                scen(c, g, goal, "%s to %s: an unknown %s variable group" % (name[ks], name[kt], s), both(kinds, absent(s, "variable_group_name")), f)
                for part in ("variable_group_instance", "variable_instance"):
                    for low in (True, False):
                        scen(c, g, goal, "%s to %s: a %s %s that is too %s" % (name[ks], name[kt], s, part, "low" if low else "high"), both(kinds, inst(s, part, low)), f)
    conts = set(p[1] for _, p, _ in sts); key = sts[0][1][2]
    taken(c, g, f, sts, conts, key, "a target that is already connected", "invalid connections")
    errors(c, f, g)
    atomic(c, f, g)

def member(t):
    b = base_of(t)
    return b == ("this",) or pimpl_this(b)

def scen(c, g, goal, what, edge, f, rule="invalid connections"):
    c.ob(rule, what)
    p = c.path(g, [g.entry], goal, edge=edge)
    if p: c.viol(rule, c.db.where(f), "%s accepts %s" % (f["q"], what.split(": ", 1)[-1]), key=f["q"] + "|" + what.split(": ", 1)[-1], path=p, g=g)

def taken(c, g, f, sts, conts, key, what, rule):
    """The key is already there: the store is not reached, or does nothing and is reported."""
    c.ob(rule, what)
    def present(n, lab, m):
        a, v = says(g, n, lab)
        if a is not None and a[0] == "has" and a[1] in conts and a[2] == key: return v is True
        if a is not None and a[0] == "empty" and a[1] in conts: return v is False
        return True
    def notinserted(n, lab, m):
        a, v = says(g, n, lab)
        if a is None: return True
        b = a[1] if a[0] == "truthy" else a
        if mentions(b, lambda x: x[0] == "call" and last(str(x[1])) in INSERTS and x[2] in conts) and b[0] in ("f", "get", "v", "at"): return v is False
        return True
    for n, p, v in sts:
        q = c.path(g, [g.entry], lambda m: m is n, edge=present)
        if q is None: continue
        if n.k == "call" and last(n.e.get("fn")) in INSERTS:
            r = c.path(g, [(n, l) for l, _ in n.succ if l not in ("exc", "term")], lambda m: m is g.exit, edge=both(present, notinserted))
            if r is None: continue
        c.viol(rule, g.at_line(n), "%s accepts %s" % (f["q"], what), key=f["q"] + "|" + what, path=q, g=g)

def errors(c, f, g):
    for n in g.live():
        if n.k == "throw" and n.e is not None and n.e.get("t"):
            p = c.path(g, [(n, "exc")], lambda m: m is g.xexit, avoid=lambda m: m.k == "throw")
            if not p: continue
            t = re.sub(r"^const | ?&$", "", n.e["t"])
            # what is thrown may be built by a function
            val = g.T(n.e["e"] if isinstance(n.e.get("e"), dict) else n.e, n.fr)
            c.ob("errors raised", "%s: %s" % (g.at_line(n), t))
            from c09 import derived
            if not derived(c, t, "cosim::error"):
                c.viol("error kind", g.at_line(n), "%s raises %s instead of cosim::error(invalid_system_structure)" % (f["q"], t), key=f["q"] + "|" + t); continue
            codes = set()
            for m in p: pass
            for s in sub_terms(g.deep(val)):
                if isinstance(s, tuple) and len(s) > 1 and s[0] == "enum" and str(s[1]).startswith("cosim::errc::"): codes.add(s[1])
            if codes and codes != {"cosim::errc::invalid_system_structure"}:
                c.viol("error kind", g.at_line(n), "%s raises an error with code %s" % (f["q"], ", ".join(sorted(codes))), key=f["q"] + "|" + ",".join(sorted(codes)))
        if n.k == "call" and any(l == "exc" for l, _ in n.succ) and any(x.fn["q"] == "cosim::substitute_function_parameters" for x in chain(n.fr)) and last((n.e.get("fn") or "").split("<")[0]) == "visit":
            p = c.path(g, [(n, "exc")], lambda m: m is g.xexit, avoid=lambda m: m.k == "throw")
            c.ob("errors raised", g.at_line(n))
            if p: c.viol("error kind", g.at_line(n), "%s lets the exception for a bad function parameter through" % f["q"], key=f["q"] + "|parameters", path=p, g=g)

def chain(fr):
    while fr is not None: yield fr; fr = fr.parent

def atomic(c, f, g):
    B = Bg(g)
    risky = lambda m: m.k == "throw" or (m.k == "call" and last((m.e.get("fn") or "").split("<")[0]) == "visit")
    for n in g.live():
        ws = [B(p) for p in writes_of(g, n)]
        ws = [p for p in ws if base_of(p) == ("this",) and p[0] != "this" and isinstance(p, tuple) and root_field(p)]
        if not ws: continue
        c.ob("changes to the structure", "%s %s" % (g.at_line(n), show_term(ws[0])))
        def changed(m, lab, k):
            # an insertion that did nothing changed nothing
            if n.k != "call" or last(n.e.get("fn")) not in INSERTS: return True
            a, v = says(g, m, lab)
            if a is None: return True
            b = a[1] if a[0] == "truthy" else a
            return not (mentions(b, lambda x: x[0] == "call" and last(str(x[1])) in INSERTS and x[2] == B(g.obj(n))) and b[0] in ("f", "get", "v", "at") and v is False)
        for r in [m for m in g.live() if risky(m)]:
            a = c.path(g, [(n, l) for l, _ in n.succ if l not in ("exc", "term")], lambda m: m is r, edge=changed)
            if not a: continue
            b = c.path(g, [(r, "exc")] if r.k == "call" else [r], lambda m: m is g.xexit)
            if b:
                c.viol("unchanged on error", g.at_line(n), "%s changes %s and then refuses" % (f["q"], show_term(root_field(ws[0]))), key=f["q"] + "|" + str(root_field(ws[0])[2]), path=a + b, g=g); break

# --------------------------------------------------------------------- entities
def entity(c):
    f = [x for x in c.fns(SS + "add_entity") if len(x["p"]) == 1][0]
    g = c.graph(f, track_all=True)
    B = Bg(g)
    P = pname(f, 0)
    name = lambda t: isinstance(t, tuple) and len(t) == 3 and t[0] == "f" and t[2] == "name" and is_param(t[1], P)
    sts = [(n, p, v) for n in g.live() for p, v in stores(g, n) if p[0] == "at" and member(p[1]) and is_param(v, P)]
    if not sts: raise AnalysisError("no place where add_entity records the entity")
    for n, p, v in sts:
        c.ob("entities stored", "%s %s" % (g.at_line(n), show_term(p)))
        if not name(p[2]): c.viol("entity stored", g.at_line(n), "the entity is stored under %s instead of its name" % show_term(p[2]), key="key")
    goal = lambda m: any(m is n for n, _, _ in sts)
    p = c.path(g, [g.entry], lambda m: m is g.exit, avoid=goal)
    if p: c.viol("entity stored", c.db.where(f), "add_entity returns without storing the entity", key="dropped", path=p, g=g)
    scen(c, g, goal, "an empty name", decided(g, lambda a: True if a[0] == "empty" and name(a[1]) else None, None), f, "invalid entities")
    def neg(a):
        st = lambda t: isinstance(t, tuple) and t[0] == "f" and t[2] == "step_size_hint" and is_param(t[1], P)
        z = lambda t: t == ("int", "0") or isinstance(t, tuple) and (t[0] == "call" and last(str(t[1])) == "zero" or t[0] == "new" and not [x for x in t[2] if x[1] != ("int", "0")])
        if a[0] == "<" and st(a[1]) and z(a[2]): return True
        if a[0] == "<" and z(a[1]) and st(a[2]): return False
        return None
    def model(n, lab, m):
        a, v = says(g, n, lab)
        if a is None: return True
        b = a[1] if a[0] == "truthy" else a
        if n.k == "branch" and "function_type" in str((n.e or {}).get("t")) : return True
        return True
    # for functions the step size is ignored: only the paths on which a model is at hand count
    models = [n for n in g.live() if n.k == "call" and g.root(n) == "cosim::model::description"]
    if models:
        c.ob("invalid entities", "a negative step size")
        q = None
        for m0 in models:
            a = c.path(g, [g.entry], lambda m: m is m0, edge=decided(g, neg, None))
            b = c.path(g, [m0], goal, edge=decided(g, neg, None)) if a else None
            if a and b: q = a + b; break
        if q: c.viol("invalid entities", c.db.where(f), "add_entity accepts a simulator with a negative step size", key="negative", path=q, g=g)
    taken(c, g, f, sts, set(p[1] for _, p, _ in sts), sts[0][1][2], "a name that is already used", "invalid entities")
    errors(c, f, g)
    atomic(c, f, g)
    c.entities = set(p[1] for _, p, _ in sts)

# ------------------------------------------------------- is_valid_connection
def valid(c):
    for f in c.fns("cosim::is_valid_connection"):
        if f.get("body") is None: continue
        g = c.graph(f, track_all=True)
        ps, pt = pname(f, 0), pname(f, 1)
        B = Bg(g)
        goals = [r for r, v in returned(g) if v not in (("bool", False), ("int", "0"))]
        side_s = lambda t: mentions(t, lambda x: is_param(x, ps)); side_t = lambda t: mentions(t, lambda x: is_param(x, pt))
        tv = "variable_description" in f["p"][1]["t"]
        for what, mk in dims(c.db, side_s, side_t, tv):
            what2 = "%s, %s: %s" % (f["p"][0]["t"].split("::")[-1], f["p"][1]["t"].split("::")[-1], what)
            c.ob("invalid pairs", what2)
            p = c.path(g, [g.entry], lambda m: m in goals, edge=mk(g))
            if p and not mentions(tuple(v for r, v in returned(g) if r is p[-1]), lambda x: x[0] == "==" ): c.viol("invalid pairs", c.db.where(f), "is_valid_connection accepts %s" % what, key="%s|%s|%s" % (f["p"][0]["t"], f["p"][1]["t"], what), path=p, g=g)

# ---------------------------------------------------------------------- lookups
def lookups(c):
    ents = getattr(c, "entities", set())
    f = c.one(SS + "find_entity")
    g = c.graph(f, track_all=True)
    P = pname(f, 0)
    c.ob("lookups", f["q"])
    for found in (True, False):
        def edge(n, lab, m):
            a, v = says(g, n, lab)
            if a is not None and a[0] == "has" and a[1] in ents: return v is found
            if a is not None and a[0] == "empty" and a[1] in ents: return v is False or not found
            return True
        rets = returned(g)
        for r, v in rets:
            if sum(1 for x, _ in rets if x is r) > 1: continue
            null = v == ("null",) or v == ("call", "null") or "null" in show_term(v)
            if null is not found: continue
            p = c.path(g, [g.entry], lambda m: m is r, edge=edge)
            if p: c.viol("lookups", g.at_line(r), "find_entity %s" % ("does not find an entity that is there" if found else "returns something for an unknown name"), key="find|%s" % found, path=p, g=g)
    # how connections are reported: the key of the map is the target
    for f in c.db.F.values():
        if f.get("body") is None or f.get("lambda") or f.get("ret", f.get("t", "")) is None: continue
        if len(f["p"]) != 1 or not re.search(r"pair<const cosim::full_variable_name, cosim::full_variable_name>", f["p"][0]["t"]): continue
        g = c.graph(f)
        c.ob("lookups", f["q"])
        for r, v in returned(g):
            if isinstance(v, tuple) and v[0] == "new" and v[1].endswith("connection"):
                d = dict(v[2])
                s, t = d.get("source", d.get("0")), d.get("target", d.get("1"))
                if fld(s) == "first" and fld(t) == "second" or fld(s) == fld(t) and fld(s) in ("first", "second"):
                    c.viol("lookups", g.at_line(r), "%s reports the target of a connection as its source" % f["q"], key="transform")
    # tables of variables: every variable, with its own indices
    for f in c.db.F.values():
        if f.get("body") is None or f.get("lambda") or len(f["p"]) != 1 or not f["f"].endswith("system_structure.cpp"): continue
        t = re.sub(r"^const | ?&$", "", f["p"][0]["t"])
        if t not in ("cosim::model_description", "cosim::function_description") or f.get("cls"): continue
        g = c.graph(f, track_all=True)
        B = Bg(g)
        P = pname(f, 0)
        fname = "variables" if t.endswith("model_description") else "ios"
        def cont(x): return isinstance(x, tuple) and fld(bare(g.deep(x))) == fname
        def event(n, lp): return any(v is not None for p, v in stores(g, n))
        c.each("lookups", g, "entry in the lookup table", cont, event, must_run=False)
        if fname == "ios": c.each("lookups", g, "visiting the io groups", lambda x: isinstance(x, tuple) and fld(bare(g.deep(x))) == "io_groups", lambda n, lp: n.k in ("loop", "loophead", "branch") or bool(stores(g, n)), must_run=True)
        for n in g.live():
            for p, v in stores(g, n):
                for x in sub_terms(g.deep(g.value(n)) if n.k == "write" and g.value(n) is not None else tuple(g.deep(a) for a in g.args(n))):
                    if isinstance(x, tuple) and x and x[0] == "new" and str(x[1]).endswith("system_structure::function_io_description"):
                        d = dict(x[2])
                        gi, ii, de = d.get("group_index"), d.get("io_index"), d.get("description")
                        c.ob("lookups", "%s indices %s %s" % (g.at_line(n), show_term(gi), show_term(ii)))
                        ids = lambda t: set(y[-1] for y in sub_terms(t) if isinstance(y, tuple) and len(y) == 2 and y[0] == "idx")
                        a, b = ids(gi), ids(ii)
                        if not a or not b: continue
                        outer = set(lp.head.id for lp in g.loops if g.container(lp) is not None and fld(bare(g.deep(g.container(lp)))) == "io_groups")
                        inner = set(lp.head.id for lp in g.loops if g.container(lp) is not None and fld(bare(g.deep(g.container(lp)))) == "ios")
                        if not a & outer and a & inner or not b & inner and b & outer:
                            c.viol("lookups", g.at_line(n), "the lookup table gives the wrong group or variable index", key="indices")

# ------------------------------------------------------------- variable values
def values(c):
    for f in c.fns("cosim::add_variable_value", must=False):
        if f.get("body") is None: continue
        g = c.graph(f, track_all=True)
        B = Bg(g)
        mp, var, val = pname(f, 0), pname(f, 2), pname(f, 3)
        sts = [(n, p, v) for n in g.live() for p, v in stores(g, n) if p[0] == "at" and is_param(p[1], mp)]
        c.ob("values stored", f["q"])
        for n, p, v in sts:
            if not (is_param(p[2], var) and is_param(v, val)): c.viol("values stored", g.at_line(n), "the value is stored as %s := %s" % (show_term(p), show_term(v)), key="value|role")
        goal = lambda m: any(m is n for n, _, _ in sts)
        if not sts: c.viol("values stored", c.db.where(f), "add_variable_value stores nothing", key="value|none"); continue
        scen(c, g, goal, "a value for a constant", enumval(g, member_of(lambda t: True, "variability"), VA, "constant"), f, "invalid values")
        scen(c, g, goal, "a value of another type", decided(g, lambda a: False if a[0] == "==" and any(fld(x) == "type" for x in a[1:]) else None, None), f, "invalid values")
        errors(c, f, g)
