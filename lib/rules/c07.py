"""C07: legal call sequence of a simulator, error state."""
from common import *
RULE = """
The state is the field of enumeration type cosim::slave_state in a class implementing cosim::simulator.
In each of setup / do_iteration / start_simulation / do_step every path to the first call on the slave (or on
anything else than the state itself) passes the edge on which the state equals the documented precondition;
at the normal exit the state is known to be the documented next state; at the exceptional exit it is known to
be `error` on every path that reached the slave.  Constructors leave the state `created`, no other method of
the class writes it, and no other method calls a life cycle or transfer function of the slave.
"""
S = "cosim::slave_state::"
TABLE = {"setup": ("created", "initialisation"), "do_iteration": ("initialisation", "initialisation"),
         "start_simulation": ("initialisation", "simulation"), "do_step": ("simulation", "simulation")}
DRIVE = {SLV + n for n in ("setup", "start_simulation", "end_simulation", "do_step", "get_variables", "set_variables")} | {SLV + "%s_%s_variables" % (a, t) for a in ("get", "set") for t in TYPES}

def state_fields(c, cls):
    return [f["n"] for f in fields_by_type(c.db, cls, r"\bslave_state$")]

def all_state_fields(c):
    cls = set(f["cls"] for op in TABLE for f in c.impls(SIM + op))
    out = set(f["n"] for q, r in c.db.R.items() for f in r.get("fields", []) if re.search(r"\bslave_state$", f["t"]) and any(q == x or q.startswith(x + "::") for x in cls))
    if not out: raise AnalysisError("no field of type slave_state in %s" % sorted(cls))
    return out

def check(c):
    db = c.db
    names = all_state_fields(c)
    classes = set()
    for op, (pre, post) in TABLE.items():
        for f in c.impls(SIM + op):
            classes.add(f["cls"])
            one(c, f, op, pre, post, names)
    for cls in classes:
        outer = cls
        for f in [f for f in db.F.values() if f.get("cls") == cls and f.get("body") is not None and f["n"] == cls.split("::")[-1] and f.get("ck") not in ("copy", "move")]:
            g = c.graph(f)
            ws = [n for n in g.live() if n.k == "write" and isstate(g.place(n), names)]
            c.ob("constructors", db.where(f))
            p = c.path(g, [g.entry], lambda n: n is g.exit, avoid=lambda n: n in ws)
            default = [x for x in db.R[cls]["fields"] if x["n"] in names and x.get("init")]
            if p and not default: c.viol("initial", db.where(f), "the state of a new simulator is not set", key="ctor|unset", path=p, g=g)
            for n in ws:
                if g.value(n) != ("enum", S + "created"): c.viol("initial", g.at_line(n), "a new simulator starts in state %s" % show_term(g.value(n)), key="ctor|state")
        for f in entry_points(db, cls):
            if f["n"] in TABLE or f.get("ck"): continue
            if f["n"] in (cls.split("::")[-1], "~" + cls.split("::")[-1], "operator="): continue
            g = c.graph(f)
            c.ob("other methods", f["q"])
            for n in g.live():
                if n.k == "write" and isstate(g.place(n), names):
                    c.viol("others", g.at_line(n), "%s changes the state of the simulator" % f["q"], key=f["q"] + "|state")
                if n.k == "call" and g.root(n) in DRIVE:
                    c.viol("others", g.at_line(n), "%s calls %s outside the phase functions" % (f["q"], g.root(n)), key=f["q"] + "|drive")
    c.need("phase functions", 4); c.need("states after failure", 4)

def isstate(t, names): return isinstance(t, tuple) and t[0] == "f" and t[2] in names

def state_atom(names, cache={}):
    k = frozenset(names)
    if k not in cache: cache[k] = lambda a: a[0] == "==" and any(x[0] == "enum" and x[1].startswith(S) for x in a[1:])
    return cache[k]

def one(c, f, op, pre, post, names):
    db = c.db
    g = c.graph(f, track_all=True, extra=state_atom(names))
    q = f["q"]
    live = g.live()
    drive = [n for n in live if n.k == "call" and g.root(n) in DRIVE]
    c.ob("phase functions", q)
    if not drive:
        c.viol("phase", db.where(f), "%s does not drive the slave" % q, key=q + "|nodrive"); return
    st = next((f2["n"] for f2 in db.R[f["cls"]]["fields"] if f2["n"] in names), None)
    def preedge(n, lab):
        if n.k == "switch":
            t = g.T(n.e, n.fr)
            return isstate(t, names) and lab and lab[0] == "case" and lab[1] == ("enum", S + pre)
        if n.k != "branch" or lab not in ("T", "F"): return False
        a, pol = g.atom(n)
        a = g.fresh(a, n)
        x = enum_atom(a, S + pre)
        return x is not None and isstate(x, names) and (lab == "T") == pol
    for n in drive:
        c.ob("preconditions", "%s %s" % (g.at_line(n), g.root(n)))
        p = c.path(g, [g.entry], lambda m: m is n, edge=lambda m, lab, k: not preedge(m, lab))
        if p: c.viol("precondition", g.at_line(n), "%s reaches %s in another state than '%s'" % (q, g.root(n), pre), key=q + "|pre|" + g.root(n), path=p, g=g); break
    # a legal call must not be refused: the precondition edge leads on
    legal = [(n, lab) for n in live if n.k in ("branch", "switch") for lab, _ in n.succ if preedge(n, lab)]
    def known_state(facts):
        for a, v in facts.items():
            if v is True and a[0] == "==":
                for x, y in ((a[1], a[2]), (a[2], a[1])):
                    if isstate(x, names) and y[0] == "enum": return y[1]
        return None
    starts = legal or [g.entry]
    ini = {}
    if st:
        for n, lab in legal: pass
    for m, facts, p in c.path(g, [g.entry], lambda m: m is g.exit, collect=True):
        c.ob("states after success", "%s: %s" % (q, known_state(facts)))
        if known_state(facts) != S + post:
            c.viol("success", db.where(f), "%s leaves the simulator in state %s instead of '%s'" % (q, known_state(facts), post), key=q + "|post", path=p, g=g); break
    at = [(n, facts) for n, facts, _ in c.path(g, [g.entry], lambda m: m in drive, collect=True)]
    for n2 in drive:
        at += [(n, facts) for n, facts, _ in c.path(g, [(x, fa) for n, fa in list(at) if n is not n2 for x in g.normal(n)], lambda m: m is n2, collect=True)] if n2 not in [n for n, _ in at] else []
    for m, facts, p in c.path(g, [(x, fa) for n, fa in at for x in g.excs(n) + g.normal(n)], lambda m: m is g.xexit, collect=True):
        c.ob("states after failure", "%s: %s" % (q, known_state(facts)))
        if known_state(facts) != S + "error":
            c.viol("failure", g.at_line(p[0]), "%s fails without putting the simulator in the error state" % q, key=q + "|error", path=p, g=g); break
    # swallowed failures
    for n in drive:
        p = c.path(g, g.excs(n), lambda m: m is g.exit)
        if p: c.viol("failure", g.at_line(n), "%s returns normally although %s failed" % (q, g.root(n)), key=q + "|swallow", path=p, g=g)
