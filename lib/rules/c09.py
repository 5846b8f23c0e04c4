"""C09: access to variables that have not been exposed."""
from slvsim import *
import slvhist
RULE = """
The functions of a class that drives a slave are followed with structured values through every history of expose, get, set, modifier and transmitting
operations on two variables of each type, one exposed at the start and the other at any time or never, until no new combination of the object's
state and an oracle's arises.  Where the variable is not exposed for the purpose, get_T, set_T and the modifier functions throw an exception that is a
std::out_of_range, and everything the slave is sent and every value read later is as if they had not been called; exposing an exposed
variable again changes neither the value read or sent nor its modifier.
Where some outcome cannot be decided, the paths are judged instead: none returns normally, and no member is changed, before the edge on which the container
that the expose functions fill (found by data flow) is known to contain the reference; in the expose functions nothing but a
non-overwriting insertion happens when the reference is already there.
"""
ASSUME = ["containers treat the values they hold alike (two values of each type, and two variables of a type, stand for any)", "the slave's operations succeed"]
OOR = "std::out_of_range"

def check(c):
    for cls in drivers(c):
        if slvhist.histories(c, c.db, cls, access=True): continue
        reg = {}
        for which, root in (("get", EXPOSE_GET), ("set", EXPOSE_SET)):
            f = impl_of(c, root, cls)
            g = c.graph(f, track_all=True)
            for t in TYPES: reg[(which, t)] = expose(c, f, g, t, which)
        for t in TYPES:
            for which, root in (("get", SIMGET[t]), ("set", SIMSET[t]), ("set", INMOD[t]), ("get", OUTMOD[t])):
                f = impl_of(c, root, cls)
                access(c, f, t, which, reg)
    c.need("histories", 1)

def member(p):
    b = base_of(p)
    while isinstance(b, tuple) and b[0] in ("*",): b = b[1]
    return b == ("this",) or pimpl_this(b)

def has_edge(g, n, lab, conts, rn, want):
    """The edge says that one of conts contains (want) / does not contain the reference parameter."""
    a, v = says(g, n, lab)
    if a is not None:
        if a[0] == "has" and a[1] in conts and is_param(a[2], rn): return v is want
        # the flag an insertion returns: true when it was not there before
        b = a[1] if a[0] == "truthy" else a
        if mentions(b, lambda x: x[0] == "call" and last(str(x[1])) in INSERTS and x[2] in conts) and b[0] in ("f", "get", "v", "at"): return v is (not want)
    if want and n.k == "call" and lab not in ("exc", "term") and n.e.get("obj") is not None and last(n.e.get("fn")) == "at":
        B = Bg(g)
        if B(g.obj(n)) in conts and is_param(B(g.args(n)[0]), rn): return True
    return False

def expose(c, f, g, t, which):
    B = Bg(g)
    rn = pname(f, 1)
    q = f["q"]
    only = typed(g, t)
    reach = [m for m, _, _ in c.path(g, [g.entry], lambda m: m.k in ("write", "call"), edge=only, collect=True)] if False else reachable(c, g, only)
    conts = {}
    for n in reach:
        for p, v in stores(g, n):
            if p[0] == "at" and is_param(p[2], rn): conts.setdefault(p[1], []).append(n)
    c.ob("registrations", "%s %s: %s" % (q, t, ", ".join(show_term(x) for x in conts)))
    if not conts:
        c.viol("register", c.db.where(f), "%s does not register a %s variable" % (q, t), key=q + "|none|" + t); return {}
    keys = set(conts)
    for n in reach:
        places = [B(p) for p in writes_of(g, n) if member(B(p))]
        if not places: continue
        if n.k == "call" and last(n.e.get("fn")) in INSERTS and n.e.get("obj") is not None and B(g.obj(n)) in keys: continue
        p = c.path(g, [g.entry], lambda m: m is n, edge=lambda m, lab, k: only(m, lab, k) and not has_edge(g, m, lab, keys, rn, False))
        if p: c.viol("again", g.at_line(n), "%s changes %s although the %s variable is already exposed" % (q, show_term(places[0]), t), key="%s|again|%s|%s" % (q, t, str(places[0][-1])), path=p, g=g)
    p = c.path(g, [g.entry], lambda m: m is g.exit, avoid=lambda m: any(m in v for v in conts.values()), edge=lambda m, lab, k: only(m, lab, k) and not has_edge(g, m, lab, keys, rn, True))
    if p: c.viol("register", c.db.where(f), "%s can return without registering a %s variable" % (q, t), key=q + "|unregistered|" + t, path=p, g=g)
    return conts

def reachable(c, g, edge):
    c.queries += 1
    seen, st = set(), [g.entry]
    while st:
        n = st.pop()
        if n in seen: continue
        seen.add(n)
        for lab, m in n.succ:
            if edge(n, lab, m): st.append(m)
    return seen & set(g.live())

def access(c, f, t, which, reg):
    g = c.graph(f, track_all=True)
    B = Bg(g)
    rn = pname(f, 0)
    q = f["q"]
    conts = set(reg[(which, t)])
    c.ob("accesses to variables", q)
    if not conts: return
    ok = lambda n, lab: has_edge(g, n, lab, conts, rn, True)
    edge = lambda n, lab, m: not ok(n, lab)
    p = c.path(g, [g.entry], lambda m: m is g.exit, edge=edge)
    if p: c.viol("unexposed", c.db.where(f), "%s returns normally for a variable that was not exposed for %sting" % (q, which), key=q + "|returns", path=p, g=g); return
    for n in g.live():
        places = [B(x) for x in writes_of(g, n) if member(B(x))]
        if not places: continue
        p = c.path(g, [g.entry], lambda m: m is n, edge=edge)
        if p: c.viol("unexposed", g.at_line(n), "%s changes %s before it is known that the variable is exposed" % (q, show_term(places[0])), key=q + "|changes", path=p, g=g); break
    # what is thrown
    for n in g.live():
        if n.k != "throw" or n.e is None or not n.e.get("t") : continue
        ty = re.sub(r"^const | ?&$", "", n.e["t"])
        p = c.path(g, [g.entry], lambda m: m is n, edge=edge)
        if not p: continue
        c.ob("errors raised", g.at_line(n))
        if any(m.k == "branch" for m in p) and not derived(c, ty, OOR): c.viol("unexposed", g.at_line(n), "%s raises %s for a variable that was not exposed" % (q, ty), key=q + "|type", path=p, g=g)

STDEXC = {"std::logic_error": None, "std::out_of_range": "std::logic_error", "std::invalid_argument": "std::logic_error", "std::domain_error": "std::logic_error", "std::length_error": "std::logic_error", "std::runtime_error": None, "std::range_error": "std::runtime_error", "std::exception": None}
def derived(c, ty, base):
    ty = ty.replace("class ", "")
    while ty:
        if ty == base: return True
        if ty in STDEXC: ty = STDEXC[ty]; continue
        r = c.db.R.get(ty)
        if r is None: return True if ty not in STDEXC else False      # unknown: no evidence
        bs = r.get("bases") or []
        if not bs: return False
        ty = bs[0]["q"]
    return False
