"""The caches of the class that drives a slave, found by data flow: what is handed to the slave, what is read back,
where set_x() puts values and where get_x() takes them from."""
from common import *

def Bg(g): return lambda t: bare(g.deep(t))
HOLE = ("HOLE",)
CPP = {"real": "double", "integer": "int", "boolean": "bool", "string": "std::string"}
SETV = {t: SLV + "set_%s_variables" % t for t in TYPES}
GETV = {t: SLV + "get_%s_variables" % t for t in TYPES}
MANI = "cosim::manipulable::"
SIMSET = {t: SIM + "set_" + t for t in TYPES}
SIMGET = {t: "cosim::observable::get_" + t for t in TYPES}
INMOD = {t: MANI + "set_%s_input_modifier" % t for t in TYPES}
OUTMOD = {t: MANI + "set_%s_output_modifier" % t for t in TYPES}

def root_is(q): return lambda g, n: n.k == "call" and g.root(n) == q
def last(fn):
    fn = fn or ""
    i = fn.rfind("operator")
    if i >= 0 and (i == 0 or fn[i-1] == ":"): return fn[i:]
    return fn.split("::")[-1]

class Roles: pass

def impl_of(c, q, cls):
    fs = [f for f in c.impls(q, must=False) if f["cls"] == cls]
    if not fs: raise AnalysisError("%s does not implement %s" % (cls, q))
    return fs[0]

def is_param(t, name):
    return isinstance(t, tuple) and len(t) > 2 and t[0] == "p" and t[2] == name

def pname(f, i): return f["p"][i]["n"] if i < len(f["p"]) else None

def hole(t, name):
    """Term with the parameter `name` replaced by a hole."""
    if is_param(t, name): return HOLE
    if isinstance(t, tuple): return tuple(hole(x, name) for x in t)
    return t

STORE = ("insert_or_assign", "emplace", "try_emplace", "insert")
def stores(g, n):
    """(place, value) pairs a node stores, container insertions included."""
    B = Bg(g)
    if n.k == "write" and g.value(n) is not None: return [(B(g.place(n)), B(g.value(n)))]
    if n.k == "call" and n.e.get("obj") is not None and last(n.e.get("fn")) in STORE:
        a = [B(x) for x in g.args(n)]
        if len(a) == 1 and a[0][0] in ("new", "pair") :
            fs = a[0][2] if a[0][0] == "new" else None
            if fs and len(fs) == 2: a = [fs[0][1], fs[1][1]]
        if len(a) == 2: return [(("at", B(g.obj(n)), a[0]), a[1])]
    return []

APPEND = ("push_back", "emplace_back")
def appends(g, n, cont):
    B = Bg(g)
    return n.k == "call" and n.e.get("obj") is not None and last(n.e.get("fn")) in APPEND and B(g.obj(n)) == cont

def drivers(c):
    """Classes that implement simulator and drive a slave."""
    return sorted(set(f["cls"] for f in c.impls(SIM + "do_step")))

def returned(g):
    B = Bg(g)
    out = []
    for r, e, fr in g.rootfr.rets:
        if e is None: continue
        for t in g.alts(g.T(e, fr)): out.append((r, B(t)))
    return out

def roles(c, cls):
    R = Roles(); R.cls = cls
    R.phase = {}
    for op in ("setup", "do_iteration", "start_simulation", "do_step"):
        f = impl_of(c, SIM + op, cls)
        R.phase[op] = (f, c.graph(f, track_all=True))
    R.ref, R.val, R.rref, R.rval = {}, {}, {}, {}
    for op, (f, g) in R.phase.items():
        B = Bg(g)
        for n in g.live():
            if n.k != "call": continue
            r = g.root(n)
            for t in TYPES:
                if r == SETV[t]:
                    a = [B(x) for x in g.args(n)]
                    R.ref.setdefault(t, set()).add(a[0]); R.val.setdefault(t, set()).add(a[1])
                if r == GETV[t]:
                    a = [B(x) for x in g.args(n)]
                    R.rref.setdefault(t, set()).add(a[0]); R.rval.setdefault(t, set()).add(a[1])
    # where set_x records what is pending
    R.sets, R.gets, R.inm, R.outm = {}, {}, {}, {}
    R.M, R.M2, R.W = {}, {}, {}
    for t in TYPES:
        f = impl_of(c, SIMSET[t], cls); R.sets[t] = (f, c.graph(f, track_all=True))
        f = impl_of(c, SIMGET[t], cls); R.gets[t] = (f, c.graph(f, track_all=True))
        f = impl_of(c, INMOD[t], cls); R.inm[t] = (f, c.graph(f, track_all=True))
        f = impl_of(c, OUTMOD[t], cls); R.outm[t] = (f, c.graph(f, track_all=True))
        for d, src in ((R.M, R.inm), (R.M2, R.outm)):
            f, g = src[t]
            pl = set()
            for n in g.live():
                for p, v in stores(g, n):
                    if is_param(v, pname(f, 1)) and p[0] == "at": pl.add(p)
            d[t] = pl
        f, g = R.gets[t]
        R.W[t] = set(x for _, x in returned(g))
    return R

def says(g, n, lab):
    """(atom, truth) that an edge of a branch establishes."""
    if n.k != "branch" or lab not in ("T", "F"): return None, None
    a, pol = g.atom(n)
    return Bg(g)(a), (lab == "T") == pol
def says_empty(g, n, lab, cont):
    a, v = says(g, n, lab)
    if a is None: return False
    f = {a: v}
    return is_empty(f, cont) is True
def says_negative(g, n, lab, place):
    """True / False / None: the edge says that place < 0 / >= 0 / nothing."""
    a, v = says(g, n, lab)
    if a is None: return None
    if a == ("<", place, ("int", "0")): return v
    if a == ("<", ("int", "-1"), place): return not v
    if a[0] == "==" and place in a[1:] and any(x in (("int", "-1"), ("-", ("int", "1"))) for x in a[1:]): return v
    return None
def pathish(c, g, starts, goal, avoid=None, skip=None, facts=None):
    return c.path(g, starts, goal, avoid=avoid, edge=(lambda n, lab, m: not skip(n, lab)) if skip else None, facts=facts)

VT = "cosim::variable_type::"
def enum_of(x, pre=VT):
    return x[1][len(pre):] if isinstance(x, tuple) and len(x) > 1 and x[0] == "enum" and str(x[1]).startswith(pre) else None
def typed(g, t, pre=VT):
    """Edge filter: the edges that can be taken when every type tag tested has value t."""
    def edge(n, lab, m):
        if n.k == "switch":
            cases = [l[1] for l, _ in n.succ if isinstance(l, tuple) and l[0] == "case"]
            names = [enum_of(x, pre) for x in cases]
            if not any(names): return True
            if isinstance(lab, tuple) and lab[0] == "case": return enum_of(lab[1], pre) == t
            if lab in ("exc", "term"): return True
            return t not in names
        if n.k == "branch" and lab in ("T", "F"):
            a, v = says(g, n, lab)
            if a[0] == "==":
                es = [enum_of(x, pre) for x in a[1:] if enum_of(x, pre)]
                if len(es) == 1: return v == (es[0] == t)
        return True
    return edge
INSERTS = ("emplace", "try_emplace", "insert")
def reachable(c, g, edge):
    c.queries += 1
    seen, st = set(), [g.entry]
    while st:
        n = st.pop()
        if n in seen: continue
        seen.add(n)
        for lab, m in n.succ:
            if edge(n, lab, m): st.append(m)
    return seen & set(g.live())

