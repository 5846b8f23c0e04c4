"""C13: equality and hashing of identifier types."""
from slvsim import *
from c11 import decided
RULE = """
For every type with a std::hash specialisation and an equality operator in the library's headers: operator== is
explored once per identifying part (the fields, those of nested identifier types one by one) with the comparison of that
part decided as 'different' and all others as 'equal', and must then return false on every path; with all decided as
'equal' it must return true; operator!= must return the opposite.  Comparing one part with another one, or an object with
itself, is reported.  Everything the hash function feeds into the hash must be computed from parts that
operator== distinguishes, by value (no addresses, no other state).
"""
def rets_extra(a): return a[0] == "truthy" and isinstance(a[1], tuple) and a[1][0] == "ret"

def outcomes(c, g, pr):
    """Values (True/False/'?') a boolean function can return under a decision of its conditions, with a path each."""
    B = Bg(g)
    out = {}
    def ev(t, f):
        t = B(t)
        if t in (("bool", True), ("bool", False)): return {t[1]}
        if t[0] == "!": return {(not x) if x != "?" else x for x in ev(t[1], f)}
        if t[0] == "cond":
            k = ev(t[1], f)
            return set().union(*([ev(t[2], f)] if True in k or "?" in k else []), *([ev(t[3], f)] if False in k or "?" in k else []))
        a, pol = g.canon(t)
        a = B(a)
        w = pr(a)
        if w is None:
            w = g.known(a, f)
            if w is None: w = f.get(("truthy", a))
        return {"?"} if w is None else {w == pol}
    for r, e, fr in g.rootfr.rets:
        if r not in g.live() or e is None: continue
        g.queries = getattr(g, "queries", 0)
        c.queries += 1
        for n, f, path in g.explore([g.entry], lambda m: m is r, edge=decided(g, pr, None), collect=True):
            for t in ([g.T(e, fr)] if g.T(e, fr)[0] in ("ret", "!", "cond", "==") else g.alts(g.T(e, fr))):
                for v in ev(t, f): out.setdefault(v, path)
    return out

def strip(t): return re.sub(r"^const | ?&$", "", t)

def leaves(db, q, depth=0):
    """Identifying parts of a type: paths of field names."""
    r = db.R.get(q)
    out = []
    for x in r["fields"]:
        t = strip(x["t"])
        if t in db.R and db.R[t].get("fields") and depth < 3: out += [(x["n"],) + p for p in leaves(db, t, depth + 1)]
        else: out.append((x["n"],))
    return out

def place(t):
    """(parameter, field path) of a part."""
    path = ()
    while isinstance(t, tuple) and t and t[0] == "f": path = (t[2],) + path; t = t[1]
    return (t[2], path) if isinstance(t, tuple) and t and t[0] == "p" else None

def parts(t, prm):
    """Field paths of parameter prm that a term reads."""
    out = set()
    def go(x):
        if not isinstance(x, tuple): return
        p = place(x)
        if p:
            if p[0] == prm: out.add(p[1])
            return
        for y in x: go(y)
    go(t)
    return out

def covers(path, leaf): return leaf[:len(path)] == path

def check(c):
    db = c.db
    hs = [f for f in db.F.values() if re.match(r"std::hash<cosim::[^>]*>::operator\(\)$", f["q"]) and f.get("body") is not None and f["p"]]
    n = 0
    for h in hs:
        t = strip(h["p"][0]["t"])
        if t not in db.R: continue
        def ops(name): return [f for f in db.F.values() if f["q"].split("::")[-1] == name and f.get("body") is not None and not f.get("dependent") and (
            len(f["p"]) == 2 and strip(f["p"][0]["t"]) == t == strip(f["p"][1]["t"]) or len(f["p"]) == 1 and f.get("cls") == t and strip(f["p"][0]["t"]) == t)]
        eq, ne = ops("operator=="), ops("operator!=")
        if not eq: continue      # cannot be a key
        n += 1
        ls = leaves(db, t)
        dist = set()
        for f, want in [(f, True) for f in eq] + [(f, False) for f in ne]:
            dist |= equality(c, t, f, want, ls) if want else set() if equality(c, t, f, want, ls) else set()
        hashing(c, t, h, ls, dist)
    c.need("parts compared", 10); c.need("hashes", 3)

def equality(c, t, f, want, ls):
    g = c.graph(f, track_all=True, extra=rets_extra)
    B = Bg(g)
    name = "%s(%s)" % (f["q"], t)
    ps = [p["n"] for p in f["p"]]
    def simple(x): return place(x) is not None or x[0] in ("new", "call") and last(str(x[1])) in ("tie", "make_tuple", "forward_as_tuple", "tuple", "pair", "std::tuple", "std::pair") or this_place(x)
    bad = set()
    def compared(a):
        """Leaves an atom compares, or None."""
        if a[0] != "==" or len(a) != 3: return None
        if not (simple(a[1]) and simple(a[2])): 
            # x.compare(y) == 0 and the like
            for x, y in ((a[1], a[2]), (a[2], a[1])):
                if y == ("int", "0") and x[0] == "call" and last(str(x[1])) == "compare" and len(x) == 4: return compared(("==", x[2], x[3]))
            return None
        l, r = flat(a[1]), flat(a[2])
        if l is None or r is None or len(l) != len(r): return None
        out = set()
        for x, y in zip(l, r):
            if x[0] == y[0]: bad.add("compares %s of an object with %s of the same object" % (".".join(x[1]) or "the whole", ".".join(y[1]) or "the whole"))
            elif x[1] != y[1]: bad.add("compares %s with %s" % (".".join(x[1]), ".".join(y[1])))
            else: out |= {k for k in ls if covers(x[1], k)}
        return out
    def flat(x):
        p = place(x) or this_place(x)
        if p: return [p]
        xs = [v for _, v in x[2]] if x[0] == "new" else [y for y in x[2:] if isinstance(y, tuple)]
        out = []
        for y in xs:
            p = place(y) or this_place(y)
            if not p: return None
            out.append(p)
        return out
    def scen(diff):
        def pr(a):
            k = compared(a)
            if k is None: return None
            if not k: return None
            return not (diff in k)
        return pr
    dist = set()
    r = outcomes(c, g, scen(None))
    if (not want) in r: c.viol("equal", c.db.where(f), "%s returns %s for equal values" % (name, not want), key=t + "|equal|%s" % want, path=r[not want], g=g)
    for k in ls:
        c.ob("parts compared", "%s: %s" % (name, ".".join(k)))
        r = outcomes(c, g, scen(k))
        if want in r: c.viol("parts compared", c.db.where(f), "%s returns %s for values whose %s differ" % (name, want, ".".join(k)), key=t + "|%s|%s" % (".".join(k), want), path=r[want], g=g)
        elif (not want) in r and "?" not in r: dist.add(k)
        if "?" in r: c.note("%s: comparison of %s not decided" % (name, ".".join(k))); dist.add(k)
    for b in sorted(bad): c.viol("parts compared", c.db.where(f), "%s %s" % (name, b), key=t + "|" + b)
    return dist

def this_place(t):
    path = ()
    while isinstance(t, tuple) and t and t[0] == "f": path = (t[2],) + path; t = t[1]
    return ("this", path) if t == ("this",) and path else None

def hashing(c, t, f, ls, dist):
    g = c.graph(f, track_all=True)
    B = Bg(g)
    v = pname(f, 0)
    c.ob("hashes", f["q"])
    used = set()
    terms = []
    for n in g.live():
        if n.k == "call":
            terms += [(n, B(x), e) for x, e in zip(g.args(n), n.e.get("a") or [])]
            if n.e.get("obj") is not None: terms.append((n, B(g.obj(n)), n.e["obj"]))
        elif n.k == "write" and g.value(n) is not None: terms.append((n, B(g.value(n)), None))
        elif n.k == "branch": terms.append((n, B(g.atom(n)[0]), None))
    for r, e, fr in g.rootfr.rets:
        if e is not None: terms.append((r, B(g.T(e, fr)), e))
    whole = set()
    for n, x, e in terms:
        for p in parts(x, v):
            if p == () :
                continue
            used |= {k for k in ls if covers(p, k)}
        for s in sub_terms(x):
            if isinstance(s, tuple) and s and s[0] == "&" and mentions(s, lambda y: is_param(y, v)): c.viol("hashes", g.at_line(n), "%s takes the address of %s: equal values hash differently" % (f["q"], show_term(s[1])), key=t + "|address")
            if isinstance(s, tuple) and s and s[0] == "call" and re.search(r"::(rand|random_device|now|get_id|time)\b", str(s[1])): c.viol("hashes", g.at_line(n), "%s depends on %s" % (f["q"], s[1]), key=t + "|impure")
        if n.k == "call" and e is not None and re.search(r"^(const )?(char|void|cosim::[a-z_]+)( const)? ?\*", e.get("t") or "") and re.search(r"hash", n.e.get("fn") or ""):
            c.viol("hashes", g.at_line(n), "%s hashes an address (%s): equal values hash differently" % (f["q"], show_term(x)), key=t + "|pointer")
    for k in sorted(used - dist): c.viol("hashes", c.db.where(f), "%s depends on %s, which operator== does not distinguish" % (f["q"], ".".join(k)), key=t + "|hash|" + ".".join(k))
    if not used: c.note("%s: no part found that is hashed" % f["q"])
