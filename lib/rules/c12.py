"""C12: one source per input."""
from slvsim import *
from ir import linear
from c11 import decided, enumval, both, CA, fld, enums
RULE = """
execution::connect_variables (each overload, with everything inlined) is explored once per way in which a connection
can be impossible: unknown simulator or function, no variable with that reference and type, each other causality,
different types, an instance out of range, an input already present in one of the tables that connections of that
kind of input are kept in.  Neither the algorithm's connect_variables nor a table must then be reached, and every normal
return does both, with output and input in their roles, the table after the algorithm.  In implementations of algorithm, connect
appends the connection once to the list of its source; disconnect_variable visits every list that can hold the input
and erases exactly the element whose target is equal to it in all parts; remove_simulator visits every list and
erases every element whose target is that simulator.  (history) Disconnections and removals before and during a
simulation are followed with structured values (fsahist.py, see C43).
"""
EXE = "cosim::execution::"
CONN = ALG + "connect_variables"
KINDS = (("variable_id", "variable_id"), ("variable_id", "function_io_id"), ("function_io_id", "variable_id"))

def short(t): return re.sub(r"^const | ?&$", "", t).split("::")[-1]

def check(c):
    fs = [f for f in c.fns(EXE + "connect_variables") if f.get("body") is not None and len(f["p"]) == 2]
    info = {}
    for f in fs:
        k = (short(f["p"][0]["t"]), short(f["p"][1]["t"]))
        if k in KINDS: info[k] = tables(c, f)
    if len(info) < 3: raise AnalysisError("execution::connect_variables: not all overloads found")
    for k, (f, g, calls, sts) in info.items(): execution(c, k, f, g, calls, sts, info)
    for cls in sorted(set(f["cls"] for f in c.impls(CONN))): algorithm(c, cls)
    import fsahist
    fsahist.histories(c, c.db, "history", {"cut", "gone"}, {"other", "value", "gone", "step", "start", "fails"})
    c.need("impossible connections", 26); c.need("connections kept", 3); c.need("lists searched", 3); c.need("lists purged", 2)

def tables(c, f):
    g = c.graph(f, track_all=True)
    B = Bg(g)
    calls = [n for n in g.live() if n.k == "call" and g.root(n) == CONN]
    o, i = pname(f, 0), pname(f, 1)
    sts = []
    for n in g.live():
        for p, v in stores(g, n):
            if p[0] == "at" and base_of(p) == ("this",) and (is_param(p[2], i) or is_param(p[2], o) or is_param(v, o) or is_param(v, i)): sts.append((n, p, v))
    return f, g, calls, sts

def execution(c, k, f, g, calls, sts, info):
    B = Bg(g)
    o, i = pname(f, 0), pname(f, 1)
    name = "%s to %s" % k
    if not calls: c.viol("connect", c.db.where(f), "%s (%s) does not tell the algorithm" % (f["q"], name), key="call|" + name); return
    for n in calls:
        c.ob("connections made", "%s %s" % (g.at_line(n), name))
        a = [B(x) for x in g.args(n)]
        if not (is_param(a[0], o) and is_param(a[1], i)): c.viol("connect", g.at_line(n), "the algorithm is told to connect %s to %s" % (show_term(a[0]), show_term(a[1])), key="args|" + name)
    if not sts:
        own = [n for n in g.live() if any(m and base_of(m) == ("this",) for m in [B(g.place(n)) if n.k == "write" else None] + [B(m) for m in (g.muts(n) or []) if n.k == "call" and n not in calls])]
        if not own: c.viol("connect", c.db.where(f), "connect_variables (%s) does not record the connection, so that the input can be connected again" % name, key="unrecorded|" + name)
        else: c.note("%s: the connection is not kept in a table" % name)
    for n, p, v in sts:
        if not (is_param(p[2], i) and is_param(v, o)): c.viol("connect", g.at_line(n), "the connection is recorded as %s := %s" % (show_term(p), show_term(v)), key="role|" + name)
    for what, ns in (("telling the algorithm", calls), ("recording it", [s[0] for s in sts])):
        if not ns: continue
        p = c.path(g, [g.entry], lambda m: m is g.exit, avoid=lambda m: m in ns)
        if p: c.viol("connect", c.db.where(f), "connect_variables (%s) can return without %s" % (name, what), key=what + "|" + name, path=p, g=g)
        for n in ns:
            p = c.path(g, [(n, l) for l, _ in n.succ if l not in ("exc", "term")], lambda m: m in ns)
            if p: c.viol("connect", g.at_line(n), "connect_variables (%s): %s happens twice" % (name, what), key=what + "|twice|" + name, path=p, g=g)
    for n in calls:
        if not any(l == "exc" for l, _ in n.succ): continue
        for s, _, _ in sts:
            p = c.path(g, [(s, l) for l, _ in s.succ if l not in ("exc", "term")], lambda m: m is n)
            q = p and c.path(g, [(n, "exc")], lambda m: m is g.xexit, avoid=lambda m: m.k == "call" and last(m.e.get("fn")) == "erase")
            if q: c.viol("connect", g.at_line(s), "the connection is recorded although the algorithm may refuse it", key="order|" + name, path=p + q, g=g)
    eff = set(calls) | set(s[0] for s in sts)
    goal = lambda m: m in eff
    def scen(what, edge, key=None):
        c.ob("impossible connections", "%s: %s" % (name, what))
        p = c.path(g, [g.entry], goal, edge=edge)
        if p: c.viol("impossible connections", c.db.where(f), "execution::connect_variables (%s) accepts %s" % (name, what), key="%s|%s" % (name, key or what), path=p, g=g)
    P = {0: o, 1: i}
    def differ(a):
        if a[0] == "==" and len(a) == 3 and fld(a[1]) == "type" and fld(a[2]) == "type":
            if all(isinstance(x, tuple) and x[0] == "f" and (is_param(x[1], o) or is_param(x[1], i)) for x in a[1:]) and a[1] != a[2]: return False
        return None
    scen("variables of different types", decided(g, differ, None))
    for s, want in ((0, "output"), (1, "input")):
        me = lambda t, s=s: is_param(t, P[s])
        side = lambda t, s=s: mentions(t, lambda x: is_param(x, P[s]))
        end = ("source", "target")[s]
        # the description of the variable: found below the simulator / function the id names
        desc = lambda t, fn: isinstance(t, tuple) and fld(t) == fn and side(t) and not (isinstance(t, tuple) and t[0] == "f" and me(t[1]))
        for v in enums(c.db, "cosim::variable_causality"):
            if v != want: scen("a %s of causality '%s'" % (end, v), enumval(g, lambda t: desc(t, "causality"), CA, v), "%s|causality|%s" % (end, v))
        dt = lambda t: mentions(t, lambda x: desc(x, "type"))
        def badtype(a):
            if a[0] == "==" and len(a) == 3 and any(dt(x) for x in a[1:]) and any(isinstance(x, tuple) and x[0] == "f" and x[2] == "type" and me(x[1]) for x in a[1:]): return False
            # the type is given (not a placeholder)
            if a[0] in ("truthy", "call", "get") and dt(a): return True
            return None
        scen("a %s declared with another type" % end, decided(g, badtype, None))
        idx = "simulator" if k[s] == "variable_id" else "function"
        is_idx = lambda t: isinstance(t, tuple) and t[0] == "f" and t[2] == idx and me(t[1])
        def gone(n, lab, m):
            if n.k == "call" and lab not in ("exc", "term") and n.e.get("obj") is not None and last(n.e.get("fn")) == "at" and g.args(n) and is_idx(B(g.args(n)[0])): return False
            a, v = says(g, n, lab)
            if a is not None:
                if a[0] == "<" and is_idx(a[1]) and a[2] != ("int", "0"): return v is False
                if a[0] == "has" and is_idx(a[2]): return v is False
            return True
        scen("an unknown %s %s" % (end, idx), gone)
        if k[s] == "variable_id":
            def other(a):
                if a[0] == "==" and len(a) == 3 and {fld(x) for x in a[1:]} == {"reference"} and any(desc(x, "reference") for x in a[1:]): return False
                return None
            scen("a %s reference that no variable has" % end, decided(g, other, None))
        else:
            ref = lambda t, part: isinstance(t, tuple) and t[0] == "f" and t[2] == part and side(t)
            for part in ("group", "io"):
                def nogrp(n, lab, m):
                    if n.k == "call" and lab not in ("exc", "term") and n.e.get("obj") is not None and last(n.e.get("fn")) == "at" and g.args(n) and ref(B(g.args(n)[0]), part): return False
                    a, v = says(g, n, lab)
                    if a is not None and a[0] == "<" and ref(a[1], part) and a[2] != ("int", "0"): return v is False
                    return True
                scen("a %s %s that the function does not have" % (end, part), nogrp)
            for part in ("group_instance", "io_instance"):
                for low in (True, False):
                    def pr(a):
                        pl = lambda t: ref(t, part)
                        if a[0] == "<" and pl(a[1]): return low if a[2] == ("int", "0") else (None if low else False)
                        if not low and a[0] == "<" and pl(a[2]) and linear(a[1]) and linear(a[1]).get(None) == -1 and len(linear(a[1])) == 2: return True
                        if a[0] == "<" and pl(a[2]): return not low if a[1] in (("int", "-1"), ("-", ("int", "1"))) else (None if low else False)
                        # the counts are given
                        if not low and a[0] in ("truthy", "call", "get") and "count" in show_term(a) and side(a): return True
                        if not low and a[0] == "==" and ("null",) in a[1:] and "count" in show_term(a): return False
                        return None
                    scen("a %s %s that is too %s" % (end, part, "low" if low else "high"), decided(g, pr, None))
    # tables that can hold this kind of input
    ts = {}
    for k2, (_, _, _, s2) in info.items():
        if k2[1] == k[1]:
            for _, p, _ in s2: ts[p[1]] = k2
    for t in ts:
        def present(n, lab, m):
            a, v = says(g, n, lab)
            if a is not None:
                if a[0] == "has" and a[1] == t and is_param(a[2], i): return v is True
                if a[0] == "empty" and a[1] == t: return v is False
            return True
        scen("an input that is already connected (%s)" % show_term(t), present, "connected|%s" % (ts[t],))

# ------------------------------------------------------------------ algorithms
def owner(p):
    """(container of owners, list field) of a list of connections."""
    if isinstance(p, tuple) and p[0] == "f":
        b = p[1]
        if isinstance(b, tuple) and b[0] == "f" and b[2] == "second": b = b[1]
        if isinstance(b, tuple) and b[0] in ("at", "elem"): return b[1], p[2]
        if base_of(b) == ("this",) and b[0] in ("f", "this"): return None, p
    return None

def algorithm(c, cls):
    lists = {}
    for f in c.impls(CONN):
        if f["cls"] != cls or len(f["p"]) != 2: continue
        k = (short(f["p"][0]["t"]), short(f["p"][1]["t"]))
        g = c.graph(f, track_all=True)
        B = Bg(g)
        o, i = pname(f, 0), pname(f, 1)
        evs = []
        for n in g.live():
            if n.k != "call" or n.e.get("obj") is None or last(n.e.get("fn")) not in APPEND + ("insert", "emplace"): continue
            for a in g.args(n):
                d = roles_of(B(a), o, i)
                if d: evs.append((n, B(g.obj(n)), d))
            if len(g.args(n)) == 2 and is_param(B(g.args(n)[0]), o) and is_param(B(g.args(n)[1]), i): c.note("%s: pair of connection parts" % g.at_line(n))
        c.ob("connections kept", "%s %s: %s" % (cls, k, ", ".join(show_term(x[1]) for x in evs)))
        if not evs: c.note("%s: no list of connections recognised (%s)" % (f["q"], k)); continue
        ns = [x[0] for x in evs]
        p = c.path(g, [g.entry], lambda m: m is g.exit, avoid=lambda m: m in ns)
        if p: c.viol("connections kept", c.db.where(f), "%s returns without keeping the connection" % f["q"], key="%s|%s|dropped" % (cls, k), path=p, g=g)
        for n, cont, (sf, tf) in evs:
            p = c.path(g, [(n, l) for l, _ in n.succ if l not in ("exc", "term")], lambda m: m in ns)
            if p: c.viol("connections kept", g.at_line(n), "%s keeps the connection twice" % f["q"], key="%s|%s|twice" % (cls, k), path=p, g=g)
            ow = owner(cont)
            if ow is None: c.note("%s: list %s" % (f["q"], show_term(cont))); continue
            lists.setdefault(ow, (k, sf, tf))
            if ow[0] is not None:
                b = cont[1]
                while b[0] == "f": b = b[1]
                idx = b[2] if len(b) > 2 else None
                want = "simulator" if k[0] == "variable_id" else "function"
                if isinstance(idx, tuple) and idx[0] == "f" and is_param(idx[1], i): c.viol("connections kept", g.at_line(n), "the connection is filed under its target", key="%s|%s|owner" % (cls, k))
        # what other kinds of source go to the same list must be distinguishable
    for f in c.impls(ALG + "disconnect_variable"):
        if f["cls"] != cls: continue
        disconnect(c, cls, f, {ow: v for ow, v in lists.items() if v[0][1] == short(f["p"][0]["t"])})
    for f in c.impls(ALG + "remove_simulator"):
        if f["cls"] == cls: purge(c, cls, f, {ow: v for ow, v in lists.items() if v[0][1] == "variable_id"})

def roles_of(t, o, i):
    if not isinstance(t, tuple) or t[0] != "new": return None
    s = [k for k, v in t[2] if is_param(v, o)]; u = [k for k, v in t[2] if is_param(v, i)]
    return (s[0], u[0]) if len(s) == 1 and len(u) == 1 else None

def is_list(t, ow):
    """Is t the list of (each of) the owners?"""
    if ow[0] is None: return t == ow[1]
    x = owner(t)
    return x is not None and x == ow

def loops_on(g, ow):
    return [lp for lp in g.loops if lp.head in g.live() and g.container(lp) is not None and is_list(bare(g.deep(g.container(lp))), ow)]
def owner_loops(g, ow):
    return [lp for lp in g.loops if lp.head in g.live() and g.container(lp) is not None and bare(g.deep(g.container(lp))) == ow[0]]

def in_list(t, ow, tf):
    """t is (a part of) the target of an element of the list."""
    return mentions(t, lambda x: x[0] == "f" and x[2] == tf and isinstance(x[1], tuple) and x[1][0] in ("elem", "at", "back", "find") and is_list(x[1][1], ow))

def compare(ow, tf, prm, part, val):
    """Decision for comparisons of a list element's target with the parameter: part = None for all parts."""
    def pr(a):
        if a[0] == "==" and len(a) == 3:
            for x, y in ((a[1], a[2]), (a[2], a[1])):
                if in_list(x, ow, tf) and mentions(y, lambda z: is_param(z, prm)):
                    if part is None: return val
                    if fld(x) == part or fld(x) == tf and part == "*": return val
                    if fld(x) == tf: return val       # compared as a whole
        return None
    return pr

def erasures(g, ow):
    B = Bg(g)
    return [n for n in g.live() if n.k == "call" and n.e.get("obj") is not None and last(n.e.get("fn")) in ("erase", "pop_back", "clear") and is_list(B(g.obj(n)), ow)]

def removed_if(g, n):
    return any(mentions(a, lambda x: x[0] == "call" and last(str(x[1])) in ("remove_if", "remove", "partition", "stable_partition")) for a in (Bg(g)(y) for y in g.args(n)))

def lambda_results(c, g, lp, pr):
    """Truth values the predicate of an algorithm loop can have under a decision."""
    out = set()
    B = Bg(g)
    body = g.body(lp)
    fr = [n.d["frame"] for n in g.live() if n.k == "enter" and n in body and n.d["frame"].fn.get("lambda")]
    for fm in fr[:1]:
        for r, e, f2 in fm.rets:
            if r not in g.live() or e is None: continue
            p = c.path(g, c.loop_starts(lp), lambda m: m is r, edge=decided(g, pr, None), avoid=lambda m: m is lp.head)
            if not p: continue
            for v in g.alts(g.T(e, f2)):
                v = B(v)
                if v in (("bool", True), ("bool", False)): out.add(v[1])
                else:
                    a, pol = v, True
                    while isinstance(a, tuple) and a[0] == "!": a, pol = a[1], not pol
                    w = pr(a)
                    if w is None and a[0] == "==" : out |= {True, False}
                    elif w is None: out.add("?")
                    else: out.add(w == pol)
    return out

def search(c, cls, f, g, ow, tf, prm, parts, rule, every):
    """The elements whose target has the given parts are erased, and only they."""
    q = f["q"]
    B = Bg(g)
    name = "%s of %s" % (ow[1] if isinstance(ow[1], str) else show_term(ow[1]), show_term(ow[0]) if ow[0] else "the algorithm")
    es = erasures(g, ow)
    c.ob(rule, "%s: %s" % (q, name))
    if not es:
        c.viol(rule, c.db.where(f), "%s does not remove anything from the %s" % (q, name), key="%s|%s|%s|none" % (cls, q, ow)); return
    lps = loops_on(g, ow)
    for n in es:
        if last(n.e.get("fn")) == "clear": c.viol(rule, g.at_line(n), "%s clears the whole %s" % (q, name), key="%s|%s|clear" % (q, ow)); continue
        rm = removed_if(g, n)
        if rm:
            if len(g.args(n)) < 2: c.viol(rule, g.at_line(n), "%s erases one of the removed connections only" % q, key="%s|%s|tail" % (q, ow)); continue
            for lp in lps:
                if lp.algo not in ("remove_if",): continue
                r = lambda_results(c, g, lp, compare(ow, tf, prm, None, True))
                if False in r and "?" not in r: c.viol(rule, g.at_line(lp.head), "%s keeps a connection that should be removed" % q, key="%s|%s|kept" % (q, ow))
                for part in parts:
                    r = lambda_results(c, g, lp, compare(ow, tf, prm, part, False))
                    if True in r and "?" not in r: c.viol(rule, g.at_line(lp.head), "%s removes a connection whose target has another %s" % (q, part), key="%s|%s|%s" % (q, ow, part))
            continue
        av = [B(x) for x in g.args(n)]
        touched = any(m.k in ("write", "call") and any(isinstance(x, tuple) and x[0] in ("elem", "at", "back") and is_list(x[1], ow) for x in ([B(g.place(m))] if m.k == "write" else [B(y) for y in g.muts(m) or []])) for m in g.live())
        if len(av) == 2 and av[0][0] in ("find", "findif", "elem") and av[1][0] == "end":
            c.viol(rule, g.at_line(n), "%s erases everything from the connection that was found to the end" % q, key="%s|%s|rest" % (q, ow)); continue
        if len(av) == 1 and av[0][0] == "begin" and not touched:
            c.viol(rule, g.at_line(n), "%s erases the first connection instead of the one that was found" % q, key="%s|%s|firstelem" % (q, ow)); continue
        # found one by one
        for part in parts:
            p = c.path(g, [g.entry], lambda m: m is n, edge=decided(g, compare(ow, tf, prm, part, False), None))
            if p: c.viol(rule, g.at_line(n), "%s can remove a connection whose target has another %s" % (q, part), key="%s|%s|%s" % (q, ow, part), path=p, g=g)
        for lp in lps:
            if n.fr is not lp.head.fr and lp.algo is None: continue
            if lp.algo not in ("find_if", "find", None): continue
            st = c.loop_starts(lp)
            heads = set(x.head for x in owner_loops(g, ow))
            p = c.path(g, st, lambda m: m is g.exit or m in heads or m is lp.head, avoid=lambda m: m in es, edge=decided(g, compare(ow, tf, prm, None, True), None))
            if p and any(pl in c.body_live(g, lp) for pl in p[1:3]): c.viol(rule, g.at_line(lp.head), "%s leaves a connection in place that should be removed" % q, key="%s|%s|kept" % (q, ow), path=p, g=g)
        if every:
            hs = set(lp.head for lp in lps)
            heads = set(x.head for x in owner_loops(g, ow))
            if any(n in g.body(lp) for lp in g.loops if lp.head not in heads): continue
            p = c.path(g, [(n, l) for l, _ in n.succ if l not in ("exc", "term")], lambda m: m is g.exit or m in heads, avoid=lambda m: m in hs)
            if p: c.viol(rule, g.at_line(n), "%s removes the first matching connection only" % q, key="%s|%s|first" % (q, ow), path=p, g=g)
    # every owner
    if ow[0] is None: return
    ols = owner_loops(g, ow)
    if not ols:
        c.note("%s: no loop over %s" % (q, show_term(ow[0]))); return
    touch = lambda n: n in es or any(n is lp.head for lp in lps)
    for lp in ols:
        if not any(touch(n) for n in c.body_live(g, lp)): continue
        if lp.partial: c.viol(rule, g.at_line(lp.head), "%s does not look at every element of %s: %s" % (q, show_term(ow[0]), lp.partial), key="%s|%s|partial" % (q, ow)); continue
        p = c.path(g, c.loop_starts(lp), lambda m: m is lp.head, avoid=touch)
        if p: c.viol(rule, g.at_line(lp.head), "%s passes over an element of %s" % (q, show_term(ow[0])), key="%s|%s|skip" % (q, ow), path=p, g=g)
        p = c.path(g, c.loop_starts(lp), lambda m: m is g.exit or m is lp.exit, avoid=lambda m: m is lp.head or (not every and m in es))
        if p: c.viol(rule, g.at_line(lp.head), "%s stops before every element of %s was searched" % (q, show_term(ow[0])), key="%s|%s|stop" % (q, ow), path=p, g=g)
    return [lp.head for lp in ols if any(touch(n) for n in c.body_live(g, lp))], es

def fields_of(db, q):
    r = db.R.get(q)
    return [x["n"] for x in r["fields"]] if r else []

def same(f):
    """Equality of identifiers is what C13 says."""
    return f["q"].endswith(("operator==", "operator!=")) and len(f["p"]) == 2
def disconnect(c, cls, f, lists):
    g = c.graph(f, track_all=True, stop=same)
    prm = pname(f, 0)
    t = re.sub(r"^const | ?&$", "", f["p"][0]["t"])
    parts = fields_of(c.db, t)
    parts = sum([fields_of(c.db, "cosim::function_io_reference") if p == "reference" and t.endswith("function_io_id") else [p] for p in parts], [])
    alle, heads = set(), []
    for ow, (k, sf, tf) in lists.items():
        r = search(c, cls, f, g, ow, tf, prm, parts, "lists searched", False)
        if r: heads.append((ow, r[0])); alle |= set(r[1])
    for ow, hs in heads:
        p = c.path(g, [g.entry], lambda m: m is g.exit, avoid=lambda m: m in hs or m in alle)
        if p: c.viol("lists searched", c.db.where(f), "%s can return without searching %s" % (f["q"], ow[1]), key="%s|%s|unsearched" % (f["q"], ow), path=p, g=g)

def purge(c, cls, f, lists):
    g = c.graph(f, track_all=True, stop=same)
    prm = pname(f, 0)
    for ow, (k, sf, tf) in lists.items():
        r = search(c, cls, f, g, ow, tf, prm, ["simulator"], "lists purged", True)
        if r:
            p = c.path(g, [g.entry], lambda m: m is g.exit, avoid=lambda m: m in r[0])
            if p: c.viol("lists purged", c.db.where(f), "%s can return without searching %s" % (f["q"], ow[1]), key="%s|%s|unsearched" % (f["q"], ow), path=p, g=g)
