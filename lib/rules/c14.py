"""C14: state of observers and manipulators that several threads use."""
from slvsim import *
from c04 import after
RULE = """
(1) Per class that has a mutex: the fields that some method accesses with the mutex held and some method other than a constructor
changes are protected by it; every access to them in a method that can be called from outside (all calls inlined) must hold the mutex
(must-hold lock sets; constructors before the object is published and destructors excepted), no method returns a reference, pointer
or view into them, no method changes them in two critical sections, and the mutex is never locked while held.
(2) Per implementation of observer / manipulator with such state: what a call-back made by the simulation thread (simulation_initialized,
simulator_step_complete, step_complete, step_commencing) changes and another public operation uses, or the other way round, is accessed with a common
mutex at every such place, or is atomic.
"""
ASSUME = ["entities are added and removed by the thread that drives the simulation (execution::add_* are not concurrent with stepping)",
          "const member functions of standard types do not modify shared state"]
SIMCB = {OBS + x for x in ("simulation_initialized", "step_complete", "simulator_step_complete", "state_restored")} | {MAN + "step_commencing"}
SETUP = {x + y for x in (OBS, MAN) for y in ("simulator_added", "simulator_removed", "variables_connected", "variable_disconnected")}
NAMED = ("cosim::time_series_observer", "cosim::last_value_observer", "cosim::file_observer", "cosim::override_manipulator")
MUTEXT = re.compile(r"^(mutable )?std::(recursive_|shared_|timed_|shared_timed_)?mutex$")

LOOK = {"at", "find", "begin", "end", "rbegin", "rend", "cbegin", "cend", "front", "back", "data", "get", "lower_bound", "upper_bound", "equal_range", "operator->", "operator*", "value"}
def uses(g):
    """Accesses; a non-const look-up is not a change."""
    for n, p, how in accesses(g):
        if how == "w" and n.k == "call" and n.e.get("obj") is not None and last(n.e.get("fn")) in LOOK: how = "r"
        yield n, p, how

def method_kind(rec, f):
    n = f["q"].split("::")
    return ["dtor"] if f["n"].startswith("~") else ["ctor"] if len(n) > 1 and re.sub(r"<.*", "", n[-1]) == re.sub(r"<.*", "", n[-2]) else []

def chain(p):
    """Field names on the way from this to a place; None if it is not part of the object."""
    if base_of(p) != ("this",): return None
    out = []
    while isinstance(p, tuple) and p != ("this",):
        if p[0] == "f":
            if p[2] not in ("first", "second", "pimpl_"): out.append(p[2])
            p = p[1]
        elif len(p) > 1: p = p[1]
        else: break
    return tuple(reversed(out))

def held(L, n, writing):
    return set(chain(m) or m for m, mode in L.at(n) if mode == "x" or not writing)

def field_info(db):
    atom, mut = set(), set()
    for q, r in db.R.items():
        for x in r["fields"]:
            if "atomic" in x["t"]: atom.add((q, x["n"]))
            if MUTEXT.match(x["t"]): mut.add((q, x["n"]))
    return atom, mut

def check(c):
    db = c.db
    atom, mut = field_info(db)
    classes = sorted(set(q for q, n in mut if "utility" not in q and "fmi::" not in q and "proxy" not in q and not re.search(r"\bstd::|^\(|lambda", q)))
    locked = {}
    for q in classes: locked[q] = one_class(c, q, [n for q2, n in mut if q2 == q], {n for q2, n in atom if q2 == q})
    two(c, atom, mut)
    c.need("guarded accesses", 40); c.need("shared places", 4)

def one_class(c, q, mutexes, atoms):
    db = c.db
    rec = db.R[q]
    fns = entry_points(db, q)
    gs = []
    consts = {x["n"] for x in rec["fields"] if x["t"].startswith("const ") or "condition_variable" in x["t"]}
    mx = {("f", ("this",), m) for m in mutexes}
    for f in fns:
        if overrides(c, f) & SETUP: continue
        g = c.graph(f)
        gs.append((f, g, Locks(g), method_kind(rec, f)))
    def mine(p):
        ch = chain(p)
        if not ch or ch[0] in mutexes or ch[0] in atoms or ch[0] in consts: return None
        if not any(x["n"] == ch[0] for x in rec["fields"]): return None
        # what a pointer designates belongs to somebody else
        return ch[0]
    written, under = set(), set()
    acc = []
    for f, g, L, k in gs:
        for n, p, how in uses(g):
            x = mine(p)
            if x is None: continue
            h = {m for m, mode in L.at(n) if m in mx and (mode == "x" or how == "r")}
            if not ("ctor" in k or "dtor" in k):
                if how == "w" and not foreign(rec, p, x): written.add(x)
                if h: under.add(x)
            acc.append((f, g, L, k, n, p, how, x, h))
    guarded = written & under
    for f, g, L, k, n, p, how, x, h in acc:
        if x not in guarded or "ctor" in k or "dtor" in k: continue
        c.ob("guarded accesses", "%s %s.%s" % (g.at_line(n), q.split("::")[-1], x))
        if not h: c.viol("guarded", g.at_line(n), "%s::%s is %s in %s without the mutex that protects it" % (q, x, "changed" if how == "w" else "read", f["q"]), key="%s|%s|%s" % (q, f["n"], x))
    for f, g, L, k in gs:
        for n, (m, _) in L.double: c.viol("guarded", g.at_line(n), "%s is locked while already held in %s" % (show_term(m), f["q"]), key="%s|%s|double" % (q, f["n"]))
        if "ctor" in k or "dtor" in k: continue
        # references to what is protected
        rt = f.get("rt") or ""
        if re.search(r"[&*]\s*$|string_view|span<", rt):
            for r, t in returned(g):
                x = mine(t) if t[0] in ("f", "at", "elem", "back", "get") else None
                if x in guarded: c.viol("guarded", g.at_line(r), "%s returns %s to %s, which the mutex no longer protects then" % (f["q"], "a reference" if rt.endswith("&") else "access", x), key="%s|%s|leak" % (q, f["n"]))
        # two critical sections
        ws = [n for f2, g2, L2, k2, n, p, how, x, h in acc if g2 is g and x in guarded and how == "w" and h]
        al = set(n for f2, g2, L2, k2, n, p, how, x, h in acc if g2 is g and x in guarded and h)
        rel = [n for n in g.live() if n.k in ("call", "dtor") and n in L.inn and any(m in mx for m, _ in L.at(n)) and not any(m in mx for m, _ in L.held(L.transfer(n, L.inn[n])))]
        for w in ws:
            hit = None
            for r in rel:
                p1 = c.path(g, g.normal(w), lambda m: m is r, edge=lambda a, l, b: l not in ("exc", "term"), track=False)
                p2 = p1 and c.path(g, [(r, l) for l, _ in r.succ if l not in ("exc", "term")], lambda m: m in al, edge=lambda a, l, b: l not in ("exc", "term"), track=False)
                if p2: hit = p1 + p2; break
            if hit:
                c.viol("guarded", g.at_line(w), "%s changes %s's protected state in two critical sections" % (f["q"], q.split("::")[-1]), key="%s|%s|split" % (q, f["n"]), path=hit, g=g); break
    if not guarded: c.note("%s has a mutex, but no state that it protects was found" % q)
    return guarded

def foreign(rec, p, x):
    """Is p behind a pointer field of the class (not owned by it)?"""
    t = next((y["t"] for y in rec["fields"] if y["n"] == x), "")
    return t.rstrip().endswith("*") and p != ("f", ("this",), x)

def two(c, atom, mut):
    db = c.db
    atoms = {n for _, n in atom}
    classes = set()
    for q in SIMCB:
        for f in c.impls(q, must=False): classes.add(f["cls"])
    for q in NAMED:
        if q not in db.R: raise AnalysisError("%s not found" % q)
    for q in sorted(classes):
        if q.startswith("cosim::") is False: continue
        rec = db.R.get(q)
        ms = [f for f in db.F.values() if f.get("cls") == q and f.get("body") is not None and f.get("acc") == 0 and not f.get("lambda") and not f.get("dependent")]
        sim, api = [], []
        locks = False
        for f in ms:
            k = method_kind(rec, f)
            if "ctor" in k or "dtor" in k: continue
            g = c.graph(f)
            L = Locks(g)
            rts = set(c.db.rootq(f)) if hasattr(c.db, "rootq") else set()
            ov = overrides(c, f)
            if ov & SETUP: continue
            (sim if ov & SIMCB else api).append((f, g, L))
            locks = locks or any(L.at(n) for n in g.live() if n in L.inn)
        if not locks and q not in NAMED:
            c.note("%s does not claim to be usable from several threads" % q); continue
        A, S = collect(c, api, atoms, rec), collect(c, sim, atoms, rec)
        for x in sorted(set(A) & set(S)):
            if not (any(h == "w" for _, _, _, h, _ in A[x]) or any(h == "w" for _, _, _, h, _ in S[x])): continue
            c.ob("shared places", "%s: %s" % (q, ".".join(x)))
            common = None
            for f, g, n, how, hs in A[x] + S[x]:
                if how == "r" and not any(h == "w" for _, _, _, h, _ in (S[x] if (f, g, n, how, hs) in A[x] else A[x])): continue
                common = hs if common is None else common & hs
            if common is not None and not common:
                f, g, n, how, hs = next((y for y in A[x] + S[x] if not y[4]), (A[x] + S[x])[0])
                c.viol("shared places", g.at_line(n), "%s of %s is used by the simulation thread and by %s without a common mutex" % (".".join(x), q, f["n"]), key="%s|%s" % (q, ".".join(x)))

def overrides(c, f):
    out = set()
    for q in SIMCB | SETUP:
        if any(x["id"] == f["id"] for x in c.impls(q, must=False)): out.add(q)
    return out

def collect(c, fs, atoms, rec):
    out = {}
    mtx = {n for _, n in field_info(c.db)[1]}
    ptr = {x["n"] for r in c.db.R.values() for x in r["fields"] if x["t"].rstrip().endswith("*")}
    for f, g, L in fs:
        for n, p, how in uses(g):
            ch = chain(p)
            if not ch or ch[-1] in atoms or ch[-1] in mtx: continue
            if any(x in ptr for x in ch[:-1]): continue
            if n not in L.inn: continue
            out.setdefault(ch, []).append((f, g, n, how, held(L, n, how == "w")))
    # a change of the whole is one of its parts
    for x in list(out):
        for y in list(out):
            if len(y) > len(x) and y[:len(x)] == x:
                out[y] += [a for a in out[x] if a[3] == "w" and a not in out[y]]
    return out
