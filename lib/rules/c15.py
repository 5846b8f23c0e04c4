"""C15: time series buffers."""
from slvsim import *
import obshist
TSO = "cosim::time_series_observer::"
RULE = """
(1) time_series_observer::get_real_samples / get_integer_samples, all calls inlined: the stores to the three result spans inside the
loop use the same index i, the step is the key and the value the mapped value of the same iterator X, the time is looked up under that
same key; neither i nor X changes between the stores of one sample; i is incremented exactly once per sample written and X advances;
every store is reached only with i bounded by the size of a span (or X's step bounded by fromStep + size), with X tested against the
end, and with X's step known to be >= fromStep (range start, lower_bound, find, or a comparison); what is returned is i.
(2) simulation_initialized / simulator_step_complete: for every element of every sample buffer of the observed simulator, what the
simulator's getter of that type returns for that element's reference is stored under the call-back's step number, and the time under
the same number; on every path a buffer that has grown above the capacity has its first (oldest) element erased, nothing else is
erased, and the capacity is the constructor argument, of which zero is refused.
(3) get_synchronized_real_series: the k-th values come from the samples of (simulator 1, reference 1) and (simulator 2, reference 2)
at the same step; same counting rules.
(4, history) the observer is followed, with structured values, through histories of simulators added and removed, variables observed and no
longer observed, initialisation and steps in different rhythms (more of them than the buffers hold), and queried after them: samples from every
step on, spans of 0 to 5; the steps of the last d, and between every pair of times at, between and beyond the samples' times; synchronised
series of every pair.  An oracle holds the last samples, their steps and times; a variable is exposed for getting before it is read.
"""
ASSUME = ["std::map iterates in ascending key order", "the histories of the list stand for all: two simulators, two real variables and an integer one, a capacity of 3"]
GET = {"get_real_samples": "real", "get_integer_samples": "integer"}

def check(c):
    for q in GET:
        for f in c.fns(TSO + q): reader(c, f, GET[q])
    for f in c.fns(TSO + "get_synchronized_real_series"): synchronized(c, f)
    for cb, st, tm in (("simulation_initialized", 0, 1), ("simulator_step_complete", 1, 3)):
        for f in c.impls(OBS + cb):
            if f["cls"] == "cosim::time_series_observer": recorder(c, f, cb, st, tm)
    capacity(c)
    obshist.series(c, c.db, "history")
    c.need("history", 1)
    c.need("samples read", 3); c.need("samples stored", 6); c.need("buffer bounded", 6)

def span_writes(g, f, i):
    """Writes to elements of the span parameter i: [(node, index, value)]"""
    B = Bg(g); out = []
    for n in g.live():
        if n.k != "write": continue
        p = B(g.place(n))
        if p[0] == "at" and is_param(spanof(g, p[1]), pname(f, i)): out.append((n, p[2], n.d.get("val") and raw(g, n.d["val"], n.fr)))
        elif p[0] == "elem" and is_param(spanof(g, p[1]), pname(f, i)): out.append((n, ("idx",), n.d.get("val") and raw(g, n.d["val"], n.fr)))
    return out
def raw(g, e, fr): return bare(g.T(e, fr))
def spanof(g, t, depth=0):
    """The parameter of the analysed function that a span handed down by value is a copy of."""
    if t[0] == "v" and depth < 6:
        v = g.var_of(t)
        ds = [d for d in v.defs if d[1] in ("param", "init") and d[2] is not None] if v else []
        if len(ds) == 1: return spanof(g, bare(g.T(ds[0][2], ds[0][3])), depth + 1)
    return t

def bumps(g, i):
    """(increments, other writes) of a local counter."""
    inc, oth = [], []
    for n in g.live():
        if n.k != "write" or bare(g.place(n)) != i: continue
        op = n.d.get("op")
        v = g.value(n)
        if op == "++" or op == "+=" and bare(v) == ("int", "1") or op == "=" and v is not None and bare(v) in (("+", i, ("int", "1")), ("+", ("int", "1"), i)): inc.append(n)
        elif op in ("=", "init") and v is not None and bare(v) == ("int", "0"): pass
        else: oth.append(n)
    return inc, oth

def counting(c, g, f, q, sets, i, what):
    """sets: list of lists of nodes, one store of each per sample."""
    if i[0] == "int" and any(n in g.body(lp) for s in sets for n in s for lp in g.loops):
        c.viol(what, g.at_line(sets[0][0]), "%s: all samples are stored at index %s" % (q, i[1]), key=q + "|counter"); return True
    if i[0] not in ("v", "idx"): c.note("%s: samples are not counted in a local variable" % q); return False
    inc, oth = bumps(g, i)
    if oth: c.viol(what, g.at_line(oth[0]), "%s: the sample counter is changed by something else than one" % q, key=q + "|counter"); return True
    if not inc:
        c.viol(what, g.at_line(sets[0][0]), "%s: the sample counter is never advanced" % q, key=q + "|counter"); return True
    incs, allw = set(inc), set(n for s in sets for n in s)
    if claimed(c, g, sets, i, incs):
        for s in sets:
            p = c.path(g, [x for n in inc for x in g.normal(n)], lambda m: m in incs or m is g.exit, avoid=lambda m: m in s, edge=lambda a, l, b: l not in ("exc", "term"))
            if p: c.viol(what, g.at_line(s[0]), "%s: the counter can advance without this part of the sample being written" % q, key=q + "|gap|" + show_term(bare(g.place(s[0]))), path=p, g=g)
            for n in s:
                p = c.path(g, g.normal(n), lambda m: m is n, avoid=lambda m: m in incs)
                if p: c.viol(what, g.at_line(n), "%s: a sample can be overwritten by the next one" % q, key=q + "|overwrite", path=p, g=g)
        sets = []
    for s in sets:
        ss = set(s)
        for a in [("the start", [g.entry])] + [("the previous one", [x for n in inc for x in g.normal(n)])]:
            p = c.path(g, a[1], lambda m: m in incs, avoid=lambda m: m in ss)
            if p: c.viol(what, g.at_line(s[0]), "%s: the counter can advance without this part of the sample being written" % q, key=q + "|gap|" + show_term(bare(g.place(s[0]))), path=p, g=g)
        for n in s:
            p = c.path(g, g.normal(n), lambda m: m is n, avoid=lambda m: m in incs)
            if p: c.viol(what, g.at_line(n), "%s: a sample can be overwritten by the next one" % q, key=q + "|overwrite", path=p, g=g)
            p = c.path(g, g.normal(n), lambda m: m is g.exit, avoid=lambda m: m in incs, edge=lambda a, l, b: l not in ("exc", "term"))
            if p: c.viol(what, g.at_line(n), "%s: a sample can be written without being counted" % q, key=q + "|uncounted", path=p, g=g)
    # what is returned
    for r, e, fr in g.rootfr.rets:
        t = raw(g, e, fr) if e is not None else None
        if t is None or t == i or i[0] == "idx" and t[0] == "v" or t == ("int", "0") or not (t[0] == "v" or t[0] == "size" or t[0] == "int" or t[0] in ("+", "-")): continue
        if t[0] == "v" and t != i:
            v = g.var_of(t)
            if any(i == bare(x) for x in g.alts(t)) or v is None or any(raw(g, d[2], d[3]) == i for d in v.defs if d[1] in ("init",) and d[2] is not None): continue
            if t[0] == "v" and len([d for d in v.defs]) > 1: c.note("%s returns %s" % (q, show_term(t))); continue
        c.viol(what, g.at_line(r), "%s returns %s instead of the number of samples written" % (q, show_term(t)), key=q + "|return")
    return True

def claimed(c, g, sets, i, incs):
    """Is the index a copy of the counter taken when it was advanced (k = i++)?"""
    for s in sets:
        for n in s:
            x = ix_of(n)
            while isinstance(x, dict) and x["k"] in ("icast", "cast"): x = x["e"]
            v = x and x["k"] == "ref" and n.fr.lookup(x.get("d"))
            if not v or v.term == i: return False
            if c.path(g, [g.entry], lambda m: m is n, avoid=lambda m: m in incs): return False
    return True

def bound_edge(g, i, X, spans, fromp):
    """Edges that bound the number of samples; second value: off-by-one tests met."""
    sized = lambda t: mentions(t, lambda x: x[0] == "size" and len(x) > 1 and (x[1] in spans or spanof(g, x[1]) in spans))
    def ok(n, lab):
        if n.k != "branch" or lab not in ("T", "F"): return False
        a, pol = g.atom(n)
        v = (lab == "T") == pol
        r = bare(a)
        d = bare(g.deep(a)) if a[0] in ("<", "==") else r
        if r[0] == "<" and len(r) == 3:
            big = d[2] if len(d) == 3 else r[2]
            if r[1] == i and v and sized(big): return not mentions(big, lambda x: x[0] == "+")
            if v and mentions(d, lambda x: is_param(x, fromp)) and sized(big) and not mentions(r[1], lambda x: x == i) and mentions(big, lambda x: x[0] == "+") : return True
            if r[2] == i and not v and sized(d[1] if len(d) == 3 else r[1]): return False
        if r[0] == "==" and i in r[1:] and sized(d): return not v
        if sized(d) and mentions(r, lambda x: x == i) and r[0] not in ("<", "=="): return True
        return False
    return ok

def reader(c, f, t):
    g = c.graph(f, track_all=True); B = Bg(g)
    q = f["q"]
    V, S, T = (span_writes(g, f, k) for k in (3, 4, 5))
    c.ob("samples read", "%s: %d stores" % (q, len(V) + len(S) + len(T)))
    for W, k in ((V, 3), (S, 4), (T, 5)):
        if not W:
            if any(pname(f, k) and mentions(B(a), lambda x: is_param(x, pname(f, k))) for n in g.live() if n.k == "call" for a in g.args(n) + ([g.obj(n)] if n.e.get("obj") is not None else []) if last(n.e.get("fn")) not in ("size", "empty", "operator[]")):
                c.note("%s: %s is filled in a way that is not recognised" % (q, pname(f, k))); return
            c.viol("samples read", c.db.where(f), "%s never fills %s" % (q, pname(f, k)), key=q + "|unfilled|%d" % k); return
    idx = set(raw(g, ix_of(n), n.fr) if ix_of(n) is not None else ix for n, ix, _ in V + S + T)
    if len(idx) > 1:
        c.viol("samples read", g.at_line(V[0][0]), "%s: the parts of a sample are stored at different indices: %s" % (q, ", ".join(sorted(show_term(x) for x in idx))), key=q + "|index"); return
    i = next(iter(idx))
    if not counting(c, g, f, q, [[n for n, _, _ in W] for W in (V, S, T)], i, "samples read"): return
    # the same iterator
    Xs = set()
    for n, _, v in S:
        if v[0] == "f" and v[2] == "first": Xs.add(v[1])
        elif B(v)[0] == "f" and B(v)[2] == "first": Xs.add(B(v)[1])
        elif v[0] == "f" and v[2] == "second": c.viol("samples read", g.at_line(n), "%s stores a sample's value as its step number" % q, key=q + "|step"); return
        else: c.note("%s: step numbers are taken from %s" % (q, show_term(v))); return
    if len(Xs) > 1: c.note("%s uses several iterators" % q); return
    X = next(iter(Xs))
    key = ("f", X, "first")
    for n, _, v in V:
        if v[0] == "at" and v[2] == key: continue
        if v == ("f", X, "second") or B(v) == ("f", X, "second"): continue
        if B(v)[0] == "at" and B(v)[2] == key: continue
        if v[0] == "f" and v[2] in ("first", "second"): c.viol("samples read", g.at_line(n), "%s stores %s as the value of the sample whose step is %s" % (q, show_term(v), show_term(key)), key=q + "|value"); return
        c.note("%s: values are taken from %s" % (q, show_term(v)))
    for n, _, v in T:
        d = B(v)
        if d[0] == "at" and d[2] in (key, B(key)): continue
        if v[0] == "at" and v[2] == key: continue
        if d[0] == "at": c.viol("samples read", g.at_line(n), "%s looks up a sample's time under %s, but its step is %s" % (q, show_term(d[2]), show_term(key)), key=q + "|time"); return
        c.note("%s: times are taken from %s" % (q, show_term(d)))
    allw = [n for W in (V, S, T) for n, _, _ in W]
    inc, _ = bumps(g, i); incs = set(inc)
    if X[0] == "v":
        xw = [n for n in g.live() if n.k == "write" and bare(g.place(n)) == X]
        for a in allw:
            for x in xw:
                if any(b is not a and c.path(g, g.normal(a), lambda m: m is x, avoid=lambda m: m in incs or m in allw and m is not a) and c.path(g, g.normal(x), lambda m: m is b, avoid=lambda m: m in incs) for b in allw):
                    c.viol("samples read", g.at_line(x), "%s: the iterator moves between the parts of one sample" % q, key=q + "|moves"); return
        p = inc and c.path(g, [x for n in inc for x in g.normal(n)], lambda m: m in incs, avoid=lambda m: m in xw)
        if p:
            # it may move in the same iteration before the counter does
            c.viol("samples read", g.at_line(allw[0]), "%s: the same sample can be returned twice" % q, key=q + "|twice", path=p, g=g)
    # bounded
    spans = {spanof(g, B(g.place(n))[1]) for n in allw}
    be = bound_edge(g, i, X, spans, pname(f, 2))
    cl = claimed(c, g, [[n for n, _, _ in W] for W in (V, S, T)], i, incs)
    for n in allw:
        p = c.path(g, [g.entry], lambda m: m is n, edge=lambda a, l, b: not be(a, l)) or c.path(g, [x for k in ([n] if cl else inc) for x in g.normal(k)], lambda m: m is n, edge=lambda a, l, b: not be(a, l))
        if p: c.viol("samples read", g.at_line(n), "%s: more samples may be stored than were asked for" % q, key=q + "|bound", path=p, g=g); break
    started(c, g, f, q, X, S, i)

def ix_of(n):
    e = n.d.get("place")
    while isinstance(e, dict) and e.get("k") in ("icast", "cast", "un"): e = e["e"]
    if not isinstance(e, dict): return None
    if e["k"] == "call":
        a = e.get("a") or []
        if e.get("obj") is not None and len(a) == 1: return a[0]
        if len(a) == 2: return a[1]
    if e["k"] == "sub": return e.get("i") or None
    return None

def started(c, g, f, q, X, S, i):
    fp = pname(f, 2)
    isf = lambda t: is_param(bare(g.deep(t)), fp)
    key = ("f", X, "first")
    def after_from(n, lab):
        if n.k != "branch" or lab not in ("T", "F"): return False
        a, pol = g.atom(n); v = (lab == "T") == pol
        r = bare(a)
        if r[0] != "<" or len(r) != 3: return False
        if r[1] == key and isf(a[2]): return not v
        if r[2] == key and isf(a[1]): return v
        # step >= from, with the key read into a local
        d = bare(g.deep(a))
        if d[0] == "<":
            if is_param(d[2], fp) and mentions(d[1], lambda x: x[0] == "f" and x[2] == "first"): return not v
            if is_param(d[1], fp) and mentions(d[2], lambda x: x[0] == "f" and x[2] == "first"): return v
        return False
    def not_end(n, lab):
        if n.k != "branch" or lab not in ("T", "F"): return False
        a, pol = g.atom(n); v = (lab == "T") == pol
        r = bare(a)
        return r[0] == "==" and X in r[1:] and any(x[0] == "end" for x in r[1:] if isinstance(x, tuple)) and not v
    goal = lambda m: m in {n for n, _, _ in S}
    if X[0] != "v":
        lps = [lp for lp in g.loops if lp.head in g.live() and g.container(lp) is not None and bare(X) == bare(("elem", g.container(lp), 0)) or lp.head in g.live() and X[0] == "elem" and any(n in g.body(lp) for n, _, _ in S)]
        for lp in lps:
            p = c.path(g, c.loop_starts(lp), goal, avoid=lambda m: m is lp.head, edge=lambda a, l, b: not after_from(a, l))
            if p: c.viol("samples read", g.at_line(S[0][0]), "%s: samples from before the requested step may be returned" % q, key=q + "|from", path=p, g=g)
        return
    v = g.var_of(X)
    defs = []
    for n in g.live():
        if n.k == "decl" and n.d["var"] is v and n.d.get("init") is not None: defs.append((n, bare(g.deep(g.T(n.d["init"], n.fr)))))
        elif n.k == "write" and bare(g.place(n)) == X and g.value(n) is not None and n.d.get("op") == "=": defs.append((n, bare(g.deep(g.value(n)))))
    moves = {n for n in g.live() if n.k == "write" and bare(g.place(n)) == X}
    for n, t in defs:
        if t[0] == "begin":
            p = c.path(g, g.normal(n), goal, avoid=lambda m: m in moves and m.d.get("op") == "=", edge=lambda a, l, b: not after_from(a, l))
            if p: c.viol("samples read", g.at_line(n), "%s: samples from before the requested step may be returned" % q, key=q + "|from", path=p, g=g)
        elif t[0] == "call" and last(t[1]) == "upper_bound":
            def missing(a, l):
                if a.k != "branch" or l not in ("T", "F"): return False
                at, pol = g.atom(a); val = (l == "T") == pol
                r = bare(at)
                if r[0] == "==" and any(isinstance(x, tuple) and x[0] == "end" for x in r[1:]): return val
                if r[0] == "has": return not val
                if r[0] == "==" and mentions(r, lambda x: x[0] == "call" and last(x[1]) == "count"): return val
                return False
            p = not mentions(t, lambda x: x[0] == "-") and c.path(g, [g.entry], lambda m: m is n, edge=lambda a, l, b: not missing(a, l))
            if p: c.viol("samples read", g.at_line(n), "%s: the sample of the requested step itself may be left out" % q, key=q + "|skip", path=p, g=g)
    # the end is never read
    for n, t in defs:
        p = c.path(g, g.normal(n), goal, avoid=lambda m: m in moves and m.d.get("op") == "=", edge=lambda a, l, b: not not_end(a, l))
        if p: c.viol("samples read", g.at_line(S[0][0]), "%s: the element after the last one may be read" % q, key=q + "|end", path=p, g=g); return
    adv = [m for m in moves if m.d.get("op") != "="]
    p = adv and c.path(g, [x for m in adv for x in g.normal(m)], goal, edge=lambda a, l, b: not not_end(a, l))
    if p: c.viol("samples read", g.at_line(S[0][0]), "%s: the element after the last one may be read" % q, key=q + "|end", path=p, g=g)

def synchronized(c, f):
    g = c.graph(f, track_all=True); B = Bg(g); q = f["q"]
    A, Z = span_writes(g, f, 5), span_writes(g, f, 6)
    c.ob("samples read", "%s: %d stores" % (q, len(A) + len(Z)))
    if not A or not Z: c.note("%s: the results are filled in a way that is not recognised" % q); return
    idx = set(raw(g, ix_of(n), n.fr) if ix_of(n) is not None else ix for n, ix, _ in A + Z)
    if len(idx) > 1: c.viol("samples read", g.at_line(A[0][0]), "%s: the two values of a sample are stored at different indices" % q, key=q + "|index"); return
    i = next(iter(idx))
    counting(c, g, f, q, [[n for n, _, _ in A], [n for n, _, _ in Z]], i, "samples read")
    steps = set()
    for W, s, r in ((A, 0, 1), (Z, 2, 3)):
        for n, _, v in W:
            d = B(v)
            us = {x[2] for x in sub_terms(d) if x[0] == "p" and len(x) > 2}
            bad = us & {pname(f, k) for k in (0, 1, 2, 3)} - {pname(f, s), pname(f, r)}
            if bad: c.viol("samples read", g.at_line(n), "%s takes a value of series %d from %s" % (q, s // 2 + 1, show_term(d)), key=q + "|series%d" % s); continue
            if v[0] == "at": steps.add(v[2])
            elif d[0] == "f" and d[2] == "second" and d[1][0] == "call" and last(d[1][1]) in ("lower_bound", "upper_bound"):
                if not any(m.k == "branch" and says(g, m, "T")[0][0] == "==" and mentions(says(g, m, "T")[0], lambda x: x == ("f", d[1], "first")) for m in g.live()):
                    c.viol("samples read", g.at_line(n), "%s pairs a value with that of another step: %s" % (q, show_term(d)), key=q + "|steps")
            elif d[0] == "at": steps.add(d[2])
    if len(steps) > 1: c.viol("samples read", g.at_line(A[0][0]), "%s pairs values of different steps: %s" % (q, ", ".join(sorted(map(show_term, steps)))), key=q + "|steps")
    spans = {spanof(g, B(g.place(n))[1]) for n, _, _ in A + Z}
    be = bound_edge(g, i, None, spans, pname(f, 4))
    inc, _ = bumps(g, i)
    for n, _, _ in A + Z:
        p = c.path(g, [g.entry], lambda m: m is n, edge=lambda a, l, b: not be(a, l)) or inc and c.path(g, [x for k in inc for x in g.normal(k)], lambda m: m is n, edge=lambda a, l, b: not be(a, l))
        if p: c.viol("samples read", g.at_line(n), "%s: more samples may be stored than were asked for" % q, key=q + "|bound", path=p, g=g); break

def recorder(c, f, cb, st, tm):
    g = c.graph(f, track_all=True); B = Bg(g); q = f["q"]
    S, T = pname(f, st), pname(f, tm)
    places = []
    for t in ("real", "integer"):
        calls = [n for n in g.live() if n.k == "call" and g.root(n) == SIMGET[t]]
        if not calls: c.viol("samples stored", c.db.where(f), "%s stores no %s samples" % (q, t), key="%s|%s|none" % (q, t)); continue
        c.ob("samples stored", "%s: %s" % (q, t))
        ok = False
        for n in g.live():
            for p, v in stores(g, n):
                if not (v[0] == "call" and root_of(g, calls, v)): continue
                ref = v[3] if len(v) > 3 else None
                if p[0] != "at": continue
                if not is_param(p[2], S): c.viol("samples stored", g.at_line(n), "%s stores a sample under %s instead of its own step number" % (q, show_term(p[2])), key="%s|%s|step" % (q, t)); continue
                buf = p[1]
                key = ref
                arg = v[3:]
                if buf[0] == "f" and buf[2] == "second":
                    if arg and arg[-1] != ("f", buf[1], "first") and ("f", buf[1], "first") not in arg and arg[-1] != (("f", buf[1], "first"),):
                        c.viol("samples stored", g.at_line(n), "%s stores the value of %s as a sample of another variable" % (q, show_term(arg[-1])), key="%s|%s|ref" % (q, t)); continue
                ok = True
                places.append((n, buf))
        if not ok:
            c.note("%s: how %s samples are stored is not recognised" % (q, t)); continue
        conts = {b[1][1] for n, b in places if b[0] == "f" and b[1][0] in ("elem",)}
        if conts:
            nodes = {n for n, b in places}
            cs = {b[1][1] for n, b in places if b[0] == "f" and b[1][0] == "elem" and any(root_of(g, calls, v) for _, v in stores(g, n))}
            for lp in g.loops_over(lambda x: bare(g.deep(x)) in cs):
                if lp.head not in g.live(): continue
                outer = [l for l in g.loops if l is not lp and lp.head in g.body(l)]
                kw = dict(start=c.loop_starts(outer[0]), dst=lambda m: m is outer[0].head) if outer else {}
                c.covers("samples stored", g, "storing the %s samples" % t, [lp], lambda n, l: n in nodes, **kw)
    tw = []
    for n in g.live():
        for p, v in stores(g, n):
            if p[0] == "at" and is_param(v, T):
                tw.append((n, p))
                if not is_param(p[2], S): c.viol("samples stored", g.at_line(n), "%s stores the time under %s instead of the step number" % (q, show_term(p[2])), key=q + "|timestep")
    c.ob("samples stored", "%s: time" % q)
    if not tw:
        if not any(T in str(B(a)) for n in g.live() if n.k == "call" for a in g.args(n)): c.viol("samples stored", c.db.where(f), "%s does not store the time of the step" % q, key=q + "|time")
        else: c.note("%s: how the time is stored is not recognised" % q)
    elif not skipping_ok(c, g, f, [n for n, _ in tw]): c.viol("samples stored", g.at_line(tw[0][0]), "%s may not store the time of the step" % q, key=q + "|timeskip")
    for n, p in tw: places.append((n, p[1]))
    for n, buf in places: bounded(c, g, q, n, buf)

def skipping_ok(c, g, f, nodes):
    for lp in g.loops:
        pass
    # per observed simulator (a loop) or once
    ls = [lp for lp in g.loops if lp.head in g.live() and any(n in g.body(lp) for n in nodes)]
    if ls:
        c.covers("samples stored", g, "recording the step", ls[:1], lambda n, lp: n in nodes)
        return True
    return c.path(g, [g.entry], lambda m: m is g.exit, avoid=lambda m: m in nodes, edge=lambda a, l, b: l not in ("exc", "term")) is None

def root_of(g, calls, v): return any(v == bare(g.deep(g.T(n.e, n.fr))) for n in calls)

def bounded(c, g, q, n, buf):
    B = Bg(g)
    what = show_term(buf)
    c.ob("buffer bounded", "%s: %s" % (q, what))
    tests = []
    for m in g.live():
        if m.k != "branch": continue
        a, pol = g.atom(m)
        d = B(a)
        if d[0] == "<" and len(d) == 3 and ("size", buf) in d[1:]: tests.append((m, d, pol))
        elif d[0] == "==" and ("size", buf) in d[1:]: tests.append((m, d, pol))
        elif mentions(d, lambda x: x == ("size", buf)): c.note("%s: test of the size of %s not recognised" % (q, what)); return
    erases = [m for m in g.live() if m.k == "call" and m.e.get("obj") is not None and B(g.obj(m)) == buf and last(m.e.get("fn")) in ("erase", "pop_front", "pop_back", "clear", "extract")]
    if not erases:
        if not any(m.k == "call" and any(mentions(B(x), lambda y: y == buf) for x in g.args(m)) and m.e.get("fn") and "cosim" in m.e["fn"] for m in g.live()):
            c.viol("buffer bounded", g.at_line(n), "%s: nothing is ever removed from %s" % (q, what), key=q + "|never|" + what)
        return
    for m in erases:
        nm = last(m.e.get("fn"))
        a = [B(x) for x in g.args(m)]
        if nm == "erase" and a and a[0] in (("begin", buf),) and len(a) == 1: continue
        if nm == "erase" and len(a) == 1 and a[0] in (("f", ("begin", buf), "first"), ("f", ("*", ("begin", buf)), "first")): continue
        if nm in ("pop_back", "clear") or nm == "erase" and (mentions(a[0], lambda x: x[0] in ("end", "back") or x[0] == "call" and last(x[1]) in ("rbegin", "prev", "rend"))):
            c.viol("buffer bounded", g.at_line(m), "%s removes %s instead of the oldest sample" % (q, "everything" if nm == "clear" else "the newest sample"), key=q + "|which|" + what); return
        c.note("%s: %s removes %s" % (q, what, ", ".join(map(show_term, a))))
    if not tests: 
        for m in erases:
            p = c.path(g, [g.entry], lambda x: x is m)
            if p and not ("cap" in show_term(buf)): c.note("%s: removal from %s without a recognised test" % (q, what))
        return
    cap = None
    def over(m, lab):
        """True: the edge says the buffer is over capacity; False: it is not; None: nothing."""
        for t, d, pol in tests:
            if t is not m: continue
            v = (lab == "T") == pol
            if d[0] == "==": return "eq", v
            if d[2] == ("size", buf): return "gt", v       # cap < size
            return "lt", v                                  # size < cap
        return None, None
    before = all(c.path(g, g.normal(n), lambda x: x is t, avoid=lambda x: x is n or x.k == "loop") is None for t, _, _ in tests)
    dst = lambda m: m is g.exit or m.k == "loop"
    if not before:
        # insertion first: over capacity -> erase;   not over -> no erase
        if all(d[0] == "<" and d[2] == ("size", buf) for _, d, _ in tests):
            for t, d, pol in tests:
                big = [l for l in ("T", "F") if over(t, l)[1]]
                p = c.path(g, [(t, l) for l in big], dst, avoid=lambda m: m in erases)
                if p: c.viol("buffer bounded", g.at_line(t), "%s: %s may stay above its capacity" % (q, what), key=q + "|over|" + what, path=p, g=g)
                small = [l for l in ("T", "F") if l not in big]
                p = c.path(g, [(t, l) for l in small], lambda m: m in erases, avoid=lambda m: m is n or m is t)
                if p: c.viol("buffer bounded", g.at_line(t), "%s: samples may be removed from %s below its capacity" % (q, what), key=q + "|under|" + what, path=p, g=g)
                if not capfield(d[1]): c.note("capacity of %s is %s" % (what, show_term(d[1])))
                if d[1][0] in ("+", "-", "int"): c.viol("buffer bounded", g.at_line(t), "%s: %s is compared with %s instead of its capacity" % (q, what, show_term(d[1])), key=q + "|cap|" + what)
        elif all(d[0] == "<" for _, d, _ in tests):
            # size < cap tested after the insertion: at capacity the oldest sample is already dropped
            for t, d, pol in tests:
                full = [l for l in ("T", "F") if not over(t, l)[1]]
                if c.path(g, [(t, l) for l in full], lambda m: m in erases, avoid=lambda m: m is n or m is t): c.viol("buffer bounded", g.at_line(t), "%s: %s holds fewer samples than its capacity" % (q, what), key=q + "|under|" + what)
        p = c.path(g, g.normal(n), dst, avoid=lambda m: any(m is t for t, _, _ in tests) or m in erases)
        if p: c.viol("buffer bounded", g.at_line(n), "%s: %s may grow without its size being tested" % (q, what), key=q + "|untested|" + what, path=p, g=g)
    else:
        for t, d, pol in tests:
            if d[0] == "<" and d[2] == ("size", buf):
                c.viol("buffer bounded", g.at_line(t), "%s: %s exceeds its capacity by one: it is tested before the insertion" % (q, what), key=q + "|over|" + what)
            elif d[0] == "<":
                full = [l for l in ("T", "F") if not over(t, l)[1]]
                p = c.path(g, [(t, l) for l in full], lambda m: m is n, avoid=lambda m: m in erases)
                if p: c.note("%s: insertion into a full %s" % (q, what))

def capfield(t): return t[0] == "f"

def capacity(c):
    db = c.db
    cls = "cosim::time_series_observer"
    ct = [f for f in db.F.values() if f.get("cls") == cls and f.get("body") is not None and f["n"] == "time_series_observer" and len(f["p"]) == 1 and "long" in f["p"][0]["t"] + " long"]
    ct = [f for f in ct if "time_series_observer" not in f["p"][0]["t"]]
    if not ct: c.note("no constructor with a capacity"); return
    f = ct[0]; g = c.graph(f, track_all=True); B = Bg(g)
    nm = pname(f, 0)
    c.ob("buffer bounded", "%s: capacity" % f["q"])
    same = {pl for n in g.live() for pl, v in stores(g, n) if pl[0] == "f" and is_param(v, nm)}
    def zero_edge(n, lab, m):
        a, v = says(g, n, lab)
        if a is None: return True
        p = next((x for x in sub_terms(a) if is_param(x, nm) or x in same), None)
        if p is None: return True
        return zero({a: v}, p) is not False
    p = c.path(g, [g.entry], lambda m: m is g.exit, edge=zero_edge)
    if p: c.viol("buffer bounded", db.where(f), "a capacity of zero is accepted", key="ctor|zero", path=p, g=g)
    st = [n for n in g.live() for pl, v in stores(g, n) if pl[0] == "f" and pl[1] == ("this",) and is_param(v, nm)]
    flds = {pl[2] for n in g.live() for pl, v in stores(g, n) if pl[0] == "f" and pl[1] == ("this",) and is_param(v, nm)}
    if not st: c.viol("buffer bounded", db.where(f), "the capacity given to the constructor is not kept", key="ctor|kept"); return
    for a in c.impls(OBS + "simulator_added"):
        if a["cls"] != cls: continue
        g2 = c.graph(a, track_all=True); B2 = Bg(g2)
        hit = any(mentions(B2(v), lambda x: x[0] == "f" and x[1] == ("this",) and x[2] in flds) for n in g2.live() for pl, v in stores(g2, n)) or any(mentions(B2(x), lambda y: y[0] == "f" and y[1] == ("this",) and y[2] in flds) for n in g2.live() if n.k == "call" for x in g2.args(n))
        if not hit: c.viol("buffer bounded", db.where(a), "the configured capacity does not reach the buffers of a simulator", key="added|capacity")
