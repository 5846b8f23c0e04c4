"""C17: the file observer records every due step while recording."""
from c16 import *
RULE = """
For the file observer's call-backs for a completed step and the initialised simulation (all calls inlined), with branch outcomes decided
by the situation: (1) while the observer and the writer record, the simulator is logged and the step is a multiple of the decimation
factor, no path returns without rows having been inserted into the file stream, whether the file was open before or not; (2) with any of
these flags off, or for a step that is not a multiple, no row is written; (3) after every open of a stream that is written to, no normal
return is reached if the stream then reports failure, the stream tested being the one opened; (4) a file that may exist already is
opened for appending; (5) start / stop switch the flag of every writer; the decimation factor is never zero; the multiple test uses the
step number and the factor of this simulator's configuration.
"""
ASSUME = ["a stream's open() leaves it open or failed"]

def file_streams(c, g):
    """(node, stream term, args) of every open of an output file stream."""
    B = Bg(g); out = []
    for n in g.live():
        if n.k != "call": continue
        fn = n.e.get("fn") or ""
        if re.search(r"basic_(o|)fstream<", fn) and last(fn) == "open": out.append((n, B(g.obj(n)), [B(x) for x in g.args(n)]))
    for n in g.live():
        if n.k == "decl" and re.match(r"(std::)?(basic_)?o?fstream|std::basic_ofstream", (n.d["var"].t or "")) and n.d.get("init") is not None:
            t = g.T(n.d["init"], n.fr)
            if t[0] == "new" and t[2]: out.append((n, bare(n.d["var"].term), [B(x) for _, x in t[2]]))
    return out

def state(g, n, lab, stream):
    """(kind, truth) where the edge says something about the stream: 'open' or 'fail'."""
    a, v = says(g, n, lab)
    if a is None: return None, None
    a = nf(a)
    t = a[1] if a[0] == "truthy" else a
    if t[0] == "call" and len(t) > 2 and t[2] == stream:
        nm = last(t[1])
        if nm == "is_open": return "open", v
        if nm in ("fail", "bad"): return "fail", v
        if nm in ("good", "operator bool"): return "fail", not v
        if nm in ("operator!",): return "fail", v
    if t == stream: return "fail", not v
    return None, None

def check(c):
    for q, f, st, tm in callbacks(c): one(c, q, f, pname(f, st))
    switches(c)
    factor(c)
    c.need("due steps", 4); c.need("opens checked", 4); c.need("switches", 2)

def mod_test(g, n, lab, S):
    """Truth of 'the step is a multiple of the factor' that an edge establishes, and the factor."""
    a, v = says(g, n, lab)
    if a is None: return None, None
    a = nf(a)
    m = [x for x in sub_terms(a) if x[0] == "%" and mentions(x[1], lambda y: is_param(y, S))]
    if not m: return None, None
    r = m[0]
    z = zero({a: v}, r)
    if z is None and a[0] == "==" and r in a[1:]: return "odd", None
    return z, r[2]

def flag(a, v):
    """A bool field (or atomic) tested by an edge."""
    t = nf(a)
    if t[0] == "truthy": t = t[1]
    if t[0] == "call" and last(t[1]) in ("load", "operator bool") and len(t) > 2: t = t[2]
    return t if t[0] == "f" else None

def one(c, q, f, S):
    g = c.graph(f); B = Bg(g); fq = f["q"]
    toks, F, direct = tokens(c, g)
    if not toks: raise AnalysisError("%s: no output recognised" % fq)
    names = kinds(toks)
    rows = []
    for key, ns in line_groups(g, toks):
        if not any(n in names for n in ns) and any(text(p) is None for n in ns for p in toks[n].pieces): rows += ns
    rowset = set(rows)
    # the insertion of the rows into the file
    streams = {toks[n].stream for n in rows}
    out = {n for n in direct if n in rowset or any(strip_stream(streamin(g, n)[1]) == s for s in streams)}
    # a header kept in the same kind of stream is not a row
    if not out: c.note("%s: how rows reach the file is not recognised" % fq); return
    stream = streamin(g, next(iter(out)))[0]
    opens = [x for x in file_streams(c, g) if x[1] == stream]
    onodes = {n for n, _, _ in opens}
    rec = recflags(c, g)
    def edge(pre, decided):
        def e(n, lab, m):
            if lab in ("exc", "term"): return False
            if n.k == "loop" and lab == "F" and n in outer_heads: return n.id not in skip_empty
            if n.k != "branch" or lab not in ("T", "F"): return True
            a, v = says(g, n, lab)
            k, v2 = state(g, n, lab, stream)
            if k == "fail": return not v2
            if k == "open":
                if n in pre: return v2 == decided["open"]
                return v2
            an = nf(a)
            t = flag(a, v)
            if t is not None and t in rec: return v == decided["rec"]
            z, fac = mod_test(g, n, lab, S)
            if z in (True, False): return z == decided["due"]
            if an[0] == "has" and not mentions(an, lambda x: x[0] == "pred"): return v
            return True
        return e
    outer_heads, skip_empty = set(), set()
    # branches that may be reached before the file has been opened in this call
    pre = set()
    seen, st = set(), [g.entry]
    isopen = lambda n: n.k == "branch" and state(g, n, "T", stream)[0] == "open"
    while st:
        n = st.pop()
        if n in seen or n in onodes: continue
        seen.add(n)
        if isopen(n): pre.add(n)
        for lab, m in n.succ:
            if isopen(n) and state(g, n, lab, stream)[1]: continue
            st.append(m)
    # starts: per writer if there are several
    loops = [lp for lp in g.loops if lp.head in g.live() and any(n in g.body(lp) for n in out)]
    loops = [lp for lp in loops if any(o in g.body(lp) for o in onodes) or not any(l2 is not lp and lp.head in g.body(l2) for l2 in loops) and not buffered(g, lp)]
    if loops:
        lp = loops[0]
        starts, goal = c.loop_starts(lp), lambda m: m is lp.head or m is lp.exit
        if lp.partial: c.viol("due steps", g.at_line(lp.head), "%s: not every writer records: %s" % (fq, lp.partial), key=q + "|partial")
        p = c.path(g, starts, lambda m: m is lp.exit, avoid=lambda m: m is lp.head, edge=lambda n, l, m: l not in ("exc", "term"), track=False)
        if p: c.viol("due steps", g.at_line(lp.head), "%s: the loop over the writers can end early" % fq, key=q + "|partial", path=p, g=g)
        # the writers are visited while recording
        p = c.path(g, [g.entry], lambda m: m is g.exit, avoid=lambda m: m is lp.head, edge=edge(pre, {"open": True, "rec": True, "due": True}), track=False)
        if p: c.viol("due steps", c.db.where(f), "%s: a writer may not be asked to record while recording" % fq, key=q + "|unasked", path=p, g=g)
    else: starts, goal = [g.entry], lambda m: m is g.exit
    for opn in (True, False):
        c.ob("due steps", "%s: file %s" % (fq, "open" if opn else "not open"))
        p = c.path(g, starts, goal, avoid=lambda m: m in out, edge=edge(pre, {"open": opn, "rec": True, "due": True}), track=False)
        if p and not flushed(c, out):
            c.viol("due steps", c.db.where(f), "%s: a step that is due may not be written to the file" % fq, key="%s|lost" % q, path=p, g=g)
        elif p: c.note("%s: rows are buffered" % fq)
        for d, what in (({"open": opn, "rec": False, "due": True}, "while not recording"), ({"open": opn, "rec": True, "due": False}, "for a step that decimation leaves out")):
            ft = any(mod_test(g, n, "T", S)[0] is not None for n in g.live() if n.k == "branch") if not d["due"] else bool(rec)
            if not ft:
                c.viol("due steps", c.db.where(f), "%s: %s is not considered" % (fq, "the decimation factor" if not d["due"] else "whether recording is on"), key="%s|unconditional|%s" % (q, what)); continue
            p = c.path(g, starts, lambda m: m in out or m in rowset, edge=edge(pre, d), avoid=goal, track=False)
            if p: c.viol("due steps", c.db.where(f), "%s: a row may be written %s" % (fq, what), key="%s|undue|%s" % (q, what), path=p, g=g)
    for n in g.live():
        if n.k == "branch" and mod_test(g, n, "T", S)[0] == "odd": c.viol("due steps", g.at_line(n), "steps are not counted from the start: %s" % show_term(B(g.T(n.e, n.fr))), key=q + "|multiple")
    # opens
    for n, s, a in file_streams(c, g):
        c.ob("opens checked", "%s: %s" % (g.at_line(n), show_term(s)))
        def failing(m, lab, x, s=s):
            if lab in ("exc", "term"): return False
            k, v = state(g, m, lab, s)
            if k == "open": return not v
            if k == "fail": return v
            return True
        if not any(streamin(g, m) and streamin(g, m)[0] == s for m in g.live()): continue
        p = c.path(g, g.normal(n), lambda m: m is g.exit or loops and m is loops[0].head, edge=failing, track=False)
        if p: c.viol("opens checked", g.at_line(n), "%s: failure to open %s goes unreported" % (n.fr.fn["q"], show_term(s)), key="%s|%s" % (q, show_term(strip_w(s))), path=p, g=g)
        if s == stream and not append_mode(a):
            # only a name with a time stamp is new
            c.viol("opens checked", g.at_line(n), "the result file is not opened for appending: what was recorded before is lost when recording resumes", key=q + "|append")

def strip_w(s): return ("f", ("this",), s[2]) if s[0] == "f" else ("v", "", "", s[-1])
def append_mode(a):
    if len(a) < 2: return False
    return mentions(a[1], lambda x: any(isinstance(y, str) and y.endswith("::app") for y in x)) or not mentions(a[1], lambda x: any(isinstance(y, str) and y.startswith("std::ios_base::") for y in x))

def buffered(g, lp):
    """A loop over what was collected (its elements are keyed by step)."""
    cont = g.container(lp)
    return cont is None or not any(True for n in g.body(lp) if n.k == "call" and "is_open" in (n.e.get("fn") or ""))

def recflags(c, g):
    """bool / atomic<bool> fields whose meaning is 'recording': those that start_recording sets."""
    out = set()
    names = set()
    for f in c.fns(FO + "::start_recording"):
        g2 = c.graph(f); B2 = Bg(g2)
        for n in g2.live():
            if n.k == "write" and n.d.get("op") in ("=", "init") and g2.value(n) is not None and B2(g2.value(n)) == ("bool", True):
                p = B2(g2.place(n))
                if p[0] == "f": names.add(p[2])
            if n.k == "call" and last(n.e.get("fn")) in ("store", "exchange") and n.e.get("obj") is not None and g2.args(n) and B2(g2.args(n)[0]) == ("bool", True):
                p = B2(g2.obj(n))
                if p[0] == "f": names.add(p[2])
    B = Bg(g)
    for n in g.live():
        if n.k == "branch":
            t = flag(says(g, n, "T")[0], True)
            if t is not None and t[2] in names: out.add(t)
    return out

def flushed(c, out):
    """Are rows written when recording stops and when the observer goes away?"""
    ok = 0
    for q in (FO + "::stop_recording",):
        for f in c.fns(q):
            g = c.graph(f)
            if tokens(c, g)[0]: ok += 1
    return ok > 0 and any(tokens(c, c.graph(f))[0] for f in c.db.F.values() if f.get("cls", "").startswith(FO) and f["n"].startswith("~") and f.get("body") is not None)

def switches(c):
    for nm, val in (("start_recording", True), ("stop_recording", False)):
        for f in c.fns(FO + "::" + nm):
            if f["cls"] != FO: continue
            g = c.graph(f); B = Bg(g)
            sets, other = [], []
            for n in g.live():
                v, p = None, None
                if n.k == "write" and n.d.get("op") in ("=",) and g.value(n) is not None: v, p = B(g.value(n)), B(g.place(n))
                if n.k == "call" and last(n.e.get("fn")) in ("store", "exchange") and n.e.get("obj") is not None and g.args(n): v, p = B(g.args(n)[0]), B(g.obj(n))
                if p is not None and p[0] == "f" and v in (("bool", True), ("bool", False)): sets.append((n, p, v == ("bool", True)))
            own = [n for n, p, v in sets if p[1] == ("this",)]
            c.ob("switches", "%s: %s" % (f["q"], ", ".join(sorted({show_term(p) for n, p, v in sets}))))
            for n, p, v in sets:
                if v != val: c.viol("switches", g.at_line(n), "%s switches %s %s" % (f["q"], show_term(p), "on" if v else "off"), key=nm + "|wrong")
            if not own: c.viol("switches", c.db.where(f), "%s does not switch the observer %s" % (f["q"], "on" if val else "off"), key=nm + "|none"); continue
            p = c.path(g, [g.entry], lambda m: m is g.exit, avoid=lambda m: m in own, edge=lambda a, l, b: l not in ("exc", "term"))
            if p: c.viol("switches", c.db.where(f), "%s may return without having switched the observer %s" % (f["q"], "on" if val else "off"), key=nm + "|skipped", path=p, g=g)
    # flags that the writers have of their own
    names = {}
    for q, f, st, tm in callbacks(c):
        g = c.graph(f)
        for t in recflags(c, g):
            if t[1] != ("this",): names[t[2]] = t
    for nm, t in names.items():
        for fn, val in (("start_recording", True), ("stop_recording", False)):
            for f in c.fns(FO + "::" + fn):
                if f["cls"] != FO: continue
                g = c.graph(f); B = Bg(g)
                def ev(n, lp):
                    if n.k == "write" and g.value(n) is not None and B(g.place(n))[0] == "f" and B(g.place(n))[2] == nm: return True
                    return n.k == "call" and last(n.e.get("fn")) in ("store", "exchange") and n.e.get("obj") is not None and B(g.obj(n))[0] == "f" and B(g.obj(n))[2] == nm
                if any(ev(n, None) for n in g.live()) or val:
                    c.each("switches", g, "switching every writer", lambda x: mentions(nf(bare(g.deep(x))), lambda y: y[0] == "f" and y[1] == ("this",)), ev)

def factor(c):
    """The public ways to configure a decimation factor refuse zero."""
    cls = "cosim::file_observer_config"
    n = 0
    for f in c.db.F.values():
        if f.get("cls") != cls or f.get("body") is None or f.get("acc") != 0: continue
        ps = [p["n"] for p in f["p"] if re.search(r"optional<(unsigned|size_t|std::size_t)|^unsigned long$", p["t"])]
        if not ps: continue
        g = c.graph(f); B = Bg(g)
        for pn in ps:
            st = [m for m in g.live() if m.k == "write" and g.value(m) is not None and mentions(B(g.value(m)), lambda x: is_param(x, pn)) and B(g.place(m))[0] == "f"]
            if not st: continue
            n += 1
            c.ob("switches", "%s: %s" % (f["q"], pn))
            vals = {B(g.value(m)) for m in st}
            def edge(m, lab, x):
                if lab in ("exc", "term"): return False
                a, v = says(g, m, lab)
                if a is None: return True
                for y in sub_terms(a):
                    if isinstance(y, tuple) and y and mentions(y, lambda z: is_param(z, pn)):
                        z = zero({a: v}, y)
                        if z is not None: return z
                return True
            p = c.path(g, [g.entry], lambda m: m is g.exit, edge=edge)
            if p and not guarded_use(c): c.viol("switches", c.db.where(f), "%s accepts a decimation factor of zero, by which the step number is divided" % f["q"], key="zero|" + f["n"], path=p, g=g)
    if not n: c.note("no configuration of decimation factors found")
def guarded_use(c):
    """Is the division guarded where it is made?"""
    for q, f, st, tm in callbacks(c):
        g = c.graph(f); B = Bg(g); S = pname(f, st)
        for n in g.live():
            if n.k != "branch": continue
            z, fac = mod_test(g, n, "T", S)
            if fac is None: continue
            def edge(m, lab, x):
                if lab in ("exc", "term"): return False
                a, v = says(g, m, lab)
                if a is None: return True
                y = zero({nf(a): v}, fac)
                return y is not False
            if c.path(g, [g.entry], lambda m: m is n, edge=edge): return False
    return True
