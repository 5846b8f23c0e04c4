"""C16: the columns of the file observer's result files."""
from slvsim import *
FO = "cosim::file_observer"
RULE = """
All text that the call-back for a completed step inserts into the result file (directly, or into a string stream that is inserted
into it), all calls inlined, is laid out along the control flow graph as lines: literals, values and per-container groups. (1) The
header line consists of fixed columns followed by one group per list of logged variables, each writing one separator and the name of
every element; (2) every row has the same layout - same separators, same number of fixed columns (time, then step count), one value
per group element - and its groups, mapped through where the observed values were collected, come in the order of the header's groups;
(3) for each element of each list of variables the value obtained for that element's reference, by the getter of the list's type, is
collected under the step being recorded, in list order; (4) a variable enters exactly the list of its own type; (5) what was written
is removed from the buffer before the call-back returns.
"""
ASSUME = ["stream insertion writes its arguments in order", "a container's element count for a step equals the number of variables collected for it"]

_Bg = Bg
def nf(t):
    """A look-up's result is the element."""
    if not isinstance(t, tuple): return t
    if len(t) == 3 and t[0] == "f" and t[2] == "second" and isinstance(t[1], tuple) and t[1] and t[1][0] == "find" and len(t[1]) == 3: return ("at", nf(t[1][1]), nf(t[1][2]))
    return tuple(nf(x) for x in t)
def Bg(g):
    b = _Bg(g)
    return lambda t: nf(b(t))

def streamin(g, n):
    """(stream, inserted term) of an insertion."""
    if n.k != "call" or last(n.e.get("fn")) != "operator<<": return None
    B = Bg(g)
    a = g.args(n)
    ae = n.e.get("a") or []
    def val(i):
        x = ae[i] if i < len(ae) else None
        while isinstance(x, dict) and x["k"] in ("icast", "cast"): x = x["e"]
        if isinstance(x, dict) and x["k"] == "char": return ("str", chr(int(x["v"])))
        return B(a[i])
    if n.e.get("obj") is not None:
        return B(g.obj(n)), val(0) if a else None
    if len(a) == 2: return B(a[0]), val(1)
    return None

def sinks(c, g):
    """File streams that outlive the call: fields (of this or of what it owns)."""
    out = set()
    for n in g.live():
        x = streamin(g, n)
        if x and x[0][0] == "f" and is_fstream(c, x[0]): out.add(x[0])
    return out
def is_fstream(c, t):
    return t[0] == "f" and any(f["n"] == t[2] and re.search(r"basic_ofstream|basic_fstream|std::ofstream|std::fstream|basic_ostream|std::ostream", f["t"]) for r in c.db.R.values() for f in r["fields"])

def strip_stream(t):
    """ss.rdbuf(), ss.str() -> ss."""
    while t[0] == "call" and last(t[1]) in ("rdbuf", "str", "view") and len(t) > 2: t = t[2]
    return t

def flat(t):
    """Pieces of an inserted term: concatenations are several pieces."""
    if t[0] == "+" : return flat(t[1]) + flat(t[2])
    if t[0] == "call" and last(t[1]) == "operator+" and len(t) == 4: return flat(t[2]) + flat(t[3])
    if t[0] == "cond": return [t]
    return [t]
def text(t):
    if t[0] == "str": return t[1]
    if t[0] == "char": return chr(t[1]) if isinstance(t[1], int) else str(t[1])
    if t[0] == "int" : return None
    if t[0] == "fn" and last(str(t[1])) == "endl": return "\n"
    return None
MANIP = {"fixed", "scientific", "defaultfloat", "setprecision", "left", "right", "setw", "setfill", "boolalpha", "noboolalpha", "dec", "flush", "internal"}
def manip(t):
    return t[0] in ("fn", "call", "new", "g") and len(t) > 1 and any(last(str(t[1])) == m or str(t[1]).endswith("::" + m) or str(t[1]) == "std::" + m for m in MANIP)

class Tok: pass
def tokens(c, g):
    F = sinks(c, g)
    B = Bg(g)
    via = {}
    ins = []
    for n in g.live():
        x = streamin(g, n)
        if not x or x[1] is None: continue
        ins.append((n, x[0], x[1]))
    ok = set(F)
    for _ in range(3):
        for n, s, t in ins:
            if s in ok: ok.add(strip_stream(t)) if strip_stream(t)[0] in ("v", "p", "f") and (strip_stream(t) != t or any(s2 == t for _, s2, _ in ins)) else None
    out = {}
    for n, s, t in ins:
        if s not in ok: continue
        if strip_stream(t) in ok: continue
        if manip(t): continue
        k = Tok(); k.n = n; k.pieces = flat(t); k.stream = s
        out[n] = k
    return out, F, [n for n, s, t in ins if s in F]

def has_newline(k): return any("\n" in (text(p) or "") for p in k.pieces)

def decide(g, extra=None):
    """Branch outcomes while a step is recorded: things looked up are there, files are open."""
    def edge(n, lab, m):
        if lab in ("exc", "term"): return False
        if n.k != "branch" or lab not in ("T", "F"): return True
        a, v = says(g, n, lab)
        if a[0] == "has" and not mentions(a, lambda x: x[0] == "pred"): return v
        if mentions(a, lambda x: x[0] == "call" and last(str(x[1])) == "count"): return v if a[0] != "==" and a[0] != "empty" else not v
        if a[0] == "pos" and mentions(a, lambda x: x[0] == "call" and last(str(x[1])) == "count"): return v
        if a[0] == "empty" : return not v
        return True
    return edge

def subst_all(y, a, b):
    if y == a: return b
    if isinstance(y, tuple): return tuple(subst_all(x, a, b) for x in y)
    if isinstance(y, frozenset): return frozenset(subst_all(x, a, b) for x in y)
    return y

class Layout:
    def __init__(self, c, g, toks, edge, stop):
        self.c, self.g, self.toks, self.edge, self.stop = c, g, toks, edge, stop
        self.budget = 4000
    def loops_in(self, nodes, skip=()):
        out = []
        for lp in self.g.loops:
            if lp.head not in self.g.live() or lp in skip: continue
            b = set(self.g.body(lp))
            mine = [n for n in nodes if n in b]
            if mine and not any(has_newline(self.toks[n]) for n in mine): out.append((lp, mine))
        # outermost first
        return [x for x in out if not any(y[0] is not x[0] and x[0].head in set(self.g.body(y[0])) for y in out)]
    def lines(self, starts, nodes, ends, skip=()):
        """All token sequences from starts to ends (a predicate on nodes)."""
        loops = self.loops_in(nodes, skip)
        inl = {n for lp, mine in loops for n in mine}
        heads = {lp.head: (lp, mine) for lp, mine in loops}
        top = set(nodes) - inl
        res = set()
        memo = {}
        def nexts(starts):
            seen, st, out = set(), [], []
            for a, l in starts:
                for lab, m in a.succ:
                    if l is not None and lab != l: continue
                    if self.edge(a, lab, m): st.append(m)
            while st:
                n = st.pop()
                if n in seen: continue
                seen.add(n)
                if ends(n): out.append(("end", n)); continue
                if n in top or n in heads: out.append(("item", n)); continue
                for lab, m in n.succ:
                    if self.edge(n, lab, m): st.append(m)
            return out
        def go(starts, acc, used):
            self.budget -= 1
            if self.budget < 0: raise AnalysisError("layout of a line is too complex")
            for k, n in nexts(starts):
                if k == "end": res.add(tuple(acc)); continue
                if n in used: continue
                if n in heads:
                    lp, mine = heads[n]
                    if lp.partial: body = frozenset([("partial", lp.partial)])
                    else: body = frozenset(self.lines([(lp.head, "T")] if n.k == "loop" else [(a, b) for a, b in lp.tstart], mine, lambda m: m is n, skip + (lp,) + tuple(l for l in self.g.loops if n in set(self.g.body(l)))))
                    cont = self.g.container(lp)
                    cc = nf(bare(self.g.deep(cont))) if cont is not None else None
                    if cc is not None and cc[0] == "list" and len(body) == 1 and not lp.partial:
                        # a loop over a list of lists: one group each
                        items = cc[1] if len(cc) == 2 and isinstance(cc[1], tuple) and cc[1] and isinstance(cc[1][0], tuple) else cc[1:]
                        exp = []
                        for x in items: exp += [subst_all(y, ("elem", cc), x) for y in next(iter(body))]
                        go([(lp.exit, None)], acc + exp, used | {n})
                        continue
                    go([(lp.exit, None)] , acc + [("loop", nf(bare(self.g.deep(cont))) if cont is not None else None, body, n)], used | {n})
                else:
                    t = self.toks[n]
                    add = []
                    for p in t.pieces:
                        x = text(p)
                        add.append(("text", x) if x is not None else ("val", p))
                    if has_newline(t): res.add(tuple(acc + add)); continue
                    go([(n, None)], acc + add, used | {n})
        go(starts, [], frozenset())
        return res

def norm(line):
    """Merge texts."""
    out = []
    for x in line:
        if x[0] == "text" and out and out[-1][0] == "text": out[-1] = ("text", out[-1][1] + x[1])
        else: out.append(x)
    return out
def pattern(line, words=True):
    """Separator pattern of a piece of a line; words count as values."""
    s = ""
    for x in norm(line):
        if x[0] == "text": s += re.sub(r"[^,;|\t\n]+", "V", x[1])
        elif x[0] == "val": s += "V"
        elif x[0] == "loop": s += "<>"
        elif x[0] == "partial": s += "?"
    return re.sub("V+", "V", s)

def callbacks(c):
    out = []
    for q, st, tm in (("simulation_initialized", 0, 1), ("simulator_step_complete", 1, 3)):
        for f in c.impls(OBS + q):
            if f["cls"] == FO: out.append((q, f, st, tm))
    if not out: raise AnalysisError("%s does not implement the observer call-backs" % FO)
    return out

def check(c):
    types = {}
    for q, f, st, tm in callbacks(c): one(c, q, f, pname(f, st), pname(f, tm), types)
    owner = [q for q, r in c.db.R.items() if set(types) and set(types) <= {x["n"] for x in r["fields"]}]
    for f in c.db.F.values():
        if f.get("cls") in owner and f.get("body") is not None and not f.get("dependent") and f["q"].split("::")[-1] == f["q"].split("::")[-2] and any("observable" in p["t"] for p in f["p"]): lists(c, f, types)
    c.need("lines laid out", 4); c.need("values collected", 8); c.need("lists by type", 4)

def kinds(toks):
    """Names are written in the header; anything with the step or the time in rows."""
    return [n for n, k in toks.items() if any(p[0] == "f" and p[2] == "name" for p in k.pieces)]

def line_groups(g, toks):
    """Tokens grouped by the line they end up in (the newlines they can reach first)."""
    nl = {n for n, k in toks.items() if has_newline(k)}
    groups = {}
    for n in toks:
        if n in nl: key = frozenset([n])
        else:
            seen, st, hit = set(), [m for l, m in n.succ if l not in ("exc", "term")], set()
            while st:
                m = st.pop()
                if m in seen: continue
                seen.add(m)
                if m in nl: hit.add(m); continue
                st += [x for l, x in m.succ if l not in ("exc", "term")]
            key = frozenset(hit)
        groups.setdefault(key, set()).add(n)
    # lines that share a newline are variants of the same line
    out = []
    for k, ns in groups.items():
        for o in out:
            if o[0] & k: o[0] |= k; o[1] |= ns; break
        else: out.append([set(k), set(ns)])
    return out

def one(c, q, f, S, T, types):
    g = c.graph(f, track=False) if False else c.graph(f); B = Bg(g)
    toks, F, direct = tokens(c, g)
    fq = f["q"]
    if not toks: c.note("%s: how the result file is written is not recognised" % fq); return
    names = kinds(toks)
    hdr, rows = [], []
    for key, ns in line_groups(g, toks):
        (hdr if any(n in names for n in ns) else rows).append((key, ns))
    # rows carry values
    rows = [(k, ns) for k, ns in rows if any(text(p) is None for n in ns for p in toks[n].pieces)]
    if len(hdr) != 1 or len(rows) != 1:
        if not rows and hdr: c.viol("lines laid out", c.db.where(f), "%s writes no rows" % fq, key=q + "|rows")
        else: c.note("%s: header and rows of the result file are not told apart (%d, %d)" % (fq, len(hdr), len(rows)))
        return
    edge = decide(g)
    L = Layout(c, g, toks, edge, None)
    H = L.lines([(g.entry, None)], hdr[0][1], lambda n: False)
    R = L.lines([(g.entry, None)], rows[0][1], lambda n: False)
    c.ob("lines laid out", "%s: header %s" % (fq, "; ".join(sorted(shape(x) for x in H))))
    c.ob("lines laid out", "%s: row %s" % (fq, "; ".join(sorted(shape(x) for x in R))))
    where = g.at_line(sorted(hdr[0][1], key=lambda n: n.id)[0]); rwhere = g.at_line(sorted(rows[0][1], key=lambda n: n.id)[0])
    if not H or not R: c.note("%s: lines of the result file not recognised" % fq); return
    maps = collected(c, g, f, S, T, q, types)
    # the header
    pats = {pattern(x) for x in H}
    for x in H:
        seen = []
        for it in x:
            if it[0] != "loop": continue
            for b in it[2]:
                if b and b[0] == "partial" or any(y[0] == "partial" for y in b if isinstance(y, tuple)): c.viol("lines laid out", g.at_line(it[3]), "the header does not name every variable: %s" % (b,), key=q + "|partial"); continue
                vals = [y for y in b if y[0] == "val"]
                if not (len(vals) == 1 and vals[0][1][0] == "f" and vals[0][1][2] == "name"):
                    if not vals: c.viol("lines laid out", g.at_line(it[3]), "the header can leave out the name of a variable", key=q + "|noname")
                    elif len(vals) > 1: c.viol("lines laid out", g.at_line(it[3]), "the header writes more than the name of each variable", key=q + "|names")
                    elif vals[0][1][0] == "f" and vals[0][1][2] != "name": c.viol("lines laid out", g.at_line(it[3]), "the header writes %s instead of the name" % show_term(vals[0][1]), key=q + "|names")
            if it[1] in seen and it[1] is not None: c.viol("lines laid out", g.at_line(it[3]), "the header names the variables of %s twice" % show_term(it[1]), key=q + "|twice|" + show_term(it[1]))
            seen.append(it[1])
    # compare
    def groups(x): return [it for it in x if it[0] == "loop"]
    H0 = sorted(H, key=lambda x: (-len(groups(x)), str(x)))[0]
    for x in H:
        if pattern(x) != pattern(H0): c.viol("lines laid out", where, "the header does not always have the same columns: %s, %s" % (shape(x), shape(H0)), key=q + "|header")
    for x in R:
        if pattern(x) != pattern(H0):
            c.viol("lines laid out", rwhere, "a row does not have the columns of the header: header %s, row %s" % (shape(H0), shape(x)), key=q + "|columns"); continue
        bad = False
        for a, b in zip(groups(H0), groups(x)):
            if any(y and y[0] == "partial" for y in b[2]): c.viol("lines laid out", g.at_line(b[3]), "a row does not have every value of %s" % show_term(b[1]), key=q + "|rowpartial"); bad = True; continue
            pa, pb = {pattern(y) for y in a[2]}, {pattern(y) for y in b[2]}
            if pa != pb or len(pa) > 1:
                c.viol("lines laid out", g.at_line(b[3]), "separators or values of a column differ between header (%s) and row (%s)" % (" or ".join(sorted(pa)), " or ".join(sorted(pb))), key=q + "|separators"); bad = True
        if bad: continue
        order(c, g, q, H0, x, groups, maps, rwhere)
        prefix(c, g, q, H0, x, S, T, maps, rwhere)
    emptied(c, g, f, q, maps, direct, toks, rows[0][1])

def shape(x):
    out = ""
    for it in norm(x):
        if it[0] == "text": out += it[1].replace("\n", "\\n")
        elif it[0] == "val": out += "{" + show_term(it[1]) + "}"
        elif it[0] == "loop": out += "<" + (show_term(it[1]) if it[1] is not None else "?") + ": " + " or ".join(sorted(pattern(b) for b in it[2])) + ">"
    return out

def collected(c, g, f, S, T, q, types):
    """Where values and times are collected: {place of values: list of variables}."""
    B = Bg(g)
    m = {"lists": {}, "time": set(), "getter": {}}
    calls = {}
    for n in g.live():
        if n.k != "call": continue
        for t in TYPES:
            if g.root(n) == SIMGET[t]: calls[n] = t
    if not calls: c.viol("values collected", c.db.where(f), "%s reads no values" % f["q"], key=q + "|novalues"); return m
    for n, t in calls.items():
        a = [B(x) for x in g.args(n)]
        ref = a[0]
        if not (ref[0] == "f" and ref[2] == "reference"):
            c.note("%s reads the value of %s" % (f["q"], show_term(ref))); continue
        lst = ref[1][1] if ref[1][0] == "elem" else None
        if lst is None: continue
        m["getter"].setdefault(lst, set()).add(t)
        c.ob("values collected", "%s: %s -> %s" % (f["q"], show_term(lst), t))
        types.setdefault(lst[2] if lst[0] == "f" else str(lst), set()).add(t)
        val = B(g.T(n.e, n.fr))
        puts = []
        for k in g.live():
            if k.k != "call" or last(k.e.get("fn")) not in APPEND or k.e.get("obj") is None: continue
            if not any(val == B(x) or mentions(B(x), lambda y: y == val) for x in g.args(k)): continue
            puts.append((k, B(g.obj(k))))
        for k, o in puts:
            if o[0] == "at":
                if not is_param(o[2], S): c.viol("values collected", g.at_line(k), "%s collects a value under %s instead of the step being recorded" % (f["q"], show_term(o[2])), key=q + "|step|" + t)
                m["lists"].setdefault(o[1], set()).add(lst)
            else: m["lists"].setdefault(o, set()).add(lst)
        if puts:
            ks = {k for k, _ in puts}
            kk = {k for k in ks}
            for lp in g.loops_over(lambda x: nf(bare(g.deep(x))) == lst):
                if lp.head in g.live() and any(k in g.body(lp) for k in kk):
                    c.covers("values collected", g, "collecting the values of %s" % show_term(lst), [lp], lambda x, l: x in kk, must_run=False)
    for n in g.live():
        for p, v in stores(g, n):
            if p[0] == "at" and mentions(v, lambda x: is_param(x, T)):
                m["time"].add(p[1])
                if not is_param(p[2], S): c.viol("values collected", g.at_line(n), "%s records the time under %s instead of the step" % (f["q"], show_term(p[2])), key=q + "|time")
    for lst, ts in m["getter"].items():
        if len(ts) > 1: c.viol("values collected", c.db.where(f), "%s reads the variables of %s with different getters" % (f["q"], show_term(lst)), key=q + "|getters|" + show_term(lst))
    return m

def order(c, g, q, H0, x, groups, maps, where):
    for i, (a, b) in enumerate(zip(groups(H0), groups(x))):
        if a[1] is None or b[1] is None: c.note("group %d of the columns is not recognised" % i); continue
        src = b[1]
        if src == a[1]: continue
        base = src[1] if src[0] == "at" else src
        if src[0] == "at" and src[2][0] == "f" and src[2][2] == "second": c.note("rows indexed by %s" % show_term(src[2]))
        ls = maps["lists"].get(base)
        if ls is None: c.note("%s: where the values of column group %d come from is not recognised" % (q, i)); continue
        if a[1] not in ls or len(ls) > 1:
            c.viol("lines laid out", where, "column group %d has the names of %s, but the values of %s" % (i + 1, show_term(a[1]), ", ".join(sorted(map(show_term, ls)))), key=q + "|order|%d" % i)
        c.ob("lines laid out", "columns %d: %s" % (i + 1, show_term(a[1])))

def prefix(c, g, q, H0, x, S, T, maps, where):
    words = []
    for it in norm(H0):
        if it[0] == "loop": break
        if it[0] == "text": words += [w for w in re.split(r"[,;|\t\n]", it[1]) if w]
    vals = []
    for it in x:
        if it[0] == "loop": break
        if it[0] == "val": vals.append(it[1])
    if len(words) != 2 or len(vals) != 2: return
    def kind(v):
        if mentions(v, lambda y: is_param(y, T)): return "time"
        if mentions(v, lambda y: is_param(y, S)): return "step"
        if v[0] == "f" and v[1][0] == "elem" and v[1][1] in maps["time"]: return {"first": "step", "second": "time"}.get(v[2])
        return None
    want = ["time" if "time" in w.lower() else "step" if "step" in w.lower() else None for w in words]
    for i in range(2):
        k = kind(vals[i])
        if k is None or want[i] is None: continue
        if k != want[i]: c.viol("lines laid out", where, "the column named %s holds the %s" % (words[i], k), key=q + "|prefix|%d" % i)

def emptied(c, g, f, q, maps, direct, toks, rows):
    B = Bg(g)
    for tm in maps["time"]:
        if not any(mentions(p, lambda y: y[0] == "elem" and y[1] == tm) for n in rows for p in toks[n].pieces): continue
        clr = {n for n in g.live() if n.k == "call" and n.e.get("obj") is not None and B(g.obj(n)) == tm and last(n.e.get("fn")) in ("clear", "erase", "swap") or n.k == "write" and B(g.place(n)) == tm}
        c.ob("lines laid out", "%s is emptied" % show_term(tm))
        for n in rows:
            loops = [lp for lp in g.loops if lp.head in g.live() and n in g.body(lp)]
            p = c.path(g, g.normal(n), lambda m: m is g.exit, avoid=lambda m: m in clr, edge=decide(g), track=False)
            if p: c.viol("lines laid out", g.at_line(n), "rows that were written stay in %s and are written again" % show_term(tm), key=q + "|again", path=p, g=g); break

def lists(c, f, types):
    g = c.graph(f); B = Bg(g)
    cats = {}
    app = []
    for n in g.live():
        if n.k != "call" or n.e.get("obj") is None or last(n.e.get("fn")) not in APPEND: continue
        o = B(g.obj(n))
        nm = o[2] if o[0] == "f" else None
        if nm in types: app.append((n, nm))
    if not app: c.note("%s: how the lists of variables are filled is not recognised" % f["q"]); return
    for t in TYPES:
        e = typed(g, t)
        r = reachable(c, g, lambda n, lab, m: e(n, lab, m))
        for n, nm in app:
            if len(types[nm]) != 1: continue
            own = next(iter(types[nm]))
            if n in r and own != t:
                c.viol("lists by type", g.at_line(n), "a variable of type %s enters the list whose values are read as %s" % (t, own), key="%s|%s" % (nm, t))
        c.ob("lists by type", "%s: %s" % (t, ", ".join(sorted({nm for n, nm in app if n in r}))))
        mine = [n for n, nm in app if types[nm] == {t}]
        if not mine and {t} in types.values(): c.viol("lists by type", c.db.where(f), "variables of type %s are not logged" % t, key="%s|none" % t)
        if mine and not any(n in r for n in mine): c.viol("lists by type", g.at_line(mine[0]), "variables of type %s are not logged" % t, key="%s|none" % t)
        # every variable enters
        for lp in g.loops:
            if lp.head not in g.live(): continue
            b = set(g.body(lp))
            if not any(n in b for n in mine): continue
            sub = [n for n in mine if n in b]
            def edge(n, lab, m):
                if lab in ("exc", "term"): return False
                if not e(n, lab, m): return False
                a, v = says(g, n, lab)
                if a is not None and mentions(a, lambda x: x[0] == "f" and x[2] == "causality"): return not (a[0] == "==" and v)
                return True
            # only the innermost loop that holds the append
            if any(l2 is not lp and l2.head in b and any(n in set(g.body(l2)) for n in sub) for l2 in g.loops): continue
            p = c.path(g, c.loop_starts(lp), lambda m: m is lp.head, avoid=lambda m: m in sub, edge=edge)
            if p: c.viol("lists by type", g.at_line(lp.head), "a variable of type %s may not be logged" % t, key="%s|skipped" % t, path=p, g=g)
            if lp.partial: c.viol("lists by type", g.at_line(lp.head), "not every variable is logged: %s" % lp.partial, key="%s|partial" % t)
