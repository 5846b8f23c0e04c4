"""C25: configuration readers report what is missing."""
import xml.etree.ElementTree as ET
from strval import *
RULE = """
(lookup results) One run of an abstract interpretation per lookup in the configuration readers (scenario_parser, osp_config_parser, ssp; helpers
inlined): optional-valued calls, find and its relatives, element navigation in XML documents, reading map[key].  In the run of a lookup that
one finds nothing (null, empty, end; the count of the same key is zero, the length of the same list is too small) while
everything else is unknown; no path may use the result.  Element navigation in a document which was validated
needs no test where the schema (data/xsd) requires the element.
(errors reported) A document whose parsing reported an error is not used: in the run where the error flag of the
error handler is set by the parse no path leaves normally; handleError sets the flag for errors and fatal errors; validation is
switched on before the parse.
(attributes) An attribute which is used untested is required by the schema; mandatory attributes of SSP files are read without a
default.
(scenario) For a model of a scenario file which lacks one key (time, value, and model, variable and action without
default), names an unknown model or variable, or has an unknown action, no path gets past the event.
(no termination) No path ends in the library's panic function, abort or an assertion about the input.
"""
ASSUME = ["Xerces validates against the schema it was given when told to", "yaml-cpp: as<T>() without fallback throws for missing nodes",
          "boost::property_tree: get, get_child without default throw if the path does not exist"]
ENTRY = ["cosim::parse_scenario", "cosim::load_osp_config", "cosim::ssp_parser::ssp_parser", "cosim::ssp_loader::load"]
NAV = {"item", "getFirstElementChild", "getLastElementChild", "getNextElementSibling", "getPreviousElementSibling", "getDocumentElement", "getNamedItem", "getNamedItemNS",
       "getFirstChild", "getLastChild", "getNextSibling", "getPreviousSibling", "getAttributeNode", "getAttributeNodeNS", "getElementById", "parseURI", "parse"}
FIND = {"find", "find_if", "find_if_not", "lower_bound", "upper_bound", "max_element", "min_element", "adjacent_find", "search"}
PANIC = re.compile(r"^(cosim::detail::panic|std::terminate|abort|std::abort|exit|std::exit|_Exit|__assert_fail|std::quick_exit)$")
MISSING = ("null", "site")

def wh(g, n): return g.db.where(n.fr.fn, n.l) if n.fr is not None else str(n.l)
def last_(fn): return re.sub(r"<[^<>]*>$", "", fn or "").split("::")[-1]
def opt_t(t): return re.match(r"^(const )?(std|boost)::optional<", t or "") is not None
def xerces(e): return "xercesc" in (e.get("fn") or "")
def skipcast(e):
    while isinstance(e, dict) and e["k"] in ("icast", "cast", "defarg"): e = e["e"]
    return e

def subexprs(e):
    """Sub-expressions that are evaluated whenever e is."""
    st = [e]
    while st:
        x = st.pop()
        if isinstance(x, list): st += x; continue
        if not isinstance(x, dict): continue
        if "k" in x: yield x
        if x.get("k") == "cond": st.append(x.get("c")); continue
        if x.get("k") == "bin" and x.get("op") in ("&&", "||"): st.append(x.get("a")); continue
        if x.get("k") == "lambda": continue
        for kk, v in x.items():
            if isinstance(v, (dict, list)): st.append(v)

class Xsd:
    """Element declarations: name -> [(required attributes, optional attributes, minimal number of children by name, needs a child, children)]."""
    NS = "{http://www.w3.org/2001/XMLSchema}"
    def __init__(self, path):
        r = ET.parse(path).getroot()
        self.types = {t.get("name"): t for t in r if t.tag == self.NS + "complexType"}
        self.decls, self.root = {}, [e.get("name") for e in r if e.tag == self.NS + "element"]
        def walk(x):
            for y in x:
                if y.tag == self.NS + "element": self.decls.setdefault(y.get("name"), []).append(y)
                walk(y)
        walk(r)
    def ctype(self, e):
        t = e.find(self.NS + "complexType")
        return t if t is not None else self.types.get((e.get("type") or "").split(":")[-1])
    def min_elems(self, p):
        t = p.tag.replace(self.NS, "")
        m = int(p.get("minOccurs", "1"))
        if t == "element": return m
        kids = [self.min_elems(x) for x in p if x.tag.replace(self.NS, "") in ("element", "sequence", "choice", "all")]
        return m * ((min(kids) if kids else 0) if t == "choice" else sum(kids))
    def model(self, e):
        t = self.ctype(e)
        return [] if t is None else [x for x in t if x.tag.replace(self.NS, "") in ("sequence", "choice", "all")]
    def needs_child(self, name):
        ds = self.decls.get(name)
        return bool(ds) and all(sum(map(self.min_elems, self.model(d))) > 0 for d in ds)
    def children(self, name):
        out = set()
        def walk(x):
            for y in x:
                if y.tag == self.NS + "element": out.add(y.get("name"))
                else: walk(y)
        for d in self.decls.get(name, []):
            for m in self.model(d): walk(m)
        return out
    def required(self, name, n, k):
        """Does every element `name` contain more than k descendants n, because its content model requires them?"""
        def count(p, seen):
            t = p.tag.replace(self.NS, "")
            m = int(p.get("minOccurs", "1"))
            if t == "element":
                if p.get("name") == n: return m
                if p.get("name") in seen: return 0
                return m * sum(count(x, seen | {p.get("name")}) for x in self.model(p))
            kids = [count(x, seen) for x in p if x.tag.replace(self.NS, "") in ("element", "sequence", "choice", "all")]
            return m * ((min(kids) if kids else 0) if t == "choice" else sum(kids))
        ds = self.decls.get(name)
        return bool(ds) and all(sum(count(m, {name}) for m in self.model(d)) > k for d in ds)
    def attr(self, name, a):
        """Is attribute a required on all elements `name`?  None: some of them have no such attribute."""
        ds = self.decls.get(name)
        if not ds: return None
        r = True
        for d in ds:
            t = self.ctype(d)
            at = [x for x in t.iter(self.NS + "attribute") if x.get("name") == a] if t is not None else []
            at = [x for x in at if any(x is y for y in t)]
            if not at: r = False; continue
            if at[0].get("use") != "required" and at[0].get("default") is None and at[0].get("fixed") is None: r = False
        return r

def check(c):
    roots, files = [], set()
    for q in ENTRY:
        for f in c.db.byq.get(q, []):
            if f.get("body") is None or f.get("dependent"): continue
            roots.append(f); files.add(f["f"])
    if not roots: c.need("lookup results", 20); return
    c._xsd = None
    p = os.path.join(c.db.repo if hasattr(c.db, "repo") else os.environ.get("VERIF_REPO", "/repo"), "data/xsd/OspSystemStructure.xsd")
    if os.path.exists(p):
        try: c._xsd = Xsd(p)
        except ET.ParseError as x: c.note("%s cannot be read: %s" % (p, x))
    seen = set()
    stop = lambda f: f["f"] not in files
    more = sorted((f for f in c.db.F.values() if f["f"] in files and f.get("body") is not None and not f.get("dependent") and not f.get("lambda") and f not in roots), key=lambda f: f["q"])
    for f in roots + more:
        if id(f) in seen: continue
        g = c.graph(f, track_all=True, stop=stop)
        for fr in frames(g): seen.add(id(fr.fn))
        one(c, f, g)
    for q in ENTRY[:1]:
        for f in c.db.byq.get(q, []): scenario(c, f, files)
    handlers(c, files)
    c.need("lookup results", 15); c.need("errors reported", 3)

def frames(g):
    out = {g.rootfr}
    for n in g.nodes:
        if n.fr is not None: out.add(n.fr)
    return out

def chain(g, e, fr, seen=frozenset()):
    """Names of the elements an expression may denote, as (set of names, document) -- None where that is not known."""
    if not isinstance(e, dict): return None
    e = skipcast(e)
    if e["k"] == "un" and e["op"] in ("*", "&"): return chain(g, e["e"], fr, seen)
    if e["k"] in ("ctor", "init") and len(e.get("a") or []) == 1: return chain(g, e["a"][0], fr, seen)
    if e["k"] == "ref" and e.get("dk") in ("local", "param"):
        v = fr.lookup(e["d"])
        if v is None or not v.defs: return None
        if v.term in seen: return set()
        seen, out, ok = seen | {v.term}, set(), False
        for d in v.defs:
            if d[2] is None: return None
            r = chain(g, d[2], d[3], seen)
            if r is None: continue
            ok = True; out |= r
        return out if ok else None
    if e["k"] != "call": return None
    nf = fr.inl.get(id(e))
    if nf is not None:
        out = set()
        for n in g.live():
            if n.k == "ret" and n.fr is nf and n.e is not None:
                r = chain(g, n.e, nf, seen)
                if r is None: return None
                out |= r
        return out
    nm = last_(e.get("fn"))
    x = g._c25x
    if nm == "getDocumentElement": return set(x.root) if x is not None else None
    if nm in ("getElementsByTagName", "getElementsByTagNameNS"):
        s = literal(g, (e.get("a") or [None])[-1], fr)
        return {s} if s is not None else None
    if nm == "item": return chain(g, e.get("obj"), fr, seen)
    if nm in ("getFirstElementChild", "getLastElementChild"):
        r = chain(g, e.get("obj"), fr, seen)
        if r is None or x is None: return None
        return set().union(*[x.children(n) for n in r]) if r else set()
    if nm in ("getNextElementSibling", "getPreviousElementSibling"): return chain(g, e.get("obj"), fr, seen)
    return None

def literal(g, e, fr, depth=0):
    """The string literal an expression is made from."""
    if depth > 20 or not isinstance(e, dict): return None
    e = skipcast(e)
    if e["k"] == "str": return e["v"]
    if e["k"] == "ref" and e.get("dk") in ("local", "param"):
        v = fr.lookup(e["d"])
        if v is None or len(v.defs) != 1 or v.defs[0][2] is None: return None
        return literal(g, v.defs[0][2], v.defs[0][3], depth + 1)
    if e["k"] in ("ctor", "init") and len([a for a in e.get("a") or [] if a["k"] != "defarg"]) >= 1: return literal(g, e["a"][0], fr, depth + 1)
    if e["k"] == "call":
        nf = fr.inl.get(id(e))
        if nf is not None:
            for n in g.live():
                if n.k == "ret" and n.fr is nf and n.e is not None: return literal(g, n.e, nf, depth + 1)
        if last_(e.get("fn")) in ("get", "c_str", "data", "transcode", "move"):
            o = e.get("obj") if e.get("obj") is not None else (e.get("a") or [None])[0]
            return literal(g, o, fr, depth + 1)
    return None

def parser_obj(g, n):
    """The variable that holds the parser on which a parse is done, or from which a document came."""
    o = skipcast(n.e.get("obj"))
    return g.T(o, n.fr) if o is not None else None

def doc_of(g, e, fr, seen=frozenset()):
    """The parse call a navigation expression starts from."""
    if not isinstance(e, dict): return None
    e = skipcast(e)
    if e["k"] == "ref" and e.get("dk") in ("local", "param"):
        v = fr.lookup(e["d"])
        if v is None or not v.defs or v.term in seen: return None
        seen = seen | {v.term}
        for d in v.defs:
            if d[2] is None: continue
            r = doc_of(g, d[2], d[3], seen)
            if r is not None: return r
        return None
    if e["k"] in ("ctor", "init") and len(e.get("a") or []) == 1: return doc_of(g, e["a"][0], fr, seen)
    if e["k"] == "un": return doc_of(g, e["e"], fr, seen)
    if e["k"] != "call": return None
    nf = fr.inl.get(id(e))
    if nf is not None:
        for n in g.live():
            if n.k == "ret" and n.fr is nf and n.e is not None:
                r = doc_of(g, n.e, nf, seen)
                if r is not None: return r
        return None
    if xerces(e) and last_(e.get("fn")) in ("parseURI", "parse"): return (fr.id, id(e))
    if xerces(e) and e.get("obj") is not None: return doc_of(g, e["obj"], fr, seen)
    return None

def one(c, f, g):
    g._c25x = c._xsd
    live = g.live()
    valid = parses(c, f, g)
    for n in live:
        if n.k == "call" and n.fr is not None and PANIC.match(n.e.get("fn") or "") and reach_panic(c, g, n):
            c.viol("no termination", wh(g, n), "the input can make the program terminate through %s" % n.e["fn"].split("::")[-1], key=wh(g, n).rsplit(":", 1)[0] + "|panic", g=g)
    c.ob("no termination", f["q"])
    for n in sorted(live, key=lambda n: n.id):
        if n.k == "ret" and n.fr is not None and n.fr is not g.rootfr and isinstance(n.e, dict) and skipcast(n.e)["k"] == "null" and (n.fr.fn.get("rt") or n.fr.fn.get("t") or "*").rstrip().endswith("*"):
            c.ob("lookup results", "%s: null from %s" % (f["q"], n.fr.fn["q"]))
            lookup(c, f, g, n, "ptr")
        if n.k != "call" or n.fr is None or id(n.e) in n.fr.inl: continue
        k = kind(c, g, n)
        if k is None: continue
        c.ob("lookup results", "%s: %s" % (f["q"], last_(n.e["fn"])))
        if k == "nav" and guaranteed(c, g, n, valid): continue
        lookup(c, f, g, n, k)
    attributes(c, f, g, valid)
    if any("boost::property_tree" in (n.e.get("fn") or "") for n in live if n.k == "call"): ssp(c, f, g)

def reach_panic(c, g, n):
    """Is there a path to n that takes a switch past all its cases only if an enumerator is not listed?"""
    def edge(m, lab, s):
        return not (m.k == "switch" and isinstance(lab, tuple) and lab[0] == "default" and g.covers_enum(m))
    seen, st = {g.entry}, [g.entry]
    while st:
        m = st.pop()
        if m is n: return True
        for lab, x in m.succ:
            if x not in seen and edge(m, lab, x): seen.add(x); st.append(x)
    return False

def kind(c, g, n):
    e = n.e
    if not xerces(e) and (e.get("t") or "").rstrip().endswith("*") and may_return_null(c, e): return "ptr"
    fn, nm, t = e.get("fn") or "", last_(e.get("fn")), e.get("t") or ""
    if xerces(e): return "nav" if nm in NAV else None
    if e.get("op") == "[]" and re.search(r"map<", (e.get("obj") or {}).get("t") or "") and reads_map(n): return "map"
    if e.get("op"): return None
    if nm in FIND and ("terator" in t) and (e.get("obj") is not None or fn.startswith("std::")): return "find"
    if opt_t(t) and not e.get("conv") and not (fn.startswith("std::") and nm in ("move", "forward", "as_const", "make_optional", "exchange")) and not (e.get("obj") is not None and nm in ("operator=", "emplace")) : return "opt"
    return None

def may_return_null(c, e):
    """Has the function of this program that is called a way to return null?"""
    fs = [f for f in c.db.byq.get(e.get("fn") or "", []) if f.get("body") is not None]
    def walk(x):
        if isinstance(x, list): return any(walk(y) for y in x)
        if not isinstance(x, dict): return False
        if x.get("k") == "return" and isinstance(x.get("e"), dict) and skipcast(x["e"])["k"] == "null": return True
        return any(walk(v) for k, v in x.items() if isinstance(v, (dict, list)) and x.get("k") != "lambda")
    return any(walk(f["body"]) for f in fs)

def reads_map(n):
    """Is map[key] only read -- copied, or compared?"""
    e = n.e
    tree = getattr(n, "_c25stmt", None)
    for s in n.fr._c25par if hasattr(n.fr, "_c25par") else parents(n.fr):
        if s[0] is e: return s[1]
    return False
def parents(fr):
    """(map[key] expression, is it only read?) for the body of a frame's function."""
    out = []
    def walk(x, par):
        if isinstance(x, list):
            for y in x: walk(y, par)
            return
        if not isinstance(x, dict): return
        if x.get("k") == "call" and x.get("op") == "[]":
            p = par
            rd = p is not None and (p.get("k") == "ctor" and (p.get("copy") or p.get("pk") in ("c",)) and len(p.get("a") or []) == 1 or
                                    p.get("k") == "icast" and p.get("ck") == "LValueToRValue" or p.get("k") == "call" and p.get("obj") is x and p.get("const") and not p.get("op"))
            out.append((x, bool(rd)))
        for k, v in x.items():
            if isinstance(v, (dict, list)): walk(v, x if "k" in x else par)
    walk(fr.fn.get("body"), None)
    try: fr._c25par = out
    except AttributeError: pass
    return out

class Nulls(AI):
    """Keeps only what tells whether something was found, so that there are few states."""
    def step(self, n, env):
        e2 = super().step(n, env)
        if e2 is env: return env
        x = n.d.get("init") if n.k == "decl" else n.d.get("val") if n.k == "write" else n.e
        cnt = n.k in ("decl", "write", "ret") and any(y.get("k") == "call" and last_(y.get("fn")) in ("getLength", "count") for y in subexprs(x))
        return {k: v for k, v in e2.items() if v == MISSING or isinstance(v, bool) or k == ("hit",) or cnt and isinstance(v, int) or k in env and env[k] == v}
    def ev(self, e, fr, env, depth=0):
        if isinstance(e, dict) and e["k"] == "bool": return None
        if isinstance(e, dict) and e["k"] == "ref" and e.get("dk") == "local":
            # a copy keeps its value when the original changes
            v = fr.lookup(e["d"])
            if v is not None and not v.ref: return env.get(v.term)
        if isinstance(e, dict) and e["k"] in ("ctor", "init") and not e.get("a"): return None
        return super().ev(e, fr, env, depth)
    def binop(self, op, a, b):
        if MISSING in (a, b) and op in ("==", "!="):
            a, b = (NULL if x == MISSING else x for x in (a, b))
        return super().binop(op, a, b)

def lookup(c, f, g, n, k):
    """The run in which the lookup n finds nothing."""
    isret = n.k == "ret"
    site = (n.fr.id, id(n.e)) if not isret else None
    A = [a for a in n.e.get("a") or [] if a["k"] != "defarg"]
    obj = g.T(n.e["obj"], n.fr) if n.e.get("obj") is not None else None
    keyt = g.T(A[-1], n.fr) if A else None
    idx = skipcast(A[0]) if last_(n.e.get("fn")) == "item" and A else None
    bad = []
    def call(ai, e, fr, env):
        if e["k"] != "call": return NotImplemented
        if (fr.id, id(e)) == site and k != "map": return MISSING
        nm = last_(e.get("fn"))
        if k == "find" and nm in ("end", "cend"): return MISSING
        if k in ("find", "map") and nm in ("count", "contains") and e.get("obj") is not None and e.get("a") and g.T(e["a"][0], fr) == keyt and g.T(e["obj"], fr) == obj: return 0
        if k == "map" and nm in ("find", "end", "cend") and e.get("obj") is not None and g.T(e["obj"], fr) == obj: return MISSING
        if idx is not None and nm == "getLength" and obj is not None and g.T(e.get("obj"), fr) == obj:
            if idx["k"] == "int": return int(idx["v"])
            if ("hit",) in env: return NotImplemented
        return NotImplemented
    def effect(ai, m, env):
        if m is n and (isret or ("hit",) not in env):
            env = dict(env); env[("hit",)] = True
            if isret: env[("RET", n.fr.id)] = MISSING
            return env
    ai = Nulls(g, lambda t: None, call, effect)
    if idx is not None and idx["k"] != "int" and bounded(g, n, obj): return
    def used(m, env):
        if m.fr is None: return None
        if k == "map": return m.e if m is n else None
        e = m.e
        if m.k in ("decl",) : e = m.d.get("init")
        if not isinstance(e, dict): return None
        if m.k == "call": todo = [e]
        else: todo = [x for x in subexprs(e) if x.get("k") in ("mem", "un", "call")]
        for x in todo:
            if x.get("k") == "call" and id(x) not in m.fr.inl:
                o = x.get("obj")
                ot = (o or {}).get("t") or ""
                if o is None and x.get("op") in ("*", "->") and len(x.get("a") or []) == 1: o, ot = x["a"][0], x["a"][0].get("t") or ""
                if o is None: continue
                if x.get("op") in ("*", "->") or (ot.rstrip().endswith("*") or xerces(x)) and not opt_t(ot):
                    if ai.ev(o, m.fr, env) == MISSING: return x
            elif x.get("k") == "call" and x.get("obj") is not None and ((x["obj"].get("t") or "").rstrip().endswith("*")) and ai.ev(x["obj"], m.fr, env) == MISSING: return x
            elif x.get("k") == "mem" and x.get("arrow") and x["b"]["k"] != "this" and ai.ev(x["b"], m.fr, env) == MISSING: return x
            elif x.get("k") == "un" and x["op"] == "*" and ai.ev(x["e"], m.fr, env) == MISSING: return x
        return None
    hit = []
    def watch(m): return m.fr is not None and m.k in ("call", "decl", "write", "branch", "ret", "expr")
    def stop(m, env):
        if ("hit",) not in env and not (m is n and k == "map"): return False
        x = used(m, env) if m.k in ("call", "decl", "write", "branch", "ret", "expr") else None
        if x is not None: hit.append((m, env, x)); return True
        # value() of nothing throws
        if m.k == "call" and last_(m.e.get("fn")) == "value" and m.e.get("obj") is not None and ai.ev(m.e["obj"], m.fr, env) == MISSING: return True
        return False
    ai.run({}, stop=stop)
    if ai.exceeded: c.note("%s: too many paths" % wh(g, n)); return
    if not hit: return
    m, env, x = hit[0]
    key = next((kk for kk in ai.seen if kk[0] is m and dict(kk[1]) == env), None)
    p = ai.path(key) if key is not None else []
    if perhaps(g, ai, n, p, A): c.note("%s: %s may find nothing, but it may have been ruled out before" % (wh(g, n), "null" if isret else last_(n.e["fn"]))); return
    what = {"map": "reads an element of a map which need not be there", "opt": "uses an optional which may be empty", "find": "uses what it looked for without having found it",
            "nav": "uses an element which may be missing", "ptr": "uses a pointer which may be null"}[k]
    what_ = "null at" if isret else last_(n.e["fn"]) + " at"
    c.viol("lookup results", wh(g, m), "%s %s (%s %s)" % (m.fr.fn["q"].split("::")[-1], what, what_, wh(g, n).split("/")[-1]), key="%s|%s|%s" % (m.fr.fn["q"], n.fr.fn["n"] if isret else last_(n.e["fn"]), k), path=p, g=g)

def bounded(g, n, obj):
    """Is n in a loop whose condition compares with the length of the same list?"""
    for b in g.live():
        if b.k == "branch" and b.fr is not None and b.e is not None:
            xs = [(x, b.fr) for x in subexprs(b.e)]
            for x, f in list(xs):       # a variable that holds the length
                v = f.lookup(x["d"]) if x.get("k") == "ref" and x.get("dk") == "local" else None
                if v is not None and len(v.defs) == 1 and v.defs[0][1] == "init" and isinstance(v.defs[0][2], dict): xs += [(y, v.defs[0][3]) for y in subexprs(v.defs[0][2])]
            for x, f in xs:
                if x.get("k") == "call" and last_(x.get("fn")) == "getLength" and g.T(x.get("obj"), f) == obj:
                    # every path to n goes through the branch that is taken while there are elements
                    def edge(m, lab, s): return not (m is b and lab == "T")
                    seen, st = {g.entry}, [g.entry]
                    while st:
                        y = st.pop()
                        for lab, s in y.succ:
                            if edge(y, lab, s) and s not in seen: seen.add(s); st.append(s)
                    if n not in seen: return True
    return False

def perhaps(g, ai, n, path, A):
    """Was something decided about the same key before, in a way this analysis does not understand?"""
    keys = set()
    for a in A + ([n.e["obj"]] if n.e.get("obj") is not None else []):
        t = g.T(a, n.fr)
        if t is not None and t[0] in ("v", "f", "call"): keys.add(t)
    if not keys: return False
    for b in path:
        if b.k == "branch" and b.fr is not None and b.e is not None:
            t = g.T(b.e, b.fr)
            tt = Bg(g)(t)
            ks = [k for k in keys if k[0] == "v"]
            calls = [x for x in subexprs(b.e) if x.get("k") == "call" and x.get("a") and not x.get("op")]
            for x in calls:
                if all(any(mentions(g.T(y, b.fr), lambda z: z == k) for y in (x.get("a") or []) + ([x["obj"]] if x.get("obj") is not None else [])) for k in keys): return True
    return False

def parses(c, f, g):
    """Parse calls whose errors are reported; {(frame, call): is the document validated?}."""
    out = {}
    for n in g.live():
        if n.k != "call" or n.fr is None or not xerces(n.e) or last_(n.e.get("fn")) not in ("parseURI", "parse"): continue
        c.ob("errors reported", wh(g, n))
        sets = [m for m in g.live() if m.k == "call" and xerces(m.e) and last_(m.e.get("fn")) == "setParameter"]
        # the error handler
        hs = set()
        for m in sets:
            A = m.e.get("a") or []
            if len(A) == 2 and param_name(A[0]) == "fgDOMErrorHandler":
                a = skipcast(A[1])
                if a["k"] == "un" and a["op"] == "&": hs.add((g.T(a["e"], m.fr), rec_of(a["e"]), m))
        if c.path(g, [g.entry], lambda m: m is n, avoid=lambda m: any(m is h[2] for h in hs)) is not None:
            c.viol("errors reported", wh(g, n), "%s parses a document without an error handler, so that errors in it go unnoticed" % n.fr.fn["q"].split("::")[-1], key=n.fr.fn["q"] + "|handler", g=g)
            out[(n.fr.id, id(n.e))] = False; continue
        for ht, rec, m in hs:
            flds = flag_fields(c, rec)
            if not flds: c.note("how %s remembers errors is not recognised" % rec); continue
            def cell(t, ht=ht, flds=flds):
                if t[0] == "f" and t[2] in flds and t[1] == ht: return ("flag", t[2])
            def effect(ai, x, env):
                if x is n:
                    env = dict(env)
                    for q in flds: env[("flag", q)] = flds[q]
                    return env
            ai = Nulls(g, cell, None, effect)
            outs = [o for o in ai.run({}, watch=None) if o[0] is g.exit and all(dict(o[1]).get(("flag", q)) == flds[q] for q in flds)]
            if ai.exceeded: c.note("%s: too many paths" % wh(g, n))
            if outs:
                c.viol("errors reported", wh(g, n), "%s goes on with a document although errors were reported while it was parsed" % n.fr.fn["q"].split("::")[-1], key=n.fr.fn["q"] + "|flag", path=ai.path(outs[0][2]), g=g)
        # validation
        gram = any(m.k == "call" and xerces(m.e) and last_(m.e.get("fn")) == "loadGrammar" for m in g.live())
        v = gram
        if gram:
            for want in ("fgDOMValidate", "fgXercesSchema", "fgXercesUseCachedGrammarInParse"):
                on = [m for m in sets if param_name((m.e.get("a") or [None])[0]) == want and val_(m) is True]
                off = [m for m in sets if param_name((m.e.get("a") or [None])[0]) == want and val_(m) is False]
                c.ob("errors reported", "%s: %s" % (wh(g, n), want))
                p = c.path(g, [g.entry], lambda m: m is n, avoid=lambda m: m in on)
                if p is None and off: p = c.path(g, [s for m in off for _, s in m.succ], lambda m: m is n, avoid=lambda m: m in on)
                if p is not None:
                    if any(param_name((m.e.get("a") or [None])[0]) is None or val_(m) is None for m in sets if param_name((m.e.get("a") or [None])[0]) in (None, want)):
                        c.note("%s: parser settings are not recognised" % wh(g, n))
                    else: c.viol("errors reported", wh(g, n), "%s loads a schema but parses without %s: elements and attributes it relies on may be missing" % (n.fr.fn["q"].split("::")[-1], want), key=n.fr.fn["q"] + "|" + want, path=p, g=g)
                    v = False
        out[(n.fr.id, id(n.e))] = v
    return out

def val_(m):
    a = skipcast((m.e.get("a") or [None, None])[1])
    return bool(a["v"]) if isinstance(a, dict) and a["k"] == "bool" else None
def param_name(e):
    e = skipcast(e)
    if isinstance(e, dict) and e["k"] in ("ref", "mem"): return (e.get("n") or "").split("::")[-1]
    return None
def rec_of(e):
    return (skipcast(e).get("t") or "").replace("const ", "").replace("(anonymous namespace)::", "").rstrip(" &*")

def flag_fields(c, rec):
    """Fields of an error handler that handleError changes for errors: {name: value}."""
    out = {}
    for f in c.db.F.values():
        if f["n"] == "handleError" and f.get("body") is not None and (f.get("cls") or "").replace("(anonymous namespace)::", "") == rec:
            g = c.graph(f, track_all=True)
            for n in g.live():
                if n.k == "write":
                    p = g.place(n)
                    v = g.value(n)
                    if p[0] == "f" and p[1] == ("this",) and v is not None and v[0] in ("bool", "true", "false"): out[p[2]] = v in (("bool", True), ("true",)) or v[-1] in (True, "1", "true", 1)
                    elif p[0] == "f" and p[1] == ("this",) and n.d.get("val") is not None and skipcast(n.d["val"])["k"] == "bool": out[p[2]] = bool(skipcast(n.d["val"])["v"])
    return out

def handlers(c, files):
    """handleError notices errors and fatal errors."""
    for f in sorted(c.db.F.values(), key=lambda f: f["q"]):
        if f["n"] != "handleError" or f.get("body") is None or f["f"] not in files: continue
        g = c.graph(f, track_all=True)
        flds = flag_fields(c, (f.get("cls") or "").replace("(anonymous namespace)::", ""))
        for sev in ("DOM_SEVERITY_ERROR", "DOM_SEVERITY_FATAL_ERROR"):
            c.ob("errors reported", "%s: %s" % (f["q"], sev))
            num = {"DOM_SEVERITY_WARNING": 1, "DOM_SEVERITY_ERROR": 2, "DOM_SEVERITY_FATAL_ERROR": 3}
            class S(AI):
                def caseval(self, t): return num.get(re.sub(r".*::", "", str(t[1]))) if t[0] == "enum" else super().caseval(t)
                def ev(self, e, fr, env, depth=0):
                    if isinstance(e, dict) and e["k"] in ("ref", "mem") and re.sub(r".*::", "", str(e.get("n") or "")) in num: return num[re.sub(r".*::", "", e["n"])]
                    return super().ev(e, fr, env, depth)
            def call(ai, e, fr, env):
                if e["k"] == "call" and last_(e.get("fn")) == "getSeverity": return num[sev]
                return NotImplemented
            cell = lambda t: ("flag", t[2]) if t[0] == "f" and t[1] == ("this",) and t[2] in flds else None
            ai = S(g, cell, call)
            for n, env, key in ai.run({("flag", q): not flds[q] for q in flds}):
                if n is g.exit and flds and not any(dict(env).get(("flag", q)) == flds[q] for q in flds):
                    c.viol("errors reported", c.db.where(f), "%s does not remember errors of severity %s" % (f["q"], sev), key=f["q"] + "|" + sev, path=ai.path(key), g=g); break
            if not flds: c.viol("errors reported", c.db.where(f), "%s does not remember that errors were reported" % f["q"], key=f["q"] + "|no flag")

def guaranteed(c, g, n, valid):
    """Does the schema require what the navigation call n looks for?"""
    x = c._xsd
    nm = last_(n.e.get("fn"))
    if nm in ("parseURI", "parse"): d = (n.fr.id, id(n.e)); return bool(valid.get(d))
    d = doc_of(g, n.e.get("obj"), n.fr)
    if d is None or not valid.get(d) or x is None: return False
    if nm == "getDocumentElement": return True
    if nm in ("getFirstElementChild", "getLastElementChild"):
        r = chain(g, n.e["obj"], n.fr)
        return bool(r) and all(x.needs_child(y) for y in r)
    if nm == "item":
        k = skipcast((n.e.get("a") or [None])[0])
        o = n.e.get("obj")
        # only the outermost list matters: names are looked up below one element
        o = skipcast(o)
        for _ in range(6):
            if isinstance(o, dict) and o["k"] == "call" and id(o) not in n.fr.inl and last_(o.get("fn")) == "getElementsByTagNameNS":
                s = literal(g, o["a"][-1], n.fr)
                par = chain(g, o.get("obj"), n.fr)
                return s is not None and bool(par) and isinstance(k, dict) and k["k"] == "int" and all(x.required(y, s, int(k["v"])) for y in par)
            break
    return False

def attributes(c, f, g, valid):
    x = c._xsd
    if x is None: return
    for n in sorted(g.live(), key=lambda n: n.id):
        if n.k != "call" or n.fr is None or not xerces(n.e) or last_(n.e.get("fn")) not in ("getAttribute", "getAttributeNS"): continue
        d = doc_of(g, n.e.get("obj"), n.fr)
        if d is None or not valid.get(d): continue
        a = literal(g, (n.e.get("a") or [None])[-1], n.fr)
        r = chain(g, n.e.get("obj"), n.fr)
        if a is None or not r: c.note("%s: which attribute this is was not recognised" % wh(g, n)); continue
        c.ob("attributes", "%s of %s" % (a, "/".join(sorted(r))))
        # functions: several kinds of elements in one list, told apart by their names
        req = [y for y in sorted(r) if x.attr(y, a) is False and declares(x, y, a)]
        if not req:
            if all(not declares(x, y, a) for y in r):
                c.viol("attributes", wh(g, n), "the schema does not know the attribute %s of %s, which is read" % (a, "/".join(sorted(r))), key="%s|%s" % (f["q"], a), g=g)
            continue
        if tested(g, n): continue
        c.viol("attributes", wh(g, n), "attribute %s of %s may be missing, and is used without a test" % (a, "/".join(req)), key="%s|%s|%s" % (f["q"], a, req[0]), g=g)

def declares(x, name, a):
    for d in x.decls.get(name, []):
        t = x.ctype(d)
        if t is not None and any(y.get("name") == a for y in t if y.tag == x.NS + "attribute"): return True
    return False

def tested(g, n):
    """Does a branch, or a conversion which fails for an empty text, depend on the result of n?"""
    t = Bg(g)(g.T(n.e, n.fr))
    me = lambda z: z == t
    for m in g.live():
        if m.k == "branch" and m.e is not None and mentions(Bg(g)(g.deep(g.T(m.e, m.fr))), me): return True
        if m.k == "call" and last_(m.e.get("fn")) in ("lexical_cast", "stod", "stoi", "stoul", "stoll") and any(mentions(Bg(g)(g.deep(y)), me) for y in g.args(m)): return True
    return False

# ------------------------------------------------------------------ SSP
MUST = {"name", "kind", "startElement", "startConnector", "endElement", "endConnector", "source", "value", "baseStepSize", "type"}
def ssp(c, f, g):
    """Mandatory attributes are read with ptree::get without default."""
    for n in sorted(g.live(), key=lambda n: n.id):
        if n.k != "call" or n.fr is None: continue
        fn, nm = n.e.get("fn") or "", last_(n.e.get("fn"))
        if "property_tree" not in fn or nm not in ("get", "get_optional"): continue
        A = [a for a in n.e.get("a") or [] if a["k"] != "defarg"]
        k = attr_key(g, A[0], n.fr) if A else None
        if k is None: continue
        a = k.split(".")[-1]
        c.ob("attributes", "SSP attribute %s" % a)
        if a not in MUST or nm == "get" and len(A) == 1: continue
        if nm == "get_optional":
            if a == "source" : continue       # of a parameter binding: optional
            if not feasible(c, g, n): continue
            c.note("%s: mandatory attribute %s read as an optional one" % (wh(g, n), a)); continue
        if not feasible(c, g, n): continue
        top = n.fr
        fr = n.fr
        c.viol("attributes", wh(g, n), "mandatory attribute %s is given a default, so that a file without it is accepted" % a, key="%s|%s" % (f["q"], a), g=g)

def attr_key(g, e, fr):
    ai = SAI(g)
    v = ai.ev(e, fr, {})
    if isinstance(v, tuple) and v[0] == "str": return v[1]
    e = skipcast(e)
    # constructors of path types, concatenations
    if isinstance(e, dict):
        if e["k"] in ("ctor", "init", "call") and e.get("a"):
            if e["k"] == "call" and e.get("op") == "+":
                x, y = attr_key(g, e["a"][0], fr), attr_key(g, e["a"][1], fr)
                return x + y if x is not None and y is not None else None
            if e["k"] != "call": return attr_key(g, e["a"][0], fr)
        if e["k"] == "ref" and e.get("dk") in ("local", "param"):
            v = fr.lookup(e["d"])
            if v is not None and len(v.defs) == 1 and v.defs[0][2] is not None: return attr_key(g, v.defs[0][2], v.defs[0][3])
    return None

def feasible(c, g, n):
    """Can n be reached, given which optional parameters of its function were passed?"""
    def call(ai, e, fr, env): return NotImplemented
    ai = Dflt(g, lambda t: None, call)
    ai.run({}, watch=None)
    return any(k[0] is n for k in ai.seen)

class Dflt(AI):
    """Optional parameters whose argument is empty or given."""
    def ev(self, e, fr, env, depth=0):
        x = e
        if isinstance(x, dict) and x["k"] in ("ctor", "init") and opt_t(x.get("t")):
            A = [a for a in x.get("a") or []]
            if not A or "nullopt" in str(skipcast(A[0]).get("n", "")) : return NULL
            r = super().ev(A[0], fr, env, depth + 1)
            return r if r is not None or opt_t(skipcast(A[0]).get("t")) else ("obj",)
        return super().ev(e, fr, env, depth)

# ------------------------------------------------------------- scenarios
def scenario(c, f, files):
    """Runs parse_scenario on models of incomplete files."""
    g = c.graph(f, track_all=True, stop=lambda h: h["f"] not in files or h["n"] == "find_variable")
    full = {("defaults",): None, ("events",): None, ("events", "*"): None}
    for k in ("time", "model", "variable", "action", "value"): full[("events", "*", k)] = "override" if k == "action" else "x_" + k
    cases = [("a complete event", dict(full), {})]
    for k in ("time", "value", "model", "variable", "action"):
        d = dict(full); del d[("events", "*", k)]
        cases.append(("an event without %s" % k, d, {}))
    d = dict(full); d[("events", "*", "action")] = "overide"
    cases.append(("an event with an unknown action", d, {}))
    cases.append(("an event for an unknown model", dict(full), {"model": False}))
    cases.append(("an event for an unknown variable", dict(full), {"variable": False}))
    for what, doc, w in cases:
        # value is of no interest to a reset
        out = scen_run(c, f, g, doc, w)
        if out is None: c.note("%s: %s could not be followed" % (f["q"], what)); continue
        c.ob("scenario", what)
        hit, p, unk = out
        if what.startswith("a complete"):
            if not hit: c.note("%s: no path accepts a complete event; the model of the file is not understood" % f["q"]); return
            continue
        if hit and unk: c.note("%s: %s: undecided" % (f["q"], what)); continue
        if hit: c.viol("scenario", c.db.where(f), "%s accepts %s" % (f["q"], what), key="scenario|" + what, path=p, g=g)

def scen_run(c, f, g, doc, w):
    ynode = lambda e: "YAML::" in (e.get("t") or "") or "YAML::" in (e.get("fn") or "")
    def node_of(ai, e, fr, env, d=0):
        e = skipcast(e)
        if not isinstance(e, dict) or d > 20: return None
        if e["k"] in ("ctor", "init") and len(e.get("a") or []) >= 1: return node_of(ai, e["a"][0], fr, env, d + 1)
        v = ai.ev(e, fr, env)
        if isinstance(v, tuple) and v and v[0] == "yn": return v
        if e["k"] == "ref" and e.get("dk") in ("local", "param"):
            x = fr.lookup(e["d"])
            if x is not None:
                for df in x.defs:
                    if df[1] == "elem": return ("yn", ("events", "*"))
                if len(x.defs) == 1 and x.defs[0][2] is not None: return node_of(ai, x.defs[0][2], x.defs[0][3], env, d + 1)
        return None
    def call(ai, e, fr, env):
        if e["k"] == "call":
            fn, nm, op = e.get("fn") or "", last_(e.get("fn")), e.get("op")
            if fn.startswith("YAML::Load"): return ("yn", ())
            if "YAML::" in fn and e.get("obj") is not None or op == "[]" and ynode(e):
                o = e.get("obj") if e.get("obj") is not None else (e.get("a") or [None])[0]
                b = node_of(ai, o, fr, env)
                A = e.get("a") or []
                if b is None: return None
                if op == "[]":
                    k = ai.ev(A[-1], fr, env)
                    if k is None: k = ("str", literal(g, A[-1], fr))
                    return ("yn", b[1] + (k[1],)) if isinstance(k, tuple) and k[0] == "str" else None
                if op == "!": return b[1] not in doc
                if nm in ("operator bool", "IsDefined"): return b[1] in doc
                if nm == "as":
                    s = doc.get(b[1])
                    if "basic_string" in (e.get("t") or "") and s is not None: return ("str", s)
                    return None
                return None
            if nm == "find_variable" and id(e) not in fr.inl: return NULL if w.get("variable") is False else ("obj",)
            if op in ("==", "!=") :
                ops = ([e["obj"]] if e.get("obj") is not None else []) + (e.get("a") or [])
                if any(skipcast(o)["k"] == "call" and last_(skipcast(o).get("fn")) == "name" for o in ops):
                    return (w.get("model") is not False) == (op == "==")
                if all("YAML" not in (o.get("t") or "") for o in ops) and any(isinstance(skipcast(o), dict) and ynode(skipcast(o)) for o in ops): return None
        return NotImplemented
    def forced(ai, n, lab, env):
        return env
    def effect(ai, n, env): return None
    class S(SAI):
        def ev(self, e, fr, env, depth=0):
            if isinstance(e, dict) and e["k"] in ("ref",) and "YAML::" in (e.get("t") or ""):
                x = fr.lookup(e["d"]) if e.get("dk") in ("local", "param") else None
                if x is not None and any(df[1] == "elem" for df in x.defs): return ("yn", ("events", "*"))
                if x is not None and x.term not in env and len(x.defs) == 1 and x.defs[0][2] is not None and x.defs[0][1] in ("init", "param"):
                    return self.ev(x.defs[0][2], x.defs[0][3], env, depth + 1)
            if isinstance(e, dict) and e["k"] in ("ctor", "init") and opt_t(e.get("t")) and e.get("a"):
                if "nullopt" in str(skipcast(e["a"][0]).get("n", "")): return NULL
                r = super().ev(e, fr, env, depth)
                return r if r not in (None, UNK) else ("obj",) if not opt_t(skipcast(e["a"][0]).get("t")) else None
            if isinstance(e, dict) and e["k"] == "ref" and e.get("n") == "nullopt": return NULL
            if isinstance(e, dict) and e["k"] == "init" and e.get("fields"):
                A = e.get("a") or []
                return ("rec",) + tuple((q, self.ev(A[i], fr, env, depth + 1) if i < len(A) else None) for i, q in enumerate(e["fields"]))
            if isinstance(e, dict) and e["k"] == "mem" and not e.get("arrow"):
                b = self.ev(e["b"], fr, env, depth + 1)
                if isinstance(b, tuple) and b and b[0] == "rec": return dict(b[1:]).get(e["n"])
            return super().ev(e, fr, env, depth)
    def assume(ai, n, lab, env):
        # an optional about which nothing is known
        if lab in ("T", "F") and ("unk",) not in env and n.e is not None and ai.ev(n.e, n.fr, env) is None and any(
                x.get("k") == "call" and (opt_t((x.get("obj") or {}).get("t")) or last_(x.get("fn")) in ("count", "contains", "find", "empty")) for x in subexprs(n.e)):
            env = dict(env); env[("unk",)] = True
        return env
    ai = S(g, lambda t: fieldkey(t), call, effect, assume, limit=30000)
    # one pass through the events: the loop body is entered, and left once
    evl = [n for n in g.live() if n.k == "loop" and n.d.get("loop") is not None and cont_is_events(g, n, ai)]
    if len(evl) != 1: return None
    ev = evl[0]
    base = ai.loop
    def loop_(a, n, lab, env):
        if n is ev:
            if lab in ("T", "iter", "body"):
                if ("in",) in env: return None
                env = dict(env); env[("in",)] = True
                return env
            if lab in ("F", "done", "end", None):
                return env if ("in",) in env else None
        return base(a, n, lab, env) if base is not None else env
    ai.loop = loop_
    def stop(m, env):
        # as() of a missing node throws
        if m.k == "call" and m.fr is not None and last_(m.e.get("fn")) == "as" and "YAML" in (m.e.get("fn") or "") and not [a for a in m.e.get("a") or [] if a["k"] != "defarg"]:
            b = node_of(ai, m.e.get("obj"), m.fr, env)
            if b is not None and b[1] not in doc: return True
        return False
    outs = [o for o in ai.run({}, stop=stop) if o[0] is g.exit and ("in",) in dict(o[1])]
    if ai.exceeded: return None
    sure = [o for o in outs if ("unk",) not in dict(o[1])]
    o = (sure or outs or [None])[0]
    return (bool(outs), ai.path(o[2]) if o else None, bool(outs) and not sure)

def fieldkey(t):
    return t if t[0] == "f" else None
def cont_is_events(g, n, ai):
    ce = n.d["loop"].cont_expr if getattr(n.d["loop"], "cont_expr", None) else None
    if not ce: return False
    v = ai.ev(ce[0], ce[1], {})
    return v == ("yn", ("events",))
