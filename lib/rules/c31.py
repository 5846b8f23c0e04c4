"""C31: loading an OSP configuration carries over everything it declares."""
from conc import *
from c36 import Runner, loc
from c30 import LAI, fns_of, bare_t, text_of, last_of
RULE = """
The loader (parser, model descriptions' variable groups, connection helpers inlined) is explored on document skeletons whose names and numbers are
distinct atoms; the XML library's navigation functions are modelled. What reaches system_structure::add_entity, connect_variables and
add_variable_value, and the times of the returned configuration, must be exactly what the skeleton declares:
(entities) every simulator with its model and step size, every function with its kind and parameters; (initial values) each with its
variable, type and value; (connections) every variable, signal, variable group and signal group connection, from output to input,
member by member, also several from one signal; (times) start and end time, step size and their defaults.
(errors) A schema violation, an unknown function type, signal, group or model description, groups of unequal size, a missing connection of a function's
signal, two functions of one name, a step size that is not positive, and an end before the start are errors.
(groups) A model description's variable groups keep their names, members in order and nested groups.
"""
SINKS = re.compile(r"^cosim::system_structure::(add_entity|connect_variables)$|^cosim::add_variable_value$")
class Node:
    def __init__(self, tag, attrs=None, kids=(), text=""): self.tag, self.attrs, self.kids, self.text = tag, attrs or {}, list(kids), text
    def at(self, path):
        n = self
        for i in path: n = n.kids[i]
        return n
    def all(self, name, path=()):
        """Descendants in document order."""
        out = []
        for i, k in enumerate(self.at(path).kids):
            if k.tag == name: out.append(path + (i,))
            out += self.all(name, path + (i,))
        return out
S = lambda x: ("str", x)
def dom(p): return ("dom", p)
XML = re.compile(r"^xercesc(_\d+_\d+)?::")

def ren(v, how):
    """A value with the places in it renamed."""
    if not isinstance(v, tuple): return v
    if v[:1] in (("ptr",), ("it",), ("place",)): return v[:1] + (how(v[1]),) + tuple(ren(x, how) for x in v[2:])
    if len(v) == 2 and isinstance(v[0], tuple) and isinstance(v[1], tuple) and v[0] and v[0][0] in ("v", "this", "OBJ", "TMP", "TMPC", "up"): return (how(v[0]), v[1])
    return tuple(ren(x, how) for x in v)
def up(r): return r if r[0] == "g" else ("up", r)
def down(r): return r[1] if r[0] == "up" else ("gone",)

class XAI(LAI):
    """Structured values and the navigation of an XML document."""
    doc = None; failed = False; emd = None; FRESH = True; graph = None
    def __init__(self, *a, **k):
        super().__init__(*a, **k); self.subs = {}
    def default(self, t, depth=0):
        if depth and strip_t(t).startswith("std::chrono::duration<"): return ("unset",)
        return super().default(t, depth)
    def conv(self, v, frm, to):
        if isinstance(v, tuple) and v[:1] in (("unset",), ("dom",), ("domlist",), ("path",), ("made",), ("model",), ("time",), ("dur",), ("vn",)):
            if strip_t(to) == "bool": return True
            if "extended_model_description" in strip_t(to) and v[0] == "path" and "<" not in strip_t(to): return self.emd_of(v)
            return v
        if strip_t(to) == "cosim::uri" and isinstance(v, tuple) and v[:1] in (("str",), ("uri",)): return ("uri", v[1])
        if "filesystem::path" in strip_t(to) and text_of(v) is not None and isinstance(v, tuple): return ("path", v[1])
        return super().conv(v, frm, to)
    def emd_of(self, v):
        f = v[1].split("/")[-1]
        return self.emd.get(f) if self.emd is not None else None
    def construct(self, e, fr, env, depth):
        t = strip_t(e.get("t"))
        A = [a for a in e.get("a") or [] if not (isinstance(a, dict) and a["k"] == "defarg")]
        if t.startswith("std::basic_string<") and not t.endswith("]"):
            if not A: return S("")
            v = self.ev(A[0], fr, env, depth + 1)
            A = [a for a in A if "allocator<" not in strip_t(a.get("t"))[:20]]
            return v if len(A) == 1 else None
        if t == "cosim::uri" and len(A) == 1:
            v = self.ev(A[0], fr, env, depth + 1)
            return ("uri", v[1]) if isinstance(v, tuple) and v[:1] in (("str",), ("uri",)) else None
        if t.endswith("extended_model_description") and len(A) == 1:
            v = self.ev(A[0], fr, env, depth + 1)
            if isinstance(v, tuple) and v[0] == "path": return self.emd_of(v)
            return v
        if ("shared_ptr<" in t or "unique_ptr<" in t) and A or "filesystem::path" in t and len(A) == 1:
            v = self.ev(A[0], fr, env, depth + 1)
            return ("path", v[1]) if "filesystem::path" in t and isinstance(v, tuple) and v[0] == "str" else v
        return super().construct(e, fr, env, depth)
    # a call of a function that is being executed already
    depth = 0
    def recursive(self, n):
        e, fr = n.e, n.fr
        if n.k != "call" or e is None or e["k"] != "call" or id(e) in fr.inl or (self.db.F.get(e.get("id")) or {}).get("body") is None: return False
        while fr is not None:
            if fr.fn is not None and fr.fn["id"] == e["id"]: return True
            fr = fr.parent
        return False
    def subrun(self, n, env):
        """(whether it throws, the environment afterwards); None if not known."""
        key = (n, frozenset(env.items()))
        if key in self.subs: return self.subs[key]
        self.subs[key] = None
        e, f = n.e, self.db.F[n.e["id"]]
        if self.depth > 6 or self.graph is None: return None
        h = self.graph(f)
        vals = []
        for i, p in enumerate(f["p"]):
            a = (e.get("a") or [None] * 9)[i]
            t = h.frames[0].vars[p["d"]]
            pl = self.lv(a, n.fr, env) if t.ref else None
            vals.append((("LV", t.term), ("place",) + pl) if pl is not None else (t.term, self.ev(a, n.fr, env)))
        if e.get("obj") is not None:
            pl = self.lv(e["obj"], n.fr, env)
            if pl is not None: vals.append((("LVTHIS", 0), ("place",) + pl))
        sub = {}
        for k, v in env.items():
            sub[k if k in (("LOG",),) or k[0] == "g" else ("up", k)] = ren(v, up)
        for k, v in vals:
            if v is None: continue
            v = ren(v, up)
            sub[k] = v[1:] if v[:1] == ("place",) else v
        ai = XAI(h, limit=self.limit)
        ai.doc, ai.emd, ai.failed, ai.graph, ai.depth = self.doc, self.emd, self.failed, self.graph, self.depth + 1
        out = ai.outcomes(sub)
        if ai.exceeded or len(out) != 1 or out[0][0] == "end": return None
        kind, _, e2, _ = out[0]
        back = {}
        for k, v in e2.items():
            if k in (("LOG",),) or k[0] == "g": back[k] = ren(v, down)
            elif k[0] == "up": back[k[1]] = ren(v, down)
        back.pop(("SUB", id(e)), None)
        r = e2.get(("RET", 0)); pl = e2.get(("RETLV", 0))
        if r is None and pl is not None:
            if pl[0][0] == "up" and (f.get("rt") or "").rstrip().endswith("&"): back[("SUBLV", id(e))] = (pl[0][1], pl[1])
            try: r = ai.get(pl, e2)
            except OutOfRange: r = None
        if r is not None: back[("SUB", id(e))] = ren(r, down)
        self.subs[key] = (kind == "throw", back)
        return self.subs[key]
    def exc_(self, n, env):
        if self.recursive(n):
            r = self.subrun(n, env)
            return r[0] if r is not None else None
        v = super().exc_(n, env)
        return False if v is None and n.k in ("call", "dtor") else v
    def callval(self, e, fr, env, depth):
        if ("SUB", id(e)) in env: return env[("SUB", id(e))]
        r = self.lib(e, fr, env, depth)
        return r if r is not NotImplemented else super().callval(e, fr, env, depth)
    def lib(self, e, fr, env, depth):
        fn, A, o, op = e.get("fn") or "", [a for a in e.get("a") or [] if not (isinstance(a, dict) and a["k"] == "defarg")], e.get("obj"), e.get("op")
        last = fn.split("::")[-1]
        ev = lambda x: self.ev(x, fr, env, depth + 1)
        D = self.doc
        if XML.match(fn) or fn.split("::")[0].startswith("xercesc"):
            if last == "transcode" and len(A) == 1: return ev(A[0])
            if last == "getDocumentElement": return dom(())
            if last in ("parseURI", "parse"): return ("dom-document",)
            if o is None: return NotImplemented
            v = ev(o)
            if isinstance(v, tuple) and v[0] == "dom":
                p = v[1]; n = D.at(p)
                if last == "getFirstElementChild": return dom(p + (0,)) if n.kids else NULL
                if last == "getLastElementChild": return dom(p + (len(n.kids) - 1,)) if n.kids else NULL
                if last == "getChildElementCount": return len(n.kids)
                if last in ("getNextElementSibling", "getPreviousElementSibling"):
                    if not p: return NULL
                    i = p[-1] + (1 if "Next" in last else -1)
                    return dom(p[:-1] + (i,)) if 0 <= i < len(D.at(p[:-1]).kids) else NULL
                if last in ("getAttribute", "hasAttribute") and A:
                    a = text_of(ev(A[0]))
                    if a is None: return None
                    return S(n.attrs.get(a, "")) if last == "getAttribute" else a in n.attrs
                if last in ("getLocalName", "getTagName", "getNodeName"): return S(n.tag)
                if last == "getTextContent": return S(n.text)
                if last in ("getElementsByTagName", "getElementsByTagNameNS") and A:
                    a = text_of(ev(A[-1]))
                    return None if a is None else ("domlist", tuple(D.all(a, p)))
                if last == "getParentNode": return dom(p[:-1]) if p else None
            if isinstance(v, tuple) and v[0] == "domlist":
                if last == "getLength": return len(v[1])
                if last == "item" and A:
                    i = ev(A[0])
                    return None if not isinstance(i, int) else dom(v[1][i]) if 0 <= i < len(v[1]) else NULL
            if last == "failed": return self.failed
            return NotImplemented
        if last == "failed" and o is not None and not A and self.is_handler(o): return self.failed
        if o is not None and re.search(r"shared_ptr<(const )?(char|char16_t|XMLCh|unsigned short)", o.get("t") or ""):
            v = ev(o)
            if last == "get": return v
            if op == "*" and text_of(v) is not None: return ord(text_of(v)[0]) if text_of(v) else 0
            if op == "[]" and text_of(v) is not None and A and ev(A[0]) == 0: return ord(text_of(v)[0]) if text_of(v) else 0
        if last == "lexical_cast" or last in ("stod", "stoi", "stol", "stof"):
            v = text_of(ev(A[0])) if A else None
            t = strip_t(e.get("t"))
            if v is None: return None
            try: return float(v) if t == "double" else int(v) if t in NUMT else None
            except ValueError: return None
        f = self.db.F.get(e.get("id")) or {}
        if f.get("body") is not None and bare_t(f.get("rt")) == "bool" and len(f["p"]) == 1 and "basic_string" in f["p"][0]["t"] and A:
            v = text_of(ev(A[0]))
            return None if v is None else v in ("true", "1")
        if last == "to_string" and fn.startswith("std::") and A:
            v = ev(A[0])
            return S(str(v)) if isinstance(v, int) and not isinstance(v, bool) else None
        if last == "c_str" and o is not None or last == "string" and o is not None and "path" in (o.get("t") or ""):
            v = ev(o)
            return S(v[1]) if isinstance(v, tuple) and v[0] == "path" else v
        if op in ("->", "*") and not A and o is not None and ("_ptr<" in (o.get("t") or "")):
            v = ev(o)
            if isinstance(v, tuple) and v[:1] in (("model",), ("mdesc",), ("made",)): return v
        if last == "get" and not A and o is not None and "_ptr<" in (o.get("t") or ""):
            v = ev(o)
            if isinstance(v, tuple) and v[:1] in (("model",), ("mdesc",), ("made",)): return v
        if op == "+" and len(A) + (o is not None) == 2:
            a, b = [text_of(ev(x)) for x in ([o] if o is not None else []) + A]
            if a is not None and b is not None: return S(a + b)
        if op in ("==", "!=") and len(A) + (o is not None) == 2:
            ops = ([o] if o is not None else []) + A
            a, b = [ev(x) for x in ops]
            if all(isinstance(x, tuple) and x[:1] in (("str",), ("dom",)) or x == NULL for x in (a, b)): return (a == b) == (op == "==")
        if last in ("compare",) and o is not None and len(A) == 1:
            a, b = text_of(ev(o)), text_of(ev(A[0]))
            if a is not None and b is not None: return (a > b) - (a < b)
        # files and addresses
        P = lambda v: v[1] if isinstance(v, tuple) and v[:1] in (("path",), ("str",), ("uri",)) else None
        if op == "/" and "path" in (e.get("t") or ""):
            ops = [P(ev(x)) for x in ([o] if o is not None else []) + A]
            if len(ops) == 2 and None not in ops: return ("path", ops[0].rstrip("/") + "/" + ops[1])
        if fn.startswith("cosim::"):
            if last in ("path_to_file_uri", "file_uri_to_path") and A:
                p = P(ev(A[0])); return None if p is None else ("uri" if last.endswith("uri") else "path", p)
            if last == "resolve_reference" and len(A) == 2:
                return ("uri", "/cfg/" + (P(ev(A[1])) or "?"))
            if last == "lookup_model" and A: p = [P(ev(a)) for a in A]; return ("model", p[-1]) + tuple(p[:-1]) if None not in p else None
            if last == "description" and o is not None:
                m = ev(o)
                if isinstance(m, tuple) and m[0] == "model": return ("mdesc", m[1])
            if last == "to_time_point" and A: v = ev(A[0]); return ("time", v) if v is not None else None
            if last == "to_duration" and A: v = ev(A[0]); return ("dur", v) if v is not None else None
            if last == "get_variable_description" and A:
                n = vname(ev(A[0]))
                return ("vdesc", n) if n is not None else None
            if last in ("scheme",): return S("file")
        if fn.endswith("duration::zero") or last == "zero" and "duration" in fn: return ("dur", 0.0)
        if last in ("remove_filename", "parent_path") and o is not None:
            p = P(ev(o)); return ("path", p.rsplit("/", 1)[0]) if p is not None else None
        if last == "absolute" and A: return ev(A[0])
        if last == "is_regular_file" and A: return True
        if last == "exists" and A and "path" in (A[0].get("t") or ""):
            p = P(ev(A[0]))
            return None if p is None else p.split("/")[-1] in (self.emd or {})
        if fn in ("std::make_shared", "std::make_unique") and e.get("t"): return ("made", strip_t(targ(e["t"])))
        return NotImplemented
    def is_handler(self, o):
        return any("DOMErrorHandler" in str(b) for b in ((self.db.R.get(strip_t(o.get("t")).rstrip(" *")) or {}).get("bases") or []))
    def ev(self, e, fr, env, depth=0):
        if isinstance(e, dict) and e["k"] == "mem":
            b = None
            if e.get("n") in ("causality", "name", "type"):
                b = super().ev(e["b"], fr, env, depth + 1)
                if e.get("arrow") is None or True:
                    if isinstance(b, tuple) and b[0] == "vdesc": return self.vfield(b[1], e["n"])
                    if isinstance(b, tuple) and b[0] == "mdesc" and e["n"] == "name": return S("M-" + b[1])
        r = super().ev(e, fr, env, depth)
        if r is None and isinstance(e, dict) and e["k"] == "un" and e["op"] == "*":
            v = self.ev(e["e"], fr, env, depth + 1)
            if isinstance(v, tuple) and v[0] == "str": return ord(v[1][0]) if v[1] else 0
        return r
    def vfield(self, n, f):
        if f != "causality": return None
        v = n.split(".")[-1]
        return ("enum", "cosim::variable_causality::" + {"o": "output", "i": "input", "c": "calculated_parameter", "p": "parameter"}[v[0]])
    def lv(self, e, fr, env, depth=0):
        # a description that is only read
        if isinstance(e, dict) and e["k"] == "call" and (e.get("fn") or "").split("::")[-1] in ("get_variable_description", "description", "lookup_model"): return None
        if isinstance(e, dict) and e["k"] == "call" and ("SUBLV", id(e)) in env: return env[("SUBLV", id(e))]
        return super().lv(e, fr, env, depth)
    def effects(self, n, env):
        e = n.e
        if e["k"] == "call" and SINKS.match(e.get("fn") or ""):
            args = tuple(self.ev(a, n.fr, env) if not (isinstance(a, dict) and a["k"] == "defarg") else None for a in e.get("a") or [])
            env = dict(env)
            env[("LOG",)] = env.get(("LOG",), ()) + ((e["fn"].split("::")[-1], args, n.l),)
            return env
        if self.recursive(n):
            r = self.subrun(n, env)
            return r[1] if r is not None else {k: v for k, v in env.items() if k != ("SUB", id(e))}
        fn, o = e.get("fn") or "", e.get("obj")
        if fn.split("::")[-1] in ("remove_filename",) and o is not None: return env
        A = [a for a in e.get("a") or [] if not (isinstance(a, dict) and a["k"] == "defarg")]
        if o is not None and fn.split("::")[-1] == "insert" and "unordered_set<" in strip_t(o.get("t")) and len(A) == 1:
            c = self.lv(o, n.fr, env)
            try: v = self.get(c, env) if c is not None else None
            except OutOfRange: v = None
            x = self.ev(A[0], n.fr, env)
            if isinstance(v, tuple) and v[0] == "vec" and x is not None:
                env = self.set(c, v if x in v[1] else ("vec", v[1] + (x,)), env)
                env[("EMPLACED", id(e))] = ("rec", "pair", (("first", None), ("second", x not in v[1])))
                return env
        return super().effects(n, env)

def vname(v):
    """The name of a variable: simulator.variable or function.group[i].io[j]."""
    if not (isinstance(v, tuple) and v[:1] == ("rec",)): return None
    d = dict(v[2])
    ent = text_of(d.get("entity_name"))
    if text_of(d.get("variable_group_name")):
        parts = [ent, text_of(d["variable_group_name"]), d.get("variable_group_instance"), text_of(d.get("variable_name")), d.get("variable_instance")]
        return None if None in parts else "%s/%s[%s]/%s[%s]" % tuple(parts)
    if d.get("variable_group_name") is None: return None
    x = text_of(d.get("variable_name"))
    return "%s.%s" % (ent, x) if ent is not None and x is not None else None

class Loader:
    def __init__(self, c):
        self.c, self.db = c, c.db
        self.stop = lambda f: bool(f.get("dflt")) or "::~" in f["q"] or f["q"].startswith("cosim::system_structure::") or f["q"] == "cosim::add_variable_value" or \
            re.match(r"^cosim::(file_uri_to_path|path_to_file_uri|resolve_reference|to_time_point|to_duration|uri::|model_uri_resolver::|detail::|log::|error_category|make_error)", f["q"]) is not None or \
            f["q"].endswith("extended_model_description::extended_model_description") or \
            bare_t(f.get("rt")) == "bool" and len(f["p"]) == 1 and "basic_string" in f["p"][0]["t"] and f.get("cls") is not None
    def run(self, f, doc, emd=None, failed=False, args=(), this=None, stop=None):
        g = self.c.graph(f, track_all=True, stop=stop or self.stop)
        env = {}
        if this is not None: env[("this",)] = this
        for p, a in zip(f["p"], args):
            if a is not None: env[g.frames[0].vars[p["d"]].term] = a
        ai = XAI(g, limit=400000)
        ai.doc, ai.emd, ai.failed = doc, emd, failed
        ai.graph = lambda h: self.c.graph(h, track_all=True, stop=stop or self.stop)
        self.ai = ai
        out = ai.outcomes(env)
        res = []
        for kind, n, e, key in out:
            r = e.get(("RET", g.frames[0].id))
            t = (kind, r if kind == "return" else None, tuple(x[:2] for x in e.get(("LOG",), ())) if kind == "return" else None, e.get(("this",)))
            if t not in [x[0] for x in res]: res.append((t, n, key))
        return res, ai, g

TYPES = {"Real": ("double", lambda s: float(s)), "Integer": ("int", lambda s: int(s)), "Boolean": ("bool", lambda s: s in ("true", "1")), "String": ("string", lambda s: S(s))}
def sim(name, src, step=None, vals=()):
    a = {"name": name, "source": src}
    if step is not None: a["stepSize"] = step
    return Node("Simulator", a, [Node("InitialValues", {}, [Node("InitialValue", {"variable": v}, [Node(t, {"value": x})]) for v, t, x in vals])] if vals else [])
def vc(a, b, tag="Variable"): return Node(tag + "Connection", {}, [Node(tag, {"simulator": x.split(".")[0], "name": x.split(".")[1]}) for x in (a, b)])
def sc(f, s, v, g=""):
    vn = Node("Variable" + g, {"simulator": v.split(".")[0], "name": v.split(".")[1]}); sn = Node("Signal" + g, {"function": f, "name": s})
    return Node("Signal%sConnection" % g, {}, [sn, vn] if g else [vn, sn])
def system(sims, funs=None, conns=None, times=()):
    k = [Node(t, {}, (), x) for t, x in times] + [Node("Simulators", {}, sims)]
    if funs is not None: k.append(Node("Functions", {}, funs))
    if conns is not None: k.append(Node("Connections", {}, conns))
    return Node("OspSystemStructure", {}, k)
def group(name, vars, nested=(), type="Generic"):
    return ("rec", "cosim::variable_group_description", (("name", S(name)), ("type", S(type)), ("variables", ("vec", tuple(S(v) for v in vars))), ("variable_group_descriptions", ("vec", tuple(nested)))))
def emd(*groups):
    return ("rec", "cosim::extended_model_description", (("variableGroups", ("map", tuple((dict(x[2])["name"], x) for x in groups))),))
LIN = lambda n, **k: Node("LinearTransformation", dict({"name": n}, **k))
SIMS = lambda: [sim("a", "a.fmu", "0.25", [("p1", "Real", "2.5"), ("p2", "Integer", "7"), ("p3", "Boolean", "true"), ("p4", "String", "text"), ("p5", "Boolean", "0"), ("p6", "Enumeration", "3")]), sim("d", "d.fmu"), sim("b", "b.fmu", None, [("p9", "Real", "-1.5")])]
EMDS = lambda: {"M-a.fmu_OspModelDescription.xml": emd(group("ga", ["o1", "i1"]), group("gv", ["o5", "o6"]), group("go", ["i7", "i8"]), group("gs", ["o3"]), group("gb", ["o3"], [group("gn", ["o9"])])),
                "M-b.fmu_OspModelDescription.xml": emd(group("ha", ["i1", "o1"]), group("hv", ["o5", "o6"]), group("ho", ["i7", "i8"]), group("hs", ["i3"]), group("hb", ["i3"], [group("hn", ["i9"])]))}
def prm(**k): return {n: v for n, v in k.items()}

def canon(log):
    """The events in a form that does not depend on the overload used."""
    ents, conns, vals, odd = {}, [], [], []
    for name, a in log:
        if name == "connect_variables":
            x = (vname(a[0]), vname(a[1]))
            (odd if None in x else conns).append(x)
        elif name == "add_variable_value":
            n, v = vname(a[2]), a[3]
            if isinstance(v, tuple) and v[:1] == ("var",): v = (v[1], v[2])
            else: v = None
            if n is None or v is None or v[1] is None: odd.append((n, v))
            else: vals.append((n, "string" if "basic_string" in v[0] else v[0], v[1]))
        elif name == "add_entity":
            if len(a) == 1:
                d = dict(a[0][2]) if isinstance(a[0], tuple) and a[0][:1] == ("rec",) else {}
                n, ty, st, pr = text_of(d.get("name")), d.get("type"), d.get("step_size_hint"), d.get("parameter_values")
                if isinstance(ty, tuple) and ty[:1] == ("var",): ty = ty[2]
                x = pr if isinstance(ty, tuple) and ty[0] == "made" else st
            else: n, ty, x = text_of(a[0]), a[1], a[2] if len(a) > 2 else ("dur", 0.0)
            if isinstance(ty, tuple) and ty[:1] == ("var",): ty = ty[2]
            if isinstance(ty, tuple) and ty[0] == "model" and x is None: x = ("dur", 0.0)
            if isinstance(x, tuple) and x[:1] == ("map",): x = tuple(sorted((k, v[2] if isinstance(v, tuple) and v[:1] == ("var",) else v) for k, v in x[1]))
            if n is None or ty is None or x is None: odd.append((n, ty, x))
            else: ents.setdefault(n, []).append((ty, x))
    return ents, conns, vals, odd

def check(c):
    db = c.db
    L = Loader(c)
    fs = [f for f in fns_of(db) if re.search(r"\bosp_config$", bare_t(f.get("rt"))) and len(f["p"]) >= 2 and "path" in f["p"][0]["t"]]
    if not fs: c.need("loading"); return
    f = fs[0]
    where = c.db.where(f)
    lin, vsum = "cosim::linear_transformation_function_type", "cosim::vector_sum_function_type"
    def idx(cls, n):
        G = next((x for q, x in db.G.items() if q == cls + "::" + n + "_parameter_index"), None)
        v = G.get("cv") if G else None
        return v if v is not None else {"offset": 0, "factor": 1, "inputCount": 0, "numericType": 1, "dimension": 2}[n]
    P = lambda cls, **k: tuple(sorted((idx(cls, n), v) for n, v in k.items()))
    def good(what, doc, ents=None, conns=None, vals=None, times=None, emds=None):
        res, ai, g = L.run(f, doc, EMDS() if emds is None else emds, args=(("path", "/cfg/OspSystemStructure.xml"), None))
        c.ob("loading", what)
        if ai.exceeded or not res: c.note("%s: %s: not decided" % (where, what)); return
        if all(x[0][0] != "return" for x in res):
            if ai.forked: c.note("%s: %s: not decided" % (where, what)); return
            n = next((m for m in reversed(ai.path(res[0][2])) if m.k in ("throw", "call") and m.fr is not None), res[0][1])
            c.viol("loading", loc(c, f, n), "a system structure with %s is refused" % what, key="loading:" + what); return
        ret = [x for x in res if x[0][0] == "return"]
        if len(ret) != 1: c.note("%s: %s: not decided (%d ways)" % (where, what, len(ret))); return
        (kind, r, log, th), n, key = ret[0]
        E, C, V, odd = canon(log)
        if odd: c.note("%s: %s: not known: %s" % (where, what, str(odd)[:300]))
        d = dict(r[2]) if isinstance(r, tuple) and r[:1] == ("rec",) else {}
        def say(part, name, msg): c.viol("loading", where, "%s: %s" % (what, msg), key="loading:%s:%s" % (part, name))
        if times:
            for k, w in times.items():
                v = d.get(k)
                if v == ("unset",): say("times", k, "%s is not set" % k); continue
                if v is None: c.note("%s: %s: %s is not known" % (where, what, k)); continue
                if v == ("rec", "cosim::time_point", ()) : v = ("time", 0.0)
                if v != w: say("times", k, "%s is %s, not %s" % (k, shw(v), shw(w)))
        if odd: return
        if ents is not None:
            for n_, w in ents.items():
                got = E.get(n_, [])
                if not got: say("entities", n_, "'%s' does not become part of the system" % n_)
                elif len(got) > 1: say("entities", n_, "'%s' is added %d times" % (n_, len(got)))
                elif got[0] != w and not any(y is None for y in got[0]): say("entities", n_, "'%s' is added with %s, not %s" % (n_, shw(got[0]), shw(w)))
            for n_ in E:
                if n_ not in ents: say("entities", n_, "'%s' is added, which nothing declares" % n_)
        if conns is not None:
            for w in conns:
                k = C.count(w)
                if k == 0: say("connections", "%s-%s" % w, ("the connection from %s to %s is lost" % w) + (", %s to %s is made instead" % next(x for x in C if w[1] in x or w[0] in x) if any(w[1] in x or w[0] in x for x in C if x not in conns) and next(x for x in C if w[1] in x or w[0] in x) not in conns else ""))
                elif k > 1: say("connections", "%s-%s" % w, "the connection from %s to %s is made %d times" % (w + (k,)))
            for w in C:
                if w not in conns: say("connections", "%s-%s" % w, "%s is connected to %s, which nothing declares" % w)
        if vals is not None:
            for w in vals:
                if w not in V:
                    o = next((x for x in V if x[0] == w[0]), None)
                    say("values", w[0], "the initial value %s of %s %s" % (shw(w[2]), w[0], "is lost" if o is None else "becomes %s (%s)" % (shw(o[2]), o[1])))
            for w in V:
                if w[0] not in [x[0] for x in vals]: say("values", w[0], "%s gets an initial value that nothing declares" % w[0])
    def bad(what, doc, emds=None, failed=False):
        res, ai, g = L.run(f, doc, EMDS() if emds is None else emds, failed=failed, args=(("path", "/cfg/OspSystemStructure.xml"), None))
        c.ob("errors", what)
        if ai.exceeded or not res: c.note("%s: %s: not decided" % (where, what)); return
        ret = [x for x in res if x[0][0] == "return"]
        if ret and len(ret) == len(res) and (not ai.forked or all(x[0][0] == "return" for x in res)):
            c.viol("errors", where, "%s is not reported" % what, key="errors:" + what)
        elif ret: c.note("%s: %s: not decided" % (where, what))
    A1 = (("model", "a.fmu", "/cfg/OspSystemStructure.xml"), ("dur", 0.25)); B1 = (("model", "b.fmu", "/cfg/OspSystemStructure.xml"), ("dur", 0.0)); D1 = (("model", "d.fmu", "/cfg/OspSystemStructure.xml"), ("dur", 0.0))
    sims = {"a": A1, "b": B1, "d": D1}
    V = [("a.p1", "double", 2.5), ("a.p2", "int", 7), ("a.p3", "bool", True), ("a.p4", "string", S("text")), ("a.p5", "bool", False), ("a.p6", "int", 3), ("b.p9", "double", -1.5)]
    good("simulators and initial values", system(SIMS()), sims, [], V, {"start_time": ("time", 0.0), "step_size": ("dur", 0.1), "end_time": NULL})
    good("start time, end time and step size", system(SIMS(), times=[("StartTime", "3.5"), ("EndTime", "9.5"), ("BaseStepSize", "0.05")]), sims, [], V, {"start_time": ("time", 3.5), "step_size": ("dur", 0.05), "end_time": ("time", 9.5)})
    good("variable connections", system(SIMS(), None, [vc("a.o1", "b.i1"), vc("b.i2", "a.o2"), vc("d.c1", "b.p1"), vc("b.p2", "d.c2"), vc("a.o1", "d.i1")]), sims,
         [("a.o1", "b.i1"), ("a.o2", "b.i2"), ("d.c1", "b.p1"), ("d.c2", "b.p2"), ("a.o1", "d.i1")], V)
    good("linear transformations", system(SIMS(), [LIN("f", factor="2.5", offset="0.75"), LIN("g")],
         [sc("f", "in", "a.o1"), sc("g", "out", "b.i3"), sc("f", "out", "b.i1"), sc("g", "in", "a.o2"), sc("f", "out", "d.i2")]),
         dict(sims, f=(("made", lin), P(lin, offset=0.75, factor=2.5)), g=(("made", lin), P(lin, offset=0.0, factor=1.0))),
         [("a.o1", "f/in[0]/[0]"), ("f/out[0]/[0]", "b.i1"), ("f/out[0]/[0]", "d.i2"), ("a.o2", "g/in[0]/[0]"), ("g/out[0]/[0]", "b.i3")], V)
    good("sums", system(SIMS(), [Node("Sum", {"name": "s", "inputCount": "3"})],
         [sc("s", "in[1]", "a.o1"), sc("s", "out", "b.i1"), sc("s", "in[0]", "a.o2"), sc("s", "in[2]", "b.o3"), sc("s", "out", "d.i2")]),
         dict(sims, s=(("made", vsum), P(vsum, inputCount=3))),
         [("a.o2", "s/in[0]/[0]"), ("a.o1", "s/in[1]/[0]"), ("b.o3", "s/in[2]/[0]"), ("s/out[0]/[0]", "b.i1"), ("s/out[0]/[0]", "d.i2")], V)
    vs = lambda: Node("VectorSum", {"name": "v", "inputCount": "2", "dimension": "2"})
    vsc = lambda: [sc("v", "in[0]", "b.hv", "Group"), sc("v", "in[1]", "a.gv", "Group"), sc("v", "out", "a.go", "Group"), sc("v", "out", "b.ho", "Group")]
    good("vector sums", system(SIMS(), [vs()], vsc()), dict(sims, v=(("made", vsum), P(vsum, inputCount=2, dimension=2))),
         [("b.o5", "v/in[0]/[0]"), ("b.o6", "v/in[0]/[1]"), ("a.o5", "v/in[1]/[0]"), ("a.o6", "v/in[1]/[1]"), ("v/out[0]/[0]", "a.i7"), ("v/out[0]/[1]", "a.i8"), ("v/out[0]/[0]", "b.i7"), ("v/out[0]/[1]", "b.i8")], V)
    good("variable group connections", system(SIMS(), None, [vc("a.ga", "b.ha", "VariableGroup"), vc("a.gv", "b.ho", "VariableGroup")]), sims,
         [("a.o1", "b.i1"), ("b.o1", "a.i1"), ("a.o5", "b.i7"), ("a.o6", "b.i8")], V)
    good("connections of nested variable groups", system(SIMS(), None, [vc("a.gb", "b.hb", "VariableGroup")]), sims, [("a.o3", "b.i3"), ("a.o9", "b.i9")], V)
    good("a connection of variable groups inside others", system(SIMS(), None, [vc("a.gn", "b.hn", "VariableGroup")]), sims, [("a.o9", "b.i9")], V)
    good("functions of several kinds", system(SIMS(), [Node("Sum", {"name": "s", "inputCount": "1"}), LIN("f"), vs()], [sc("s", "in[0]", "a.o1"), sc("s", "out", "b.i1"), sc("f", "in", "a.o2"), sc("f", "out", "d.i2")] + vsc() + [vc("a.o1", "d.i4")]),
         dict(sims, s=(("made", vsum), P(vsum, inputCount=1)), f=(("made", lin), P(lin, offset=0.0, factor=1.0)), v=(("made", vsum), P(vsum, inputCount=2, dimension=2))),
         [("a.o1", "s/in[0]/[0]"), ("s/out[0]/[0]", "b.i1"), ("a.o2", "f/in[0]/[0]"), ("f/out[0]/[0]", "d.i2"), ("a.o1", "d.i4"),
          ("b.o5", "v/in[0]/[0]"), ("b.o6", "v/in[0]/[1]"), ("a.o5", "v/in[1]/[0]"), ("a.o6", "v/in[1]/[1]"), ("v/out[0]/[0]", "a.i7"), ("v/out[0]/[1]", "a.i8"), ("v/out[0]/[0]", "b.i7"), ("v/out[0]/[1]", "b.i8")], V)
    # errors
    lt = lambda: [sc("f", "in", "a.o1"), sc("f", "out", "b.i1")]
    bad("a document that violates the schema", system(SIMS()), failed=True)
    bad("a step size of zero", system(SIMS(), times=[("BaseStepSize", "0")]))
    bad("a negative step size", system(SIMS(), times=[("BaseStepSize", "-0.5")]))
    bad("an end time before the start time", system(SIMS(), times=[("StartTime", "2"), ("EndTime", "1")]))
    bad("an unknown kind of function", system(SIMS(), [Node("Product", {"name": "f"})], []))
    bad("two functions of the same name", system(SIMS(), [LIN("f", factor="2"), LIN("f", factor="3")], lt()))
    bad("a linear transformation whose input is not connected", system(SIMS(), [LIN("f")], lt()[1:]))
    bad("a linear transformation whose output is not connected", system(SIMS(), [LIN("f")], lt()[:1]))
    bad("a sum with an unconnected input", system(SIMS(), [Node("Sum", {"name": "s", "inputCount": "2"})], [sc("s", "in[0]", "a.o1"), sc("s", "out", "b.i1")]))
    bad("a connection to an unknown function", system(SIMS(), [LIN("f")], lt() + [sc("g", "out", "b.i2")]))
    bad("a connection to an unknown signal", system(SIMS(), [LIN("f")], lt() + [sc("f", "out2", "b.i2")]))
    bad("a group connection to an unknown function", system(SIMS(), [vs()], vsc() + [sc("w", "out", "a.go", "Group")]))
    bad("a group connection to an unknown signal group", system(SIMS(), [vs()], vsc() + [sc("v", "in[2]", "a.go", "Group")]))
    bad("a vector sum with an unconnected input", system(SIMS(), [vs()], vsc()[1:]))
    bad("a vector sum connected to an unknown variable group", system(SIMS(), [vs()], vsc()[1:] + [sc("v", "in[0]", "b.zz", "Group")]))
    bad("a vector sum connected to a smaller variable group", system(SIMS(), [vs()], vsc()[1:] + [sc("v", "in[0]", "b.hb", "Group")]))
    bad("a connection of an unknown variable group", system(SIMS(), None, [vc("a.ga", "b.zz", "VariableGroup")]))
    bad("a connection of variable groups of unequal size", system(SIMS(), None, [vc("a.gb", "b.ha", "VariableGroup")]))
    bad("a connection of a variable group to a smaller one", system(SIMS(), None, [vc("a.ga", "b.hs", "VariableGroup")]))
    bad("a connection of a variable group to a larger one", system(SIMS(), None, [vc("a.gs", "b.ha", "VariableGroup")]))
    bad("a group connection of a simulator without model description", system(SIMS(), None, [vc("a.ga", "d.ha", "VariableGroup")]))
    # variable groups of a model description
    for h in fns_of(db):
        if not h["q"].endswith("extended_model_description::extended_model_description") or len(h["p"]) != 1 or "path" not in h["p"][0]["t"]: continue
        doc = Node("OspModelDescription", {}, [Node("UnitDefinitions"), Node("VariableGroups", {}, [
            Node("Generic", {"name": "g1"}, [Node("Variable", {"ref": "x1"}), Node("Variable", {"ref": "x2"}), Node("Force", {"name": "n1"}, [Node("Variable", {"ref": "y1"})]), Node("Variable", {"ref": "x3"})]),
            Node("Voltage", {"name": "g2"}, [Node("Variable", {"ref": "z1"})])])])
        res, ai, g = L.run(h, doc, args=(("path", "/cfg/M.xml"),), this=("rec", "cosim::extended_model_description", ()), stop=lambda q: bool(q.get("dflt")))
        c.ob("groups", "a model description with two groups")
        ret = [x for x in res if x[0][0] == "return"]
        if len(ret) != 1 or ai.exceeded:
            c.note("%s: not decided" % c.db.where(h))
            continue
        th = ret[0][0][3]
        m = dict(th[2]).get("variableGroups") if isinstance(th, tuple) else None
        if not (isinstance(m, tuple) and m[:1] == ("map",)): c.note("%s: the variable groups are not known" % c.db.where(h)); continue
        got = {text_of(k): dict(v[2]) if isinstance(v, tuple) and v[:1] == ("rec",) else None for k, v in m[1]}
        for n_, vs_ in (("g1", ["x1", "x2", "x3"]), ("g2", ["z1"])):
            if n_ not in got: c.viol("groups", c.db.where(h), "the variable group '%s' of a model description is lost" % n_, key="groups:lost"); continue
            if got[n_] is None: c.note("%s: group %s is not known" % (c.db.where(h), n_)); continue
            vv = got[n_].get("variables")
            names = [text_of(x) for x in vv[1]] if isinstance(vv, tuple) and vv[:1] == ("vec",) else None
            if names is None or None in names: c.note("%s: the members of %s are not known" % (c.db.where(h), n_))
            elif names != vs_: c.viol("groups", c.db.where(h), "the variable group '%s' has the members %s, not %s" % (n_, names, vs_), key="groups:members")
            sub = got[n_].get("variable_group_descriptions")
            if not (isinstance(sub, tuple) and sub[:1] == ("vec",)) or any(not (isinstance(x, tuple) and x[:1] == ("rec",)) for x in sub[1]): c.note("%s: the groups inside %s are not known" % (c.db.where(h), n_)); continue
            have = [(text_of(dict(x[2]).get("name")), [text_of(y) for y in dict(x[2])["variables"][1]]) for x in sub[1] if isinstance(dict(x[2]).get("variables"), tuple)]
            want = [("n1", ["y1"])] if n_ == "g1" else []
            if not any(a is None or None in b for a, b in have) and len(have) == len(sub[1]) and have != want:
                c.viol("groups", c.db.where(h), "the variable group '%s' has the nested groups %s, not %s" % (n_, have, want), key="groups:nested")
    c.need("loading", 9); c.need("errors", 15); c.need("groups")

def shw(v):
    if isinstance(v, tuple) and v[:1] in (("time",), ("dur",)): return "%s s" % (v[1],)
    if isinstance(v, tuple) and v[:1] in (("made",), ("model",), ("str",)): return str(v[1])
    if isinstance(v, tuple) and v[:1] not in (("rec",), ("vec",), ("map",), ("var",), ("enum",)): return "(" + ", ".join(shw(x) for x in v) + ")"
    return "none" if v == NULL else str(v)
