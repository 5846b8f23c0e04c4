"""C32: loading an SSP configuration carries over everything it declares."""
from c31 import *
RULE = """
The loader and the parser (helpers inlined) are explored on document skeletons whose names and numbers are distinct atoms; the property tree and the
XML reader are modelled: attributes, children in document order, conversions that fail. What reaches system_structure::add_entity and
connect_variables, and the parts of the returned configuration, must be exactly what the skeleton declares:
(components) every component with its model, looked up relative to the description, and its step size hint; (parameters) every parameter
of every parameter set of a component, inline or in a file of its own, under the set's name with its variable, type and value, and the
first set of each component also in the default set, which always exists; (connections) every connection from start to end, through a
linear transformation with the declared factor and offset if it has one; (experiment) start time and algorithm with step size and number of
threads. The same holds for archives and other file names.
(errors) Connections to unknown components or connectors, two components of one name, missing or malformed attributes, unsupported
parameter types, unknown algorithms and missing parameter files are errors.
"""
def N(tag, attrs=None, *kids): return Node(tag, attrs, ([Node("<xmlattr>", {}, [Node(k, {}, (), v) for k, v in attrs.items()])] if attrs else []) + list(kids))
BAD = ("bad",)
class PAI(XAI):
    docs = None
    def asvec(self, v):
        if isinstance(v, tuple) and v[:1] == ("pt",):
            n = self.docs[v[1]].at(v[2])
            return ("vec", tuple(("rec", "pair", (("first", S(k.tag)), ("second", ("pt", v[1], v[2] + (i,))))) for i, k in enumerate(n.kids)))
        return v
    def descend(self, v, path):
        """The node at a path of names; None if there is none."""
        if not (isinstance(v, tuple) and v[:1] == ("pt",)) or path is None: return UNK
        p = v[2]
        for name in path.split("."):
            n = self.docs[v[1]].at(p)
            i = next((i for i, k in enumerate(n.kids) if k.tag == name), None)
            if i is None: return None
            p += (i,)
        return ("pt", v[1], p)
    def parse(self, text, t):
        t = strip_t(t)
        if "basic_string" in t: return S(text)
        try:
            if t in ("double", "float"): return float(text)
            if t == "bool": return {"true": True, "false": False, "1": True, "0": False}.get(text, BAD)
            if t in NUMT: return int(text)
        except ValueError: return BAD
        return UNK
    def tree(self, e, fr, env):
        """What a function of the property tree gives: a value, BAD if it throws, NotImplemented."""
        fn, A, o = e.get("fn") or "", [a for a in e.get("a") or [] if not (isinstance(a, dict) and a["k"] == "defarg")], e.get("obj")
        if o is None or "basic_ptree" not in fn: return NotImplemented
        last = fn.split("::")[-1].split("<")[0]
        ev = lambda x: self.ev(x, fr, env)
        v = ev(o)
        if not (isinstance(v, tuple) and v[:1] == ("pt",)): return NotImplemented
        if last in ("size", "empty") and not A:
            n = len(self.docs[v[1]].at(v[2]).kids)
            return n if last == "size" else n == 0
        if last in ("data", "get_value") and not A:
            x = self.docs[v[1]].at(v[2]).text
            return self.parse(x, e.get("t"))
        if last == "count" and A:
            x = text_of(ev(A[0])); return None if x is None else sum(k.tag == x for k in self.docs[v[1]].at(v[2]).kids)
        if last not in ("get_child", "get_child_optional", "get", "get_optional") or not A: return NotImplemented
        x = self.descend(v, text_of(ev(A[0])))
        if x == UNK: return None
        if last == "get_child": return x if x is not None else ev(A[1]) if len(A) > 1 else BAD
        if last == "get_child_optional": return x if x is not None else NULL
        t = strip_t(e.get("t"))
        if last == "get_optional": t = targ(t)
        r = BAD if x is None else self.parse(self.docs[x[1]].at(x[2]).text, t)
        if r == UNK: return None
        if last == "get_optional": return NULL if r == BAD else r
        return r if r != BAD else self.conv(ev(A[1]), self.et(A[1]), t) if len(A) > 1 else BAD
    def lib(self, e, fr, env, depth):
        fn, A, o, op = e.get("fn") or "", [a for a in e.get("a") or [] if not (isinstance(a, dict) and a["k"] == "defarg")], e.get("obj"), e.get("op")
        last = fn.split("::")[-1]
        ev = lambda x: self.ev(x, fr, env, depth + 1)
        r = self.tree(e, fr, env)
        if r is not NotImplemented: return None if r == BAD else r
        txt = lambda v: v[1] if isinstance(v, tuple) and v[:1] in (("path",), ("str",)) else None
        if last == "extension" and o is not None:
            x = txt(ev(o)); return None if x is None else ("path", re.search(r"(\.[^./]*)?$", x).group(0))
        if op in ("==", "!=") and len(A) + (o is not None) == 2:
            a, b = [txt(ev(x)) for x in ([o] if o is not None else []) + A]
            if a is not None and b is not None: return (a == b) == (op == "==")
        if last == "is_regular_file" and A:
            x = txt(ev(A[0])); return None if x is None else x in self.docs
        if last == "exists" and A:
            x = txt(ev(A[0])); return None if x is None else x in self.docs
        if last == "is_directory" and A:
            x = txt(ev(A[0])); return None if x is None else any(d.startswith(x + "/") for d in self.docs)
        if last == "path" and o is not None and "temp_dir" in fn: return ("path", "/T")
        if op == "()" and o is not None and "random_device" in (o.get("t") or "") + fn: return env.get(("RND", id(e)))
        if fn in ("std::make_shared", "std::make_unique") and "fixed_step_algorithm" in (e.get("t") or ""):
            return ("alg",) + tuple(ev(a) for a in A)
        return super().lib(e, fr, env, depth)
    def construct(self, e, fr, env, depth):
        t = strip_t(e.get("t"))
        if t.endswith("temp_dir") and not [a for a in e.get("a") or [] if a["k"] != "defarg"]: return ("tempdir",)
        if "basic_ptree" in t and t.startswith("boost::property_tree"):
            A = e.get("a") or []
            if len(A) == 1: return self.ev(A[0], fr, env, depth + 1)
            return None
        return super().construct(e, fr, env, depth)
    def conv(self, v, frm, to):
        if isinstance(v, tuple) and v[:1] in (("pt",), ("alg",), ("tempdir",)): return True if strip_t(to) == "bool" else v
        return super().conv(v, frm, to)
    def default(self, t, depth=0):
        if "time_point" in strip_t(t): return ("unset",)
        return super().default(t, depth)
    def exc_(self, n, env):
        if n.k == "call" and n.e is not None and n.e["k"] == "call":
            r = self.tree(n.e, n.fr, env)
            if r == BAD: return True
            if r is not NotImplemented: return False
        return super().exc_(n, env)
    def effects(self, n, env):
        e = n.e
        if e["k"] == "call":
            fn, A = e.get("fn") or "", e.get("a") or []
            last = fn.split("::")[-1]
            if self.tree(e, n.fr, env) is not NotImplemented: return env
            if last == "read_xml" and len(A) >= 2:
                p = self.ev(A[0], n.fr, env); c = self.lv(A[1], n.fr, env)
                x = p[1] if isinstance(p, tuple) and p[:1] in (("str",), ("path",)) else None
                if c is not None: return self.set(c, ("pt", x, ()) if x in self.docs else None, env)
            if last == "add_variable_value" and len(A) >= 4:
                c = self.lv(A[0], n.fr, env); k = vname(self.ev(A[2], n.fr, env)); v = self.ev(A[3], n.fr, env)
                try: m = self.get(c, env) if c is not None else None
                except OutOfRange: m = None
                if isinstance(m, tuple) and m[:1] == ("map",) and k is not None and v is not None:
                    return self.set(c, ("map", tuple((a, b) for a, b in m[1] if a != S(k)) + ((S(k), v),)), env)
                self.note(n, "a parameter's value is not known")
                return self.set(c, None, env) if c is not None else env
            if e.get("op") == "()" and e.get("obj") is not None and "random_device" in (e["obj"].get("t") or "") + fn:
                env = dict(env)
                env[("RND",)] = env.get(("RND",), 1000) + 1
                env[("RND", id(e))] = env[("RND",)]
                return env
        return super().effects(n, env)
    def vfield(self, n, f):
        if f != "causality": return None
        return ("enum", "cosim::variable_causality::" + {"o": "output", "i": "input", "p": "parameter"}[n.split(".")[-1][0]])

def comp(name, src, conns=(), sets=(), hint=None):
    k = []
    if conns: k.append(N("ssd:Connectors", None, *[N("ssd:Connector", {"name": c, "kind": "output" if c[0] == "o" else "input"}, N("ssc:" + t)) for c, t in conns]))
    if sets: k.append(N("ssd:ParameterBindings", None, *sets))
    if hint is not None: k.append(N("ssd:Annotations", None, N("ssc:Annotation", {"type": "some.other"}, N("osp:StepSizeHint", {"value": "77"})), N("ssc:Annotation", {"type": "com.opensimulationplatform"}, N("osp:StepSizeHint", {"value": hint}))))
    return N("ssd:Component", {"name": name, "source": src}, *k)
def pset(name, *ps): return N("ssv:ParameterSet", {"version": "1.0", "name": name}, N("ssv:Parameters", None, *[N("ssv:Parameter", {"name": n}, N("ssv:" + t, {"value": v})) for n, t, v in ps]))
def inline(s): return N("ssd:ParameterBinding", None, N("ssd:ParameterValues", None, s))
def infile(f): return N("ssd:ParameterBinding", {"source": f})
def con(a, b, **lt):
    x = {"startElement": a.split(".")[0], "startConnector": a.split(".")[1], "endElement": b.split(".")[0], "endConnector": b.split(".")[1]}
    return N("ssd:Connection", x, *([N("ssc:LinearTransformation", {k: v for k, v in lt.items() if k != "lt"})] if lt else []))
def ssd(comps, conns=None, exp=None):
    k = [N("ssd:System", {"name": "sys"}, N("ssd:Elements", None, *comps), *([N("ssd:Connections", None, *conns)] if conns is not None else []))]
    if exp is not None: k.append(exp)
    return Node("", {}, [N("ssd:SystemStructureDescription", {"name": "n", "version": "1.0"}, *k)])
def exp(alg=None, kind="com.opensimulationplatform", **a):
    return N("ssd:DefaultExperiment", a or None, *([N("ssd:Annotations", None, N("ssc:Annotation", {"type": "x.y"}, N("z")), N("ssc:Annotation", {"type": kind}, N("osp:Algorithm", None, alg)))] if alg is not None else []))
CS = [("o1", "Real"), ("o2", "Integer"), ("i1", "Real"), ("i2", "Boolean"), ("i3", "String")]
def comps(a=(), b=(), h=None): return [comp("a", "a.fmu", CS, a, h), comp("d", "d.fmu"), comp("b", "b.fmu", CS, b)]

THROWS = lambda e: re.search(r"basic_ptree<.*::(get|get_child|get_value)(<.*)?$", e.get("fn") or "") is not None
def check(c):
    db = c.db
    fs = [f for f in fns_of(db) if re.search(r"\bssp_configuration$", bare_t(f.get("rt"))) and len(f["p"]) == 1 and "path" in f["p"][0]["t"] and f.get("cls")]
    if not fs: c.need("loading"); return
    f = fs[0]
    where = c.db.where(f)
    stop = lambda q: bool(q.get("dflt")) or "::~" in q["q"] or q["q"].startswith("cosim::system_structure::") or q["q"] == "cosim::add_variable_value" or \
        re.match(r"^cosim::(file_uri_to_path|path_to_file_uri|resolve_reference|to_time_point|to_duration|uri::|model_uri_resolver::|detail::|log::|error_category|make_error|utility::|fixed_step_algorithm)", q["q"]) is not None
    lin = "cosim::linear_transformation_function_type"
    def idx(n):
        G = next((x for q, x in db.G.items() if q == lin + "::" + n + "_parameter_index"), None)
        return G["cv"] if G and G.get("cv") is not None else {"offset": 0, "factor": 1}[n]
    def run(docs, path="/cfg", name=None):
        g = c.graph(f, track_all=True, stop=stop, extra_throw=THROWS)
        ai = PAI(g, limit=100000)
        ai.docs = docs
        ai.graph = lambda h: c.graph(h, track_all=True, stop=stop, extra_throw=THROWS)
        env = {("this",): ("rec", f["cls"], (("ssdFileName_", S(name) if name else NULL), ("modelResolver_", ("made", "resolver")))), g.frames[0].vars[f["p"][0]["d"]].term: ("path", path)}
        out = ai.outcomes(env)
        res = []
        for kind, n, e, key in out:
            t = (kind, e.get(("RET", g.frames[0].id)) if kind == "return" else None, tuple(x[:2] for x in e.get(("LOG",), ())) if kind == "return" else None)
            if t not in [x[0] for x in res]: res.append((t, n, key))
        return res, ai
    def good(what, doc, ents, conns, params, start=0.0, alg=None, docs=None, path="/cfg", name=None, file="/cfg/SystemStructure.ssd"):
        D = dict(docs or {}); D[file] = doc
        res, ai = run(D, path, name)
        c.ob("loading", what)
        if ai.exceeded or not res: c.note("%s: %s: not decided" % (where, what)); return
        ret = [x for x in res if x[0][0] == "return"]
        if not ret:
            if ai.forked: c.note("%s: %s: not decided" % (where, what)); return
            n = next((m for m in reversed(ai.path(res[0][2])) if m.k in ("throw", "call") and m.fr is not None), res[0][1])
            c.viol("loading", loc(c, f, n), "a configuration with %s is refused" % what, key="loading:" + what); return
        if len(ret) != 1: c.note("%s: %s: not decided (%d ways)" % (where, what, len(ret))); return
        (kind, r, log), n, key = ret[0]
        E, C, V, odd = canon(log)
        d = dict(r[2]) if isinstance(r, tuple) and r[:1] == ("rec",) else {}
        def say(part, name, msg): c.viol("loading", where, "%s: %s" % (what, msg), key="loading:%s:%s" % (part, name))
        if d.get("start_time") == ("unset",): say("experiment", "start", "the start time is not set")
        elif d.get("start_time") is None: c.note("%s: %s: the start time is not known" % (where, what))
        elif d["start_time"] != ("time", start): say("experiment", "start", "the start time is %s, not %s s" % (shw(d["start_time"]), start))
        al = d.get("algorithm")
        if al is None or isinstance(al, tuple) and None in al: c.note("%s: %s: the algorithm is not known" % (where, what))
        else:
            al = None if al == NULL else al + ((NULL,) if len(al) == 2 else ())
            if al != alg: say("experiment", "algorithm", "the algorithm is %s, not %s" % (shw(al[1:]) if al else "none", shw(alg[1:]) if alg else "none"))
        # parameters
        pm = d.get("parameter_sets")
        if not (isinstance(pm, tuple) and pm[:1] == ("map",)) or any(not (isinstance(v, tuple) and v[:1] == ("map",)) for _, v in pm[1]): c.note("%s: %s: the parameter sets are not known" % (where, what))
        else:
            got = {}
            for k, v in pm[1]:
                got[text_of(k)] = {text_of(a): (("string" if "basic_string" in b[1] else b[1]), b[2]) if isinstance(b, tuple) and b[:1] == ("var",) else b for a, b in v[1]}
            for s_, vs in params.items():
                if s_ not in got: say("parameters", s_, "the parameter set '%s' is lost" % s_); continue
                for v, x in vs.items():
                    if v not in got[s_]: say("parameters", s_ + ":" + v, "%s is lost from the parameter set '%s'" % (v, s_))
                    elif isinstance(got[s_][v], tuple) and got[s_][v] != x and None not in got[s_][v]: say("parameters", s_ + ":" + v, "%s has the value %s in the parameter set '%s', not %s" % (v, shw(got[s_][v]), s_, shw(x)))
                for v in got[s_]:
                    if v not in vs: say("parameters", s_ + ":" + v, "%s is in the parameter set '%s', which does not declare it" % (v, s_))
            for s_ in got:
                if s_ not in params: say("parameters", s_, "there is a parameter set '%s', which nothing declares" % s_)
        if odd: c.note("%s: %s: not known: %s" % (where, what, str(odd)[:200])); return
        comps_ = {k: v for k, v in E.items() if not (v[0][0][:1] == ("made",) if isinstance(v[0][0], tuple) else False)}
        funs = {k: v for k, v in E.items() if k not in comps_}
        for n_, w in ents.items():
            x = comps_.get(n_, [])
            if not x: say("components", n_, "the component '%s' does not become part of the system" % n_)
            elif len(x) > 1: say("components", n_, "the component '%s' is added %d times" % (n_, len(x)))
            elif x[0] != w: say("components", n_, "the component '%s' is added with %s, not %s" % (n_, shw(x[0]), shw(w)))
        for n_ in comps_:
            if n_ not in ents: say("components", n_, "'%s' is added, which nothing declares" % n_)
        # connections, also through functions
        left = list(C); lf = dict(funs)
        for a, b, lt in conns:
            if lt is None:
                if (a, b) in left: left.remove((a, b))
                else: say("connections", a + "-" + b, "the connection from %s to %s is lost" % (a, b))
                continue
            w = (("made", lin), tuple(sorted([(idx("offset"), lt[0]), (idx("factor"), lt[1])])))
            cand = [x for x in lf if (a, "%s/in[0]/[0]" % x) in left and ("%s/out[0]/[0]" % x, b) in left]
            if not cand: say("connections", a + "-" + b, "the connection from %s to %s through a linear transformation is lost" % (a, b)); continue
            x = next((x for x in cand if lf[x] == [w]), cand[0])
            if lf[x] != [w]: say("connections", a + "-" + b, "the connection from %s to %s goes through a function %s, not %s" % (a, b, shw(lf[x]) if len(lf[x]) > 1 else shw(lf[x][0]), shw(w)))
            left.remove((a, "%s/in[0]/[0]" % x)); left.remove(("%s/out[0]/[0]" % x, b)); lf.pop(x)
        for a, b in left: say("connections", a + "-" + b, "%s is connected to %s, which nothing declares" % (a, b))
        for x in lf: say("connections", "function", "a function is added that nothing declares")
    def bad(what, doc, docs=None):
        D = dict(docs or {}); D["/cfg/SystemStructure.ssd"] = doc
        res, ai = run(D)
        c.ob("errors", what)
        if ai.exceeded or not res: c.note("%s: %s: not decided" % (where, what)); return
        ret = [x for x in res if x[0][0] == "return"]
        if ret and len(ret) == len(res): c.viol("errors", where, "%s is not reported" % what, key="errors:" + what)
        elif ret: c.note("%s: %s: not decided" % (where, what))
    M = lambda n, h=0.0, base="/cfg/SystemStructure.ssd": (("model", n + ".fmu", base), ("dur", h))
    ents = {"a": M("a"), "b": M("b"), "d": M("d")}
    P0 = {"": {}}
    good("components only", ssd(comps()), ents, [], P0)
    good("a step size hint", ssd(comps(h="0.125")), dict(ents, a=M("a", 0.125)), [], P0)
    good("connections", ssd(comps(), [con("a.o1", "b.i1"), con("a.o2", "b.i2"), con("b.o1", "a.i1"), con("a.o1", "a.i3")]), ents, [("a.o1", "b.i1", None), ("a.o2", "b.i2", None), ("b.o1", "a.i1", None), ("a.o1", "a.i3", None)], P0)
    good("linear transformations", ssd(comps(), [con("a.o1", "b.i1", factor="2.5", offset="0.75"), con("b.o1", "a.i1", lt=1), con("a.o2", "b.i2"), con("b.o2", "a.i2", offset="-3"), con("b.o2", "a.i3", factor="4")]), ents,
         [("a.o1", "b.i1", (0.75, 2.5)), ("b.o1", "a.i1", (0.0, 1.0)), ("a.o2", "b.i2", None), ("b.o2", "a.i2", (-3.0, 1.0)), ("b.o2", "a.i3", (0.0, 4.0))], P0)
    s1 = lambda: pset("s1", ("p1", "Real", "1.5"), ("p2", "Integer", "7"), ("p3", "Boolean", "true"), ("p4", "String", "text"), ("i5", "Real", "-2.5"))
    s2 = lambda: pset("s2", ("p1", "Real", "8.5"), ("p2", "Integer", "9"))
    s3 = lambda: pset("s1", ("p1", "Real", "4.5"))
    V1 = {"a.p1": ("double", 1.5), "a.p2": ("int", 7), "a.p3": ("bool", True), "a.p4": ("string", S("text")), "a.i5": ("double", -2.5)}
    V2 = {"a.p1": ("double", 8.5), "a.p2": ("int", 9)}
    V3 = {"b.p1": ("double", 4.5)}
    good("a parameter set", ssd(comps([inline(s1())])), ents, [], {"": V1, "s1": V1})
    good("several parameter sets", ssd(comps([inline(s1()), inline(s2())], [inline(s3())])), ents, [], {"": dict(V1, **V3), "s1": dict(V1, **V3), "s2": V2})
    good("parameter sets of which the first differ", ssd(comps([inline(s2()), inline(s1())], [inline(s3())])), ents, [], {"": dict(V2, **V3), "s1": dict(V1, **V3), "s2": V2})
    good("parameter sets in files", ssd(comps([inline(s2()), infile("one.ssv")], [infile("sub/two.ssv")])), ents, [], {"": dict(V2, **V3), "s1": dict(V1, **V3), "s2": V2},
         docs={"/cfg/one.ssv": Node("", {}, [s1()]), "/cfg/sub/two.ssv": Node("", {}, [s3()])})
    fa = lambda **k: N("osp:FixedStepAlgorithm", dict({"baseStepSize": "0.0625"}, **k))
    good("an experiment with a start time", ssd(comps(), None, exp(startTime="3.5", stopTime="9")), ents, [], P0, start=3.5)
    good("an experiment with an algorithm", ssd(comps(), None, exp(fa())), ents, [], P0, alg=("alg", ("dur", 0.0625), NULL))
    good("an experiment with a start time and an algorithm with worker threads", ssd(comps(), None, exp(fa(numWorkerThreads="6"), startTime="1.5")), ents, [], P0, start=1.5, alg=("alg", ("dur", 0.0625), 6))
    good("another tool's annotations", ssd(comps(), None, exp(fa(), kind="org.other", startTime="1.5")), ents, [], P0, start=1.5)
    good("another file name", ssd(comps()), {k: M(k, base="/cfg/Other.ssd") for k in ents}, [], P0, name="Other", file="/cfg/Other.ssd", docs={"/cfg/SystemStructure.ssd": ssd([])})
    good("the description itself as path", ssd(comps()), {k: M(k, base="/cfg/X.ssd") for k in ents}, [], P0, path="/cfg/X.ssd", file="/cfg/X.ssd")
    good("an archive", ssd(comps([infile("one.ssv")])), {k: M(k, base="/T/SystemStructure.ssd") for k in ents}, [], {"": V1, "s1": V1}, path="/cfg/x.ssp", file="/T/SystemStructure.ssd", docs={"/T/one.ssv": Node("", {}, [s1()]), "/cfg/one.ssv": Node("", {}, [s2()]), "/cfg/SystemStructure.ssd": ssd(comps(h="0.5"))})
    bad("a connection from an unknown component", ssd(comps(), [con("z.o1", "b.i1")]))
    bad("a connection to an unknown component", ssd(comps(), [con("a.o1", "z.i1")]))
    bad("a connection from an unknown connector", ssd(comps(), [con("a.o7", "b.i1")]))
    bad("a connection to an unknown connector", ssd(comps(), [con("a.o1", "b.i7")]))
    bad("a connection without an end", ssd(comps(), [N("ssd:Connection", {"startElement": "a", "startConnector": "o1"})]))
    bad("two components of one name", ssd([comp("a", "a.fmu", CS), comp("a", "b.fmu", CS)]))
    bad("a component without source", ssd([N("ssd:Component", {"name": "a"})]))
    bad("a parameter of an unsupported type", ssd(comps([inline(pset("s", ("p1", "Real", "1"), ("p2", "Binary", "0")))])))
    bad("a parameter whose value is not a number", ssd(comps([inline(pset("s", ("p1", "Real", "one")))])))
    bad("a missing parameter file", ssd(comps([infile("none.ssv")])))
    bad("an unknown algorithm", ssd(comps(), None, exp(N("osp:VariableStepAlgorithm", {"baseStepSize": "0.5"}))))
    bad("an algorithm without step size", ssd(comps(), None, exp(N("osp:FixedStepAlgorithm", {"numWorkerThreads": "2"}))))
    bad("a start time that is not a number", ssd(comps(), None, exp(startTime="three")))
    bad("a factor that is not a number", ssd(comps(), [con("a.o1", "b.i1", factor="2,5")]))
    bad("an offset that is not a number", ssd(comps(), [con("a.o1", "b.i1", offset="x")]))
    bad("a number of threads that is not a number", ssd(comps(), None, exp(fa(numWorkerThreads="four"))))
    bad("a description without elements", Node("", {}, [N("ssd:SystemStructureDescription", {"name": "n", "version": "1.0"}, N("ssd:System", {"name": "s"}))]))
    c.need("loading", 14); c.need("errors", 16)
