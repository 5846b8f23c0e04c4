"""C30: enumeration mappings are total and name-preserving."""
from conc import *
from c36 import Runner, loc
RULE = """
Every function of the library that takes enumerators, or the names that a file format or an interface uses for them, and returns an enumerator or
a text is explored once per value (propagation of constants through switches, chains of conditions, tables and helpers).
(texts) to_text() gives for each enumerator of a variable's type, causality and variability the enumerator's own name; an error category gives a text
of its own for each error code. (FMI, logging) Each FMI base type, causality (with FMI 1's variability) and variability gives the
library's enumerator of that meaning; severities are never raised or lowered past their neighbours. (names) Each type, causality and variability name
of an OSP file, a connector of an SSP file and a proxy variable gives its namesake; an unknown type is an error and does not become
some type. (descriptions) The description made of an FMI variable has that variable's name, reference, type, causality, variability and,
if the FMU gives one, the start value of the variable's own type.
"""
PFX = "cosim::"
TYPES = ("real", "integer", "boolean", "string", "enumeration")
CAUS = ("parameter", "calculated_parameter", "input", "output", "local")
VARY = ("constant", "fixed", "tunable", "discrete", "continuous")
LIB = {"cosim::variable_type": TYPES, "cosim::variable_causality": CAUS, "cosim::variable_variability": VARY}
BASE = lambda n: {"fmi%d_base_type_%s" % (n, k): v for k, v in (("real", "real"), ("int", "integer"), ("bool", "boolean"), ("str", "string"), ("enum", "enumeration"))}
F2C = {"fmi2_causality_enu_" + k: k for k in CAUS}; F2C["fmi2_causality_enu_independent"] = "local"
F1V = {"constant": "constant", "parameter": "fixed", "discrete": "discrete", "continuous": "continuous"}
F1C = {"input": "input", "output": "output", "internal": "local", "none": "local"}
# (parameter types, result) -> list of (arguments, acceptable results)
SEV = "boost::log::trivial::severity_level"
LOG = {"fatal": ("error", "fatal"), "error": ("error", "fatal"), "warning": ("warning",), "info": ("info",), "verbose": ("debug", "trace"), "debug": ("debug", "trace")}
TABLES = {
    (("fmi1_base_type_enu_t",), "cosim::variable_type"): [((k,), (v,)) for k, v in BASE(1).items()],
    (("fmi2_base_type_enu_t",), "cosim::variable_type"): [((k,), (v,)) for k, v in BASE(2).items()],
    (("fmi2_causality_enu_t",), "cosim::variable_causality"): [((k,), (v,)) for k, v in F2C.items()],
    (("fmi1_causality_enu_t", "fmi1_variability_enu_t"), "cosim::variable_causality"):
        [(("fmi1_causality_enu_" + k, "fmi1_variability_enu_" + w), ("parameter" if (k, w) == ("input", "parameter") else v,)) for k, v in F1C.items() for w in F1V],
    (("fmi1_variability_enu_t",), "cosim::variable_variability"): [(("fmi1_variability_enu_" + k,), (v,)) for k, v in F1V.items()],
    (("fmi2_variability_enu_t",), "cosim::variable_variability"): [(("fmi2_variability_enu_" + k,), (k,)) for k in VARY],
    (("jm_log_level_enu_t",), SEV): [(("jm_log_level_" + k,), v) for k, v in LOG.items()],
}
def bare_t(t): return re.sub(r"\s*[&*]+$", "", re.sub(r"^(const|enum|volatile)\s+", "", (t or "").strip())).strip()
def last_of(v):
    """Enumerator without the name of its enumeration."""
    return v[1].split("::")[-1] if isinstance(v, tuple) and v[:1] == ("enum",) else None
def text_of(v): return v[1] if isinstance(v, tuple) and v[:1] == ("str",) else v if isinstance(v, str) else None
def norm(s): return re.sub(r"[^a-z0-9]", "", s.lower())
STR1 = re.compile(r"^(std::)?(basic_string(_view)?\b|string)|^char \*$|^char$")
STR = re.compile(r"basic_string(_view)?<|char \*$|std::string")

class LAI(CAI):
    """Calls of other libraries do not fail: what is asked is which value belongs to which."""
    def exc_(self, n, env):
        v = super().exc_(n, env)
        if v is None and n.k == "call" and n.e is not None and (self.db.F.get(n.e.get("id")) or {}).get("body") is None: return False
        return v

class E30(Runner):
    AIC = LAI
    def __init__(self, c, db, hook=None):
        Runner.__init__(self, c, db); self.hook = hook
        self.stop = lambda f: False
    def call(self, ai, e, fr, env):
        if self.hook is not None:
            v = self.hook(ai, e, fr, env)
            if v is not NotImplemented: return v
        return Runner.call(ai, e, fr, env)

def fns_of(db):
    for f in db.F.values():
        if f.get("body") is not None and not f.get("dependent") and db.rel(f).split("/")[0] in ("src", "include"): yield f

def check(c):
    db = c.db
    R = E30(c, db)
    def run(f, this, args, what, hook=None):
        R.hook = hook
        try: r = R.run(f, this, args)
        finally: R.hook = None
        if r is None or r[0] == "outside" or r[0] == "return" and r[1] is None: c.note("%s: %s is not decided" % (c.db.where(f), what)); return None
        return r
    def enumarg(t, n): return ("enum", t + "::" + n)
    # texts
    for f in list(fns_of(db)):
        ps = [bare_t(p["t"]) for p in f["p"]]; rt = bare_t(f.get("rt")); n = f["q"].split("::")[-1]
        if n == "to_text" and len(ps) == 1 and ps[0] in db.E and STR.search(f.get("rt") or ""):
            seen = {}
            for x in db.E[ps[0]]["e"]:
                what = "to_text(%s::%s)" % (ps[0].split("::")[-1], x["n"])
                c.ob("texts", what)
                r = run(f, None, [enumarg(ps[0], x["n"])], what)
                if r is None: continue
                t = text_of(r[1])
                if r[0] != "return" or r[1] == NULL: c.viol("texts", loc(c, f, r[3]), "%s gives no text" % what, key="texts:" + what); continue
                if t is None: c.note("%s: %s is not decided" % (c.db.where(f), what)); continue
                if norm(t) != norm(x["n"]): c.viol("texts", loc(c, f, r[3]), "%s gives \"%s\"" % (what, t), key="texts:" + what)
                elif t in seen: c.viol("texts", loc(c, f, r[3]), "%s gives the same text as %s" % (what, seen[t]), key="texts:" + what)
                seen[t] = what
        if n == "message" and ps == ["int"] and STR.search(f.get("rt") or "") and any("error_category" in (b if isinstance(b, str) else b.get("t", "")) for b in (db.R.get(f.get("cls") or "", {}).get("bases") or [])):
            errc = db.E.get("cosim::errc")
            seen = {}
            for x in errc["e"]:
                what = "the message of errc::%s" % x["n"]
                c.ob("messages", what)
                r = run(f, ("rec", f["cls"], ()), [x["v"]], what)
                if r is None: continue
                if r[0] != "return": c.viol("messages", loc(c, f, r[3]), "there is no message for errc::%s" % x["n"], key="messages:" + x["n"]); continue
                t = text_of(r[1])
                if t is None: c.note("%s: %s is not decided" % (c.db.where(f), what)); continue
                if not t: c.viol("messages", loc(c, f, r[3]), "%s is empty" % what, key="messages:" + x["n"])
                elif t in seen: c.viol("messages", loc(c, f, r[3]), "%s is also that of errc::%s (\"%s\")" % (what, seen[t], t), key="messages:" + x["n"])
                seen[t] = x["n"]
    c.need("texts", 15); c.need("messages", 9)
    # FMI, logging
    for f in list(fns_of(db)):
        ps = tuple(bare_t(p["t"]) for p in f["p"]); rt = bare_t(f.get("rt"))
        T = TABLES.get((ps, rt))
        if T is None: continue
        for args, want in T:
            what = "%s(%s)" % (f["q"].replace(PFX, ""), ", ".join(args))
            c.ob("FMI and logging enumerations", what)
            r = run(f, None, [("enum", a) for a in args], what)
            if r is None: continue
            if r[0] != "return": c.viol("FMI", loc(c, f, r[3]), "%s is refused" % what, key="FMI:" + what); continue
            g = last_of(r[1])
            if g is None: c.note("%s: %s is not decided" % (c.db.where(f), what)); continue
            if g not in want: c.viol("FMI", loc(c, f, r[3]), "%s gives %s, not %s" % (what, g, " or ".join(want)), key="FMI:" + what)
    c.need("FMI and logging enumerations", 30)
    # names
    OSP = {"Real": "real", "Integer": "integer", "Boolean": "boolean", "String": "string", "Enumeration": "enumeration"}
    def judge(rule, f, what, r, want, refuse=False):
        if r is None: return
        if want is None:
            if r[0] == "return" and last_of(r[1]) is not None: c.viol(rule, loc(c, f, r[3]), "%s is taken for '%s' instead of being reported" % (what, last_of(r[1])), key=rule + ":" + what)
            return
        if r[0] != "return":
            if not refuse: c.viol(rule, loc(c, f, r[3]), "%s is refused" % what, key=rule + ":" + what)
            return
        g = last_of(r[1])
        if g is None: c.note("%s: %s is not decided" % (c.db.where(f), what))
        elif g != want: c.viol(rule, loc(c, f, r[3]), "%s is taken for '%s'" % (what, g), key=rule + ":" + what)
    for f in list(fns_of(db)):
        ps = tuple(bare_t(p["t"]) for p in f["p"]); rt = bare_t(f.get("rt"))
        if rt not in LIB: continue
        if len(ps) == 1 and STR1.search(ps[0]) and rt == "cosim::variable_type" and f.get("lambda") is None and "operator()" not in f["q"]:
            for s, w in list(OSP.items()) + [("", None), ("Complex", None)]:
                what = "the type name \"%s\"" % s
                c.ob("names of OSP files", what)
                judge("names", f, what, run(f, ("rec", f.get("cls"), ()) if f.get("cls") else None, [("str", s)], what), w)
        elif len(ps) == 1 and "ptree" in ps[0] and rt == "cosim::variable_type":
            for s, w in list(OSP.items()) + [("Binary", None), ("", None)]:
                def hook(ai, e, fr, env, s=s):
                    if e["k"] == "call" and (e.get("fn") or "").split("::")[-1] in ("get_child_optional", "count", "find"):
                        a = [text_of(ai.ev(x, fr, env)) for x in e.get("a") or []]
                        if a and a[0] is not None:
                            hit = a[0].split(":")[-1] == s
                            return (("opt-hit",) if hit else NULL) if e["fn"].endswith("optional") else int(hit) if e["fn"].endswith("count") else NotImplemented
                    return NotImplemented
                what = "a connector of type \"%s\"" % s
                c.ob("connector types of SSP files", what)
                judge("names", f, what, run(f, None, [None], what, hook), w, refuse=(s == "Enumeration"))
        elif len(ps) == 1 and ps[0].endswith("scalar_variable"):
            if rt == "cosim::variable_type":
                for s, w in [(x, x) for x in TYPES[:4]] + [("", None)]:
                    def hook(ai, e, fr, env, s=s):
                        m = re.match(r"is_(\w+)$", (e.get("fn") or "").split("::")[-1])
                        return m.group(1) == s if e["k"] == "call" and m and "proxyfmu" in (e.get("fn") or "") else NotImplemented
                    what = "a proxy variable of type \"%s\"" % s
                    c.ob("proxy variables", what)
                    judge("names", f, what, run(f, None, [("rec", ps[0], ())], what, hook), w)
            else:
                fld = rt.split("_")[-1]
                for s in LIB[rt]:
                    what = "a proxy variable of %s \"%s\"" % (fld, s)
                    c.ob("proxy variables", what)
                    judge("names", f, what, run(f, None, [("rec", ps[0], ((fld, ("str", s)),))], what), s)
    c.need("names of OSP files", 7); c.need("connector types of SSP files", 7); c.need("proxy variables", 15)
    # descriptions of FMI variables
    for f in list(fns_of(db)):
        ps = [bare_t(p["t"]) for p in f["p"]]; rt = bare_t(f.get("rt"))
        m = re.match(r"fmi([12])_import_variable_t$", ps[0]) if len(ps) == 1 else None
        if not m or rt != "cosim::variable_description": continue
        v = int(m.group(1))
        for bt, want_t in BASE(v).items():
            for start in (False, True):
                for B in (0, 1) if want_t == "boolean" and start else (1,):
                    sp = [("fmi1_causality_enu_input", "fmi1_variability_enu_parameter", "parameter", "fixed"), ("fmi1_causality_enu_output", "fmi1_variability_enu_discrete", "output", "discrete")] if v == 1 else \
                        [("fmi2_causality_enu_parameter", "fmi2_variability_enu_tunable", "parameter", "tunable"), ("fmi2_causality_enu_output", "fmi2_variability_enu_continuous", "output", "continuous")]
                    for fc, fv, wc, wv in sp:
                        def hook(ai, e, fr, env):
                            n = (e.get("fn") or "")
                            if e["k"] != "call" or not n.startswith("fmi%d_import_get_" % v): return NotImplemented
                            n = n[len("fmi%d_import_get_" % v):]
                            if n == "variable_name": return ("str", "nm")
                            if n == "variable_vr": return 77
                            if n == "variable_base_type": return ("enum", bt)
                            if n == "causality": return ("enum", fc)
                            if n == "variability": return ("enum", fv)
                            if n == "variable_has_start": return int(start)
                            k = re.match(r"(\w+)_variable_start$", n)
                            if k: return {"boolean": B, "string": ("str", "txt"), "real": 2.5, "integer": 41, "enum": 3}.get(k.group(1), NotImplemented)
                            if n.startswith("variable_as_"): return ("var-as", n[len("variable_as_"):])
                            return NotImplemented
                        what = "the description of an FMI %d variable of type %s with%s start value" % (v, want_t, "" if start else "out")
                        c.ob("descriptions", what)
                        r = run(f, None, [("ptr", ("fmi variable",), ())], what, hook)
                        if r is None: continue
                        if r[0] != "return": c.viol("descriptions", loc(c, f, r[3]), what + " is refused", key="descriptions:" + what); continue
                        d = dict(r[1][2]) if isinstance(r[1], tuple) and r[1][:1] == ("rec",) else None
                        if d is None: c.note("%s: %s is not decided" % (c.db.where(f), what)); continue
                        exp = {"name": "nm", "reference": 77, "type": want_t, "causality": wc, "variability": wv}
                        for k, w in exp.items():
                            got = d.get(k); got = text_of(got) if k == "name" else last_of(got) if k not in ("reference",) else got
                            if got is None: c.note("%s: %s: the field '%s' is not decided" % (c.db.where(f), what, k)); continue
                            if got != w: c.viol("descriptions", loc(c, f, r[3]), "%s has '%s' %s, not %s" % (what, k, got, w), key="descriptions:%d:%s" % (v, k))
                        s = d.get("start")
                        w = None if not start or want_t == "enumeration" else {"real": ("double", 2.5), "integer": ("int", 41), "boolean": ("bool", B), "string": ("string", ("str", "txt"))}[want_t]
                        if s is None: c.note("%s: %s: the start value is not decided" % (c.db.where(f), what)); continue
                        if w is None:
                            if s != NULL: c.viol("descriptions", loc(c, f, r[3]), "%s has a start value %s" % (what, show(s)), key="descriptions:%d:start:%s" % (v, want_t))
                        elif s == NULL: c.viol("descriptions", loc(c, f, r[3]), "%s lost its start value" % what, key="descriptions:%d:start:%s" % (v, want_t))
                        elif isinstance(s, tuple) and s[:1] == ("var",):
                            alt, x = s[1], s[2]
                            if w[0] not in str(alt): c.viol("descriptions", loc(c, f, r[3]), "the start value of an FMI %d variable of type %s is kept as %s" % (v, want_t, alt), key="descriptions:%d:start:%s" % (v, want_t))
                            elif x is not None and x != w[1] and not (want_t == "boolean" and bool(x) == bool(w[1])):
                                c.viol("descriptions", loc(c, f, r[3]), "the start value of an FMI %d variable of type %s is %s where the FMU has %s" % (v, want_t, show(x), show(w[1])), key="descriptions:%d:start:%s" % (v, want_t))
                            elif x is None: c.note("%s: %s: the start value is not decided" % (c.db.where(f), what))
                        else: c.note("%s: %s: the start value is not decided" % (c.db.where(f), what))
    c.need("descriptions", 20)
