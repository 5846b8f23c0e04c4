"""Propagation of structured values: objects, vectors, maps, variants and iterators whose contents are known in part.

A value is a Python number or string, ("enum", name), ("poly", ...) for a sum of products of symbols, ("rec", type, ((field, value), ...)),
("vec", (...)), ("map", ((key, value), ...)), ("var", alternative, value), ("it", root, path, position), ("ptr", root, path); None is
unknown.  Objects live in the environment under their root; a place is (root, path)."""
from absint import *
import re, math

def strip_t(t):
    t = (t or "").replace("(anonymous namespace)::", "").strip()
    while True:
        t2 = re.sub(r"^(const|volatile)\s+|\s*(&&|&|\bconst)$", "", t).strip()
        if t2 == t: return t
        t = t2
NUMT = {"int", "long", "double", "float", "unsigned int", "unsigned long", "long long", "unsigned long long", "short", "bool", "unsigned short", "char"}

# ------------------------------------------------------------------ polynomials
def poly(x):
    if isinstance(x, bool): x = int(x)
    if isinstance(x, (int, float)): return {(): x} if x != 0 else {}
    if isinstance(x, tuple) and x[:1] == ("sym",): return {(x[1],): 1}
    if isinstance(x, tuple) and x[:1] == ("poly",): return dict(x[1])
    return None
def unpoly(d):
    d = {k: v for k, v in d.items() if v != 0}
    if not d: return 0
    if set(d) == {()}: return d[()]
    if len(d) == 1:
        (k, v), = d.items()
        if v == 1 and len(k) == 1: return ("sym", k[0])
    return ("poly", tuple(sorted(d.items())))
def arith(op, a, b):
    p, q = poly(a), poly(b)
    if p is None or q is None: return None
    if op in "+-":
        r = dict(p)
        for k, v in q.items(): r[k] = r.get(k, 0) + (v if op == "+" else -v)
        return unpoly(r)
    if op == "*":
        r = {}
        for k, v in p.items():
            for l, w in q.items():
                m = tuple(sorted(k + l)); r[m] = r.get(m, 0) + v * w
        return unpoly(r)
    return None
def symbolic(v): return isinstance(v, tuple) and v[:1] in (("sym",), ("poly",))
def show(v):
    if isinstance(v, tuple):
        if v[:1] == ("sym",): return v[1]
        if v[:1] == ("poly",): return " + ".join(("%g*" % c if c != 1 or not k else "") + "*".join(k) if k else "%g" % c for k, c in v[1])
        if v[:1] == ("vec",): return "[" + ", ".join(show(x) for x in v[1]) + "]"
        if v[:1] == ("rec",): return "{" + ", ".join("%s: %s" % (n, show(x)) for n, x in v[2]) + "}"
        if v[:1] == ("var",): return show(v[2])
        if v[:1] == ("str",): return repr(v[1])
        if v[:1] == ("enum",): return v[1].split("::")[-1]
    return "?" if v is None else str(v)

# -------------------------------------------------------------- parts of values
class OutOfRange(Exception): pass
def part(v, path):
    """The part of a value at a path; None if unknown."""
    for p in path:
        if v is None: return None
        if isinstance(p, str):
            if v[0] != "rec": return None
            v = next((x for n, x in v[2] if n == p), None)
        elif p[0] == "i":
            if not (isinstance(v, tuple) and v[0] == "vec") or not isinstance(p[1], int): return None
            if not 0 <= p[1] < len(v[1]): raise OutOfRange(p[1])
            v = v[1][p[1]]
        elif p[0] == "k":
            if not (isinstance(v, tuple) and v[0] == "map"): return None
            v = next((x for k, x in v[1] if k == p[1]), None)
        elif p[0] == "e":       # entry of a map, as a pair
            if not (isinstance(v, tuple) and v[0] == "map") or not isinstance(p[1], int): return None
            if not 0 <= p[1] < len(v[1]): raise OutOfRange(p[1])
            v = ("rec", "pair", (("first", v[1][p[1]][0]), ("second", v[1][p[1]][1])))
        elif p[0] == "alt":
            if not (isinstance(v, tuple) and v[0] == "var") or v[1] != p[1]: return None
            v = v[2]
        else: return None
    return v
def put(v, path, x):
    if not path: return x
    p, rest = path[0], path[1:]
    if isinstance(p, str):
        if v is None: v = ("rec", "?", ())
        if v[0] != "rec": return None
        old = next((y for n, y in v[2] if n == p), None)
        new = put(old, rest, x)
        if any(n == p for n, _ in v[2]): return ("rec", v[1], tuple((n, new if n == p else y) for n, y in v[2]))
        return ("rec", v[1], v[2] + ((p, new),))
    if v is None: return None
    if p[0] == "i" and v[0] == "vec":
        if not isinstance(p[1], int): return None
        if not 0 <= p[1] < len(v[1]): raise OutOfRange(p[1])
        return ("vec", v[1][:p[1]] + (put(v[1][p[1]], rest, x),) + v[1][p[1] + 1:])
    if p[0] == "k" and v[0] == "map":
        if p[1] is None: return None
        if any(k == p[1] for k, _ in v[1]): return ("map", tuple((k, put(y, rest, x) if k == p[1] else y) for k, y in v[1]))
        return ("map", v[1] + ((p[1], put(None, rest, x)),))
    if p[0] == "e" and v[0] == "map" and isinstance(p[1], int) and rest[:1] == ("second",):
        if not 0 <= p[1] < len(v[1]): raise OutOfRange(p[1])
        return ("map", tuple((k, put(y, rest[1:], x) if i == p[1] else y) for i, (k, y) in enumerate(v[1])))
    if p[0] == "alt" and v[0] == "var" and v[1] == p[1]: return ("var", v[1], put(v[2], rest, x))
    return None
VEC = re.compile(r"\[\d*\]$|^std::(vector|deque|list|array|initializer_list|span|basic_string_view<(?!char)|set|unordered_set)<|^boost::container::vector<|^gsl::span<")
MAP = re.compile(r"^std::(unordered_)?map<")
VAR = re.compile(r"^(std|boost)::variant<")
OPT = re.compile(r"^(std|boost)::optional<")
ITER = re.compile(r"__normal_iterator<|_Node_(const_)?iterator|_Rb_tree_(const_)?iterator|_List_(const_)?iterator|_iterator<|::(const_)?iterator\b")
def is_iter(t): return ITER.search(t or "") is not None
def targ(t, i=0):
    """The i-th template argument of a type."""
    t = strip_t(t)
    if t.endswith("]"): return strip_t(t[:t.rindex("[")])
    a = t.find("<")
    if a < 0: return None
    out, d, cur = [], 0, ""
    for ch in t[a + 1:]:
        if ch in "<(": d += 1
        if ch in ">)":
            if d == 0: break
            d -= 1
        if ch == "," and d == 0: out.append(cur.strip()); cur = ""; continue
        cur += ch
    out.append(cur.strip())
    return out[i] if i < len(out) else None

class CAI(AI):
    """call(ai, e, fr, env) may give values for calls, as in AI; mut(ai, n, env) may give effects of calls (an environment) or NotImplemented."""
    def __init__(self, g, call=None, mut=None, limit=60000, **kw):
        super().__init__(g, None, None, None, limit=limit, **kw)
        self.call2, self.mut = call, mut
        self.db = g.db
        self.odd = {}          # what was not understood: reason -> line
        self.oob = {}          # accesses outside a container: node -> environment
        self.excf = self.exc_
        self.loop = self.loop_
        self.altf = self.alt_
        self.exits = {lp.exit: lp for lp in g.loops if lp.exit is not None and lp.kind in ("rfor", "algo")}
    def note(self, n, why): self.odd.setdefault((n.l, why), n)
    # ------------------------------------------------------------------ places
    def lv(self, e, fr, env, depth=0):
        if not isinstance(e, dict) or depth > 40: return None
        k = e["k"]
        up = lambda x, f=fr: self.lv(x, f, env, depth + 1)
        if k in ("icast", "cast", "defarg"):
            return up(e["e"])
        if k == "this":
            f = fr
            while f is not None:
                r = env.get(("LVTHIS", f.id))
                if r is not None: return r
                if getattr(f, "this_env", None): f = f.env; continue
                break
            return (("this",), ()) if f is self.g.frames[0] else None
        if k == "ref":
            if e.get("dk") in ("local", "param", "binding"):
                v = fr.lookup(e["d"])
                if v is None: return None
                if not v.ref: return (v.term, ())
                r = env.get(("LV", v.term))
                if r is not None: return r
                if v.term in env: return (v.term, ())
                for d in v.defs:
                    if d[1] == "elem": return self.elem_place(d[2], env)
                    if d[1] == "bindelem":
                        b = self.elem_place(d[2][0], env)
                        if b is None: return None
                        nm = d[2][1] or ("first", "second")[d[2][2]] if b[1][-1:] and b[1][-1][0] == "e" else d[2][1]
                        return (b[0], b[1] + (nm,)) if nm else None
                    if d[1] == "bind" and d[0].k == "decl" and d[0].d.get("var") is not None:
                        w = d[0].d["var"]
                        b = env.get(("LV", w.term)) if w.ref else (w.term, ())
                        if b is None: return None
                        try: x = self.get(b, env)
                        except OutOfRange: x = None
                        nm = d[2][1] or (x[2][d[2][2]][0] if isinstance(x, tuple) and x[:1] == ("rec",) and d[2][2] < len(x[2]) else None)
                        return (b[0], b[1] + (nm,)) if nm else None
                if len(v.defs) == 1 and v.defs[0][1] in ("init", "param"): return self.lv(v.defs[0][2], v.defs[0][3], env, depth + 1)
                return None
            if e.get("dk") == "global":
                q = e.get("q")
                return (("g", q), ()) if q in self.db.G else None
            return None
        if k == "mem":
            b = self.target(e["b"], fr, env, depth) if e.get("arrow") else up(e["b"])
            return (b[0], b[1] + (e["n"],)) if b is not None else None
        if k == "sub":
            b = up(e["a"]); i = self.ev(e.get("b"), fr, env, depth + 1)
            if not VEC.search(strip_t(e["a"].get("t"))): return None
            return (b[0], b[1] + (("i", i),)) if b is not None and isinstance(i, int) else None
        if k == "un":
            if e["op"] == "*": return self.target(e["e"], fr, env, depth)
            if e["op"] in ("++", "--") and not e.get("post"): return up(e["e"])
            return None
        if k == "bin" and (e["op"] == "=" or e["op"].endswith("=") and e["op"] not in ("==", "!=", "<=", ">=")): return up(e["a"])
        if k == "bin" and e["op"] == ",": return up(e["b"])
        if k == "cond":
            t = truth(self.ev(e["c"], fr, env, depth + 1))
            return None if t is None else up(e["a"] if t else e["b"])
        if k == "call":
            nf = fr.inl.get(id(e))
            fn, A, op = e.get("fn") or "", e.get("a") or [], e.get("op")
            last = fn.split("::")[-1]
            if nf is not None: return env.get(("RETLV", nf.id))
            if fn in ("std::move", "std::forward", "std::as_const", "std::ref", "std::cref") and A: return up(A[0])
            if fn in ("std::get", "boost::get") and A:
                b = up(A[0])
                if b is None: return None
                if self.is_variant(A[0]): return (b[0], b[1] + (("alt", strip_t(e.get("ta"))),))
                return None
            o = e.get("obj")
            if op in ("=", "+=", "-=", "*=") and o is not None: return up(o)
            if op in ("->", "*") and (o is not None and not A or o is None and len(A) == 1):
                x = o if o is not None else A[0]
                return self.target(x, fr, env, depth)
            if o is None:
                if op == "[]" and len(A) == 2: o, A = A[0], A[1:]
                else: return None
            if op in ("++", "--") and not A: return up(o)
            if last in ("at", "operator[]") and A:
                b = self.target(o, fr, env, depth) if e.get("arrow") else up(o)
                if b is None: return None
                i = self.ev(A[0], fr, env, depth + 1)
                if MAP.search(strip_t(o.get("t"))): return (b[0], b[1] + (("k", i),)) if i is not None else None
                if is_iter(o.get("t")):
                    it = self.ev(o, fr, env, depth + 1)
                    return self.itplace(it, i) if isinstance(i, int) else None
                return (b[0], b[1] + (("i", i),)) if isinstance(i, int) else None
            if last in ("front", "back") and not A or last == "emplace_back":
                b = up(o)
                if b is None: return None
                v = self.get(b, env)
                if last == "emplace_back" and not (isinstance(v, tuple) and v[0] == "vec" and v[1]): return None
                if isinstance(v, tuple) and v[0] == "vec": return (b[0], b[1] + (("i", 0 if last == "front" else len(v[1]) - 1),))
                return None
            if last in ("value", "get") and not A and not is_iter(o.get("t")): return self.target(o, fr, env, depth)
            if e.get("conv"): return up(o)
        if k == "ctor" and fr.inl.get(id(e)) is not None and ("OBJ", fr.inl[id(e)].id) in env: return (("OBJ", fr.inl[id(e)].id), ())
        if k in ("ctor", "init") and len(e.get("a") or []) == 1 and "reference_wrapper" in (e.get("t") or ""): return up(e["a"][0])
        return None
    def is_variant(self, e): return VAR.search(self.typ(e)) is not None
    def typ(self, e):
        return strip_t(e.get("t"))
    def itplace(self, it, off=0):
        if isinstance(it, tuple) and it[:1] == ("it",) and isinstance(it[3], int): return (it[1], it[2] + (((it[4], it[3] + off) if len(it[4]) == 1 else (it[4][0], it[3] - 1 - off)),))
        if isinstance(it, tuple) and it[:1] == ("ptr",) and off == 0: return (it[1], it[2])
        return None
    def target(self, e, fr, env, depth=0):
        """What a pointer, an iterator or an optional denotes."""
        x = e
        while isinstance(x, dict) and x["k"] in ("icast", "defarg"): x = x["e"]
        if isinstance(x, dict) and x["k"] == "this": return self.lv(x, fr, env, depth + 1)
        v = self.ev(e, fr, env, depth + 1)
        if isinstance(v, tuple) and v[:1] in (("it",), ("ptr",)): return self.itplace(v)
        if OPT.search(strip_t(e.get("t"))) or isinstance(e, dict) and e["k"] == "call" and e.get("op") == "->": return self.lv(e, fr, env, depth + 1)
        return None
    def elem_place(self, lp, env):
        p = env.get(("POS", lp.head.id)); c = env.get(("CONT", lp.head.id))
        if c is None or p is None: return None
        return (c[0], c[1] + (self.at(c[2], p - 1),))
    @staticmethod
    def at(kind, pos):
        """Element at a position of a loop; positions of loops that go backwards are counted down from the end, negatively."""
        return (kind, pos) if len(kind) == 1 else (kind[0], -pos - 1)
    def get(self, p, env):
        if p is None: return None
        root, path = p
        if root not in env and root[0] == "g": v = self.glob(root[1])
        else: v = env.get(root)
        try: return part(v, path)
        except OutOfRange: raise
    def set(self, p, x, env):
        env = dict(env)
        root, path = p
        r = put(env.get(root), path, x)
        if r is None: env.pop(root, None)
        else: env[root] = r
        return env
    def glob(self, q):
        G = self.db.G.get(q)
        if G is None or not G.get("const") or G.get("init") is None: return None
        return self.ev(G["init"], self.g.frames[0], {})
    # ------------------------------------------------------------------ values
    def default(self, t, depth=0):
        t = strip_t(t)
        if VEC.search(t): return ("vec", ())
        if MAP.search(t): return ("map", ())
        if OPT.search(t) or t.endswith("*") or "_ptr<" in t: return NULL
        if "basic_string<" in t or "basic_string_view<" in t or t == "std::string": return ("str", "")
        if t in NUMT: return 0
        if VAR.search(t):
            a = targ(t); d = self.default(a, depth + 1)
            return ("var", a, d)
        R = self.db.R.get(t)
        if R is not None and depth < 6 and not R.get("lambda"):
            fs = []
            for b in R.get("bases") or []:
                x = self.default(b["t"], depth + 1)
                if x is not None and x[0] == "rec": fs += list(x[2])
            for f in R.get("fields") or []:
                x = None
                if f.get("init") is not None: x = self.ev(f["init"], self.g.frames[0], {})
                elif strip_t(f["t"]) not in NUMT and not strip_t(f["t"]).endswith("*") and f["t"] not in self.db.E: x = self.default(f["t"], depth + 1)
                fs.append((f["n"], x))
            return ("rec", t, tuple(fs))
        return None
    def fresh(self, t):
        """An object when its constructor begins."""
        d = self.default(t) if self.FRESH else None
        return d if isinstance(d, tuple) and d[:1] == ("rec",) else ("rec", t, ())
    FRESH = False
    LIT = {"float": "double", "int": "int", "bool": "bool", "char": "char", "str": "const char[]", "null": "std::nullptr_t"}
    def et(self, e):
        return e.get("t") or self.LIT.get(e.get("k"))
    def conv(self, v, frm, to):
        """Conversion to another type."""
        to, frm = strip_t(to), strip_t(frm)
        if VAR.search(to):
            if isinstance(v, tuple) and v[:1] == ("var",): return v
            if v is None: return None
            alts = [targ(to, i) for i in range(12) if targ(to, i)]
            if frm in alts: return ("var", frm, v)
            if frm in NUMT and len([a for a in alts if a in NUMT]) == 1: return ("var", [a for a in alts if a in NUMT][0], v)
            if ("char" in frm) and any("basic_string<" in a for a in alts): return ("var", [a for a in alts if "basic_string<" in a][0], v)
            return None
        if OPT.search(to):
            return v if v == NULL or OPT.search(frm) else self.conv(v, frm, targ(to))
        if to in ("double", "float") and isinstance(v, int) and not isinstance(v, bool): return float(v)
        if to in ("int", "long", "long long") and isinstance(v, float): return int(v)
        if to in self.db.E and isinstance(v, int) and not isinstance(v, bool): return ("enum", "%s::%s" % (to, next((x["n"] for x in self.db.E[to]["e"] if x["v"] == v), v)))
        if isinstance(v, tuple) and v[:1] == ("enum",) and to in NUMT: v = self.enum_int(v)
        if v is None: return None
        if to in UNSIGNED: return wrap(int(v) if isinstance(v, float) else v, to)
        if to == "int" and isinstance(v, int) and not isinstance(v, bool) and not -2**31 <= v < 2**31: return (v + 2**31) % 2**32 - 2**31
        if to == "bool" and v is not None: return truth(v) if not symbolic(v) else None
        return v
    def binop(self, op, a, b):
        if isinstance(a, tuple) and a[:1] == ("it",) and op in ("+", "-") and isinstance(b, int): return a[:3] + (a[3] + (b if (op == "+") == (len(a[4]) == 1) else -b),) + a[4:]
        if isinstance(a, tuple) and isinstance(b, tuple) and a[:1] == b[:1] == ("it",) and a[1:3] == b[1:3]:
            if len(a[4]) == 2: a, b = b, a
            if op == "-": return a[3] - b[3]
            if op in OPS: return OPS[op](a[3], b[3])
        if (symbolic(a) or symbolic(b)):
            if op in "+-*" and a is not None and b is not None: return arith(op, a, b)
            if op in ("==", "!=", "<", ">", "<=", ">="): return None
            if op == "/" and isinstance(b, (int, float)) and b: return arith("*", a, 1.0 / b)
            return None
        num = lambda x: isinstance(x, (int, float))
        if num(a) and num(b):
            if op in OPS: return OPS[op](a, b)
            if op == "/":
                if b == 0: return None
                return int(a / b) if isinstance(a, int) and isinstance(b, int) else a / b
            if op == "%" and isinstance(a, int) and isinstance(b, int) and b: return int(math.fmod(a, b))
        if isinstance(a, tuple) and a[:1] == ("str",) and op == "+": return ("str", None)
        return super().binop(op, a, b)
    def compound(self, op, old, d, env):
        if old is None or d is None: return None
        return self.binop(op[0], old, d)
    def ev(self, e, fr, env, depth=0):
        if e is None or not isinstance(e, dict) or depth > 40: return None
        k = e["k"]
        ev = lambda x, f=fr: self.ev(x, f, env, depth + 1)
        if k == "float":
            try: return float(e["v"])
            except ValueError: return None
        if k == "str": return ("str", e.get("v"))
        if k == "ref" and e.get("dk") == "enum":
            ty, nm = strip_t(e.get("t")), (e.get("q") or "").split("::")[-1]
            t = self.g.T(e, fr)
            if t[0] == "int": return int(t[1])
            if "(unnamed" in ty or "(anonymous" in ty or ty not in self.db.E:
                par = (e.get("q") or "").rsplit("::", 1)[0]
                for key in self.db.E:
                    if "unnamed" in key and key.startswith(par + "::"):
                        for x in self.db.E[key]["e"]:
                            if x["n"] == nm: return x["v"]
            return ("enum", (ty + "::" + nm) if ty in self.db.E else e.get("q"))
        if k == "ref" and e.get("cv") is not None: return bool(e["cv"]) if strip_t(e.get("t")) == "bool" else e["cv"]
        if k == "zero": return self.default(e.get("t"))
        if k in ("icast", "cast"):
            r = ev(e["e"])
            if k == "icast" and e.get("ck") in ("IntegralToBoolean", "PointerToBoolean", "FloatingToBoolean"): return truth(r) if not symbolic(r) else None
            if isinstance(r, (int, float)) or VAR.search(strip_t(e.get("t"))): return self.conv(r, self.et(e["e"]), e.get("t"))
            if isinstance(r, tuple) and r[:1] == ("enum",) and strip_t(e.get("t")) in NUMT: return self.enum_int(r)
            return r
        if k in ("ref", "mem", "sub", "this"):
            if k == "this":
                p = self.lv(e, fr, env, depth + 1)
                return ("ptr",) + p if p is not None else None
            p = self.lv(e, fr, env, depth + 1)
            if p is not None:
                try: r = self.get(p, env)
                except OutOfRange: return None
                if r is not None: return r
                if p[0] in env or p[0][0] == "g": return None
            if p is None and k == "mem" and not e.get("arrow") and isinstance(e["b"], dict) and e["b"]["k"] == "call":
                r = ev(e["b"])
                if isinstance(r, tuple) and r[:1] == ("rec",):
                    r = next((x for n, x in r[2] if n == e["n"]), None)
                    if r is not None: return r
            if k == "ref" and e.get("dk") in ("local", "param", "binding"):
                v = fr.lookup(e["d"])
                if v is not None and v.ref and ("LV", v.term) not in env and len(v.defs) == 1:
                    kind, x, f2 = v.defs[0][1:]
                    if kind in ("init", "param"): return self.ev(x, f2, env, depth + 1)
                    if kind == "term" and isinstance(x, tuple): return self.termval(x, env)
                if v is not None and not v.ref and v.term not in env and len(v.defs) == 1 and v.defs[0][1] == "param" and v.defs[0][2] is not None and fr.parent is not None:
                    return self.ev(v.defs[0][2], v.defs[0][3], env, depth + 1)
            return None
        if k == "un":
            op = e["op"]
            if op == "&":
                p = self.lv(e["e"], fr, env, depth + 1)
                return ("ptr",) + p if p is not None else None
            if op == "*":
                p = self.lv(e, fr, env, depth + 1)
                try: return self.get(p, env)
                except OutOfRange: return None
            if op == "-":
                r = ev(e["e"])
                return arith("*", r, -1) if symbolic(r) else (-r if isinstance(r, (int, float)) else None)
            if op == "!":
                r = ev(e["e"])
                return None if symbolic(r) or truth(r) is None else not truth(r)
            if op in ("++", "--"):
                r = ev(e["e"])
                if not e.get("post"): return r
                return self.binop("-" if op == "++" else "+", r, 1) if r is not None else None
            return super().ev(e, fr, env, depth)
        if k == "bin":
            op = e["op"]
            if op in ("+=", "-=", "*=", "/=", "="): return ev(e["a"])
            if op in ("&&", "||"):
                a = ev(e["a"])
                ta = None if symbolic(a) else truth(a)
                if ta is not None and ta == (op == "||"): return ta
                b = ev(e["b"]); tb = None if symbolic(b) else truth(b)
                if ta is None: return tb if tb is not None and tb == (op == "||") else None
                return tb
            return super().ev(e, fr, env, depth)
        if k == "cond":
            r = ev(e["c"])
            t = None if symbolic(r) else truth(r)
            if t is None:
                a, b = ev(e["a"]), ev(e["b"])
                return a if a == b else None
            return ev(e["a"] if t else e["b"])
        if k in ("ctor", "init", "new", "list"):
            if self.call2 is not None:
                r = self.call2(self, e, fr, env)
                if r is not NotImplemented: return r
            return self.construct(e, fr, env, depth)
        if k == "call": return self.callval(e, fr, env, depth)
        return super().ev(e, fr, env, depth)
    def enumq(self):
        """{an enumerator as it is written: its enumeration and name}"""
        db = self.db
        if not hasattr(db, "_enumq"):
            names = {}
            def walk(o):
                if isinstance(o, dict):
                    if o.get("k") == "ref" and o.get("dk") == "enum" and o["q"] not in names:
                        t = re.sub(r"^(const|enum) ", "", o.get("t") or "")
                        for x in (db.E.get(t) or {"e": []})["e"]:
                            if x["n"] == o["n"]: names[o["q"]] = t + "::" + x["n"]
                    for x in o.values(): walk(x)
                elif isinstance(o, list):
                    for x in o: walk(x)
            for f in db.F.values():
                if f.get("body") is not None: walk(f["body"])
            db._enumq = names
        return db._enumq
    def enum_int(self, r):
        if "::" not in r[1]: return None
        par, n = r[1].rsplit("::", 1)
        for x in (self.db.E.get(par) or {"e": []})["e"]:
            if x["n"] == n: return x["v"]
        return None
    def termval(self, t, env):
        if t[0] == "elemof":
            try: return self.get(self.elem_place(t[1], env), env)
            except OutOfRange: return None
        if t[0] == "acc": return env.get(("ACC", t[1].head.id))
        if t[0] == "altval":
            v = self.ev(t[1], t[2], env) if t[1] is not None else None
            return v[2] if isinstance(v, tuple) and v[:1] == ("var",) else None
        return None
    def construct(self, e, fr, env, depth):
        ev = lambda x, f=fr: self.ev(x, f, env, depth + 1)
        t = strip_t(e.get("t"))
        if e["k"] == "new": return None
        A = [a for a in e.get("a") or [] if not (isinstance(a, dict) and a["k"] == "defarg")]
        nf = fr.inl.get(id(e))
        if nf is not None and ("OBJ", nf.id) in env: return env[("OBJ", nf.id)]
        if VEC.search(t):
            if not A: return ("vec", ())
            if len(A) == 1 and isinstance(A[0], dict) and A[0]["k"] in ("init", "list") and not A[0].get("fields") and e["k"] != "init":
                if strip_t(A[0].get("t")) and VEC.search(strip_t(A[0].get("t"))) or not A[0].get("t"): return ev(A[0])
            at = [strip_t(a.get("t")) for a in A]
            if e["k"] == "init": return ("vec", tuple(self.conv(ev(a), self.et(a), targ(t)) for a in A))
            if len(A) == 1 and (VEC.search(at[0]) or at[0] == t): return ev(A[0])
            A = [a for a, x in zip(A, at) if "allocator<" not in x[:20]]
            if len(A) in (1, 2) and strip_t(A[0].get("t")) in NUMT:
                n = ev(A[0])
                x = self.conv(ev(A[1]), self.et(A[1]), targ(t)) if len(A) == 2 else self.default(targ(t))
                if isinstance(n, int) and 0 <= n <= 64: return ("vec", (x,) * n)
                return None
            if len(A) == 2:
                r = self.rng(ev(A[0]), ev(A[1]), env)
                return None if r is None else ("vec", r)
            if len(A) == 1: return ev(A[0])
            return None
        if MAP.search(t):
            if not A: return ("map", ())
            if len(A) == 1:
                r = ev(A[0])
                if isinstance(r, tuple) and r[0] == "vec" and all(isinstance(x, tuple) and x[0] == "rec" and len(x[2]) == 2 for x in r[1]):
                    out = []
                    for x in r[1]:
                        if x[2][0][1] is None: return None
                        if not any(k == x[2][0][1] for k, _ in out): out.append((x[2][0][1], x[2][1][1]))
                    return ("map", tuple(out))
                return r if isinstance(r, tuple) and r[0] == "map" else None
            return None
        if VAR.search(t):
            if not A: return self.default(t)
            r = ev(A[0])
            return self.conv(r, self.et(A[0]), t) if len(A) == 1 else None
        if OPT.search(t):
            if not A: return NULL
            if "nullopt" in (A[0].get("t") or ""): return NULL
            return self.conv(ev(A[0]), self.et(A[0]), t) if len(A) == 1 else None
        if e.get("fields") is not None:
            R = self.db.R.get(t)
            ty = {f["n"]: f for f in (R or {}).get("fields", [])}
            fs = []
            for i, n in enumerate(e["fields"]):
                a = A[i] if i < len(A) else None
                v = self.conv(ev(a), self.et(a), ty[n]["t"]) if a is not None and n in ty else (ev(a) if a is not None else None)
                fs.append((n, v))
            for n in ty:
                if n not in e["fields"]: fs.append((n, self.default(ty[n]["t"])))
            return ("rec", t, tuple(fs))
        if not A:
            return self.default(t)
        if len(A) == 1:
            r = ev(A[0])
            if self.db.R.get(t) is not None and strip_t(A[0].get("t")) != t:
                if isinstance(r, tuple) and r[0] == "rec":
                    return r if not self.isa(strip_t(A[0].get("t")), t) else self.slice(r, t)
                return None
            return self.conv(r, self.et(A[0]), t)
        if t.startswith("std::pair<"): return ("rec", "pair", (("first", self.conv(ev(A[0]), self.et(A[0]), targ(t))), ("second", self.conv(ev(A[1]), self.et(A[1]), targ(t, 1)))))
        if e["k"] in ("init", "list"): return ("vec", tuple(ev(a) for a in A))
        return None
    def isa(self, t, base):
        R = self.db.R.get(t)
        return R is not None and any(b["t"] == base or self.isa(b["t"], base) for b in R.get("bases") or [])
    def slice(self, r, t):
        d = self.default(t)
        return ("rec", t, tuple((n, next((x for m, x in r[2] if m == n), None)) for n, _ in d[2])) if d is not None and d[0] == "rec" else None
    def rng(self, a, b, env):
        if isinstance(a, tuple) and isinstance(b, tuple) and a[:1] == b[:1] == ("it",) and a[1:3] == b[1:3]:
            try: v = self.get((a[1], a[2]), env)
            except OutOfRange: return None
            if isinstance(v, tuple) and v[0] == "vec":
                if len(a[4]) == 2: return v[1][b[3]:a[3]][::-1] if 0 <= b[3] <= a[3] <= len(v[1]) else None
                if not 0 <= a[3] <= b[3] <= len(v[1]): return None
                return v[1][a[3]:b[3]]
        return None
    def callval(self, e, fr, env, depth):
        ev = lambda x, f=fr: self.ev(x, f, env, depth + 1)
        if self.call2 is not None:
            r = self.call2(self, e, fr, env)
            if r is not NotImplemented: return r
        nf = fr.inl.get(id(e))
        fn, A, op, o = e.get("fn") or "", [a for a in e.get("a") or [] if not (isinstance(a, dict) and a["k"] == "defarg")], e.get("op"), e.get("obj")
        last = fn.split("::")[-1]
        if nf is not None and fn not in self.g.ALGO:
            if ("RET", nf.id) in env: return env[("RET", nf.id)]
            p = env.get(("RETLV", nf.id))
            try: return self.get(p, env) if p is not None else None
            except OutOfRange: return None
        if fn in ("std::move", "std::forward", "std::as_const", "std::ref", "std::cref") and A: return ev(A[0])
        if fn == 'std::operator""s' or fn.endswith('operator""s') or fn.endswith('operator""sv'): return ev(A[0]) if A else None
        if last in ("emplace", "try_emplace", "insert_or_assign", "insert") and ("EMPLACED", id(e)) in env: return env[("EMPLACED", id(e))]
        if fn == "std::exchange" and ("XCHG", id(e)) in env: return env[("XCHG", id(e))]
        if fn in ("std::make_optional",) and A: return ev(A[0])
        if fn in ("std::make_pair",) and len(A) == 2: return ("rec", "pair", (("first", ev(A[0])), ("second", ev(A[1]))))
        if fn in ("std::addressof",) and A:
            p = self.lv(A[0], fr, env, depth + 1)
            return ("ptr",) + p if p is not None else None
        if (fn == "std::get_if" or fn == "boost::get" and (A[0:1] and (A[0].get("t") or "").rstrip().endswith("*") or A[0:1] and A[0]["k"] == "un" and A[0]["op"] == "&")) and A:
            p = self.target(A[0], fr, env, depth)
            if p is None: return None
            try: v = self.get(p, env)
            except OutOfRange: return None
            ta = strip_t(e.get("ta"))
            if not (isinstance(v, tuple) and v[:1] == ("var",)) or not ta: return None
            return ("ptr", p[0], p[1] + (("alt", ta),)) if v[1] == ta else NULL
        if fn in ("std::get", "boost::get") and A:
            v = ev(A[0])
            if isinstance(v, tuple) and v[:1] == ("var",) and e.get("ta"): return v[2] if v[1] == strip_t(e["ta"]) else None
            return None
        if fn == "std::holds_alternative" and A:
            v = ev(A[0])
            return v[1] == strip_t(e["ta"]) if isinstance(v, tuple) and v[:1] == ("var",) and e.get("ta") else None
        if fn in ("std::min", "std::max") and len(A) == 2:
            a, b = ev(A[0]), ev(A[1])
            return (min if fn.endswith("min") else max)(a, b) if isinstance(a, (int, float)) and isinstance(b, (int, float)) else None
        if fn in ("std::begin", "std::end", "std::cbegin", "std::cend", "std::size", "std::ssize", "std::empty") and len(A) == 1: o, last, A = A[0], last.replace("ssize", "size"), []
        if fn in ("std::next", "std::prev") and A:
            a, d = ev(A[0]), (ev(A[1]) if len(A) > 1 else 1)
            return self.binop("+" if fn.endswith("next") else "-", a, d) if a is not None and d is not None else None
        if fn in self.g.PREDS and ("FOUND", id(e)) in env:
            r = env[("FOUND", id(e))]
            return r[:5] if "find" in fn else (len(r) == 5) == (fn == "std::any_of")
        if fn == "std::remove_if" and ("REMD", id(e)) in env: return env[("REMD", id(e))]
        if fn == "std::count_if" and ("PICKS", id(e)) in env: return len(env[("PICKS", id(e))])
        if fn == "std::distance" and len(A) == 2: return self.binop("-", ev(A[1]), ev(A[0]))
        if fn in ("std::accumulate", "std::reduce"):
            lp = next((l for l in self.g.loops if l.kind == "algo" and l.stmt is e), None)
            if lp is not None: return env.get(("ACC", lp.head.id))
            if len(A) >= 3 and (len(A) == 3 or "plus<" in (A[3].get("t") or "")):
                r = self.rng(ev(A[0]), ev(A[1]), env)
                acc = ev(A[2])
                for x in r if r is not None else [None]: acc = arith("+", acc, x) if acc is not None and x is not None else None
                return acc
            return None
        if fn in ("std::find", ) and len(A) == 3:
            a, b, x = ev(A[0]), ev(A[1]), ev(A[2])
            r = self.rng(a, b, env)
            if r is None or x is None or any(y is None or symbolic(y) for y in r): return None
            return a[:3] + (a[3] + (r.index(x) if x in r else len(r)),) + a[4:]
        if op in ("==", "!=", "<", ">", "<=", ">=", "+", "-", "*", "/", "%"):
            ops = ([o] if o is not None else []) + A
            if len(ops) == 2:
                a, b = ev(ops[0]), ev(ops[1])
                if (op in ("==", "!=")) and OPT.search(strip_t(ops[0].get("t"))) and "nullopt" in (ops[1].get("t") or ""): return None if a is None else (a == NULL) == (op == "==")
                return self.binop(op, a, b)
        if op == "!" : 
            r = ev(o if o is not None else A[0])
            return None if symbolic(r) or truth(r) is None else not truth(r)
        if o is not None:
            ot = strip_t(o.get("t"))
            if fn.endswith("operator bool"):
                r = ev(o)
                if OPT.search(ot): return None if r is None else r != NULL
                return truth(r) if not symbolic(r) else None
            if last == "has_value" and OPT.search(ot):
                r = ev(o); return None if r is None else r != NULL
            if last == "value_or" and A:
                r = ev(o); return ev(A[0]) if r == NULL else r
            if e.get("conv"): return ev(o)
            if last == "base" and is_iter(ot) and not A:
                r = ev(o)
                return r[:4] + (r[4][0],) if isinstance(r, tuple) and r[:1] == ("it",) else None
            if op in ("++", "--"):
                r = ev(o)
                return self.binop("-" if op == "++" else "+", r, 1) if A and r is not None else r
            c = self.lv(o, fr, env, depth + 1)
            if e.get("arrow"): c = self.target(o, fr, env, depth)
            if last in ("size", "length", "empty", "begin", "end", "cbegin", "cend", "rbegin", "rend", "crbegin", "crend", "upper_bound", "lower_bound", "find", "count", "contains", "data"):
                try: v = self.get(c, env) if c is not None else ev(o)
                except OutOfRange: v = None
                if isinstance(v, tuple) and v[0] in ("vec", "map"):
                    kd = "i" if v[0] == "vec" else "e"
                    if last in ("size", "length"): return len(v[1])
                    if last == "empty": return not v[1]
                    if last in ("begin", "cbegin") and c is not None: return ("it", c[0], c[1], 0, kd)
                    if last in ("end", "cend") and c is not None: return ("it", c[0], c[1], len(v[1]), kd)
                    if last in ("rbegin", "crbegin") and c is not None: return ("it", c[0], c[1], len(v[1]), kd + "r")
                    if last in ("rend", "crend") and c is not None: return ("it", c[0], c[1], 0, kd + "r")
                    if last in ("upper_bound", "lower_bound"):
                        x, ks = (ev(A[0]) if A else None), [k for k, _ in v[1]] if v[0] == "map" else list(v[1])
                        if c is None or not all(isinstance(k, (int, float)) for k in ks + [x]) or ks != sorted(ks): return None
                        return ("it", c[0], c[1], sum(1 for k in ks if k < x or k == x and last == "upper_bound"), kd)
                    if v[0] == "vec" and last in ("find", "count", "contains") and A and "set<" in ot[:22]:
                        x = ev(A[0])
                        if x is None or any(y is None for y in v[1]): return None
                        if last == "find": return ("it", c[0], c[1], v[1].index(x) if x in v[1] else len(v[1]), "i") if c is not None else None
                        return (1 if x in v[1] else 0) if last == "count" else x in v[1]
                    if v[0] == "map" and last in ("find", "count", "contains") and A:
                        x = ev(A[0])
                        if x is None: return None
                        i = next((i for i, (k, _) in enumerate(v[1]) if k == x), None)
                        if last == "find": return ("it", c[0], c[1], len(v[1]) if i is None else i, kd) if c is not None else None
                        return (0 if i is None else 1) if last == "count" else i is not None
                if isinstance(v, tuple) and v[:1] == ("str",) and v[1] is not None:
                    if last in ("size", "length"): return len(v[1])
                    if last == "empty": return v[1] == ""
                return None
        p = self.lv(e, fr, env, depth + 1)
        if p is not None:
            try: r = self.get(p, env)
            except OutOfRange: return None
            if r is not None: return r
        if o is not None and (last in ("front", "back", "at", "operator[]") or op in ("*", "->") and not A or last in ("value", "get") and not A):
            v = ev(o)
            if last in ("at", "operator[]") and A and isinstance(v, tuple) and v[0] == "vec":
                i = ev(A[0])
                return v[1][i] if isinstance(i, int) and 0 <= i < len(v[1]) else None
            if last in ("at", "operator[]") and A and isinstance(v, tuple) and v[0] == "map": return next((x for k, x in v[1] if k == ev(A[0])), None)
            if isinstance(v, tuple) and v[0] == "vec" and v[1] and last in ("front", "back"): return v[1][0 if last == "front" else -1]
            if OPT.search(strip_t(o.get("t"))): return v
        return None
    # ------------------------------------------------------------------- steps
    def bind(self, v, x, fr, env):
        """A reference variable denotes a place or a temporary."""
        p = self.lv(x, fr, env)
        if p is not None and p[0] == v.term: p = None
        if p is not None: env[("LV", v.term)] = p; return
        env.pop(("LV", v.term), None)
        r = self.ev(x, fr, env)
        if r is None: env.pop(v.term, None)
        else: env[v.term] = r
    def left(self, lp, env):
        """A loop is left before its end."""
        key = ("POS", lp.head.id)
        if key not in env: return env
        env = dict(env)
        pos, c = env.pop(key), env.pop(("CONT", lp.head.id), None)
        for x in ("PICK", "PICKED"): env.pop((x, lp.head.id), None)
        if lp.kind == "algo" and lp.algo in self.g.PREDS and c is not None: env[("FOUND", id(lp.stmt))] = ("it", c[0], c[1], pos - 1 if len(c[2]) == 1 else 1 - pos, c[2])
        return env
    def step(self, n, env):
        g = self.g
        k = n.k
        if n in self.exits: env = self.left(self.exits[n], env)
        if k == "enter":
            nf = n.d["frame"]
            env = dict(env)
            te = getattr(nf, "this_e", None)
            if te is not None and te[0] == "expr":
                p = self.lv(te[1], te[2], env)
                if p is None:
                    q = self.ev(te[1], te[2], env)
                    p = self.itplace(q)
                    if p is None and isinstance(q, tuple) and q[:1] == ("rec",):
                        env[("TMP", nf.id)] = q; p = (("TMP", nf.id), ())
                elif (te[1].get("t") or "").rstrip().endswith("*"):
                    p = self.target(te[1], te[2], env)
                if p is None: env.pop(("LVTHIS", nf.id), None)
                else: env[("LVTHIS", nf.id)] = p
            elif te is not None and te[0] == "var":
                env[("LVTHIS", nf.id)] = (env.get(("LV", te[1].term)) if te[1].ref else None) or (te[1].term, ())
            elif te is not None and te[0] == "ctor" and ("LVTHIS", getattr(g.ctorvar.get((id(te[1]), te[2].id)), "id", None)) in env and hasattr(g.ctorvar[(id(te[1]), te[2].id)], "inl"):
                env[("LVTHIS", nf.id)] = env[("LVTHIS", g.ctorvar[(id(te[1]), te[2].id)].id)]      # the rest of the same object
            elif te is not None and te[0] == "ctor":
                env[("LVTHIS", nf.id)] = (("OBJ", nf.id), ())
                env[("OBJ", nf.id)] = self.fresh(strip_t(te[1].get("t")))
            env.pop(("RET", nf.id), None); env.pop(("RETLV", nf.id), None)
            for v in list(nf.vars.values()):
                d = next((d for d in v.defs if d[1] in ("param", "term")), None)
                if d is None: continue
                if d[1] == "param":
                    if d[2] is None: continue
                    if v.ref: self.bind(v, d[2], d[3], env)
                    else:
                        r = self.conv(self.ev(d[2], d[3], env), self.et(d[2]), v.t)
                        if r is None: env.pop(v.term, None)
                        else: env[v.term] = r
                elif isinstance(d[2], tuple):
                    if v.ref and d[2][0] == "elemof":
                        p = self.elem_place(d[2][1], env)
                        if p is not None: env[("LV", v.term)] = p; continue
                    r = self.termval(d[2], env)
                    if r is None: env.pop(v.term, None)
                    else: env[v.term] = r
            return env
        if k == "decl":
            v = n.d["var"]; x = n.d.get("init")
            env = dict(env)
            if v.ref:
                if x is not None: self.bind(v, x, n.fr, env)
                return env
            r = self.conv(self.ev(x, n.fr, env), self.et(x), v.t) if x is not None else self.default(v.t) if strip_t(v.t) not in NUMT else None
            if r is None: env.pop(v.term, None)
            else: env[v.term] = r
            return env
        if k == "write":
            pe, op, val = n.d.get("place"), n.d.get("op"), n.d.get("val")
            p = self.lv(pe, n.fr, env) if isinstance(pe, dict) else None
            if p is None:
                self.note(n, "what is written is not known")
                return env
            try: old = self.get(p, env)
            except OutOfRange:
                self.oob.setdefault(n, env); return env
            r = None
            if n.e is not None and n.e.get("k") == "call" and n.e.get("fn") in ("std::exchange", "std::swap"):
                if n.e["fn"] == "std::swap" and val is n.e["a"][0]: r = env.get(("XCHG", id(n.e)))
                else: r = self.ev(val, n.fr, env)
                env = dict(env); env[("XCHG", id(n.e))] = old
            elif op in ("=", "init"):
                r = self.conv(self.ev(val, n.fr, env), self.et(val), pe.get("t")) if val is not None else None
            elif op in ("++", "--"): r = self.binop(op[0], old, 1) if old is not None else None
            elif op.endswith("="):
                d = self.ev(val, n.fr, env)
                r = self.compound(op, old, d, env) if old is not None and d is not None else None
            return self.set(p, r, env)
        if k == "ret" and n.fr is not None:
            fr = n.fr
            env = dict(env)
            env.pop(("RET", fr.id), None); env.pop(("RETLV", fr.id), None)
            if n.e is not None:
                rt = (fr.fn or {}).get("rt") or ""
                p = self.lv(n.e, fr, env)
                if p is not None and rt.rstrip().endswith("&") or p is not None and not rt: env[("RETLV", fr.id)] = p
                r = self.ev(n.e, fr, env)
                if r is not None and rt and not rt.rstrip().endswith("&") and rt not in ("auto",): r = self.conv(r, n.e.get("t"), rt)
                if r is not None and not (p is not None and rt.rstrip().endswith("&")): env[("RET", fr.id)] = r
            # one of several functions that can be called at one place
            f0 = fr.parent.inl.get(id(fr.site)) if fr.parent is not None and fr.site is not None else None
            if f0 is not None and f0 is not fr:
                for x in ("RET", "RETLV"):
                    if (x, fr.id) in env: env[(x, f0.id)] = env[(x, fr.id)]
                    else: env.pop((x, f0.id), None)
            return env
        if k == "leave":
            for l in self.exits.values():
                if l.fr is n.d.get("frame"): env = self.left(l, env)
            lp = next((l for l in g.loops if l.kind == "algo" and getattr(l, "frame", None) is n.d.get("frame")), None)
            if lp is not None and lp.algo in ("std::accumulate", "std::reduce"):
                env = dict(env)
                r = env.get(("RET", lp.frame.id))
                if r is None: env.pop(("ACC", lp.head.id), None)
                else: env[("ACC", lp.head.id)] = r
            return env
        if k == "call" and n.e is not None: return self.effects(n, env)
        return env
    PURE = re.compile(r"::(size|rbegin|rend|crbegin|crend|upper_bound|lower_bound|base|empty|begin|end|cbegin|cend|at|operator\[\]|front|back|find|count|contains|get|value|has_value|operator bool|operator\*|operator->|operator==|operator!=|operator<|what|c_str|data|length|max_size|capacity|reserve|shrink_to_fit|str)$")
    def effects(self, n, env):
        e, fr = n.e, n.fr
        if self.mut is not None:
            r = self.mut(self, n, env)
            if r is not NotImplemented: return r
        fn, A, o = e.get("fn") or "", [a for a in e.get("a") or [] if not (isinstance(a, dict) and a["k"] == "defarg")], e.get("obj")
        last = fn.split("::")[-1]
        if e["k"] != "call": return env
        ev = lambda x: self.ev(x, fr, env)
        # outside the container
        if last in ("operator[]", "front", "back") and o is not None or e.get("op") in ("*", "->"):
            p = self.lv(e, fr, env)
            if p is not None:
                try: self.get(p, env)
                except OutOfRange:
                    if p[1][-1][:1] in (("i",), ("e",)): self.oob.setdefault(n, env)
            if last == "operator[]" and p is not None and p[1] and p[1][-1][:1] == ("k",):
                c = (p[0], p[1][:-1]); v = None
                try: v = self.get(c, env)
                except OutOfRange: pass
                if isinstance(v, tuple) and v[0] == "map" and not any(k == p[1][-1][1] for k, _ in v[1]):
                    return self.set(c, ("map", v[1] + ((p[1][-1][1], self.default(e.get("t"))),)), env)
        if o is not None:
            c = self.target(o, fr, env) if e.get("arrow") else self.lv(o, fr, env)
            if c is not None and last in ("assign", "push_back", "emplace_back", "clear", "resize", "pop_back", "insert", "emplace", "insert_or_assign", "try_emplace", "fill", "swap", "erase", "reset"):
                try: v = self.get(c, env)
                except OutOfRange: v = None
                ct = strip_t(o.get("t"))
                r = None
                if isinstance(v, tuple) and v[0] == "vec":
                    et = targ(ct)
                    if last == "clear": r = ("vec", ())
                    elif last in ("push_back", "emplace_back") and len(A) == 1: r = ("vec", v[1] + (self.conv(ev(A[0]), self.et(A[0]), et),))
                    elif last in ("insert", "emplace") and len(A) in (2, 3) and is_iter(A[0].get("t")):
                        at = ev(A[0])
                        x = (self.conv(ev(A[1]), self.et(A[1]), et),) if len(A) == 2 else self.rng(ev(A[1]), ev(A[2]), env) if is_iter(A[1].get("t")) else None
                        if isinstance(at, tuple) and at[:1] == ("it",) and at[1:3] == c and x is not None and 0 <= at[3] <= len(v[1]): r = ("vec", v[1][:at[3]] + tuple(x) + v[1][at[3]:])
                    elif last == "erase" and A and is_iter(A[0].get("t")):
                        at, to = ev(A[0]), (ev(A[1]) if len(A) > 1 else None)
                        if isinstance(at, tuple) and at[:1] == ("it",) and at[1:3] == c and (len(A) == 1 or isinstance(to, tuple) and to[:3] == at[:3]):
                            j = to[3] if to is not None else at[3] + 1
                            if 0 <= at[3] <= j <= len(v[1]): r = ("vec", v[1][:at[3]] + v[1][j:])
                    elif "set<" in ct[:22] and last in ("insert", "emplace", "erase") and len(A) == 1:
                        x = self.conv(ev(A[0]), self.et(A[0]), et)
                        if x is not None and None not in v[1]:
                            r = v if (last == "erase") != (x in v[1]) else ("vec", tuple(y for y in v[1] if y != x)) if last == "erase" else ("vec", v[1] + (x,))
                    elif last == "emplace_back" and not A: r = ("vec", v[1] + (self.default(et),))
                    elif last == "pop_back" and v[1]: r = ("vec", v[1][:-1])
                    elif last == "fill" and A: r = ("vec", (self.conv(ev(A[0]), self.et(A[0]), et),) * len(v[1]))
                    elif last == "resize" and A and isinstance(ev(A[0]), int):
                        m = ev(A[0])
                        if 0 <= m <= 64: r = ("vec", v[1][:m] + ((ev(A[1]) if len(A) > 1 else self.default(et)),) * (m - len(v[1])))
                    elif last == "assign" and len(A) == 2:
                        if strip_t(A[0].get("t")) in NUMT and not is_iter(A[0].get("t")):
                            m = ev(A[0])
                            if isinstance(m, int) and 0 <= m <= 64: r = ("vec", (self.conv(ev(A[1]), self.et(A[1]), et),) * m)
                        else:
                            x = self.rng(ev(A[0]), ev(A[1]), env)
                            if x is not None: r = ("vec", x)
                    elif last == "assign" and len(A) == 1: r = ev(A[0])
                elif isinstance(v, tuple) and v[0] == "map":
                    if last == "clear": r = ("map", ())
                    elif last == "erase" and len(A) == 1:
                        x = ev(A[0])
                        if is_iter(A[0].get("t")):
                            if isinstance(x, tuple) and x[:1] == ("it",) and x[1:3] == c and 0 <= x[3] < len(v[1]): r = ("map", v[1][:x[3]] + v[1][x[3] + 1:])
                        elif x is not None: r = ("map", tuple((k, y) for k, y in v[1] if k != x))
                    elif last in ("emplace", "try_emplace", "insert_or_assign") and len(A) == 2:
                        x = ev(A[0])
                        if x is not None:
                            if not any(k == x for k, _ in v[1]): r = ("map", v[1] + ((x, self.conv(ev(A[1]), self.et(A[1]), targ(ct, 1))),))
                            elif last == "insert_or_assign": r = ("map", tuple((k, self.conv(ev(A[1]), self.et(A[1]), targ(ct, 1)) if k == x else y) for k, y in v[1]))
                            else: r = v
                    elif last == "insert" and len(A) == 1:
                        x = ev(A[0])
                        if isinstance(x, tuple) and x[0] == "rec" and len(x[2]) == 2 and x[2][0][1] is not None:
                            r = v if any(k == x[2][0][1] for k, _ in v[1]) else ("map", v[1] + ((x[2][0][1], x[2][1][1]),))
                elif last == "reset" and OPT.search(ct): r = NULL
                r = self.order(r)
                if r is not None and isinstance(v, tuple) and v[:1] == ("map",) and last in ("emplace", "try_emplace", "insert_or_assign", "insert") and A:
                    x = ev(A[0])
                    if last == "insert" and isinstance(x, tuple) and x[:1] == ("rec",): x = x[2][0][1]
                    i = next((i for i, (k, _) in enumerate(r[1]) if k == x), None)
                    if i is not None:
                        env = dict(env)
                        env[("EMPLACED", id(e))] = ("rec", "pair", (("first", ("it", c[0], c[1], i, "e")), ("second", not any(k == x for k, _ in v[1]))))
                if r is None: self.note(n, "the effect of %s is not known" % last)
                return self.set(c, r, env)
            if last in ("assign", "push_back", "emplace_back", "clear", "resize", "pop_back", "insert", "emplace") and c is None:
                return env
        if fn in ("std::copy", "std::copy_if", "std::remove_copy_if", "std::copy_n", "std::fill", "std::fill_n", "std::transform", "std::iota"):
            return self.algo(n, fn, A, env)
        if self.PURE.search("::" + last) or e.get("const") or e.get("op") in ("==", "!=", "<", ">", "<=", ">=", "+", "-", "*", "/", "->", "*", "<<"): return env
        # anything else: what it gets by reference is not known afterwards
        lost = []
        if o is not None and not e.get("const"): lost.append(o)
        pk = e.get("pk") or ""
        for i, a in enumerate(e.get("a") or []):
            if i < len(pk) and pk[i] in ("r", "m", "R", "p") : lost.append(a)
        for x in lost:
            if fn in ("std::move", "std::forward", "std::get", "std::get_if", "std::begin", "std::end", "std::ref", "std::back_inserter", "std::inserter", "std::make_unique", "std::make_shared", "std::make_pair", "std::make_optional"): continue
            p = self.lv(x, fr, env)
            if p is not None and p[0] in env and not is_iter(x.get("t")):
                self.note(n, "the effect of %s is not known" % last)
                env = self.set(p, None, env) if p[1] else {k: v for k, v in env.items() if k != p[0]}
        return env
    def algo(self, n, fn, A, env):
        ev = lambda x: self.ev(x, n.fr, env)
        res, dst = None, None
        if fn in ("std::copy_if", "std::remove_copy_if") or fn == "std::transform" and ("PICKS", id(n.e)) in env:
            env = dict(env)
            res, dst = env.pop(("PICKS", id(n.e)), None), ev(A[2]) if len(A) > 2 else None
        elif fn == "std::copy" and len(A) == 3: res, dst = self.rng(ev(A[0]), ev(A[1]), env), ev(A[2])
        elif fn == "std::copy_n" and len(A) == 3 and isinstance(ev(A[1]), int):
            a = ev(A[0]); res, dst = (self.rng(a, a[:3] + (a[3] + ev(A[1]),) + a[4:], env) if isinstance(a, tuple) and a[0] == "it" else None), ev(A[2])
        elif fn == "std::fill" and len(A) == 3:
            a, b = ev(A[0]), ev(A[1]); r = self.rng(a, b, env)
            if r is not None: res, dst = (ev(A[2]),) * len(r), a
        elif fn == "std::fill_n" and len(A) == 3 and isinstance(ev(A[1]), int): res, dst = (ev(A[2]),) * max(0, ev(A[1])), ev(A[0])
        elif fn == "std::transform" and len(A) == 5 and re.search(r"std::(plus|minus|multiplies)<", A[4].get("t") or ""):
            a, b = ev(A[0]), ev(A[1]); r = self.rng(a, b, env); c = ev(A[2])
            if r is not None and isinstance(c, tuple) and c[0] == "it":
                s = self.rng(c, c[:3] + (c[3] + len(r),) + c[4:], env)
                op = {"plus": "+", "minus": "-", "multiplies": "*"}[re.search(r"std::(plus|minus|multiplies)<", A[4]["t"]).group(1)]
                if s is not None: res, dst = tuple(arith(op, x, y) if x is not None and y is not None else None for x, y in zip(r, s)), ev(A[3])
        if res is not None and isinstance(dst, tuple) and dst[0] == "it":
            try:
                for i, x in enumerate(res): env = self.set((dst[1], dst[2] + ((dst[4], dst[3] + i),)), x, env)
                return env
            except OutOfRange:
                self.oob.setdefault(n, env); return env
        d = A[2] if fn in ("std::copy", "std::copy_n", "std::copy_if", "std::remove_copy_if") or fn == "std::transform" and len(A) == 4 else A[3] if fn == "std::transform" else None
        b = self.back(d, n.fr, env)
        if b is not None:
            try: v = self.get(b, env)
            except OutOfRange: v = None
            if isinstance(v, tuple) and v[0] == "vec" and res is not None: return self.set(b, ("vec", v[1] + tuple(res)), env)
            self.note(n, "the effect of %s is not known" % fn)
            return self.set(b, None, env)
        self.note(n, "the effect of %s is not known" % fn)
        d = A[2] if fn in ("std::copy", "std::copy_n") and len(A) > 2 else A[3] if fn == "std::transform" and len(A) == 5 else A[0] if A else None
        p = ev(d) if d is not None else None
        if isinstance(p, tuple) and p[0] == "it": return self.set((p[1], p[2]), None, env)
        return {k: v for k, v in env.items() if k[0] != "this"}
    @staticmethod
    def loop_(ai, n, lab, env):
        lp = n.d.get("loop")
        if lp is None or lab not in ("T", "F") or lp.kind not in ("rfor", "algo"): return env
        key, ck = ("POS", n.id), ("CONT", n.id)
        env = dict(env)
        if key not in env:
            c = None
            x, f = lp.cont_expr if lp.cont_expr is not None else (None, None)
            if lp.kind == "rfor":
                p = ai.lv(x, f, env)
                try: v = ai.get(p, env) if p is not None else ai.ev(x, f, env)
                except OutOfRange: v = None
                v, p = ai.ranged(v, p, env)
                if isinstance(v, tuple):
                    v2 = ai.asvec(v)
                    if v2 is not v: v, p = v2, None
                if isinstance(v, tuple) and v[0] in ("vec", "map"):
                    if p is None: env[("TMPC", n.id)] = v; p = (("TMPC", n.id), ())
                    c = (p[0], p[1], "i" if v[0] == "vec" else "e", 0, len(v[1]))
            else:
                A = lp.stmt.get("a") or []
                a, b = ai.ev(A[0], lp.fr, env), ai.ev(A[1], lp.fr, env)
                if lp.algo == "std::erase_if":
                    p = ai.lv(A[0], lp.fr, env)
                    try: v = ai.get(p, env) if p is not None else None
                    except OutOfRange: v = None
                    if isinstance(v, tuple) and v[0] == "vec": a, b = ("it",) + p + (0, "i"), ("it",) + p + (len(v[1]), "i")
                if isinstance(a, tuple) and isinstance(b, tuple) and a[:1] == b[:1] == ("it",) and a[1:3] == b[1:3]: c = (a[1], a[2], a[4], a[3], b[3]) if len(a[4]) == 1 else (a[1], a[2], a[4], -a[3], -b[3])
                if lp.algo in ("std::accumulate", "std::reduce") and len(A) > 2:
                    r = ai.ev(A[2], lp.fr, env)
                    if r is not None: env[("ACC", n.id)] = r
            if c is None:
                ai.note(n, "what the loop goes through is not known")
                return env
            env[ck] = c
            env[key] = c[3]
            if lp.kind == "algo" and lp.algo in ai.PICKS: env[("PICK", n.id)] = ()
        pos, c = env[key], env[ck]
        if ("PICK", n.id) in env and lab is not None and pos > c[3] and getattr(lp, "frame", None) is not None and env.get(("PICKED", n.id)) != pos:
            r = env.get(("RET", lp.frame.id))
            try: x = ai.get((c[0], c[1] + (ai.at(c[2], pos - 1),)), env)
            except OutOfRange: x = None
            if env[("PICK", n.id)] is not None:
                if lp.algo == "std::transform": env[("PICK", n.id)] += (r,)
                elif truth(r) is None: env[("PICK", n.id)] = None
                elif truth(r) == (lp.algo == "std::copy_if" or lp.algo == "std::count_if"): env[("PICK", n.id)] += (x,)
            env[("PICKED", n.id)] = pos
        if lab == "T":
            if pos >= c[4]: return None
            env[key] = pos + 1
            env.pop(("FOUND", id(lp.stmt)), None)
            return env
        if pos < c[4]: return None
        if lp.kind == "algo" and lp.algo in ai.g.PREDS: env[("FOUND", id(lp.stmt))] = ("it", c[0], c[1], c[4] if len(c[2]) == 1 else -c[4], c[2], "none")
        env.pop(key); env.pop(ck); env.pop(("PICKED", n.id), None)
        if ("PICK", n.id) in env:
            env[("PICKS", id(lp.stmt))] = env.pop(("PICK", n.id))
            if env[("PICKS", id(lp.stmt))] is None: env.pop(("PICKS", id(lp.stmt)))
            if lp.algo in ("std::remove_if", "std::erase_if"):
                kept = env.pop(("PICKS", id(lp.stmt)), None)
                try: v = ai.get((c[0], c[1]), env)
                except OutOfRange: v = None
                if kept is None or not (isinstance(v, tuple) and v[0] == "vec"):
                    env.pop(("REMD", id(lp.stmt)), None)
                    return ai.set((c[0], c[1]), None, env)
                gap = () if lp.algo == "std::erase_if" else (None,) * (c[4] - c[3] - len(kept))
                env[("REMD", id(lp.stmt))] = ("it", c[0], c[1], c[3] + len(kept), c[2])
                return ai.set((c[0], c[1]), ("vec", v[1][:c[3]] + kept + gap + v[1][c[4]:]), env)
        return env
    def asvec(self, v): return v
    def ranged(self, v, p, env): return v, p
    def order(self, v): return v
    PICKS = {"std::copy_if", "std::remove_copy_if", "std::transform", "std::count_if", "std::remove_if", "std::erase_if"}
    def back(self, x, fr, env):
        """The container of an inserter."""
        while isinstance(x, dict) and x["k"] in ("icast", "cast", "ctor", "init", "defarg"):
            x = x["e"] if "e" in x else (x.get("a") or [None])[0]
        if isinstance(x, dict) and x["k"] == "call" and x.get("fn") in ("std::back_inserter", "std::inserter") and x.get("a"): return self.lv(x["a"][0], fr, env)
        return None
    def alt_(self, n, lab, env):
        if not (isinstance(lab, tuple) and lab[0] == "alt") or not n.d.get("visit"): return env
        A = n.e.get("a") or []
        v = self.ev(A[1], n.fr, env) if len(A) > 1 else None
        if not (isinstance(v, tuple) and v[:1] == ("var",)): return env
        alts = [l[1] for l, _ in n.succ if isinstance(l, tuple) and l[0] == "alt"]
        if v[1] in alts: return env if lab[1] == v[1] else None
        return env
    def caseval(self, t):
        if t[0] == "enum": return ("enum", self.enumq().get(t[1], t[1]))
        return super().caseval(t)
    def exc_(self, n, env):
        """True: throws; False: does not; None: not known."""
        if n.k != "call" or n.e is None: return None
        e, fr = n.e, n.fr
        fn, A, o = e.get("fn") or "", e.get("a") or [], e.get("obj")
        last = fn.split("::")[-1]
        if e["k"] == "call" and last == "at" and o is not None and A:
            try: v = self.get(self.lv(o, fr, env), env) if self.lv(o, fr, env) is not None else self.ev(o, fr, env)
            except OutOfRange: return None
            i = self.ev(A[0], fr, env)
            if isinstance(v, tuple) and v[0] == "vec" and isinstance(i, int): return not 0 <= i < len(v[1])
            if isinstance(v, tuple) and v[0] == "map" and i is not None: return not any(k == i for k, _ in v[1])
            return None
        if fn == "std::get" and A and self.is_variant(A[0]):
            v = self.ev(A[0], fr, env)
            if isinstance(v, tuple) and v[:1] == ("var",) and e.get("ta"): return v[1] != strip_t(e["ta"])
            return None
        if last == "value" and o is not None and OPT.search(strip_t(o.get("t"))):
            v = self.ev(o, fr, env)
            return None if v is None else v == NULL
        if e["k"] == "ctor" and (self.db.F.get(e.get("id")) or {}).get("dflt"): return False      # memory is not exhausted
        if e["k"] == "ctor" and VEC.search(strip_t(e.get("t"))):
            B = [a for a in A if not (isinstance(a, dict) and a["k"] == "defarg")]
            if B and strip_t(B[0].get("t")) in NUMT:
                m = self.ev(B[0], fr, env)
                if isinstance(m, int): return m > 2 ** 40
        return None
    # ------------------------------------------------------------------ results
    def outcomes(self, env0):
        """[(kind, node, env, key)]; kind: return, throw or end."""
        g = self.g
        res = self.run(env0, watch=lambda n: n is g.xexit or n.k == "term")
        out = []
        for n, env, key in res:
            out.append(("return" if n is g.exit else "throw" if n is g.xexit else "end", n, env, key))
        return out
