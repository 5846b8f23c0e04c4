"""C35: borrowed text is copied before it can dangle."""
from slvsim import *
from c18 import exprs_of
RULE = """
Owner analysis of every function of libcosim. The owners of an expression that borrows (view, span, pointer, reference, iterator, function object,
or something made of these) are the objects it may refer to: an automatic variable or by-value parameter, a temporary, the caller's argument (through a
reference or a view), the object itself, or a simulator or function that lent a view. Owners flow through conversions, accessors, copies, members,
captures of lambdas, containers and calls (by summaries of what a function returns and keeps).
(returns) No function returns something that borrows from its own variables, by-value parameters or temporaries. (temporaries) No variable or
range loop outlives the temporary it borrows from. (kept) Nothing that borrows from a variable or temporary of the function is stored where it
survives the call, and no view or function object that borrows from a caller's argument, or view lent by a simulator, is stored
there, unless the place is emptied again on every path to the end of the call. Tasks given to the thread pool are excepted (C04 decides that the step waits for them).
"""
ASSUME = ["library functions other than the known accessors return nothing borrowed from their arguments and keep none of them, except those converted to std::function or std::thread",
          "objects reached through shared pointers are kept alive by another owner", "a call that ends with an exception is not considered to keep anything"]
VIEW = re.compile(r"string_view\b|\bspan<")
FUNC = re.compile(r"^\(lambda|std::function<|::packaged_task<")
ITER = re.compile(r"iterator|_Node_|_Rb_tree_|reference_wrapper|initializer_list|std::_Bit_reference")
OWNERS = re.compile(r"basic_string<|filesystem::(__cxx11::)?path$|ostringstream|stringstream")
SHARED = re.compile(r"^std::(shared_ptr|weak_ptr|__shared_ptr)<")
UNIQUE = re.compile(r"^std::unique_ptr<")
SCALAR = re.compile(r"^(unsigned |signed )?(bool|char|int|long|short|double|float|long long|unsigned|size_t|void)( int| long)?$")
ACCESS = {"c_str", "data", "begin", "end", "cbegin", "cend", "rbegin", "rend", "find", "lower_bound", "upper_bound", "get", "front", "back", "at", "operator[]", "operator*", "operator->", "value", "substr",
          "subspan", "first", "last", "insert", "emplace", "emplace_back", "operator()", "top", "value_or", "operator+", "operator++", "operator-", "try_emplace"}
PASS = {"move", "forward", "as_const", "ref", "cref", "make_pair", "make_tuple", "make_optional", "addressof", "begin", "end", "cbegin", "cend", "data", "make_span", "as_writable_span", "next", "prev", "get", "exchange", "tie", "forward_as_tuple", "make_move_iterator"}
FIRST = {"find", "find_if", "find_if_not", "lower_bound", "upper_bound", "remove_if", "remove", "max_element", "min_element", "partition", "unique", "search", "mismatch", "copy", "copy_if", "transform", "adjacent_find"}
ADD = {"push_back", "emplace_back", "push_front", "emplace_front", "insert", "emplace", "insert_or_assign", "try_emplace", "push", "assign", "operator=", "reset", "emplace_hint", "operator+=", "swap", "append"}
EMPTY = {"clear", "erase", "pop", "pop_back", "pop_front", "reset"}
STRV = re.compile(r"^std::(basic_string_view|span|optional|pair|tuple|variant|vector|array|initializer_list)<|^gsl::span<|^std::(map|unordered_map|set|deque|list)<")

def T(t): return re.sub(r"^const |( const)?[ ]?&+$| const$", "", (t or "").strip()).replace("(anonymous namespace)::", "")
def isref(t): return (t or "").rstrip().endswith("&")

class Owners:
    def __init__(self, c):
        self.c, self.db = c, c.db
        self.sum = {}     # function id -> (owners returned, owners kept)
        self.busy = set()
        self.fa = {}
        self._car = {}
    def carrier(self, t, depth=0):
        """Whether a value of this type can refer to text of somebody else."""
        t0 = t = T(t)
        if t in self._car: return self._car[t]
        if t.endswith("*") or isref(t): r = True
        elif OWNERS.match(re.sub(r"^std::(__cxx11::)?", "", t)) or SCALAR.match(t): r = False
        elif VIEW.search(t) or FUNC.match(t) or ITER.search(t): r = True
        elif SHARED.match(t) or UNIQUE.match(t):
            m = re.match(r"^std::\w+<(.*?)(, std::default_delete<.*)?>$", t)
            self._car[t0] = False
            r = bool(m) and self.keeps(m.group(1))
        elif "std::function<" in t: r = True
        elif t in self.db.R:
            self._car[t0] = False
            r = any(self.carrier(f["t"]) for f in self.db.R[t].get("fields") or [] if not f["t"].endswith(("*", "&"))) or self.keeps(t)
        else:
            m = re.match(r"^std::(optional|vector|pair|tuple|variant|map|unordered_map|set|deque|list|queue|array)<(.*)>$", t)
            self._car[t0] = False
            r = bool(m) and any(self.carrier(q) for q in [x for x in re.split(r"[<>,]\s*", m.group(2)) if x])
        self._car[t0] = r
        return r
    def keeps(self, t):
        """Whether a record keeps views, itself or in a part that it owns."""
        r = self.db.R.get(T(t))
        return bool(r) and any(VIEW.search(f["t"]) and "std::function<" not in f["t"] or (SHARED.match(T(f["t"])) or UNIQUE.match(T(f["t"]))) and self.carrier(f["t"]) for f in r.get("fields") or [])
    def body(self, i):
        f = self.db.F.get(i)
        return f if f is not None and f.get("body") is not None and not f.get("dependent") else None
    def summary(self, f):
        if f["id"] in self.sum: return self.sum[f["id"]]
        if f["id"] in self.busy: return (frozenset(), frozenset())
        self.busy.add(f["id"])
        a = Fn(self, f)
        s = self.sum[f["id"]] = (frozenset(a.returned()), frozenset((o, k) for o, k, *_ in a.kept() if o[0] in ("parg", "pval")))
        self.fa[f["id"]] = a
        self.busy.discard(f["id"])
        return s

class Fn:
    def __init__(self, O, f):
        self.O, self.f = O, f
        self.P = {p["d"]: (i, p) for i, p in enumerate(f["p"])}
        self.V, self.moved, self.used = {}, set(), set()
        stm = [f["body"]] + [x["e"] for x in f.get("inits") or [] if x.get("e")]
        self.X = [x for s in stm for x in exprs_of(s)]
        for x in self.X:
            if x["k"] == "decl":
                for v in x.get("v") or []: self.V[v["d"]] = v
            elif x["k"] == "rfor" and isinstance(x.get("v"), dict): self.V[x["v"]["d"]] = x["v"]
            elif x["k"] in ("if", "while", "switch", "for"):
                for y in x.values():
                    if isinstance(y, dict) and "d" in y and "t" in y and y.get("k") is None: self.V[y["d"]] = y
            if x["k"] == "call" and x.get("fn") == "std::move" and x["a"] and x["a"][0].get("d") is not None: self.moved.add(x["a"][0]["d"])
            if x["k"] == "ref" and x.get("d") is not None: self.used.add(x["d"])
        self.alias = {b["d"]: d for d, v in self.V.items() for b in v.get("bind") or []}
        self.env = {d: frozenset() for d in self.V}
        for _ in range(4):
            old = dict(self.env)
            for d, v in self.V.items():
                if v.get("init"): self.env[d] |= frozenset([("local", d)]) if v.get("ref") and extended(v["init"]) and any(o[0] == "temp" for o in self.place(v["init"])) else self.value(v["init"], v.get("t"), v.get("ref"))
            for x in self.X:
                if x["k"] == "rfor" and isinstance(x.get("v"), dict):
                    d = x["v"]["d"]; w = self.borrow(x["r"])
                    self.env[d] |= (w | self.place(x["r"])) if x["v"].get("ref") else w if self.O.carrier(x["v"].get("t")) else frozenset()
                for root, val, n in self.stores(x):
                    if root is not None and root[0] == "var" and root[1] in self.env: self.env[root[1]] |= frozenset(o for o in val if o != ("local", root[1]))
            if old == self.env: break
    # ---- what an initialiser gives a variable of type t
    def value(self, e, t, ref):
        if ref and not T(t).startswith("("): return self.place(e)
        return self.borrow(e) if self.O.carrier(t) or t is None or "auto" in (t or "") else frozenset()
    def var(self, d):
        d = self.alias.get(d, d)
        if d in self.V: return self.V[d]
        if d in self.P: return self.P[d][1]
        return None
    # ---- the objects an lvalue designates
    def place(self, e):
        O = self.O; k = e["k"]; none = frozenset()
        if k == "ref":
            d = self.alias.get(e.get("d"), e.get("d"))
            if e.get("dk") not in ("local", "param", "binding"): return none
            v = self.var(d)
            if v is None: return none
            t = v.get("t") or ""
            if v.get("static") or v.get("st"): return none
            if d in self.P:
                if v.get("ref") or isref(t): return frozenset([("parg", self.P[d][0])])
                return frozenset([("local", d)])
            if v.get("ref") or isref(t): return self.env.get(d, none)
            return frozenset([("local", d)])
        if k == "mem":
            b = e.get("b")
            if b is None: return none
            if e.get("arrow"):
                if b["k"] == "this": return frozenset([("this", e["n"])])
                return self.borrow(b)
            return self.place(b)
        if k == "un":
            if e.get("op") == "*":
                if e["e"]["k"] == "this": return frozenset([("this",)])
                return self.borrow(e["e"])
            if e.get("op") in ("++", "--"): return self.place(e["e"])
            return none
        if k == "sub":
            xs = [v for kk, v in e.items() if isinstance(v, dict)]
            return self.place(xs[0]) | self.borrow(xs[0]) if xs else none
        if k == "cond": return self.branches(e, self.place)
        if k == "bin": return self.place(e["a"]) if "=" in e.get("op", "") else none
        if k in ("cast", "icast"):
            if isref(e.get("t")) or (e["e"]["k"] != "init" and T(e["e"].get("t")) == T(e.get("t"))): return self.place(e["e"])
            return self.temp(e)
        if k == "call":
            if (e.get("fn") or "") in ("std::move", "std::forward", "std::as_const", "std::exchange") and e["a"]: return self.place(e["a"][0])
            f = O.body(e.get("id"))
            if e.get("lv"):
                if f is not None: return self.mapped(e, O.summary(f)[0])
                return self.access(e)
            if re.search(r"[*&]$", T(e.get("t"))): return none
            return self.temp(e)
        if k in ("ctor", "init", "lambda"):
            if k == "ctor" and len(e.get("a") or []) == 1 and (e.get("copy") or e.get("move")) and e["a"][0]["k"] in ("ctor", "call", "init", "cast", "cond") and not e["a"][0].get("lv"): return self.place(e["a"][0])
            return self.temp(e)
        return none
    def temp(self, e):
        t = T(e.get("t"))
        if not t or SCALAR.match(t) or t.endswith("*") or SHARED.match(t): return frozenset()
        if VIEW.match(re.sub(r"^std::(basic_)?|^gsl::", "", t)) or ITER.search(t): return self.borrow(e)
        if "::" not in t and t != "(lambda)" and not t.startswith("("): return frozenset()
        return frozenset([("temp", id(e), e.get("l"), shorty(t))])
    def branches(self, e, fn):
        out = frozenset()
        for kk, v in e.items():
            if isinstance(v, dict) and kk not in ("c",): out |= fn(v)
        return out
    def access(self, e, value=False):
        """A library call that gives a reference, pointer, iterator or view into something."""
        fn = e.get("fn") or ""; nm = fn.split("::")[-1] if not fn.endswith(">") else last(fn)
        nm = last(fn)
        A = [a for a in e.get("a") or [] if a["k"] != "defarg"]
        o = e.get("obj")
        if o is not None:
            if nm not in ACCESS and not nm.startswith("operator basic_string_view") and not nm.startswith("operator "): return frozenset()
            t = T(o.get("t"))
            if nm == "operator()": return frozenset()
            if SHARED.match(t): return frozenset()
            if UNIQUE.match(t):
                return frozenset(x for x in self.place(o) if not (x[0] == "local" and x[1] in self.moved))
            if e.get("arrow"): return self.borrow(o)
            if t.endswith("*") or ITER.search(t) or re.match(r"std::(basic_string_view|span)<|gsl::span<", t): return self.borrow(o)
            inner = self.borrow(o) if o["k"] != "this" else frozenset()
            r = T(e.get("t"))
            if value and e.get("lv") and not (UNIQUE.match(t)): return inner     # a copy of what the container holds
            if e.get("lv") or r.endswith("*") or ITER.search(r) or not self.O.carrier(t): return self.place(o) | inner
            return inner
        if nm in PASS:
            out = frozenset()
            for a in A:
                out |= self.borrow(a)
                if nm in ("ref", "cref", "addressof", "begin", "end", "cbegin", "cend", "data", "make_span", "get", "tie", "forward_as_tuple"): out |= self.place(a)
            return out
        if nm in FIRST and A: return self.borrow(A[0])
        return frozenset()
    # ---- what the value of an expression may refer to
    def borrow(self, e):
        O = self.O; k = e["k"]; none = frozenset()
        if k == "ref":
            d = self.alias.get(e.get("d"), e.get("d"))
            v = self.var(d) if d is not None else None
            if v is None: return none
            if d in self.P:
                if not O.carrier(v.get("t")): return none
                return frozenset([("pval", self.P[d][0])])
            if v.get("ref") and not O.carrier(v.get("t")): return none
            if v.get("ref") and T(v.get("t")) not in ("",) and not re.search(r"[*]$", T(v.get("t"))) and not VIEW.search(T(v.get("t"))) and not FUNC.match(T(v.get("t"))): return none
            return self.env.get(d, none)
        if k == "mem":
            b = e.get("b")
            if not O.carrier(e.get("t")) or b is None: return none
            if e.get("arrow") and b["k"] == "this": return none
            if e.get("arrow"): return none
            return self.borrow(b)
        if k == "un":
            if e.get("op") == "&": return self.place(e["e"])
            if e.get("op") == "*": return none
            return self.borrow(e["e"])
        if k == "bin": return (self.borrow(e["a"]) | self.borrow(e["b"])) if T(e.get("t")).endswith("*") else (self.borrow(e["b"]) if e.get("op") == "=" else none)
        if k == "cond": return self.branches(e, self.borrow)
        if k in ("cast", "icast"): return self.borrow(e["e"]) if O.carrier(e.get("t")) else none
        if k == "lambda":
            out = none
            for q in e.get("caps") or []:
                if q.get("this"): continue
                x = dict(k="ref", dk="local", d=q.get("d"), t=q.get("t"))
                if q.get("init"): out |= self.place(q["init"]) if q.get("byref") else (self.borrow(q["init"]) if O.carrier(q.get("t")) else none); continue
                if q.get("byref"): out |= self.place(x)
                elif O.carrier(q.get("t")) and not isref(q.get("t")): out |= self.borrow(x)
            return out
        if k in ("ctor", "init"):
            t = e.get("t")
            if k == "ctor" and (UNIQUE.match(T(t)) or SHARED.match(T(t))) and len(e.get("a") or []) == 1: return self.borrow(e["a"][0])
            if not O.carrier(t): return none
            if k == "ctor" and re.match(r"std::(basic_string_view|span)<|gsl::span<", T(t)):
                A = [a for a in e.get("a") or [] if a["k"] != "defarg"]
                if not A: return none
                return self.viewof(A[0])
            out = none
            f = O.body(e.get("id")) if k == "ctor" else None
            if f is not None and f.get("ck") not in ("copy", "move"):
                for o, keep in O.summary(f)[1]:
                    if keep == "this": out |= self.mapped(e, [o])
                return out
            for a in e.get("a") or []:
                if isinstance(a, dict) and a["k"] != "defarg": out |= self.converted(a)
            return out
        if k == "call":
            f = O.body(e.get("id"))
            fn = e.get("fn") or ""
            if fn in ("std::move", "std::forward", "std::as_const") and e["a"]: return self.borrow(e["a"][0])
            if re.match(r"std::make_(unique|shared)$", fn):
                m = re.match(r"std::(?:unique|shared)_ptr<(.*?)(?:, std::default_delete<.*)?>$", T(e.get("t")))
                if not m or not O.keeps(m.group(1)): return none
                return frozenset().union(*[self.borrow(a) for a in e["a"] if VIEW.search(a.get("t") or "") or FUNC.match(T(a.get("t")))] or [none])
            if not O.carrier(e.get("t")): return none
            if f is not None and not e.get("virt"): return self.mapped(e, O.summary(f)[0])
            if VIEW.search(T(e.get("t"))) and (f is not None or e.get("id")): return frozenset([("lent", shorty(fn))])
            return self.access(e, True)
        if k == "new":
            return none
        return none
    def converted(self, a):
        """What an element of an aggregate of views refers to: also the place of text that is converted."""
        return self.borrow(a)
    def viewof(self, a):
        t = T(a.get("t"))
        if a["k"] == "str" or t.startswith("char") or t.startswith("const char"): return self.borrow(a)
        if self.O.carrier(t) and not re.match(r"std::(vector|array)<", t): return self.borrow(a)
        return self.place(a)
    def mapped(self, e, owners):
        """The owners of a callee's summary at a call."""
        out = set()
        A = e.get("a") or []
        for o in owners:
            if o[0] == "this":
                b = e.get("obj")
                if b is None or b["k"] == "this": out.add(("this",)) if b is not None else None; continue
                if e.get("arrow") or (e.get("op") == "->" ): out |= self.borrow(b)
                else: out |= self.place(b)
            elif o[0] in ("parg", "pval") and o[1] < len(A):
                a = A[o[1]]
                if a["k"] == "defarg": a = a.get("e") or a
                if not isinstance(a, dict) or a["k"] == "defarg": continue
                out |= self.place(a) if o[0] == "parg" else self.borrow(a)
            elif o[0] == "lent": out.add(o)
        return frozenset(out)
    # ---- stores: (root, owners, node)
    def root(self, e):
        """Where a place lives: ("var", d), ("out", name) or None."""
        while True:
            k = e["k"]
            if k == "ref":
                d = self.alias.get(e.get("d"), e.get("d")); v = self.var(d) if d is not None else None
                if e.get("dk") not in ("local", "param", "binding"): return ("out", e.get("q") or e.get("n"))
                if v is None: return ("capture", e.get("n"))
                if v.get("ref") or isref(v.get("t")) or T(v.get("t")).endswith("*"):
                    if d in self.P: return ("arg", e.get("n"))
                    return self.through(e) or ("some", e.get("n"))
                return ("var", d)
            if k == "mem":
                if e.get("arrow"):
                    if e["b"]["k"] == "this": return ("field", e["n"])
                    e = e["b"]
                    if e["k"] == "call" and e.get("obj") is not None and e.get("op") == "->": e = e["obj"]
                    r = self.through(e)
                    if r is not None: return r
                    continue
                e = e["b"]; continue
            if k == "call" and e.get("obj") is not None:
                r = self.through(e["obj"]) if e.get("op") in ("*", "->") else None
                if r is not None: return r
                e = e["obj"]; continue
            if k == "un" and e.get("op") == "*":
                e = e["e"]; r = self.through(e)
                if r is not None: return r
                continue
            if k in ("cast", "icast"): e = e["e"]; continue
            if k == "this": return ("field", "*this")
            return None
    def through(self, e):
        """Where an iterator or pointer kept in a variable leads."""
        d = self.alias.get(e.get("d"), e.get("d"))
        if e["k"] != "ref" or d not in self.V: return None
        v = self.V[d]; t = T(v.get("t"))
        if not (ITER.search(t) or t.endswith("*") or isref(v.get("t")) or v.get("ref")): return None
        own = self.env.get(d, frozenset())
        th = set(o[1] if len(o) > 1 else None for o in own if o[0] == "this")
        if th: return ("field", next(iter(th)) if len(th) == 1 and None not in th else "*this")
        if any(o[0] == "parg" for o in own): return ("arg", e.get("n"))
        if own and all(o[0] == "local" for o in own): return ("var", next(iter(own))[1])
        return ("some", e.get("n"))
    def stores(self, x):
        out = []
        if x["k"] == "bin" and x.get("op") == "=" and isinstance(x.get("a"), dict) and self.O.carrier(x["a"].get("t")):
            out.append((self.root(x["a"]) if not (x["a"]["k"] == "ref" and self.V.get(x["a"].get("d"), {}).get("ref") is None and x["a"].get("d") in self.env) else ("var", x["a"]["d"]), self.borrow(x["b"]), x))
        if x["k"] == "call" and x.get("obj") is not None:
            f = self.O.body(x.get("id"))
            nm = last(x.get("fn") or "")
            if f is None and nm in ADD and not x.get("virt") and (self.O.carrier(x["obj"].get("t")) or re.search(r"std::(unique|shared)_ptr<", x["obj"].get("t") or "")):
                val = frozenset().union(*[self.viewof(a) if VIEW.search(x["obj"].get("t") or "") else self.borrow(a) for a in x.get("a") or [] if a["k"] != "defarg"] or [frozenset()])
                out.append((self.root(x["obj"]), val, x))
        if x["k"] == "call" or x["k"] == "ctor":
            f = self.O.body(x.get("id"))
            fs = [f] if f is not None else []
            fn = x.get("fn") or ""
            if "thread_pool::submit" in fn: return out
            if x.get("virt"):
                fs = [g for g in self.O.db.F.values() if g.get("ov") and g.get("body") is not None and x.get("id") in self.O.db.roots(g["id"])] or fs
                if not fs:
                    for a in x.get("a") or []:
                        if FUNC.match(T(a.get("t"))): out.append((("callee", fn), self.borrow(a), x))
            for g in fs:
                if g.get("ck") in ("copy", "move"): continue
                for o, keep in self.O.summary(g)[1]:
                    if keep == "this":
                        if x["k"] == "ctor" or x.get("obj") is None: continue
                        r = self.root(x["obj"]) if x["obj"]["k"] != "this" else ("field", "*this")
                    else: r = ("callee", fn)
                    out.append((r, self.mapped(x, [o]), x))
            if fn in ("std::thread::thread", "std::async") or fn.endswith("::packaged_task"): pass
        return out
    # ---- results
    def returned(self):
        out = set()
        for x in self.X:
            if x["k"] == "return" and x.get("e"): out |= self.ret(x)
        return out
    def ret(self, x):
        rt = self.f.get("rt") or ""
        if isref(rt): return self.place(x["e"])
        return self.borrow(x["e"]) if self.O.carrier(rt) else frozenset()
    def kept(self):
        """(owner, where, node): what survives the call."""
        out = []
        for x in self.X:
            for r, val, n in self.stores(x):
                if r is None or r[0] in ("var", "capture", "some"): continue
                keep = "this" if r[0] == "field" else "else"
                for o in val:
                    if o[0] != "this": out.append((o, keep, n, r))
        for i in self.f.get("inits") or []:
            e = i.get("e")
            if e is None or not i.get("field"): continue
            fld = next((y for y in (self.O.db.R.get(T(self.f.get("cls"))) or {}).get("fields") or [] if y["n"] == i["field"]), None)
            t = (fld or {}).get("t") or e.get("t") or ""
            if not self.O.carrier(t): continue
            for o in (self.place(e) if isref(t) else self.borrow(e)):
                if o[0] != "this": out.append((o, "this", e, ("field", i["field"])))
        return out

def shorty(t): return re.sub(r"std::basic_string<char, std::char_traits<char>, std::allocator<char>>", "std::string", t or "")[:80]
def name(a, o):
    if o[0] == "local":
        v = a.var(o[1]); return ("the parameter '%s'" if o[1] in a.P else "the variable '%s'") % (v or {}).get("n")
    if o[0] == "temp": return "a temporary %s" % o[3]
    if o[0] in ("parg", "pval"): return "the argument '%s'" % a.f["p"][o[1]]["n"]
    if o[0] == "lent": return "the text lent by %s" % o[1]
    return str(o)

def check(c):
    O = Owners(c)
    fs = [f for f in c.db.F.values() if f.get("body") is not None and not f.get("dependent") and not f.get("dflt")]
    fs.sort(key=lambda f: (f["f"], f["l"], f["id"]))
    c.functions.update(f["id"] for f in fs)
    for f in fs:
        O.summary(f)
        if f["id"] not in O.fa: O.fa[f["id"]] = Fn(O, f)
    for f in fs:
        a = O.fa[f["id"]]
        def at(x): return "%s:%s" % (c.db.rel(f), x.get("l") or f["l"])
        rt = f.get("rt") or ""
        if isref(rt) or O.carrier(rt):
            c.ob("returns", f["q"])
            for x in a.X:
                if x["k"] != "return" or not x.get("e"): continue
                for o in sorted(a.ret(x), key=str):
                    if o[0] in ("local", "temp"):
                        if f.get("lambda") and o[0] == "local" and o[1] not in a.V and o[1] not in a.P: continue
                        c.viol("returns", at(x), "%s returns something that refers to %s, which ends with the call" % (f["q"], name(a, o)), key=f["q"])
        # variables bound to temporaries
        for d, v in a.V.items():
            e = v.get("init")
            if e is None or not (v.get("ref") or O.carrier(v.get("t"))) or d not in a.used: continue
            c.ob("temporaries", "%s: %s" % (f["q"], v.get("n")))
            if v.get("ref"):
                if extended(e): own = frozenset() if not O.carrier(v.get("t")) else a.borrow(e) if e["k"] in ("call", "ctor", "cast", "init") else frozenset()
                else: own = a.place(e)
            else: own = a.borrow(e)
            for o in own:
                if o[0] == "temp": c.viol("temporaries", at(v), "%s: '%s' refers to %s, which ends before it is used" % (f["q"], v.get("n"), name(a, o)), key=f["q"] + ":" + str(v.get("n")))
        for x in a.X:
            if x["k"] == "rfor":
                c.ob("temporaries", "%s: range" % f["q"])
                e = x["r"]
                if extended(e): own = a.borrow(e) if O.carrier(e.get("t")) else frozenset()
                else: own = a.place(e)
                for o in own:
                    if o[0] == "temp": c.viol("temporaries", at(x), "%s: the loop runs over something that refers to %s, which ends before the loop starts" % (f["q"], name(a, o)), key=f["q"] + ":loop")
            if x.get("op") == "=" and x["k"] in ("bin", "call"):
                l, r = (x.get("a"), x.get("b")) if x["k"] == "bin" else (x.get("obj"), (x.get("a") or [None])[0])
                if isinstance(l, dict) and isinstance(r, dict) and O.carrier(l.get("t")) and l["k"] == "ref" and l.get("d") in a.env:
                    for o in (a.viewof(r) if VIEW.search(T(l.get("t"))) and not O.carrier(r.get("t")) else a.borrow(r)):
                        if o[0] == "temp": c.viol("temporaries", at(x), "%s: '%s' refers to %s, which ends before it is used" % (f["q"], l["n"], name(a, o)), key=f["q"] + ":" + l["n"])
        # kept
        for x in a.X:
            for r, val, n in a.stores(x):
                if r is None or r[0] in ("var", "capture", "some"):
                    if r is not None and r[0] == "var": pass
                    continue
                c.ob("kept", "%s: %s" % (f["q"], at(n)))
                for o in sorted(val, key=str): judge(c, O, a, f, o, r, n, at(n))
        if f.get("ck") == "ctor":
            for o, keep, n, r in a.kept():
                if o[0] in ("local", "temp") and r[0] == "field":
                    c.ob("kept", "%s: %s" % (f["q"], r[1]))
                    if o[0] == "temp" and o[1] == id(n): continue
                    c.viol("kept", at(n), "%s keeps something in '%s' that refers to %s, which ends with the call" % (f["q"], r[1], name(a, o)), key=f["q"] + ":" + r[1])
    c.need("returns", 30); c.need("temporaries", 60); c.need("kept", 5)

def extended(e):
    """A temporary whose life a reference extends: the value itself or a member of it."""
    while e["k"] == "mem" and not e.get("arrow"): e = e["b"]
    return e["k"] in ("ctor", "init", "lambda") or e["k"] == "call" and not e.get("lv") or e["k"] in ("cast", "icast") and not isref(e.get("t"))

def judge(c, O, a, f, o, r, n, where):
    api = bool(f.get("ov") or f.get("virt") or (f.get("cls") and f.get("acc", 0) == 0 and "/include/" in (c.db.R.get(T(f["cls"])) or {}).get("f", f["f"])))
    if o[0] in ("parg", "pval"):
        p = f["p"][o[1]]
        viewy = VIEW.search(p["t"]) or o[0] == "parg" and (OWNERS.match(re.sub(r"^std::(__cxx11::)?", "", T(p["t"]))))
        if o[0] == "parg" and not viewy: viewy = SCALAR.match(T(p["t"]))
        if not viewy or not api or f.get("ck"): return
        if FUNC.match(T(p["t"])): return
    elif o[0] not in ("local", "temp", "lent"): return
    if r[0] == "callee" and o[0] in ("local", "temp") and not call_keeps(c, O, n, r): return
    if r[0] == "field" and emptied(c, f, r[1]): return
    c.viol("kept", where, "%s keeps something that refers to %s beyond the call%s" % (f["q"], name(a, o), " (in '%s')" % r[1] if r[0] == "field" else ""), key=f["q"] + ":" + o[0])
def call_keeps(c, O, n, r): return True
def emptied(c, f, fld):
    g = c.graph(f, track_all=True)
    B = Bg(g)
    def of(t):
        while isinstance(t, tuple) and t and t[0] in ("at", "elem", "deref") and len(t) > 1: t = t[1]
        return isinstance(t, tuple) and t[:1] == ("f",) and t[-1] == fld
    def inside(t):
        st = [t]
        while st:
            x = st.pop()
            if isinstance(x, tuple):
                if of(x): return True
                st.extend(y for y in x if isinstance(y, tuple))
        return False
    add = [n for n in g.live() if n.k == "call" and n.e.get("obj") is not None and last(n.e.get("fn")) in ADD and inside(B(g.obj(n)))]
    if not add: return False
    clr = set(n for n in g.live() if n.k == "call" and n.e.get("obj") is not None and last(n.e.get("fn")) in ("clear", "reset") and of(B(g.obj(n))))
    return c.path(g, add, lambda m: m is g.exit, avoid=lambda m: m in clr) is None
