"""Interprocedural control-flow graphs over the extracted syntax trees.

`Graph(db, entry)` inlines non-virtual in-repo callees, lambdas whose call is
visible, destructors of in-repo types and gsl::finally blocks, and adds
exceptional edges (with stack unwinding) for every call that may throw.
Queries work on canonical value terms, so that local names, intermediate
variables, references, casts, moves and helper functions do not matter.
Nothing is executed and no solver is involved: only graph reachability with
(finite) facts about branch conditions."""
import re
from facts import AnalysisError

MAXDEPTH = 14
MAXNODES = 60000

LOCK_TYPES = ("std::lock_guard", "std::unique_lock", "std::scoped_lock", "std::shared_lock",
              "boost::lock_guard", "boost::unique_lock", "boost::shared_lock",
              "boost::interprocess::scoped_lock", "boost::interprocess::sharable_lock")
PTRLIKE = re.compile(r"(\*( const)?$)|^(const )?(std::(shared_ptr|unique_ptr|__shared_ptr|weak_ptr)|gsl::not_null)<|iterator|_Node_")

# external functions that may throw something other than bad_alloc in practice
THROWING = re.compile(
    r"::at$|std::sto|std::get$|optional<.*>::value$|boost::lexical_cast|std::filesystem::|boost::filesystem::|"
    r"boost::property_tree|boost::uuids|std::function<.*>::operator\(\)|std::rethrow_exception|^\?$|"
    r"std::future<.*>::get|std::thread::thread$|std::async|bad_|any_cast|xercesc|from_chars_throw|"
    r"YAML::|gsl::narrow|std::vector<.*>::resize_throw|substr$|::compare_throw|std::invoke|std::visit|exceptions$|lock_file|"
    r"boost::interprocess::|std::call_once|proxyfmu::")
NOTHROW = re.compile(r"std::filesystem::(.*::)?path(::|$)|std::filesystem::(.*::)?operator|operator==|operator!=|::(begin|end|size|empty|count|find|get|c_str|data|lock|unlock|notify_one|notify_all|swap|native_handle|joinable)$")
# the exceptions to the above that do throw
REALLY = re.compile(r"boost::interprocess::|std::future")

def strip_type(t):
    t = t or ""
    t = t.strip()
    while True:
        o = t
        if t.startswith("const "): t = t[6:]
        if t.endswith(" const"): t = t[:-6]
        t = t.rstrip("&* ").strip() if t and t[-1] in "&" else t
        if t == o: return t

def is_lock_type(rec):
    return rec in LOCK_TYPES

STD_BASES = {"std::out_of_range": "std::logic_error", "std::domain_error": "std::logic_error", "std::invalid_argument": "std::logic_error", "std::length_error": "std::logic_error",
             "std::range_error": "std::runtime_error", "std::overflow_error": "std::runtime_error", "std::underflow_error": "std::runtime_error",
             "std::system_error": "std::runtime_error", "std::filesystem::filesystem_error": "std::system_error",
             "std::logic_error": "std::exception", "std::runtime_error": "std::exception", "std::bad_variant_access": "std::exception", "std::bad_optional_access": "std::exception",
             "std::bad_alloc": "std::exception", "std::bad_cast": "std::exception"}
class Var:
    __slots__ = ("fr", "d", "n", "t", "ref", "defs", "node", "val", "busy", "rec", "static")
    def __init__(self, fr, d, n, t, ref):
        self.fr, self.d, self.n, self.t, self.ref = fr, d, n, t or "", ref
        self.defs = []
        self.node = None
        self.val = None
        self.busy = False
        self.rec = None
        self.static = False
    @property
    def term(self):
        return ("v", self.fr.id, self.d, self.n)
    def ptrlike(self):
        return bool(PTRLIKE.search(self.t))

class Frame:
    def __init__(self, g, fn, parent, site=None):
        self.g = g
        self.id = len(g.frames)
        g.frames.append(self)
        self.fn = fn
        self.parent = parent
        self.site = site
        self.env = None          # frame a lambda was created in
        self.caps = {}
        self.vars = {}
        self.this_t = ("this",)
        self.rets = []           # (node, expr)
        self.inl = {}            # id(call expr) -> Frame
        self.tmp = {}            # id(expr) -> materialised bool term
        self.depth = 0 if parent is None else parent.depth + 1
        self.spawned = bool(parent and parent.spawned)
        self.unwinding = None
    def lookup(self, d):
        f = self
        while f is not None:
            v = f.vars.get(d)
            if v is not None: return v
            f = f.env
        return None
    def chain(self):
        f = self
        while f is not None:
            yield f
            f = f.parent

class Node:
    __slots__ = ("id", "k", "e", "fr", "l", "succ", "d", "pred", "_c", "hp")
    def __init__(self, id, k, e, fr, l):
        self.id, self.k, self.e, self.fr, self.l = id, k, e, fr, l
        self.succ = []
        self.pred = []
        self.d = {}
        self._c = {}
        self.hp = False
    def edge(self, lab, n):
        self.succ.append((lab, n))
        n.hp = True
    def __repr__(self):
        return "<%d %s %s:%s>" % (self.id, self.k, self.fr.fn["n"] if self.fr else "", self.l)

# members that take perfect-forwarding references and only copy from lvalues
FORWARDS = re.compile(r"^(std|boost|gsl)::.*(::(emplace|emplace_back|emplace_front|emplace_hint|try_emplace|insert|insert_or_assign|push_back|push_front|push|insert_after)|std::(make_pair|make_tuple|make_shared|make_unique|make_optional|async|invoke))$|^std::(make_pair|make_tuple|make_shared|make_unique|make_optional|async)$")

class Loop:
    def __init__(self, kind, head, cont=None, stmt=None):
        self.kind, self.head, self.stmt = kind, head, stmt
        self.cont_expr = cont      # (expr, frame)
        self.exit = None
        self.index = None          # Var of an index/iterator loop
        self.range = None
        self.partial = None        # why the loop does not visit everything
        self.tstart = []           # edges on which an iteration begins
        self.fr = None
        self.nodes = None
        self.algo = None

class Graph:
    def __init__(self, db, fn, stop=None, spawn="inline", devirt=None, this_t=None, inline_virtual=True, extra_throw=None, nothrow=None, force=None, sync=False, track_all=False, extra=None):
        """stop(fnrec) -> True: do not inline.  spawn: 'inline' = run task at
        the submission point, 'opaque' = leave the call alone."""
        self.db = db
        self.entry_fn = fn
        self.sync = sync
        self.track_all = track_all
        self.extra = extra
        self.stop = stop or (lambda f: False)
        self.spawn = spawn
        self.devirt = devirt or {}
        self.inline_virtual = inline_virtual
        self.extra_throw = extra_throw
        self.nothrow = nothrow
        self.nodes = []
        self.frames = []
        self.loops = []
        self.ctx = []
        self.unw_memo = {}
        self.synth = []
        self.fnref = {}
        self.final = False
        self.spawns = []
        self.ctorvar = {}
        self.fieldw = {}
        self._tcache = {}
        self.entry = None
        fr = Frame(self, fn, None)
        if this_t: fr.this_t = this_t
        self.rootfr = fr
        if fn.get("lambda"):
            pass
        self.entry = self.new("entry", None, fr, fn["l"])
        self.exit = self.new("exit", None, fr, fn.get("el"))
        self.xexit = self.new("xexit", None, fr, fn.get("el"))
        self.term_node = self.new("term", None, fr, fn.get("el"))
        for i, p in enumerate(fn["p"]):
            v = Var(fr, p["d"], p["n"], p["t"], p.get("ref"))
            v.defs.append((self.entry, "entryparam", i, None))
            fr.vars[p["d"]] = v
        self.cur = [(self.entry, None)]
        self.ctx = [("entry",)]
        if fn.get("nt") and not fn.get("ck") == "ctor":
            self.ctx = [("noexcept",)]
        self.ctx.append(("fn", fr, self.exit))
        if fn.get("ck") and fn.get("ck") != "dtor":
            self.ctor_inits(fn, fr)
        self.stmt(fn["body"], fr)
        self.link(self.exit)
        for n in self.nodes:
            for lab, s in n.succ:
                s.pred.append((lab, n))
        self._fbusy = set()
        self.prepass()
        self.final = True
        self._tcache = {}
        self.written = {}
        for n in self.nodes:
            if n.k == "write":
                if n.d["op"] == "init" and n.fr.fn.get("ck"): continue
                self.note_written(self.strip_star(self.T0(n.d["place"], n.fr)), n)
            elif n.k == "call":
                for p in self.mut0(n): self.note_written(self.strip_star(p), n)
        self._tcache = {}
        self._reach = {}
        self.checkstale = True

    # ------------------------------------------------------------ building
    def new(self, k, e, fr, l=None):
        n = Node(len(self.nodes), k, e, fr, l if l is not None else (e or {}).get("l"))
        self.nodes.append(n)
        if len(self.nodes) > MAXNODES:
            raise AnalysisError("graph of %s too large" % self.entry_fn["q"])
        return n
    def link(self, n):
        for p, lab in self.cur:
            p.edge(lab, n)
        self.cur = []
    def emit(self, k, e, fr, l=None, **d):
        n = self.new(k, e, fr, l)
        n.d.update(d)
        self.link(n)
        self.cur = [(n, None)]
        return n
    def dead(self):
        return not self.cur

    # exceptional continuation of the current point
    def unwind(self, ctx, etype=None):
        """Node at which an exception raised in context ctx continues."""
        key = (tuple((id(c) if c[0] != "scope" else (id(c), len(c[1]))) for c in ctx), etype)
        if key in self.unw_memo:
            return self.unw_memo[key]
        # find the innermost thing to do
        i = len(ctx) - 1
        while i >= 0:
            c = ctx[i]
            if c[0] == "scope" and c[1]:
                n = self.new("unw", None, c[2])
                self.unw_memo[key] = n
                saved_cur, saved_ctx = self.cur, self.ctx
                self.cur = [(n, None)]
                vs = list(c[1])
                v = vs[-1]
                self.ctx = list(ctx[:i]) + [("scope", vs[:-1], c[2]), ("noexcept",)]
                self.dtor(v, c[2], True)
                rest = list(ctx[:i])
                if len(vs) > 1: rest = rest + [("scope", vs[:-1], c[2])]
                # keep identity of shorter scopes stable for memoisation
                t = self.unwind2(rest, c, len(vs) - 1, ctx[:i], etype)
                self.link(t)
                self.cur, self.ctx = saved_cur, saved_ctx
                return n
            if c[0] == "try":
                n = self.dispatch(c, ctx[:i], etype)
                self.unw_memo[key] = n
                return n
            if c[0] == "noexcept":
                self.unw_memo[key] = self.term_node
                return self.term_node
            if c[0] == "spawn":
                self.unw_memo[key] = c[1]
                return c[1]
            if c[0] == "entry":
                self.unw_memo[key] = self.xexit
                return self.xexit
            i -= 1
        self.unw_memo[key] = self.xexit
        return self.xexit
    def unwind2(self, rest, scope, n, below, etype):
        if n == 0:
            return self.unwind(list(below), etype)
        key = (tuple((id(c) if c[0] != "scope" else (id(c), len(c[1]))) for c in below), id(scope), n, etype)
        if key in self.unw_memo: return self.unw_memo[key]
        r = self.unwind(rest, etype)
        self.unw_memo[key] = r
        return r
    def dispatch(self, c, below, etype):
        # c = ("try", handlers[(type,node)], )
        n = self.new("xdisp", None, c[2])
        caught = False
        for ht, hn in c[1]:
            if etype is None:
                n.edge("catch", hn)
                if self.catch_all(ht):
                    caught = True
                    break
            else:
                if self.catches(ht, etype):
                    n.edge("catch", hn)
                    caught = True
                    break
        if not caught:
            n.edge("uncaught", self.unwind(list(below), etype))
        return n
    def catch_all(self, ht):
        return ht is None or strip_type(ht) == "std::exception"
    def catches(self, ht, et):
        if ht is None: return True
        h, e = strip_type(ht), strip_type(et)
        if h == e: return True
        if self.db.is_a(e, h): return True
        x = e
        while x in STD_BASES:
            x = STD_BASES[x]
            if x == h: return True
        if h == "std::exception" and (e.startswith("std::") or e.startswith("cosim::") or e.startswith("boost::")): return True
        return False

    def throws_to(self, n, etype=None):
        n.edge("exc", self.unwind(list(self.ctx), etype))

    # ------------------------------------------------------------ statements
    def stmts(self, ss, fr):
        for s in ss:
            self.stmt(s, fr)
    def scope_push(self, fr):
        sc = ("scope", [], fr)
        self.ctx.append(sc)
        return sc
    def scope_pop(self, sc):
        assert self.ctx[-1] is sc
        if self.cur:
            vs = list(sc[1])
            while vs:
                v = vs.pop()
                self.ctx[-1] = ("scope", list(vs), sc[2])
                self.dtor(v, sc[2], False)
        self.ctx.pop()
    def unwind_to(self, idx):
        """Emit destructors of scopes above ctx[idx] for a normal exit."""
        saved = self.ctx
        for i in range(len(saved) - 1, idx, -1):
            c = saved[i]
            if c[0] == "scope":
                vs = list(c[1])
                while vs:
                    v = vs.pop()
                    self.ctx = saved[:i] + [("scope", list(vs), c[2])]
                    self.dtor(v, c[2], False)
        self.ctx = saved
    def find_ctx(self, kinds):
        for i in range(len(self.ctx) - 1, -1, -1):
            if self.ctx[i][0] in kinds: return i
        return None

    def stmt(self, s, fr):
        if s is None: return
        k = s["k"]
        if k == "block":
            sc = self.scope_push(fr)
            self.stmts(s["s"], fr)
            self.scope_pop(sc)
        elif k == "decl":
            for v in s["v"]: self.declare(v, fr)
        elif k == "expr":
            self.expr(s["e"], fr, discard=True)
        elif k == "if":
            sc = self.scope_push(fr)
            if s.get("init"): self.stmt(s["init"], fr)
            if s.get("var"): self.declare(s["var"], fr)
            if s.get("constexpr") and "cval" in s:
                if s["cval"]: self.sub(s["a"], fr)
                elif s.get("b"): self.sub(s["b"], fr)
            else:
                T, F = self.cond(s["c"], fr)
                self.cur = T
                if self.cur: self.sub(s["a"], fr)
                t_out = self.cur
                self.cur = F
                if s.get("b") and self.cur: self.sub(s["b"], fr)
                self.cur = self.cur + t_out
            self.scope_pop(sc)
        elif k == "while":
            sc = self.scope_push(fr)
            head = self.emit("loophead", None, fr, s["l"])
            lp = Loop("while", head, None, s); head.d["loop"] = lp; self.loops.append(lp)
            brk = self.new("join", None, fr, s["l"])
            lp.fr = fr
            if s.get("var"): self.declare(s["var"], fr)
            T, F = self.cond(s["c"], fr)
            lp.tstart = list(T)
            self.ctx.append(("loop", brk, head))
            self.cur = T
            if self.cur: self.sub(s["a"], fr)
            self.link(head)
            self.ctx.pop()
            self.cur = F
            self.link(brk)
            lp.exit = brk
            self.cur = [(brk, None)] if self.has_pred(brk) else []
            self.scope_pop(sc)
        elif k == "do":
            if s.get("macro") or (s["c"].get("k") == "bool" and s["c"].get("v") is False):
                # do { ... } while (false)
                brk = self.new("join", None, fr, s["l"])
                self.ctx.append(("loop", brk, brk))
                self.sub(s["a"], fr)
                self.ctx.pop()
                self.link(brk)
                self.cur = [(brk, None)] if self.has_pred(brk) else []
                return
            head = self.emit("loophead", None, fr, s["l"])
            lp = Loop("do", head, None, s); head.d["loop"] = lp; self.loops.append(lp)
            lp.fr = fr
            lp.tstart = [(head, None)]
            brk = self.new("join", None, fr, s["l"])
            cont = self.new("join", None, fr, s["l"])
            self.ctx.append(("loop", brk, cont))
            self.sub(s["a"], fr)
            self.link(cont)
            self.ctx.pop()
            if self.has_pred(cont):
                self.cur = [(cont, None)]
                T, F = self.cond(s["c"], fr)
                self.cur = T
                self.link(head)
                self.cur = F
                self.link(brk)
            lp.exit = brk
            self.cur = [(brk, None)] if self.has_pred(brk) else []
        elif k == "for":
            sc = self.scope_push(fr)
            if s.get("init"): self.stmt(s["init"], fr)
            head = self.emit("loophead", None, fr, s["l"])
            lp = Loop("for", head, None, s); head.d["loop"] = lp; self.loops.append(lp)
            lp.fr = fr
            brk = self.new("join", None, fr, s["l"])
            cont = self.new("join", None, fr, s["l"])
            if s.get("c"): T, F = self.cond(s["c"], fr)
            else: T, F = self.cur, []
            lp.tstart = list(T)
            self.ctx.append(("loop", brk, cont))
            self.cur = T
            if self.cur: self.sub(s["a"], fr)
            self.link(cont)
            self.ctx.pop()
            if self.has_pred(cont):
                self.cur = [(cont, None)]
                if s.get("inc"): self.expr(s["inc"], fr, discard=True)
                self.link(head)
            self.cur = F
            self.link(brk)
            lp.exit = brk
            self.cur = [(brk, None)] if self.has_pred(brk) else []
            self.scope_pop(sc)
        elif k == "rfor":
            sc = self.scope_push(fr)
            if s.get("init"): self.stmt(s["init"], fr)
            self.expr(s["r"], fr)
            head = self.emit("loop", s, fr, s["l"])
            lp = Loop("rfor", head, (s["r"], fr), s); head.d["loop"] = lp; self.loops.append(lp)
            lp.tstart = [(head, "T")]
            lp.fr = fr
            lp.id = len(self.loops)
            brk = self.new("join", None, fr, s["l"])
            v = s["v"]
            var = Var(fr, v["d"], v["n"], v["t"], True)
            var.defs.append((head, "elem", lp, fr))
            var.node = head
            fr.vars[v["d"]] = var
            for b in v.get("bind") or []:
                bv = Var(fr, b["d"], b["n"], "", True)
                bv.defs.append((head, "bindelem", (lp, b.get("field"), (v.get("bind") or []).index(b)), fr))
                fr.vars[b["d"]] = bv
            self.ctx.append(("loop", brk, head))
            self.cur = [(head, "T")]
            self.sub(s["a"], fr)
            self.link(head)
            self.ctx.pop()
            self.cur = [(head, "F")]
            self.link(brk)
            lp.exit = brk
            self.cur = [(brk, None)]
            self.scope_pop(sc)
        elif k == "switch":
            self.switch(s, fr)
        elif k in ("case", "default"):
            # handled through the switch body walk
            n = self.new("join", None, fr, s["l"])
            sw = self.ctx[self.find_ctx(("switch",))]
            self.link(n)
            vals = [s["e"]] if k == "case" else None
            sub = s["a"]
            labs = [vals]
            while sub and sub["k"] in ("case", "default"):
                labs.append([sub["e"]] if sub["k"] == "case" else None)
                sub = sub["a"]
            for lb in labs: sw[2].append((lb[0] if lb else None, n))
            self.cur = [(n, None)]
            if sub: self.stmt(sub, fr)
        elif k == "break":
            i = self.find_ctx(("loop", "switch"))
            if i is None or not self.cur: self.cur = []; return
            self.unwind_to(i)
            self.link(self.ctx[i][1])
        elif k == "continue":
            i = self.find_ctx(("loop",))
            if i is None or not self.cur: self.cur = []; return
            self.unwind_to(i)
            self.link(self.ctx[i][2])
        elif k == "return":
            if not self.cur: return
            self.do_return(s.get("e"), fr, s["l"])
        elif k == "try":
            self.do_try(s, fr)
        elif k in ("null", "log", "unkstmt"):
            pass
        elif k == "label":
            self.stmt(s["a"], fr)
        elif k == "goto":
            raise AnalysisError("goto in %s" % fr.fn["q"])
        else:
            raise AnalysisError("statement kind %s" % k)
    def sub(self, s, fr):
        if s is None: return
        if s["k"] == "block":
            self.stmt(s, fr)
        else:
            sc = self.scope_push(fr)
            self.stmt(s, fr)
            self.scope_pop(sc)
    def has_pred(self, n):
        return n.hp

    def switch(self, s, fr):
        sc = self.scope_push(fr)
        if s.get("init"): self.stmt(s["init"], fr)
        if s.get("var"): self.declare(s["var"], fr)
        self.expr(s["c"], fr)
        sw = self.emit("switch", s["c"], fr, s["l"], ct=s.get("ct"))
        brk = self.new("join", None, fr, s["l"])
        cases = []
        self.ctx.append(("switch", brk, cases))
        self.cur = []
        self.sub(s["a"], fr)
        self.link(brk)
        self.ctx.pop()
        hasdef = False
        vals = []
        for e, n in cases:
            if e is None:
                hasdef = True
        for e, n in cases:
            if e is None: continue
            sw.edge(("case", self.const_of(e, fr)), n)
            vals.append(self.const_of(e, fr))
        sw.d["vals"] = vals
        for e, n in cases:
            if e is None: sw.edge(("default",), n)
        if not hasdef:
            en = self.db.E.get(strip_type(s.get("ct") or ""))
            allv = None
            if en: allv = set(x if isinstance(x, str) else x.get("q", x.get("n")) for x in (en.get("v") or en.get("values") or en.get("enumerators") or []))
            sw.d["nodefault"] = True
            sw.edge(("default",), brk)
        self.cur = [(brk, None)] if self.has_pred(brk) else []
        self.scope_pop(sc)
    def const_of(self, e, fr):
        while e and e["k"] in ("icast", "cast"): e = e["e"]
        if e["k"] == "ref" and e.get("dk") == "enum": return ("enum", e["q"])
        if e["k"] == "int": return ("int", e["v"])
        if e["k"] == "char": return ("int", str(e["v"]))
        if e["k"] == "ref" and e.get("q"): return ("g", e["q"])
        return ("x", e.get("l"))

    def do_return(self, e, fr, l):
        rf = fr
        i = None
        for j in range(len(self.ctx) - 1, -1, -1):
            if self.ctx[j][0] == "fn":
                i = j
                break
        rf = self.ctx[i][1]
        if e is not None and e["k"] == "bin" and e["op"] in ("&&", "||") or (e is not None and e["k"] == "un" and e["op"] == "!" and self.compound(e["e"])):
            T, F = self.cond(e, fr)
            outs = []
            for cur, val in ((T, True), (F, False)):
                self.cur = cur
                if not self.cur: continue
                n = self.emit("ret", {"k": "bool", "v": val, "l": l}, fr, l, of=rf, whole=e)
                rf.rets.append((n, n.e, fr))
                self.unwind_to(i)
                outs += self.cur
            self.cur = outs
            self.link(self.ctx[i][2])
            return
        if e is not None: self.expr(e, fr, isret=True)
        if not self.cur: return
        n = self.emit("ret", e, fr, l, of=rf)
        rf.rets.append((n, e, fr))
        self.unwind_to(i)
        self.link(self.ctx[i][2])

    def compound(self, e):
        return e["k"] == "bin" and e["op"] in ("&&", "||") or (e["k"] == "un" and e["op"] == "!" and self.compound(e["e"]))

    def do_try(self, s, fr):
        handlers = []
        for h in s["h"]:
            hn = self.new("catch", h, fr, h["l"])
            handlers.append((h.get("t"), hn, h))
        tr = ("try", [(t, n) for t, n, h in handlers], fr)
        self.ctx.append(tr)
        self.sub(s["a"], fr)
        self.ctx.pop()
        outs = self.cur
        for t, hn, h in handlers:
            sc = self.scope_push(fr)
            self.cur = [(hn, None)]
            if h.get("v"):
                v = Var(fr, h["v"]["d"], h["v"]["n"], h["v"]["t"], True)
                v.defs.append((hn, "catch", None, fr))
                fr.vars[v.d] = v
            self.ctx.append(("handler", hn))
            self.sub(h["a"], fr)
            self.ctx.pop()
            self.scope_pop(sc)
            outs = outs + self.cur
        self.cur = outs

    def declare(self, v, fr):
        if v.get("static"):
            # initialised once; a plain global for our purposes
            if v.get("init"): self.expr(v["init"], fr)
            var = Var(fr, v["d"], v["n"], v["t"], False)
            var.static = True
            var.defs.append((None, "static", v.get("q"), None))
            fr.vars[v["d"]] = var
            return
        init = v.get("init")
        var = Var(fr, v["d"], v["n"], v["t"], v.get("ref"))
        var.rec = v.get("rec")
        if init is not None and strip_type(v["t"]) == "bool" and self.compound(init):
            fr.vars[v["d"]] = var
            T, F = self.cond(init, fr)
            outs = []
            for cur, val in ((T, True), (F, False)):
                self.cur = cur
                if not self.cur: continue
                n = self.emit("decl", v, fr, v["l"], var=var, init={"k": "bool", "v": val}, whole=init)
                var.defs.append((n, "init", n.d["init"], fr))
                var.node = n
                outs += self.cur
            self.cur = outs
            return
        if init is not None:
            if init["k"] == "ctor" and init.get("id") and not v.get("ref"): self.ctorvar[(id(init), fr.id)] = var
            self.expr(init, fr)
        n = self.emit("decl", v, fr, v["l"], var=var, init=init)
        var.node = n
        var.defs.append((n, "init", init, fr))
        fr.vars[v["d"]] = var
        for i, b in enumerate(v.get("bind") or []):
            bv = Var(fr, b["d"], b["n"], "", True)
            bv.defs.append((n, "bind", (init, b.get("field"), i), fr))
            bv.node = n
            fr.vars[b["d"]] = bv
        if v.get("dtor") and not v.get("ref"):
            i = self.find_ctx(("scope",))
            if self.interesting_dtor(v):
                if i is not None:
                    self.ctx[i][1].append(var)

    def interesting_dtor(self, v):
        rec = v.get("rec") or ""
        if is_lock_type(rec): return True
        if v.get("dtorid"):
            f = self.db.F.get(v["dtorid"])
            if f is not None and f.get("body") is not None: return True
        if rec.startswith("gsl::final"): return True
        if rec == "std::unique_ptr" and "default_delete" not in v["t"]: return True
        if rec in ("std::unique_ptr", "std::thread", "std::future"): return False
        # aggregates with guards inside are rare; treat in-repo types with implicit dtors as uninteresting
        return False

    def dtor(self, var, fr, unwinding):
        if not self.cur: return
        v = None
        rec = var.rec or ""
        n = self.emit("dtor", None, fr, None, var=var, unwinding=unwinding)
        n.l = fr.fn.get("el")
        if rec.startswith("gsl::final"):
            lam = self.find_lambda(("varinit", var), fr)
            if lam:
                self.inline_lambda(lam, [], fr, {"k": "x", "l": n.l}, [])
            return
        f = None
        r = self.db.R.get(self.db_rec(var.t, rec))
        did = getattr(var, "_dtorid", None)
        if did is None:
            nd = var.node
            if nd is not None and nd.e and isinstance(nd.e, dict): did = nd.e.get("dtorid")
        if did and did in self.db.F:
            f = self.db.F[did]
        if f is not None and f.get("body") is not None and not self.stop(f):
            self.inline_fn(f, fr, {"k": "x", "l": n.l, "a": []}, [], var_this=("var", var), unwinding=unwinding)
    def db_rec(self, t, rec):
        return rec

    # ------------------------------------------------------------ conditions
    def cond(self, e, fr):
        """Emit evaluation + branching; returns (true outs, false outs)."""
        if e is None: return self.cur, []
        k = e["k"]
        if k == "un" and e["op"] == "!":
            T, F = self.cond(e["e"], fr)
            return F, T
        if k == "bin" and e["op"] == "&&":
            T, F = self.cond(e["a"], fr)
            self.cur = T
            if not self.cur: return [], F
            T2, F2 = self.cond(e["b"], fr)
            return T2, F + F2
        if k == "bin" and e["op"] == "||":
            T, F = self.cond(e["a"], fr)
            self.cur = F
            if not self.cur: return T, []
            T2, F2 = self.cond(e["b"], fr)
            return T + T2, F2
        if k == "cond":
            T, F = self.cond(e["c"], fr)
            self.cur = T
            T1, F1 = self.cond(e["a"], fr) if self.cur else ([], [])
            self.cur = F
            T2, F2 = self.cond(e["b"], fr) if self.cur else ([], [])
            return T1 + T2, F1 + F2
        if k in ("icast",):
            return self.cond(e["e"], fr)
        if k == "bool":
            return (self.cur, []) if e["v"] else ([], self.cur)
        u = self.unwinding_test(e, fr)
        if u is not None:
            return (self.cur, []) if u else ([], self.cur)
        self.expr(e, fr)
        if not self.cur: return [], []
        b = self.emit("branch", e, fr)
        self.cur = []
        return [(b, "T")], [(b, "F")]

    def unwinding_test(self, e, fr):
        """Value of a test of std::uncaught_exceptions() inside a destructor."""
        while e["k"] in ("icast", "cast"): e = e["e"]
        neg = False
        if e["k"] == "un" and e["op"] == "!":
            r = self.unwinding_test(e["e"], fr)
            return None if r is None else not r
        if e["k"] == "bin" and e["op"] in (">", "!=", "==", "<", ">=", "<="):
            a, b, op = e["a"], e["b"], e["op"]
            while a["k"] in ("icast", "cast"): a = a["e"]
            while b["k"] in ("icast", "cast"): b = b["e"]
            if a["k"] in ("int", "zero") and b["k"] == "call":
                a, b = b, a
                op = {">": "<", "<": ">", ">=": "<=", "<=": ">="}.get(op, op)
            if b["k"] not in ("int", "zero"): return None
            v = str(b.get("v", "0"))
            if (op, v) in ((">", "0"), ("!=", "0"), (">=", "1")): pass
            elif (op, v) in (("==", "0"), ("<=", "0"), ("<", "1")): neg = True
            else: return None
            e = a
        if e["k"] == "call" and re.search(r"uncaught_exceptions?$", e.get("fn") or ""):
            for f in fr.chain():
                if f.unwinding is not None: return f.unwinding != neg
        return None

    # ------------------------------------------------------------ expressions
    def expr(self, e, fr, discard=False, isret=False):
        if e is None or not self.cur: return
        k = e["k"]
        if k in ("ref", "int", "bool", "float", "str", "char", "null", "this", "zero", "sizeof", "memfn"):
            return
        if k in ("icast", "cast", "defarg"):
            return self.expr(e["e"], fr, discard)
        if k == "mem":
            return self.expr(e["b"], fr)
        if k == "lambda":
            for c in e["caps"]:
                if c.get("init"): self.expr(c["init"], fr)
            return
        if k == "un":
            self.expr(e["e"], fr)
            if e["op"] in ("++", "--") and self.cur:
                self.emit("write", e, fr, op=e["op"], place=e["e"], val=None)
            return
        if k == "bin":
            op = e["op"]
            if op in ("&&", "||"):
                T, F = self.cond(e, fr)
                self.cur = T + F
                return
            if op in ("=", "+=", "-=", "*=", "/=", "%=", "|=", "&=", "^=", "<<=", ">>="):
                if op == "=" and self.compound(e["b"]):
                    T, F = self.cond(e["b"], fr)
                    outs = []
                    for cur, val in ((T, True), (F, False)):
                        self.cur = cur
                        if not self.cur: continue
                        self.emit("write", e, fr, op="=", place=e["a"], val={"k": "bool", "v": val}, whole=e["b"])
                        outs += self.cur
                    self.cur = outs
                    return
                self.expr(e["b"], fr)
                self.expr(e["a"], fr)
                if self.cur: self.emit("write", e, fr, op=op, place=e["a"], val=e["b"])
                return
            self.expr(e["a"], fr)
            self.expr(e["b"], fr)
            return
        if k == "cond":
            T, F = self.cond(e["c"], fr)
            outs = []
            for cur, sub in ((T, e["a"]), (F, e["b"])):
                self.cur = cur
                if self.cur:
                    self.expr(sub, fr)
                    outs += self.cur
            self.cur = outs
            return
        if k == "sub":
            self.expr(e["a"], fr)
            self.expr(e["b"], fr)
            return
        if k == "init":
            for a in e["a"]: self.expr(a, fr)
            return
        if k == "new":
            self.expr(e.get("e"), fr)
            return
        if k == "delete":
            self.expr(e.get("e"), fr)
            if self.cur: self.emit("delete", e, fr)
            return
        if k == "throw":
            if e.get("e") is not None:
                self.expr(e["e"], fr)
            if not self.cur: return
            n = self.emit("throw", e, fr)
            t = e.get("t")
            if e.get("e") is None:
                t = None
            self.cur = []
            self.throws_to(n, strip_type(t) if t else None)
            return
        if k == "unk":
            for a in e.get("a") or []: self.expr(a, fr)
            return
        if k in ("call", "ctor"):
            return self.call(e, fr, discard)
        raise AnalysisError("expression kind %s" % k)

    def may_throw(self, e, f):
        if e.get("nt"): return False
        fn = e.get("fn", "")
        if self.nothrow and self.nothrow(e): return False
        if f is not None:
            # in-repo, not inlined
            return not f.get("nt")
        if e.get("virt") and e.get("id"): return True      # repo interface
        if e.get("id"):
            # declared in the repo, no body here (e.g. other platform / defaulted)
            r = not self.is_special(e)
            return r
        if self.extra_throw and self.extra_throw(e): return True
        if THROWING.search(fn) and (REALLY.search(fn) or not NOTHROW.search(fn)):
            return True
        if "shared_ptr" in fn and "operator" in fn: return False
        if fn == "?" : return True
        return False
    def is_special(self, e):
        return e["k"] == "ctor" and (e.get("copy") or e.get("move") or e.get("def"))

    def call(self, e, fr, discard=False):
        fn = e.get("fn", "?")
        # evaluate operands
        if e.get("obj") is not None: self.expr(e["obj"], fr)
        if e.get("calleeE") is not None: self.expr(e["calleeE"], fr)
        op = e.get("op")
        args = e.get("a") or []
        if op == "=" and len(args) == 1 and self.compound(args[0]):
            T, F = self.cond(args[0], fr)
            outs = []
            for cur, val in ((T, True), (F, False)):
                self.cur = cur
                if not self.cur: continue
                self.emit("write", e, fr, op="=", place=e["obj"], val={"k": "bool", "v": val}, whole=args[0])
                outs += self.cur
            self.cur = outs
            return
        for a in args: self.expr(a, fr)
        if not self.cur: return
        if e.get("nr"):
            n = self.emit("call", e, fr)
            n.d["noreturn"] = True
            n.edge("term", self.term_node)
            self.cur = []
            return
        if self.model(e, fr): return
        f = self.target(e, fr)
        if f is not None:
            lam = None
            if f.get("lambda") or f.get("n") == "operator()" and f.get("cls", "").find("lambda") >= 0:
                lam = self.find_lambda(("expr", e.get("obj") or (args[0] if args else None), fr), fr)
                if lam and self.can_inline(f, fr):
                    self.inline_lambda(lam, args, fr, e, [f["id"]])
                    return
            if self.can_inline(f, fr) and not (f.get("lambda")):
                self.inline_fn(f, fr, e, args)
                return
            if f.get("lambda"): f = None
        if op == "()" or (fn == "?" and e.get("calleeE") is not None):
            ce = e.get("obj") or e.get("calleeE")
            lam = self.find_lambda(("expr", ce, fr), fr)
            if lam and self.lam_ok(lam, fr):
                self.inline_lambda(lam, args, fr, e, None)
                return
        if not e.get("id") and (op == "->" or (e["k"] == "ctor" and (e.get("copy") or e.get("move")) and not is_lock_type(e.get("cls", "")))) :
            return
        n = self.emit("call", e, fr)
        if self.may_throw(e, f):
            ln = fn.split("::")[-1]
            et = "std::out_of_range" if ln == "at" and fn.startswith("std::") else "std::bad_variant_access" if fn == "std::get" else None
            self.throws_to(n, et)

    def lam_ok(self, lam, fr):
        le, lf = lam
        ids = [i for i in le["ids"] if i in self.db.F]
        if not ids: return False
        return all(self.can_inline(self.db.F[i], fr) for i in ids[:1])

    def target(self, e, fr):
        """The single in-repo body this call can reach, or None."""
        fid = e.get("id")
        if not fid: return None
        if e.get("virt") and not e.get("qual"):
            if fid in self.devirt: return self.db.F.get(self.devirt[fid])
            if not self.inline_virtual: return None
            ovs = self.db.overriders(fid)
            f = self.db.F.get(fid)
            if f is None: 
                return None
            if f.get("body") is not None and not ovs: return f
            # a call on `this` object of a class without overriding subclasses
            return None
        f = self.db.F.get(fid)
        return f
    def can_inline(self, f, fr):
        if f.get("body") is None or f.get("dependent"): return False
        if fr.depth >= MAXDEPTH: return False
        for x in fr.chain():
            if x.fn["id"] == f["id"]: return False
        if self.stop(f): return False
        return True

    def inline_fn(self, f, fr, e, args, var_this=None, unwinding=None):
        nf = Frame(self, f, fr, e)
        nf.unwinding = unwinding
        ent = self.emit("enter", e, fr, e.get("l"), frame=nf)
        if var_this is not None:
            nf.this_e = var_this
        elif e.get("obj") is not None:
            nf.this_e = ("expr", e["obj"], fr)
        elif e["k"] == "ctor":
            nf.this_e = ("ctor", e, fr)
        else:
            nf.this_e = None
        for i, p in enumerate(f["p"]):
            v = Var(nf, p["d"], p["n"], p["t"], p.get("ref"))
            a = args[i] if i < len(args) else None
            v.defs.append((ent, "param", a, fr))
            v.node = ent
            nf.vars[p["d"]] = v
        if fr is not None: fr.inl.setdefault(id(e), nf)
        join = self.new("leave", e, nf, f.get("el"))
        join.d["frame"] = nf
        if f.get("nt"): self.ctx.append(("noexcept",))
        self.ctx.append(("fn", nf, join))
        if f.get("ck") and f["ck"] != "dtor": self.ctor_inits(f, nf)
        self.stmt(f["body"], nf)
        self.ctx.pop()
        if f.get("nt"): self.ctx.pop()
        self.link(join)
        nf.leave = join
        self.cur = [(join, None)] if self.has_pred(join) else []
        return nf
    def ctor_inits(self, f, nf):
        for i in f.get("inits") or []:
            if i.get("e") is None: continue
            if i.get("deleg"): self.ctorvar[(id(i["e"]), nf.id)] = nf
            self.expr(i["e"], nf)
            if not self.cur: return
            if i.get("deleg"):
                continue
            if i.get("field"):
                self.emit("write", i["e"], nf, i["e"].get("l") or f["l"], op="init", place={"k": "mem", "n": i["field"], "q": i.get("q"), "b": {"k": "this", "t": f.get("cls")}, "t": self.field_type(f.get("cls"), i["field"])}, val=i["e"])
    def field_type(self, cls, n):
        for f in (self.db.R.get(cls or "") or {}).get("fields", []):
            if f["n"] == n: return f["t"]
        return ""

    def inline_lambda(self, lam, args, fr, e, ids, argterms=None):
        le, lf = lam
        cands = [i for i in (ids or le["ids"]) if i in self.db.F and self.db.F[i].get("body") is not None and not self.db.F[i].get("dependent")]
        if not cands:
            cands = [i for i in le["ids"] if i in self.db.F and self.db.F[i].get("body") is not None]
        if not cands:
            n = self.emit("call", e, fr); self.throws_to(n); return None
        start = self.cur
        outs = []
        nf = None
        if len(cands) > 1:
            # which instantiation runs depends on the argument type
            b = self.emit("altbranch", e, fr)
            start = None
        for i, c in enumerate(cands):
            f = self.db.F[c]
            self.cur = start if start is not None else [(b, ("alt", i))]
            nf = Frame(self, f, fr, e)
            nf.env = lf
            nf.lam = le
            nf.this_env = True
            for cp in le["caps"]:
                if cp.get("init") is not None:
                    v = Var(nf, cp["d"], cp["n"], cp.get("t"), False)
                    v.defs.append((None, "init", cp["init"], lf))
                    nf.vars[cp["d"]] = v
            ent = self.emit("enter", e, fr, e.get("l"), frame=nf)
            for j, p in enumerate(f["p"]):
                v = Var(nf, p["d"], p["n"], p["t"], p.get("ref"))
                if argterms is not None and j < len(argterms):
                    v.defs.append((ent, "term", argterms[j], fr))
                else:
                    v.defs.append((ent, "param", args[j] if j < len(args) else None, fr))
                v.node = ent
                nf.vars[p["d"]] = v
            if isinstance(e, dict): fr.inl.setdefault(id(e), nf)
            join = self.new("leave", e, nf, f.get("el"))
            join.d["frame"] = nf
            if f.get("nt"): self.ctx.append(("noexcept",))
            self.ctx.append(("fn", nf, join))
            self.stmt(f["body"], nf)
            self.ctx.pop()
            if f.get("nt"): self.ctx.pop()
            self.link(join)
            nf.leave = join
            if self.has_pred(join): outs.append((join, None))
        self.cur = outs
        return nf

    # the lambda an expression denotes, if that is visible
    def find_lambda(self, what, fr, depth=0):
        if depth > 8: return None
        if what[0] == "varinit":
            v = what[1]
            ds = [d for d in v.defs if d[1] in ("init", "param")]
            if len(ds) != 1: return None
            return self.find_lambda(("expr", ds[0][2], ds[0][3]), fr, depth + 1)
        e, f = what[1], what[2]
        while e is not None:
            k = e["k"]
            if k == "lambda": return (e, f)
            if k == "ref" and e.get("dk") == "func" and e.get("id") in self.db.F:
                # a function by name: a lambda that captures nothing
                r = self.fnref.get(e["id"])
                if r is None: r = self.fnref[e["id"]] = {"k": "lambda", "ids": [e["id"]], "caps": [], "t": e.get("t"), "l": e.get("l")}
                return (r, f)
            if k in ("cast", "icast", "defarg"): e = e["e"]; continue
            if k == "un" and e["op"] in ("&", "*"): e = e["e"]; continue
            if k == "ctor":
                if len(e["a"]) >= 1: e = e["a"][0]; continue
                return None
            if k == "init" and len(e["a"]) == 1: e = e["a"][0]; continue
            if k == "call":
                if e["fn"] in ("std::move", "std::forward", "gsl::finally", "std::ref", "std::cref") and e["a"]: e = e["a"][0]; continue
                return None
            if k == "ref" and e.get("dk") in ("local", "param"):
                v = f.lookup(e["d"])
                if v is None: return None
                return self.find_lambda(("varinit", v), f, depth + 1)
            return None
        return None

    # ---------------------------------------------------------- known callees
    CVWAIT = re.compile(r"condition_variable(_any)?::wait")
    ALGO = {"std::for_each", "std::find_if", "std::find_if_not", "std::any_of", "std::all_of", "std::none_of", "std::count_if",
            "std::accumulate", "std::remove_if", "std::transform", "std::partition", "std::stable_partition", "std::copy_if", "std::generate",
            "std::for_each_n", "std::erase_if", "std::remove_copy_if", "std::ranges::for_each", "std::reduce", "std::replace_if",
            "std::lower_bound", "std::upper_bound", "std::partition_point", "std::adjacent_find", "std::max_element", "std::min_element"}
    EARLY = {"std::find_if", "std::find_if_not", "std::any_of", "std::all_of", "std::none_of", "std::partition_point", "std::lower_bound", "std::upper_bound", "std::adjacent_find"}

    PREDS = {"std::find_if": "T", "std::any_of": "T", "std::none_of": "T", "std::find_if_not": "F", "std::all_of": "F"}
    def model(self, e, fr):
        fn = e.get("fn", "")
        base = fn
        args = e.get("a") or []
        if fn in self.ALGO:
            lams = [(i, self.find_lambda(("expr", a, fr), fr)) for i, a in enumerate(args)]
            lams = [(i, l) for i, l in lams if l is not None]
            if not lams: return False
            i, lam = lams[-1]
            if not self.lam_ok(lam, fr): return False
            if fn in ("std::lower_bound", "std::upper_bound", "std::adjacent_find", "std::max_element", "std::min_element"): return False
            head = self.emit("loop", e, fr, algo=fn)
            lp = Loop("algo", head, (args[0], fr), e)
            lp.tstart = [(head, "T")]
            lp.fr = fr
            lp.algo = fn
            lp.id = len(self.loops) + 1
            head.d["loop"] = lp
            self.loops.append(lp)
            done = self.new("join", e, fr)
            lp.exit = done
            self.cur = [(head, "T")]
            at = [("elemof", lp)]
            if fn in ("std::accumulate", "std::reduce"): at = [("acc", lp), ("elemof", lp)]
            if fn in self.PREDS:
                # for (x : range) if (pred(x)) -> found
                pe = {"k": "call", "fn": "(predicate)", "l": e.get("l"), "t": "bool", "a": []}
                self.synth.append(pe)
                nf = self.inline_lambda(lam, [], fr, pe, None, argterms=at)
                lp.frame = nf
                if nf is not None and fr.inl.get(id(pe)) is nf and self.cur:
                    b = self.emit("branch", pe, fr, e.get("l"), predof=head)
                    hit = self.PREDS[fn]
                    b.edge(hit, done)
                    self.cur = [(b, "F" if hit == "T" else "T")]
                else:
                    for p, lab in self.cur: p.edge(lab, done)
            else:
                nf = self.inline_lambda(lam, [], fr, e, None, argterms=at)
                lp.frame = nf
                if fn in self.EARLY:
                    for p, lab in self.cur: p.edge(lab, done)
            self.link(head)
            self.cur = [(head, "F")]
            self.link(done)
            self.cur = [(done, None)]
            n = self.emit("call", e, fr)
            return True
        if fn == "std::visit" and args:
            fns = self.visitor_lambdas(args[0], fr)
            if fns and all(self.lam_ok(l, fr) for l in fns):
                b = self.emit("altbranch", e, fr, visit=True)
                outs = []
                for l in fns:
                    for pid in l[0]["ids"]:
                        f = self.db.F.get(pid)
                        if f is None or f.get("dependent"): continue
                        pt = strip_type(f["p"][0]["t"]) if f["p"] else ""
                        self.cur = [(b, ("alt", pt))]
                        self.inline_lambda(l, [], fr, e, [pid], argterms=[("altval", args[1] if len(args) > 1 else None, fr, pt)])
                        outs += self.cur
                self.cur = outs
                return True
            # visitor is an in-repo function object: branch to each operator()
            ot = self.visitor_type(args[0], fr)
            if ot:
                fs = [f for f in self.db.byq.get(ot + "::operator()", []) if f.get("body") and not f.get("dependent")]
                if fs and all(self.can_inline(f, fr) for f in fs):
                    b = self.emit("altbranch", e, fr, visit=True)
                    outs = []
                    for f in fs:
                        pt = strip_type(f["p"][0]["t"]) if f["p"] else ""
                        self.cur = [(b, ("alt", pt))]
                        nf = Frame(self, f, fr, e)
                        nf.this_e = ("expr", args[0], fr)
                        ent = self.emit("enter", e, fr, e.get("l"), frame=nf)
                        for j, p in enumerate(f["p"]):
                            v = Var(nf, p["d"], p["n"], p["t"], p.get("ref"))
                            v.defs.append((ent, "term", ("altval", args[j + 1] if len(args) > j + 1 else None, fr, pt), fr))
                            nf.vars[p["d"]] = v
                        join = self.new("leave", e, nf, f.get("el"))
                        join.d["frame"] = nf
                        fr.inl.setdefault(id(e), nf)
                        self.ctx.append(("fn", nf, join))
                        self.stmt(f["body"], nf)
                        self.ctx.pop()
                        self.link(join)
                        nf.leave = join
                        if self.has_pred(join): outs.append((join, None))
                    self.cur = outs
                    return True
            return False
        if fn == "std::invoke" and args:
            lam = self.find_lambda(("expr", args[0], fr), fr)
            if lam and self.lam_ok(lam, fr):
                self.inline_lambda(lam, args[1:], fr, e, None)
                return True
        if self.CVWAIT.search(fn) and args and fn.endswith("::wait") and len(args) == 2:
            lam = self.find_lambda(("expr", args[-1], fr), fr)
            if lam and self.lam_ok(lam, fr):
                # while (!pred()) wait(lock);
                head = self.emit("loophead", None, fr, e.get("l"))
                lp = Loop("wait", head, None, e); head.d["loop"] = lp; self.loops.append(lp)
                lp.fr = fr
                pe = {"k": "call", "fn": "(predicate)", "l": e.get("l"), "t": "bool", "a": []}
                self.synth.append(pe)
                self.inline_lambda(lam, [], fr, pe, None)
                b = self.emit("branch", pe, fr, e.get("l"))
                brk = self.new("join", None, fr, e.get("l"))
                lp.exit = brk
                lp.tstart = [(b, "F")]
                self.cur = [(b, "F")]
                self.emit("call", e, fr, wait=True)
                self.link(head)
                self.cur = [(b, "T")]
                self.link(brk)
                self.cur = [(brk, None)]
                return True
        sp = self.spawn_arg(e, fr)
        if sp is not None:
            lam = self.find_lambda(("expr", sp, fr), fr)
            n = self.emit("spawn", e, fr)
            n.d["lam"] = lam
            self.spawns.append(n)
            if self.extra_throw and self.extra_throw(e): self.throws_to(n)
            if self.spawn == "inline" and lam and self.lam_ok(lam, fr):
                esc = self.new("taskescape", e, fr)
                n.d["escape"] = esc
                self.ctx.append(("spawn", esc))
                nfc = len(self.frames)
                self.inline_lambda(lam, [], fr, e, None)
                for f in self.frames[nfc:]: f.spawned = True
                n.d["frame"] = self.frames[nfc] if len(self.frames) > nfc else None
                self.ctx.pop()
                end = self.emit("taskend", e, fr)
                n.d["end"] = end
            return True
        if e["k"] == "call" and e.get("op") in ("=", "+=", "-=", "*=", "/=", "|=", "&=", "%=") and e.get("obj") is not None:
            # assignment of class types
            f = self.db.F.get(e.get("id")) if e.get("id") else None
            if f is not None and f.get("body") is not None and not f.get("dflt") and self.can_inline(f, fr):
                return False
            n = self.emit("write", e, fr, op=e["op"], place=e["obj"], val=(args[0] if args else None))
            if e["op"] == "=" and f is not None and not e.get("nt"):
                pass
            return True
        if e["k"] == "call" and e.get("op") in ("++", "--") and e.get("obj") is not None and not e.get("id"):
            self.emit("write", e, fr, op=e["op"], place=e["obj"], val=None)
            return True
        if fn in ("std::atomic<bool>::store", ) or re.match(r"std::(__)?atomic(_base)?<.*>::(store|exchange|operator=|fetch_add|fetch_sub|operator\+\+|operator--)$", fn):
            op = "="
            if "fetch_add" in fn or "++" in fn: op = "++"
            if "fetch_sub" in fn or "--" in fn: op = "--"
            self.emit("write", e, fr, op=op, place=e["obj"], val=args[0] if args and op == "=" else None, atomic=True)
            return True
        if fn in ("std::swap", "std::exchange") and len(args) == 2:
            self.emit("write", e, fr, op="=", place=args[0], val=args[1], swap=(fn == "std::swap"))
            if fn == "std::swap":
                self.emit("write", e, fr, op="=", place=args[1], val=args[0], swap=True)
            return True
        return False

    def visitor_type(self, e, fr):
        while e is not None and e["k"] in ("cast", "icast"): e = e["e"]
        if e is None: return None
        t = None
        if e["k"] == "ctor":
            t = strip_type(e["t"]).replace("(anonymous namespace)::", "")
            if t + "::operator()" not in self.db.byq: t = e.get("cls") or t
        elif e["k"] == "init": t = strip_type(e["t"])
        elif e["k"] == "ref" and e.get("d"):
            v = fr.lookup(e["d"])
            t = (v.rec if v and v.rec else strip_type(e["t"]))
        if t is None: return None
        t = t.replace("(anonymous namespace)::", "")
        return t
    def visitor_lambdas(self, e, fr, depth=0):
        if e is None or depth > 6: return None
        k = e["k"]
        if k == "lambda": return [(e, fr)]
        if k in ("cast", "icast"): return self.visitor_lambdas(e["e"], fr, depth + 1)
        if k == "ref" and e.get("dk") in ("local", "param"):
            v = fr.lookup(e["d"])
            if v is None: return None
            ds = [d for d in v.defs if d[1] in ("init", "param")]
            if len(ds) != 1: return None
            return self.visitor_lambdas(ds[0][2], ds[0][3], depth + 1)
        if k in ("call", "ctor", "init"):
            out = []
            for a in e.get("a") or []:
                r = self.visitor_lambdas(a, fr, depth + 1)
                if r is None: return None
                out += r
            return out or None
        return None

    def spawn_arg(self, e, fr):
        fn = e.get("fn", "")
        a = e.get("a") or []
        if fn == "cosim::utility::thread_pool::submit" and a: return a[0]
        if fn.startswith("std::async"):
            for x in a:
                if self.find_lambda(("expr", x, fr), fr): return x
        if fn.startswith("std::thread::thread") and e["k"] == "ctor" and not e.get("move") and a: return a[0]
        if re.match(r"std::(vector|deque|list)<std::j?thread\b.*::(emplace|emplace_back|emplace_front|push_back)$", fn) and a:
            for x in a:
                if self.find_lambda(("expr", x, fr), fr): return x
        return None

    # ------------------------------------------------------------ prepass
    def prepass(self):
        """Register every write to a local variable."""
        for n in self.nodes:
            if n.k == "write":
                p = self.T(n.d["place"], n.fr)
                self.add_write(p, n, "assign" if n.d["op"] in ("=", "init") else "opassign")
            elif n.k == "call":
                for p in self.mut_places_raw(n):
                    self.add_write(p, n, "mut")
            elif n.k == "spawn":
                pass
        # loops with explicit indices
        for lp in self.loops:
            if lp.kind in ("for", "while"): self.classify_for(lp)
    def add_write(self, p, n, kind):
        t = p = self.unstar(p)
        direct = True
        if t[0] == "f" and t[1][0] == "v":
            self.fieldw.setdefault((t[1], t[2]), []).append(n)
            if n.k == "write" and n.d["op"] == "init": return
        while True:
            if t[0] == "v":
                v = self.var_of(t)
                if v is not None:
                    if not direct and v.ptrlike(): return
                    if kind == "mut" and v.ptrlike() and not re.search(r"unique_ptr|shared_ptr|\*$", v.t): pass
                    v.defs.append((n, kind, n, None))
                return
            if t[0] in ("f", "at", "back"):
                t = t[1]
                direct = False
                continue
            return
    def unstar(self, t):
        """Drop dereferences of locals that are no pointers (`this` of a method
        called on a local object)."""
        if not isinstance(t, tuple): return t
        if len(t) == 2 and t[0] == "*" and t[1][0] == "v":
            v = self.var_of(t[1])
            if v is not None and not v.ptrlike() and self.db_rec(v.t, v.rec): return t[1]
        return tuple(self.unstar(x) for x in t)
    def var_of(self, t):
        return self.frames[t[1]].vars.get(t[2])
    def moved_into(self, n, t):
        """Is t changed by node n only in that it is moved from?"""
        if n is None or n.e is None: return False
        hit = False
        for a in n.e.get("a") or []:
            if self.T(a, n.fr) == t:
                if a.get("k") == "call" and a.get("fn") == "std::move": hit = True
                else: return False
        return hit
    def deep(self, t, depth=0):
        """Replace locals that are set once by what they are set to."""
        if not isinstance(t, tuple) or depth > 12: return t
        if t and t[0] == "v" and len(t) >= 3 and isinstance(t[1], int):
            v = self.var_of(t)
            ds = [d for d in v.defs if not (d[1] == "mut" and self.moved_into(d[0], t))] if v is not None else []
            if len(ds) == 1 and ds[0][1] in ("init", "param") and ds[0][2] is not None:
                x = self.T(ds[0][2], ds[0][3])
                if x != t: return self.deep(x, depth + 1)
            return t
        if t and t[0] == "ret" and len(t) == 2:
            a = self.alts(t)
            if len(a) == 1 and a[0] != t: return self.deep(a[0], depth + 1)
            return t
        return tuple(self.deep(x, depth) if isinstance(x, tuple) else x for x in t)
    def mut_places_raw(self, n):
        e = n.e
        if e is None: return []
        out = []
        if e["k"] == "call" and e.get("obj") is not None and not e.get("const") and not e.get("static"):
            nm = (e.get("fn") or "").split("::")[-1]
            op = e.get("op")
            if op in ("->", "*", "[]", "()", "==", "!=", "<", ">", "<=", ">="):
                pass
            elif nm in ("begin", "end", "rbegin", "rend", "at", "front", "back", "data", "find", "get", "c_str", "lower_bound", "upper_bound", "equal_range", "str", "top", "value"):
                if nm == "str" and e.get("a"): out.append(self.T(e["obj"], n.fr))
            elif e.get("conv"):
                pass
            else:
                out.append(self.T(e["obj"], n.fr))
        pk = e.get("pk") or ""
        args = e.get("a") or []
        for i, a in enumerate(args):
            c = pk[i] if i < len(pk) else "v"
            if e["k"] == "call" and e.get("op") in ("<<", ">>") and e.get("obj") is None and i == 0:
                out.append(self.T(a, n.fr)); continue
            if c == "r":
                fn = e.get("fn") or ""
                if fn in ("std::move", "std::forward", "std::begin", "std::end", "std::ref", "std::addressof", "std::get", "std::tie", "gsl::make_span", "std::data", "std::size", "std::get_if") or fn.endswith("lock_guard") or fn.endswith("unique_lock") or fn.endswith("scoped_lock") or fn.endswith("shared_lock") or fn.endswith("state_guard"):
                    continue
                if (FORWARDS.search(fn) or e["k"] == "ctor" and re.match(r"std::(__cxx11::)?(function|optional|pair|tuple|variant|any|vector|map|unordered_map|shared_ptr|unique_ptr|basic_string)\b", fn)) and not (a.get("k") == "call" and a.get("fn") == "std::move"): continue
                out.append(self.T(a, n.fr))
            elif c == "p" and a.get("k") == "un" and a.get("op") == "&":
                out.append(self.T(a["e"], n.fr))
        return out

    def classify_for(self, lp):
        """Recognise index and iterator loops over a whole container."""
        s = lp.stmt
        c = s.get("c")
        if not c: return
        # the comparison that controls the loop (first conjunct mentioning the counter)
        conj = []
        def split(x):
            if x["k"] == "icast": return split(x["e"])
            if x["k"] == "bin" and x["op"] == "&&": split(x["a"]); split(x["b"])
            else: conj.append(x)
        split(c)
        for cc in conj:
            if cc["k"] == "un" and cc["op"] == "!":
                inner = cc["e"]
                while inner["k"] == "icast": inner = inner["e"]
                if inner.get("op") == "==": cc = dict(inner); cc["op"] = "!="
            if cc["k"] == "bin" and cc["op"] in ("<", "!="): lhs, rhs = cc["a"], cc["b"]
            elif cc["k"] == "call" and cc.get("op") in ("!=", "<"):
                ops = ([cc["obj"]] if cc.get("obj") else []) + cc["a"]
                if len(ops) != 2: continue
                lhs, rhs = ops
            elif cc["k"] == "bin" and cc["op"] == ">": lhs, rhs = cc["b"], cc["a"]
            else: continue
            for l, r in ((lhs, rhs), (rhs, lhs)):
                while l["k"] in ("cast", "icast") or l["k"] == "ctor" and len(l["a"]) == 1: l = l["e"] if l["k"] != "ctor" else l["a"][0]
                if l.get("k") != "ref" or l.get("dk") != "local": continue
                if cc.get("op") == "<" and l is not lhs and r is lhs: continue
                v = lp.fr.lookup(l["d"])
                if v is None: continue
                ds = [d for d in v.defs if d[1] == "init"]
                others = [d for d in v.defs if d[1] != "init"]
                if len(ds) != 1 or len(others) != 1 or ds[0][2] is None: continue
                o = others[0]
                odd = None
                if not (o[0] is not None and o[0].k == "write" and o[0].d["op"] in ("++",)): 
                    if o[0] is not None and o[0].k == "write" and o[0].d["op"] == "+=" and self.T(o[0].d["val"], o[0].fr) == ("int", "1"): pass
                    elif o[0] is not None and o[0].k == "write" and o[0].d["op"] == "--": odd = "it counts down from the first element"
                    elif o[0] is not None and o[0].k == "write" and o[0].d["op"] == "+=" and self.T(o[0].d["val"], o[0].fr)[0] == "int": odd = "it passes over elements"
                    else: continue
                it = self.T(ds[0][2], ds[0][3])
                rt = self.deepval(r, lp.fr, self.T(r, lp.fr))
                it, rt = self.strip_star(it), self.strip_star(rt)
                if it[0] == "cond" and all(x[0] == "int" for x in expand_conds(it)):
                    it = max(expand_conds(it), key=lambda x: int(x[1]))
                if it[0] == "int":
                    lp.index = v
                    lp.bound = rt
                    if rt[0] == "size": lp.range = rt[1]
                    elif rt[0] == "-" and rt[1][0] == "size" and rt[2] not in (("int", "0"),):
                        lp.range = rt[1][1]; lp.partial = "it ends before the last element"
                    else: lp.range = ("count", rt)
                    if it != ("int", "0"): lp.partial = "it starts at index %s" % it[1]
                    elif odd:
                        if rt[0] != "size": lp.index = lp.bound = lp.range = None; continue
                        lp.partial = odd
                elif odd and not (it[0] == "begin" and rt[0] == "end"): continue
                elif it[0] == "begin" and rt[0] == "end" and it[1] == rt[1]:
                    lp.index = v
                    if odd: lp.partial = odd
                    lp.range = it[1]
                elif rt[0] == "end" and mentions(it, lambda x: x == ("begin", rt[1])):
                    lp.index = v; lp.range = rt[1]; lp.partial = "it does not start at the first element"
                elif it[0] == "begin" and mentions(rt, lambda x: x == ("end", it[1])):
                    lp.index = v; lp.range = it[1]; lp.partial = "it does not end after the last element"
                else: continue
                if len(conj) > 1: lp.extra = True
                self.idx = getattr(self, "idx", {})
                self.idx[(v.fr.id, v.d)] = lp
                return
        for cc in conj:
            while cc["k"] == "icast": cc = cc["e"]
            if cc["k"] == "bin" and cc["op"] in ("<", "<=", ">", ">=") and self.classify_linear(lp, cc):
                if len(conj) > 1: lp.extra = True
                return
    def classify_linear(self, lp, cc):
        """Loops `i + a < size + b`: everything is visited iff i starts at 0 and a - b <= 0."""
        l, r = self.T(cc["a"], lp.fr), self.T(cc["b"], lp.fr)
        l, r = self.deepval(cc["a"], lp.fr, l), self.deepval(cc["b"], lp.fr, r)
        if cc["op"] in (">", ">="): l, r = r, l
        for combo in expand_conds(("-", r, l)):
            d = linear(combo)
            if d is None: return False
            if cc["op"] in ("<=", ">="): d[None] = d.get(None, 0) + 1
            vs = [t for t in d if t is not None and t[0] == "v" and d[t] == -1]
            sz = [t for t in d if t is not None and t[0] == "size" and d[t] == 1]
            if len(vs) != 1 or len(sz) != 1: return False
            if any(d[t] for t in d if t is not None and t not in (vs[0], sz[0])): return False
            v = self.var_of(vs[0])
            if v is None: return False
            ds = [x for x in v.defs if x[1] == "init"]
            others = [x for x in v.defs if x[1] != "init"]
            if len(ds) != 1 or len(others) != 1 or ds[0][2] is None: return False
            o = others[0]
            if not (o[0] is not None and o[0].k == "write" and (o[0].d["op"] == "++" or o[0].d["op"] == "+=" and self.T(o[0].d["val"], o[0].fr) == ("int", "1"))): return False
            starts = expand_conds(self.strip_star(self.T(ds[0][2], ds[0][3])))
            if any(x[0] != "int" for x in starts): return False
            lp.index = v; lp.range = sz[0][1]; lp.bound = sz[0]
            if any(x != ("int", "0") for x in starts): lp.partial = "it does not always start at index 0"
            if d.get(None, 0) < 0: lp.partial = "it can end before the last element"
            if d.get(None, 0) > 0 and starts == [("int", "0")]: lp.partial = "it goes beyond the last element"
        self.idx = getattr(self, "idx", {})
        self.idx[(v.fr.id, v.d)] = lp
        return True
    def deepval(self, e, fr, t):
        if t[0] == "v":
            v = self.var_of(t)
            if v is not None and len(v.defs) == 1 and v.defs[0][1] == "init" and v.defs[0][2] is not None:
                return self.T(v.defs[0][2], v.defs[0][3])
        return t

    checkstale = False
    def T0(self, e, fr):
        self.final = False
        try: return self.T(e, fr)
        finally: self.final = True
    def mut0(self, n):
        self.final = False
        try: return self.mut_places_raw(n)
        finally: self.final = True
    def note_written(self, p, n):
        if p[0] == "f": self.written.setdefault(p[2], []).append((p, n))
    def reach_from(self, n):
        r = self._reach.get(n.id)
        if r is None:
            r = set()
            st = [m for _, m in n.succ]
            while st:
                x = st.pop()
                if x.id in r: continue
                r.add(x.id)
                for _, m in x.succ: st.append(m)
            self._reach[n.id] = r
        return r
    def stale(self, t, node):
        """May a field that t reads be written after `node`?"""
        if not self.checkstale or node is None: return False
        if t[0] in ("elem",): return False
        r = None
        b = t
        while b[0] in ("f", "get") and len(b) > 2: b = b[1]
        if b[0] == "call": return False      # a result, computed once
        for p in self.places_in(t):
            if p[0] == "f" and p[2] in self.written:
                for q, n in self.written[p[2]]:
                    if n is node: continue
                    if r is None: r = self.reach_from(node)
                    if n.id in r: return True
        return False

    def fresh(self, t, n, depth=0):
        """t with locals replaced by the (still current) values they were
        initialised with, as seen at node n."""
        if not isinstance(t, tuple) or depth > 20: return t
        if t and t[0] == "v" and len(t) == 4:
            v = self.var_of(t)
            if v is None or v.ref or len(v.defs) != 1 or v.defs[0][1] not in ("init", "param") or v.defs[0][2] is None: return t
            d = v.defs[0]
            key = (t, n.id)
            c = self.__dict__.setdefault("_fresh", {})
            if key in c: return c[key]
            c[key] = t
            x = self.T(d[2], d[3])
            if x == t:
                return t
            ok = True
            if d[0] is not None:
                r = self.reach_from(d[0])
                for p in self.places_in(x):
                    if p[0] != "f": continue
                    for q, w in self.written.get(p[2], []):
                        if w is d[0] or w.id not in r: continue
                        if self.between(d[0], w, n): ok = False
            if ok: c[key] = self.fresh(x, n, depth + 1)
            return c[key]
        return tuple(self.fresh(x, n, depth + 1) if isinstance(x, tuple) else x for x in t)
    def between(self, d, w, n):
        """Is there a path d -> w -> n that does not pass d again?"""
        def reaches(a, b):
            seen, st = set(), [m for _, m in a.succ]
            while st:
                x = st.pop()
                if x is b: return True
                if x in seen or x is d: continue
                seen.add(x)
                st.extend(m for _, m in x.succ)
            return False
        return reaches(d, w) and reaches(w, n)

    # ------------------------------------------------------------ terms
    def T(self, e, fr, depth=0):
        key = (id(e), fr.id if fr else -1)
        c = self._tcache.get(key)
        if c is not None and c[0] is e:
            return c[1]
        if depth > 60: return ("unk", "deep")
        t = self.T1(e, fr, depth + 1)
        if self.final: self._tcache[key] = (e, t)
        return t
    def deref(self, t):
        return t if self.final else ("*", t)
    def this_of(self, fr):
        f = fr
        while f is not None and f.env is not None: f = f.env
        te = getattr(f, "this_e", "none")
        if te == "none": return f.this_t
        if te is None: return ("this",)
        if te[0] == "expr": 
            t = self.T(te[1], te[2])
            return self.deref(t) if not self.final else t
        if te[0] == "var": return te[1].term
        if te[0] == "ctor":
            w = self.ctorvar.get((id(te[1]), te[2].id))
            if isinstance(w, Var): return w.term
            if isinstance(w, Frame): return self.this_of(w)
            return ("obj", f.id, strip_type(te[1].get("t")))
        return ("this",)

    def var_term(self, v, depth):
        if v.busy: return v.term
        idx = getattr(self, "idx", {})
        if self.final and (v.fr.id, v.d) in idx:
            lp = idx[(v.fr.id, v.d)]
            if lp.range is not None and v.ptrlike(): return ("elem", self.norm(lp.range), lp.head.id)
            return ("idx", lp.head.id)
        v.busy = True
        try:
            defs = v.defs
            if v.ref or (self.final and len(defs) == 1):
                d = defs[0]
                kind = d[1]
                if v.ref and kind in ("init", "param", "elem", "bindelem", "bind", "term") or kind in ("init", "param", "elem", "bindelem", "bind", "term"):
                    if kind == "term":
                        return self.argterm(d[2], d[3], depth)
                    if kind in ("init", "param"):
                        if d[2] is None:
                            if kind == "init" and self.final and not v.ref: return v.term
                            return v.term
                        if kind == "init" and not v.ref and not self.final: return v.term
                        t = self.T(d[2], d[3], depth)
                        # keep identity of freshly built local objects
                        if not v.ref and t[0] in ("new",) and not t[2]: return v.term
                        if not v.ref and is_lock_type(v.rec or ""): return v.term
                        if not v.ref and self.final and t[0] == "new" and v.term in self.mutvars(): return v.term
                        if not v.ref and not v.ptrlike() and self.final and self.checkstale and self.scalar(v) and self.stale(t, d[0]): return v.term
                        return t
                    if kind == "elem":
                        return self.elem(d[2], depth)
                    if kind == "bindelem":
                        lp, field, i = d[2]
                        b = self.elem(lp, depth)
                        return self.field(b, field or ("first", "second")[i] if i < 2 or field else "b%d" % i)
                    if kind == "bind":
                        init, field, i = d[2]
                        t = self.T(init, d[3], depth)
                        return self.field(t, field or (("first", "second")[i] if i < 2 else "b%d" % i))
            if v.static:
                q = v.defs[0][2]
                return ("g", q)
            if defs and defs[0][1] == "entryparam" and (len(defs) == 1 or v.ref):
                return ("p", defs[0][2], v.n)
            return v.term
        finally:
            v.busy = False
    def mutvars(self):
        """Local objects with fields that are changed after construction."""
        c = self.__dict__.get("_mutvars")
        if c is None:
            c = self._mutvars = set(b for (b, n), ws in self.fieldw.items() if any(w.k != "write" or w.d["op"] != "init" for w in ws))
        return c
    def scalar(self, v):
        t = strip_type(v.t)
        return t in ("bool", "int", "unsigned int", "long", "unsigned long", "long long", "double", "float", "unsigned long long") or t in self.db.E or t.startswith("std::chrono::") or t.startswith("std::optional<std::chrono")
    def argterm(self, a, fr, depth):
        if a[0] == "elemof": return self.elem(a[1], depth)
        if a[0] == "acc": return ("acc", a[1].head.id)
        if a[0] == "altval":
            if a[1] is None: return ("unk", "alt")
            return ("alt", self.T(a[1], a[2], depth), a[3])
        return ("unk", "arg")
    def elem(self, lp, depth):
        ce, cf = lp.cont_expr
        c = self.T(ce, cf, depth)
        if lp.kind == "algo" and c[0] == "begin": c = c[1]
        return ("elem", c, lp.head.id)
    def norm(self, t): return t

    def field(self, b, n):
        if b[0] == "new":
            d = dict(b[2])
            if n in d: return d[n]
            if n in ("first", "second") and re.match(r"(const )?std::pair<", b[1] or ""):
                if len(b[2]) == 2: return b[2][0 if n == "first" else 1][1]
                if len(b[2]) == 1: return self.field(b[2][0][1], n)
        if b[0] in ("find",) and n == "second": return ("at", b[1], b[2])
        if b[0] in ("find",) and n == "first": return b[2]
        if self.final and b[0] == "v":
            ws = self.fieldw.get((b, n))
            if ws and len(ws) > 1: ws = [w for w in ws if not self.nullwrite(w)]
            if ws and len(ws) == 1 and ws[0].k == "write" and ws[0].d["op"] == "init" and ws[0] not in self._fbusy:
                w = ws[0]
                self._fbusy.add(w)
                try:
                    t = self.T(w.d["val"], w.fr)
                finally:
                    self._fbusy.discard(w)
                if t[0] not in ("new", "none", "unk") and (self.ptr_field(w) or not self.stale(t, w)): return t
        return ("f", b, n)
    def nullwrite(self, w):
        v = w.d.get("val") if w.k == "write" and w.d["op"] == "=" else None
        while v is not None and v["k"] in ("icast", "cast"): v = v["e"]
        return v is not None and v["k"] == "null"
    def ptr_field(self, w):
        """Does an initialised field hold a pointer or reference?"""
        r = self.db.R.get(w.fr.fn.get("cls") or "")
        for f in (r or {}).get("fields", []):
            if f["n"] == w.d["place"].get("n"): return bool(re.search(r"[*&]( const)?$", f["t"]) or PTRLIKE.search(f["t"]))
        return False

    STRCONV = ("std::basic_string", "std::__cxx11::basic_string", "std::basic_string_view", "std::optional", "std::function", "std::filesystem::path",
               "std::shared_ptr", "std::unique_ptr", "std::chrono::duration", "std::chrono::time_point", "gsl::span", "std::variant", "std::reference_wrapper", "std::atomic", "std::filesystem::__cxx11::path",
               "std::weak_ptr", "std::thread", "std::error_code", "gsl::not_null")

    def T1(self, e, fr, depth):
        if e is None: return ("none",)
        k = e["k"]
        if k == "ref":
            dk = e.get("dk")
            if dk in ("local", "param", "binding"):
                v = fr.lookup(e["d"])
                if v is None: return ("v?", e.get("n"))
                return self.var_term(v, depth)
            if dk == "global":
                gi = self.db.G.get(e["q"])
                if gi and gi.get("const") and gi.get("init") and gi["init"].get("k") in ("int", "bool", "str", "char"):
                    return self.T1(gi["init"], fr, depth)
                return ("g", e["q"])
            if dk == "enum": return ("enum", e["q"])
            if dk == "func": return ("fn", e.get("fn"))
            return ("g", e.get("q") or e.get("n"))
        if k == "mem":
            b = self.T(e["b"], fr, depth)
            if e.get("arrow") and e["b"]["k"] != "this" and not (e["b"]["k"] == "call" and e["b"].get("op") == "->"): b = self.deref(b)
            return self.field(b, e["n"])
        if k == "this":
            return self.this_of(fr)
        if k == "int": return ("int", e["v"])
        if k == "char": return ("int", str(e["v"]))
        if k == "bool": return ("bool", e["v"])
        if k == "float": return ("float", e["v"])
        if k == "str": return ("str", e["v"])
        if k == "null": return ("null",)
        if k == "zero": return ("int", "0") if e.get("t") in ("int", "unsigned int", "long", "unsigned long") else ("new", e.get("t"), ())
        if k in ("cast",):
            t = self.T(e["e"], fr, depth)
            if e.get("dyn"): return ("dyn", strip_type(e["t"].rstrip("* &")), t)
            return t
        if k == "icast":
            t = self.T(e["e"], fr, depth)
            if e.get("ck") in ("IntegralToBoolean", "FloatingToBoolean"):
                return ("!=", t, ("int", "0")) if t[0] not in ("count",) else t
            return t
        if k == "defarg": return self.T(e["e"], fr, depth)
        if k == "sizeof": return ("sizeof", e["t"])
        if k == "lambda": return ("lambda", tuple(e["ids"]), fr.id, id(e))
        if k == "un":
            op = e["op"]
            t = self.T(e["e"], fr, depth)
            if op == "*": return self.deref(t)
            if op == "&": return t
            if op in ("++", "--"): return t if e.get("post") else (op[0], t, ("int", "1"))
            if op == "-":
                if t[0] == "int": return ("int", t[1][1:] if t[1].startswith("-") else "-" + t[1])
                return ("neg", t)
            if op == "+": return t
            if op == "!": return ("!", t)
            return (op, t)
        if k == "bin":
            op = e["op"]
            if op == "=": return self.T(e["a"], fr, depth)
            if op == ",": return self.T(e["b"], fr, depth)
            return self.binop(op, self.T(e["a"], fr, depth), self.T(e["b"], fr, depth))
        if k == "cond":
            u = self.unwinding_test(e["c"], fr)
            if u is not None: return self.T(e["a"] if u else e["b"], fr, depth)
            return ("cond", self.T(e["c"], fr, depth), self.T(e["a"], fr, depth), self.T(e["b"], fr, depth))
        if k == "sub":
            return self.at(self.T(e["a"], fr, depth), self.T(e["b"], fr, depth))
        if k == "throw": return ("throw",)
        if k == "new":
            t = self.T(e["e"], fr, depth) if e.get("e") else ("none",)
            return t if t[0] == "new" else ("new", strip_type(e["t"].rstrip("* ")), (("0", t),) if t != ("none",) else ())
        if k == "init":
            a = [self.T(x, fr, depth) for x in e["a"]]
            fs = e.get("fields")
            if fs and len(fs) >= len(a):
                return ("new", strip_type(e["t"]), tuple(zip(fs, a)))
            if len(a) == 1 and not fs: return a[0] if "[" not in (e.get("t") or "") and "initializer_list" not in (e.get("t") or "") else ("list", tuple(a))
            if len(a) == 0: return ("new", strip_type(e["t"]), ())
            return ("list", tuple(a))
        if k == "memfn": return ("fn", e.get("q"))
        if k == "unk": return ("unk", e.get("c"))
        if k == "ctor": return self.ctor_term(e, fr, depth)
        if k == "call": return self.call_term(e, fr, depth)
        if k == "delete": return ("none",)
        return ("unk", k)

    def at(self, c, i):
        if i[0] == "idx":
            lp = self.nodes[i[1]].d["loop"]
            r = getattr(lp, "range", None)
            if r is not None and r[0] != "count" and (r == c or self.strip_star(r) == self.strip_star(c)):
                return ("elem", c, lp.head.id)
        if i == ("f", ("elem", c, i[1][2] if len(i) > 1 and isinstance(i[1], tuple) and len(i[1]) > 2 else None), "first"):
            return ("f", i[1], "second")
        return ("at", c, i)
    def strip_star(self, t):
        if not isinstance(t, tuple): return t
        if len(t) == 2 and t[0] == "*": return self.strip_star(t[1])
        return tuple(self.strip_star(x) for x in t)

    def binop(self, op, a, b):
        if op == ">": return ("<", b, a)
        if op == ">=": return ("!", ("<", a, b))
        if op == "<=": return ("!", ("<", b, a))
        if op == "!=": return ("!", self.binop("==", a, b))
        if op == "==":
            # x == end(c)
            for x, y in ((a, b), (b, a)):
                if y[0] == "end":
                    if x[0] == "find": return ("!", ("has", y[1], x[2]))
                    if x[0] in ("findif", "elemfind"): return ("!", ("has", y[1], ("pred", x[2])))
            if repr(b) < repr(a) : a, b = b, a
            return ("==", a, b)
        if op in ("+", "*", "&", "|", "^"):
            # string concatenation is not commutative but only compared for equality
            if op in ("*",) or self.numeric(a, b):
                if repr(b) < repr(a): a, b = b, a
            return (op, a, b)
        return (op, a, b)
    def numeric(self, a, b): return False

    ITER = re.compile(r"^(__gnu_cxx::__normal_iterator|std::(__detail::)?_[A-Za-z_]*iterator)$")
    def ctor_term(self, e, fr, depth):
        a = e["a"]
        cls = e.get("cls", "")
        if (e.get("copy") or e.get("move")) and len(a) >= 1: return self.T(a[0], fr, depth)
        real = [x for x in a if x["k"] != "defarg"]
        if len(real) == 1 and (cls.startswith(self.STRCONV) or self.ITER.search(cls)):
            return self.T(real[0], fr, depth)
        nf = fr.inl.get(id(e))
        if cls in ("std::pair", "std::tuple"):
            if len(a) == 2: return ("new", "std::pair", (("first", self.T(a[0], fr, depth)), ("second", self.T(a[1], fr, depth))))
        ts = tuple((str(i), self.T(x, fr, depth)) for i, x in enumerate(real))
        if nf is not None and nf.fn.get("ck") and self.db.R.get(nf.fn.get("cls", "")):
            # fields initialised by an in-repo constructor
            flds = []
            for i in nf.fn.get("inits") or []:
                if i.get("field") and i.get("e") is not None:
                    flds.append((i["field"], self.T(i["e"], nf, depth)))
            if flds and not nf.fn["body"].get("s"): return ("new", strip_type(e["t"]), tuple(flds))
        return ("new", strip_type(e["t"]), ts)

    IDENT = {"std::move", "std::forward", "std::as_const", "std::ref", "std::cref", "gsl::make_span", "std::addressof", "std::launder",
             "std::make_optional", "std::move_if_noexcept", "std::to_address", "std::static_pointer_cast", "std::const_pointer_cast", "gsl::finally"}
    CONTAINER = re.compile(r"std::(vector|map|unordered_map|set|unordered_set|deque|list|queue|basic_string|__cxx11::basic_string|basic_string_view|multimap|array|stack|priority_queue|initializer_list)|boost::container|gsl::span|cosim::")
    def call_term(self, e, fr, depth):
        fn = e.get("fn", "?")
        nf = fr.inl.get(id(e))
        if nf is not None and nf.site is e and getattr(nf, "fn", None) is not None and fn not in self.ALGO and fn != "std::visit":
            return self.ret_term(nf, depth)
        op = e.get("op")
        A = e.get("a") or []
        o = self.T(e["obj"], fr, depth) if e.get("obj") is not None else None
        nm = fn.split("::")[-1]
        if op == "->": return self.deref(o)
        if op == "*" and o is not None and not A: return self.deref(o)
        if op == "*" and o is None and len(A) == 1: return self.deref(self.T(A[0], fr, depth))
        if op == "[]" and o is not None and A: return self.at(o, self.T(A[0], fr, depth))
        if op == "()" :
            return ("call", "()", o) + tuple(self.T(x, fr, depth) for x in A)
        if op in ("==", "!=", "<", ">", "<=", ">=", "+", "-", "*", "/", "%", "&", "|"):
            ops = ([o] if o is not None else []) + [self.T(x, fr, depth) for x in A]
            if len(ops) == 2: return self.binop(op, ops[0], ops[1])
            if len(ops) == 1 and op == "-": return ("neg", ops[0])
        if op in ("=", "+=", "-="): return o
        if op in ("<<", ">>") and A:
            return o if o is not None else self.T(A[0], fr, depth)
        if op == "!": return ("!", ("truthy", o if o is not None else self.T(A[0], fr, depth)))
        if op in ("++", "--") and o is not None: return o
        if fn in self.IDENT and A: return self.T(A[0], fr, depth)
        if o is not None:
            cont = e.get("cls", "")
            if e.get("conv"):
                if e.get("t") == "bool" or fn.endswith("operator bool"): return ("truthy", o)
                return o
            if nm in ("get",) and re.search(r"shared_ptr|unique_ptr|reference_wrapper|__shared_ptr|not_null", cont): return self.deref(o) if False else o
            if nm in ("value",) and "optional" in cont: return self.deref(o)
            if nm == "has_value": return ("truthy", o)
            if nm in ("load",) and "atomic" in cont: return o
            if nm in ("count", "contains") and len(A) == 1 and not cont.startswith("std::chrono"): return ("count", o, self.T(A[0], fr, depth))
            if nm == "find" and len(A) == 1 and "string" not in cont: return ("find", o, self.T(A[0], fr, depth))
            if nm == "at" and len(A) == 1: return self.at(o, self.T(A[0], fr, depth))
            if nm in ("begin", "cbegin"): return ("begin", o)
            if nm in ("end", "cend"): return ("end", o)
            if nm in ("size", "length") and not A: return ("size", o)
            if nm == "empty" and not A: return ("empty", o)
            if nm == "front" and not A: return ("at", o, ("int", "0"))
            if nm in ("back", "top") and not A: return ("back", o)
            if nm in ("c_str", "data", "str", "string", "native", "generic_string", "u8string") and not A: return o
            if nm == "lock" and "weak_ptr" in cont: return o
            if nm == "time_since_epoch" or nm == "count" and not A: return (nm, o)
        if fn in ("std::begin", "std::cbegin"): return ("begin", self.T(A[0], fr, depth))
        if fn in ("std::end", "std::cend"): return ("end", self.T(A[0], fr, depth))
        if fn in ("std::size",): return ("size", self.T(A[0], fr, depth))
        if fn in ("std::find",) and len(A) == 3:
            b = self.T(A[0], fr, depth)
            return ("find", b[1] if b[0] == "begin" else b, self.T(A[2], fr, depth))
        if fn in ("std::find_if",) and len(A) == 3:
            b = self.T(A[0], fr, depth)
            lp = self.algo_loop(e, fr)
            return ("findif", b[1] if b[0] == "begin" else b, lp.head.id if lp else 0)
        if fn in ("std::any_of", "std::none_of", "std::all_of", "std::find_if_not") and len(A) == 3:
            lp = self.algo_loop(e, fr)
            if lp:
                b = self.T(A[0], fr, depth)
                b = b[1] if b[0] == "begin" else b
                if fn == "std::find_if_not": return ("findif", b, lp.head.id)
                h = ("has", b, ("pred", lp.head.id))
                return h if fn == "std::any_of" else ("!", h)
        if fn in ("std::make_unique", "std::make_shared"):
            t = e.get("t") or ""
            m = re.match(r"std::(?:unique|shared)_ptr<(.*)>$", t)
            ct = m.group(1) if m else t
            ct = re.sub(r", std::default_delete<.*$", "", ct)
            return ("new", strip_type(ct), tuple((str(i), self.T(x, fr, depth)) for i, x in enumerate(A)))
        if fn in ("std::make_pair",) and len(A) == 2:
            return ("new", "std::pair", (("first", self.T(A[0], fr, depth)), ("second", self.T(A[1], fr, depth))))
        if fn == "std::get" and len(A) == 1:
            m = re.search(r"get", fn)
            return ("get", self.T(A[0], fr, depth), strip_type(e.get("t")))
        if fn in ("std::min", "std::max", "std::lcm", "std::gcd") and len(A) == 2:
            x, y = self.T(A[0], fr, depth), self.T(A[1], fr, depth)
            if repr(y) < repr(x): x, y = y, x
            return (nm, x, y)
        args = tuple(self.T(x, fr, depth) for x in A if x["k"] != "defarg")
        return ("call", self.db.rootname(e), o) + args if True else None
    def algo_loop(self, e, fr):
        for lp in self.loops:
            if lp.kind == "algo" and lp.stmt is e and lp.head.fr is fr: return lp
        return None

    def ret_term(self, nf, depth):
        rs = [(n, x, f) for n, x, f in nf.rets if x is not None]
        if not rs: return ("void",)
        if len(rs) == 1 and depth < 50:
            n, x, f = rs[0]
            return self.T(x, f, depth)
        ts = []
        for n, x, f in rs:
            if depth >= 50: break
            ts.append(self.T(x, f, depth))
        if ts and all(t == ts[0] for t in ts) and len(ts) == len(rs): return ts[0]
        return ("ret", nf.id)

    def alts(self, t, depth=0):
        """All values a term may stand for (multi-def locals and returns expanded)."""
        if depth > 6: return [t]
        if t[0] == "ret":
            nf = self.frames[t[1]]
            out = []
            for n, x, f in nf.rets:
                if x is None: continue
                out += self.alts(self.T(x, f), depth + 1)
            return out or [t]
        if t[0] == "cond":
            return self.alts(t[2], depth + 1) + self.alts(t[3], depth + 1)
        if t[0] == "v":
            v = self.var_of(t)
            if v is None: return [t]
            out = []
            for d in v.defs:
                if d[1] in ("init", "param") and d[2] is not None:
                    x = self.T(d[2], d[3])
                    if x != t: out += self.alts(x, depth + 1)
                elif d[1] == "assign" and d[0] is not None and d[0].d.get("op") == "=" and d[0].d.get("val") is not None:
                    pl = self.T(d[0].d["place"], d[0].fr)
                    if pl == t:
                        x = self.T(d[0].d["val"], d[0].fr)
                        if x != t: out += self.alts(x, depth + 1)
            return out or [t]
        if t[0] == "f" and (t[1], t[2]) in self.fieldw:
            out = []
            for w in self.fieldw[(t[1], t[2])]:
                if w.k == "write" and w.d.get("val") is not None and w.d["op"] in ("=", "init"):
                    x = self.T(w.d["val"], w.fr)
                    if x != t: out += self.alts(x, depth + 1)
            return out or [t]
        if t[0] == "f" and t[1][0] in ("ret", "cond", "v"):
            out = []
            for b in self.alts(t[1], depth + 1):
                out.append(self.field(b, t[2]))
            return out
        return [t]

    # ------------------------------------------------------------ conditions
    def canon(self, t):
        """(atom, polarity) of a boolean term."""
        pol = True
        while True:
            if t[0] == "!":
                t = t[1]
                pol = not pol
                continue
            if t[0] == "==":
                a, b = t[1], t[2]
                sw = False
                for x, y in ((a, b), (b, a)):
                    if y == ("bool", True): t = x; sw = True; break
                    if y == ("bool", False): t = x; pol = not pol; sw = True; break
                    if y in (("null",), ("g", "std::nullopt")): t = ("truthy", x); pol = not pol; sw = True; break
                    if y == ("int", "0") and x[0] == "size": t = ("empty", x[1]); sw = True; break
                    if y == ("int", "0") and x[0] == "count" and len(x) == 3: t = ("has", x[1], x[2]); pol = not pol; sw = True; break
                    if y[0] == "begin" and x == ("end", y[1]): t = ("empty", y[1]); sw = True; break
                    if y == ("str", ""): t = ("empty", x); sw = True; break
                    if y == ("int", "1") and x[0] == "count" and len(x) == 3: t = ("has", x[1], x[2]); sw = True; break
                if sw: continue
                if self.final:
                    for x, y in ((a, b), (b, a)):
                        if y[0] == "end" and x[0] in ("find",):
                            t = ("has", y[1], x[2]); pol = not pol; sw = True; break
                        if y[0] == "end" and x[0] == "findif":
                            t = ("has", y[1], ("pred", x[2])); pol = not pol; sw = True; break
                if sw: continue
            if t[0] == "<":
                if t[1] == ("int", "0") and t[2][0] == "size": t = ("empty", t[2][1]); pol = not pol; continue
                if t[2] == ("int", "1") and t[1][0] == "size": t = ("empty", t[1][1]); continue
                if t[1] == ("int", "0") and t[2][0] == "count" and len(t[2]) == 3: t = ("has", t[2][1], t[2][2]); continue
                if t[1] == ("int", "0") and t[2][0] in ("v", "f", "p"):
                    # counter used as a flag
                    return (("pos", t[2]), pol)
            if t[0] == "count" and len(t) == 3: t = ("has", t[1], t[2]); continue
            if t[0] == "!=":
                t = ("!", ("==", t[1], t[2])); continue
            if t[0] == "truthy":
                x = t[1]
                if x[0] == "size": t = ("empty", x[1]); pol = not pol; continue
            if t[0] in ("v", "f", "p", "call", "ret", "at", "elem", "g", "acc", "back", "find", "dyn", "get"):
                return (("truthy", t), pol)
            if t[0] == "size": t = ("empty", t[1]); pol = not pol; continue
            return (t, pol)

    def atom(self, n):
        """(atom, polarity) tested by branch node n."""
        c = n._c.get("atom")
        if c is None:
            c = self.canon(self.T(n.e, n.fr))
            if self.final and c[0][0] == "truthy" and n.k == "branch" and self.null_test_of_address(n.e, n.fr): c = (("bool", True), c[1])
            elif self.final and c[0][0] == "truthy" and n.k == "branch":
                p = self.tested_pointer(n.e)
                p = p and self.ptr_id(p, n.fr)
                if p: c = (("truthy", p), c[1])
            n._c["atom"] = c
        return c
    def null_test_of_address(self, e, fr):
        """Does the condition test a pointer that is known to hold the address
        of an object?"""
        return self.is_address(self.tested_pointer(e), fr)
    def tested_pointer(self, e):
        while e["k"] in ("icast", "cast") or e["k"] == "un" and e["op"] == "!": e = e["e"]
        if e["k"] == "bin" and e["op"] in ("==", "!="):
            a, b = e["a"], e["b"]
            while a["k"] in ("icast", "cast"): a = a["e"]
            while b["k"] in ("icast", "cast"): b = b["e"]
            e = a if b["k"] == "null" else b if a["k"] == "null" else None
        return e
    def is_address(self, e, fr, depth=0):
        while e is not None and e["k"] in ("icast", "cast"): e = e["e"]
        if e is None or depth > 12: return False
        if e["k"] == "un" and e["op"] == "&" or e["k"] == "this": return True
        if not (e.get("t") or "").rstrip().rstrip("const ").endswith("*"): return False
        if e["k"] == "ref" and e.get("dk") in ("local", "param"):
            v = fr.lookup(e["d"])
            if v is None or not v.defs: return False
            return all(d[1] in ("init", "param", "write") and d[2] is not None and self.is_address(d[2], d[3], depth + 1) for d in v.defs)
        if e["k"] == "mem":
            b = self.T(e["b"], fr)
            ws = self.fieldw.get((b, e["n"])) or []
            return bool(ws) and all(w.k == "write" and w.d.get("val") is not None and self.is_address(w.d["val"], w.fr, depth + 1) for w in ws)
        return False

    # ------------------------------------------------------------ effects
    def place(self, n):
        c = n._c.get("place")
        if c is None:
            e = n.d["place"]
            c = n._c["place"] = self.ptr_id(e, n.fr) or self.T(e, n.fr)
        return c
    def ptr_id(self, e, fr):
        """A pointer member of a local object, as itself (not what it points to)."""
        while e["k"] in ("icast", "cast"): e = e["e"]
        if not self.final or e["k"] != "mem" or not re.search(r"\*( const)?$", e.get("t") or ""): return None
        b = self.T(e["b"], fr)
        if e.get("arrow") and e["b"]["k"] != "this": b = self.deref(b)
        return ("f", b, e["n"]) if b[0] == "v" and (b, e["n"]) in self.fieldw else None
    def value(self, n):
        v = n.d.get("val")
        return self.T(v, n.fr) if v is not None else None
    def obj(self, n):
        c = n._c.get("obj")
        if c is None:
            e = n.e
            c = n._c["obj"] = self.T(e["obj"], n.fr) if e.get("obj") is not None else ("none",)
        return c
    def args(self, n):
        c = n._c.get("args")
        if c is None:
            c = n._c["args"] = [self.T(a, n.fr) for a in (n.e.get("a") or [])]
        return c
    def muts(self, n):
        c = n._c.get("muts")
        if c is None:
            c = n._c["muts"] = self.mut_places_raw(n) if n.k == "call" else []
        return c
    def name(self, n):
        return n.e.get("fn", "?") if n.e is not None and n.k in ("call", "spawn") else None
    def root(self, n):
        return self.db.rootname(n.e) if n.e is not None and n.k in ("call", "spawn") else None

    def writes(self):
        return [n for n in self.nodes if n.k == "write"]
    def calls(self, pred=None, root=None, live=True):
        out = []
        for n in self.nodes:
            if n.k not in ("call",) : continue
            if root is not None:
                r = self.db.rootname(n.e)
                if r != root and n.e.get("fn") != root: continue
            if pred is not None and not pred(n): continue
            if live and n not in self.live(): continue
            out.append(n)
        return out
    def live(self):
        if not hasattr(self, "_live"):
            seen = set([self.entry])
            st = [self.entry]
            while st:
                n = st.pop()
                for _, s in n.succ:
                    if s not in seen:
                        seen.add(s); st.append(s)
            self._live = seen
        return self._live

    # facts established / destroyed by a node
    def effects(self, n):
        c = n._c.get("eff")
        if c is not None: return c
        kills, sets = [], []
        if n.k == "write":
            p = self.place(n)
            op = n.d["op"]
            kills.append(p)
            v = self.value(n)
            if op in ("=", "init") and v is not None:
                if n.d.get("val") is not None and p[0] == "f" and p[1][0] == "v" and self.ptr_id(n.d["place"], n.fr) == p:
                    if self.is_address(n.d["val"], n.fr): sets.append((("truthy", p), True))
                    elif self.nullwrite(n): sets.append((("truthy", p), False))
                else: self.const_facts(p, v, sets)
            elif op in ("++", "+=", "|="):
                sets.append((("pos", p), True)); sets.append((("truthy", p), True)); sets.append((("==", *sorted((p, ("int", "0")), key=repr)), False))
                if op == "+=": sets.append((("empty", p), False))
        elif n.k == "decl":
            var = n.d["var"]
            if not var.ref:
                p = var.term
                init = n.d.get("init")
                if init is None or init["k"] != "ctor" or self.ctorvar.get((id(init), n.fr.id)) is not var: kills.append(p)
                if init is None or (init["k"] == "ctor" and init.get("def")) or (init["k"] == "init" and not init["a"]):
                    sets.append((("empty", p), True))
                    if re.search(r"exception_ptr|optional|shared_ptr|unique_ptr|function", var.t): sets.append((("truthy", p), False))
                    if "atomic" in var.t:
                        sets.append((("truthy", p), False)); sets.append((("pos", p), False))
                elif init is not None:
                    v = self.T(init, n.fr)
                    self.const_facts(p, v, sets)
        elif n.k == "ret":
            rf = n.d["of"]
            if rf.parent is not None and n.e is not None:
                p = ("ret", rf.id)
                kills.append(p)
                v = self.T(n.e, n.fr)
                self.const_facts(p, v, sets)
        elif n.k == "call":
            nm = (n.e.get("fn") or "").split("::")[-1]
            for p in self.muts(n):
                kills.append(p)
                if nm in ("push_back", "emplace_back", "insert", "emplace", "push", "append", "emplace_front", "push_front", "operator<<"):
                    sets.append((("empty", p), False))
                elif nm == "clear":
                    sets.append((("empty", p), True))
                elif nm == "reset" and not n.e.get("a"):
                    sets.append((("truthy", p), False))
                elif nm in ("fetch_add",):
                    sets.append((("truthy", p), True)); sets.append((("pos", p), True))
        elif n.k == "enter":
            for v in n.d["frame"].vars.values():
                if v.ref or v.node is not n or len(v.defs) != 1 or v.defs[0][1] != "param" or v.defs[0][2] is None: continue
                self.const_facts(v.term, self.T(v.defs[0][2], v.defs[0][3]), sets)
        c = n._c["eff"] = (kills, sets)
        return c
    def const_facts(self, p, v, sets):
        if v == ("bool", True): sets.append((("truthy", p), True))
        elif v == ("bool", False): sets.append((("truthy", p), False))
        elif v[0] == "int":
            sets.append((("truthy", p), v[1] != "0"))
            sets.append((("pos", p), v[1] != "0" and not v[1].startswith("-")))
            sets.append((self.eqatom(p, v), True))
            if v[1] != "0": sets.append((self.eqatom(p, ("int", "0")), False))
        elif v[0] == "enum":
            sets.append((self.eqatom(p, v), True))
        elif v == ("null",) or v == ("g", "std::nullopt"):
            sets.append((("truthy", p), False))
        elif v[0] == "call" and v[1] in ("std::current_exception", "std::make_exception_ptr"):
            sets.append((("truthy", p), True))
        elif v[0] == "str": sets.append((("empty", p), v[1] == ""))
        elif v[0] == "new" and re.search(r"exception_ptr", v[1]): sets.append((("truthy", p), bool(v[2])))
        elif v[0] in ("==", "<", "!", "has", "empty", "truthy", "pos", "!=", "count"):
            sets.append((("truthy", p), ("copy", v)))
        if v[0] == "cond":
            sa, sb = [], []
            self.const_facts(p, v[2], sa); self.const_facts(p, v[3], sb)
            if sa or sb: sets.append((("?",), (self.canon(v[1]), sa, sb)))
        if v[0] in ("v", "ret", "f", "p", "at", "elem"):
            sets.append((("truthy", p), ("copy", v)))
            sets.append((None, ("copyall", v, p)))
    def flat(self, sets):
        for a, v in sets:
            if a == ("?",):
                yield from self.flat(v[1])
                yield from self.flat(v[2])
            else: yield a, v
    def renorm(self, a):
        return self.eqatom(a[1], a[2]) if a[0] == "==" else a
    def eqatom(self, a, b):
        if repr(b) < repr(a): a, b = b, a
        return ("==", a, b)

    def relevant(self):
        """Atoms worth tracking path-sensitively."""
        if hasattr(self, "_rel"): return self._rel
        cnt = {}
        for n in self.nodes:
            if n.k == "branch":
                a, _ = self.atom(n)
                cnt[a] = cnt.get(a, 0) + 1
        rel = set(a for a, c in cnt.items() if c >= 2 or self.track_all)
        settable = set()
        condatoms = set()
        for n in self.nodes:
            _, sets = self.effects(n)
            for a, v in sets:
                if a == ("?",):
                    condatoms.add(v[0][0])
                    for b, _ in v[1] + v[2]:
                        if b is not None: settable.add(b)
                elif a is not None: settable.add(a)
        rel |= set(a for a in cnt if a in settable)
        rel |= set(a for a in condatoms if a in cnt)
        if self.extra: rel |= set(a for a in settable if self.extra(a))
        # copies: the source atoms of tracked flags
        ch = True
        while ch:
            ch = False
            for n in self.nodes:
                _, sets = self.effects(n)
                for a, v in self.flat(sets):
                    if a is None:
                        _, v, p = v
                        for b in list(rel):
                            if b[0] in ("==", "truthy", "empty", "pos") and p in b[1:]:
                                c = self.renorm(subst(b, p, v))
                                if c not in rel: rel.add(c); ch = True
                        continue
                    if a in rel and isinstance(v, tuple):
                        src = self.canon(v[1])[0] if v[0] == "copy" else v[1]
                        if src not in rel and (src in cnt or src in settable):
                            rel.add(src); ch = True
        # switches
        self._sw = {}
        for n in self.nodes:
            if n.k == "switch":
                t = self.T(n.e, n.fr)
                for lab, s in n.succ:
                    if lab and lab[0] == "case": rel.add(self.eqatom(t, lab[1]))
        # other-thread-writable state is never remembered
        rel = set(a for a in rel if not self.volatile(a))
        self._rel = rel
        self._mention = {}
        for a in rel:
            for s in self.places_in(a):
                self._mention.setdefault(s, set()).add(a)
        return rel
    def places_in(self, t, out=None):
        if out is None: out = set()
        if isinstance(t, tuple) and t:
            if t[0] in ("v", "f", "ret", "p", "elem", "at", "back", "acc", "g", "alt"):
                out.add(t)
            for x in t[1:]:
                if isinstance(x, tuple): self.places_in(x, out)
        return out
    def volatile(self, a):
        for p in self.places_in(a):
            if p[0] == "f" and p[2] in self.db.atomic_fields(): 
                return True
        return False

    def step_facts(self, n, lab, facts):
        """Facts after leaving n along label lab; None when infeasible."""
        rel = self.relevant()
        f = facts
        if self.sync and self.releases(n):
            f = facts = {a: v for a, v in facts.items() if not self.shared_atom(a)}
        if lab == "F" and n.k == "loop" and n.d.get("algo") in self.PREDS: f = self.pred_fact(n, False, f)
        if n.k == "branch":
            ph = n.d.get("predof")
            if ph is not None and lab == self.PREDS[ph.d["algo"]]: f = facts = self.pred_fact(ph, True, f)
            a, pol = self.atom(n)
            if a in (("bool", True), ("bool", False)):
                val = (a[1] == pol)
                if (lab == "T") != val: return None
                return f
            val = (lab == "T") == pol
            known = self.known(a, f)
            if known is not None and known != val: return None
            if a in rel and a not in f:
                f = dict(f); f[a] = val
            return f
        if n.k == "switch" and lab:
            t = self.T(n.e, n.fr)
            if lab[0] == "case":
                a = self.eqatom(t, lab[1])
                known = self.known(a, f)
                if known is False: return None
                if a in rel:
                    f = dict(f); f[a] = True
                return f
            if lab[0] == "default":
                for v in n.d.get("vals", []):
                    a = self.eqatom(t, v)
                    if self.known(a, f) is True: return None
                    if a in rel:
                        f = dict(f); f[a] = False
                if n.d.get("nodefault") and self.covers_enum(n): return None
                return f
        if n.k == "enter":
            # a fresh activation: forget what an earlier one established
            fid = n.d["frame"].id
            dead = set()
            for q, atoms in self._mention.items():
                if q[0] == "v" and q[1] == fid or q[0] == "ret" and q[1] == fid: dead |= atoms
            if dead: f = {a: v for a, v in f.items() if a not in dead}
        kills, sets = self.effects(n)
        if lab == "exc" and n.k in ("call",): sets = []
        if kills or sets:
            newvals = []
            if any(a == ("?",) for a, _ in sets):
                s2 = []
                for a, v in sets:
                    if a != ("?",): s2.append((a, v)); continue
                    (at, pol), sa, sb = v
                    kv = self.known(at, f)
                    if kv is not None: s2 += sa if kv == pol else sb
                sets = s2
            for a, v in sets:
                if a is None:
                    _, src, p = v
                    for b, bv in f.items():
                        if b[0] in ("==", "truthy", "empty", "pos") and src in b[1:]:
                            c = self.renorm(subst(b, src, p))
                            if c in rel: newvals.append((c, bv))
                    continue
                if a not in rel: continue
                if isinstance(v, tuple):
                    if v[0] == "copy":
                        ca, cp = self.canon(v[1])
                        kv = self.known(ca, f)
                        if kv is None: continue
                        newvals.append((a, kv == cp))
                    else:
                        kv = self.known(v[1], f)
                        if kv is None: continue
                        newvals.append((a, kv))
                else: newvals.append((a, v))
            dead = set()
            for p in kills:
                for q, atoms in self._mention.items():
                    if q == p or (self.fieldwrite(p) and self.samefield(p, q)): dead |= atoms
            if dead or newvals:
                f = {a: v for a, v in f.items() if a not in dead}
                for a, v in newvals: f[a] = v
        if n.k == "loop" and lab == "T":
            dead = set()
            for q, atoms in self._mention.items():
                if q[0] == "elem" and q[2] == n.id: dead |= atoms
            if dead: f = {a: v for a, v in f.items() if a not in dead}
        return f
    def pred_fact(self, head, v, f):
        for a in self.relevant():
            if a[0] == "has" and a[2] == ("pred", head.id):
                f = dict(f); f[a] = v
        return f
    def releases(self, n):
        """Does other threads' work become visible at n?"""
        if n.k == "dtor": return is_lock_type(n.d["var"].rec or "")
        if n.k == "call":
            fn = n.e.get("fn") or ""
            return bool(self.CVWAIT.search(fn) or re.search(r"::(unlock|unlock_shared|lock|lock_shared)$", fn) and n.e.get("obj") is not None)
        return n.k == "decl" and is_lock_type(n.d["var"].rec or "")
    def shared_atom(self, a):
        return any(p[0] == "f" and (self.sync is True or self.sync(p)) for p in self.places_in(a))
    def fieldwrite(self, p): return p[0] == "f"
    def samefield(self, p, q):
        # fields of possibly aliased objects (never of distinct locals)
        return q[0] == "f" and p[2] == q[2] and (p[1] == q[1])
    def covers_enum(self, n):
        en = self.db.E.get(strip_type(n.d.get("ct") or ""))
        if not en: return False
        names = self.db.enumerators(strip_type(n.d.get("ct") or ""))
        have = set(v[1] for v in n.d.get("vals", []) if v[0] == "enum")
        return bool(names) and names <= have
    def known(self, a, f):
        if a in f: return f[a]
        if a[0] == "==":
            # distinct constants
            for x, y in ((a[1], a[2]), (a[2], a[1])):
                if y[0] in ("enum", "int"):
                    for b, v in f.items():
                        if b[0] == "==" and v is True:
                            for s, t in ((b[1], b[2]), (b[2], b[1])):
                                if s == x and t[0] == y[0] and t != y: return False
                if x[0] in ("enum", "int") and y[0] == x[0]: return x == y
        return None

    # ------------------------------------------------------------ queries
    def explore(self, starts, goal, avoid=None, edge=None, facts=None, track=True, limit=400000, collect=False, keep=None):
        """A feasible path from one of `starts` (nodes, or (node,label) edges)
        to a node satisfying goal without passing avoid; None if there is none."""
        if track: self.relevant()
        from collections import deque
        if track and keep is not None:
            kept = self.__dict__.setdefault("_kept", {}).setdefault(id(keep), (keep, {}))[1]
            def step(n, lab, f):
                f2 = self.step_facts(n, lab, f)
                if f2 is None or f2 is f: return f2
                for a in f2:
                    if a not in kept: kept[a] = bool(keep(a))
                    if not kept[a]: return {b: v for b, v in f2.items() if kept.setdefault(b, bool(keep(b)))}
                return f2
        else: step = self.step_facts
        q = deque()
        seen = {}
        found = {}
        for s in starts:
            f = dict(facts or {})
            if isinstance(s, tuple) and isinstance(s[1], dict):
                f.update(s[1])
                s = s[0]
            if isinstance(s, tuple):
                n, lab = s
                for l2, m in n.succ:
                    if l2 == lab:
                        f2 = step(n, lab, f) if track else f
                        if f2 is None: continue
                        st = (m.id, frozenset(f2.items()))
                        if st not in seen:
                            seen[st] = (None, n)
                            q.append((m, f2, st))
            else:
                st = (s.id, frozenset(f.items()))
                if st not in seen:
                    seen[st] = (None, None)
                    q.append((s, f, st))
        cnt = 0
        while q:
            n, f, st = q.popleft()
            cnt += 1
            if cnt > limit:
                raise AnalysisError("state budget exceeded in %s" % self.entry_fn["q"])
            if goal(n):
                path = []
                s = st
                while s is not None:
                    path.append(self.nodes[s[0]])
                    prev, pn = seen[s]
                    if prev is None and pn is not None: path.append(pn)
                    s = prev
                path.reverse()
                if not collect: return path
                found[(n.id, frozenset(f.items()))] = (n, f, path)
                continue
            if avoid is not None and avoid(n): continue
            for lab, m in n.succ:
                if edge is not None and not edge(n, lab, m): continue
                f2 = step(n, lab, f) if track else f
                if f2 is None: continue
                st2 = (m.id, frozenset(f2.items()))
                if st2 in seen: continue
                seen[st2] = (st, None)
                q.append((m, f2, st2))
        return list(found.values()) if collect else None

    def succ_starts(self, n, labels=None):
        """Edges leaving n (as start points), optionally filtered."""
        out = []
        for lab, m in n.succ:
            if labels is None or labels(lab): out.append((n, lab))
        return out
    def normal(self, n): return [(n, l) for l in set(l for l, _ in n.succ) if l not in ("exc", "term")]
    def excs(self, n): return [(n, "exc")] if any(l == "exc" for l, _ in n.succ) else []

    def show(self, path, maxn=40):
        out = []
        last = None
        for n in path:
            if n.k in ("join", "unw", "leave", "loophead"): continue
            f = n.fr.fn["f"] if n.fr else ""
            import os
            d = "%s:%s" % (os.path.relpath(f, self.db.repo), n.l)
            desc = n.k
            if n.k in ("call", "spawn") and n.e is not None: desc = "call " + str(n.e.get("fn"))
            elif n.k == "write": desc = "write " + show_term(self.place(n))
            elif n.k == "branch": desc = "branch " + show_term(self.atom(n)[0])
            elif n.k == "enter": desc = "enter " + n.d["frame"].fn["q"]
            elif n.k == "throw": desc = "throw " + str(n.e.get("t"))
            elif n.k == "exit": desc = "normal return of " + self.entry_fn["q"]
            elif n.k == "xexit": desc = "exception leaves " + self.entry_fn["q"]
            s = "%s %s" % (d, desc)
            if s != last: out.append(s)
            last = s
        if len(out) > maxn: out = out[:maxn // 2] + ["..."] + out[-maxn // 2:]
        return out
    def at_line(self, n):
        import os
        return "%s:%s (%s)" % (os.path.relpath(n.fr.fn["f"], self.db.repo), n.l, n.fr.fn["q"])

    # nodes of a loop body: reachable from the body edge without the header
    def body(self, lp):
        if lp.nodes is None:
            seen = set()
            st = [m for l, m in lp.head.succ if l == "T"] if lp.head.k == "loop" else [m for l, m in lp.head.succ]
            # restrict to nodes that can come back to the header
            fwd = set()
            while st:
                n = st.pop()
                if n in fwd or n is lp.head or n is lp.exit: continue
                fwd.add(n)
                for _, m in n.succ: st.append(m)
            back = set()
            st = [p for _, p in lp.head.pred]
            while st:
                n = st.pop()
                if n in back or n is lp.head: continue
                back.add(n)
                for _, m in n.pred: st.append(m)
            lp.nodes = fwd & back if back else fwd
            # nodes before the loop are reachable backwards but not forwards without the header
        return lp.nodes
    def loops_over(self, pred):
        out = []
        for lp in self.loops:
            c = self.container(lp)
            if c is not None and pred(c): out.append(lp)
        return out
    def container(self, lp):
        if lp.kind in ("rfor",):
            return self.T(lp.cont_expr[0], lp.cont_expr[1])
        if lp.kind == "algo":
            c = self.T(lp.cont_expr[0], lp.cont_expr[1])
            return c[1] if c[0] == "begin" else c
        r = getattr(lp, "range", None)
        if r is not None and r[0] != "count":
            # recompute in final mode
            return self.strip_star(r)
        return None

def show_term(t, depth=0):
    if not isinstance(t, tuple): return str(t)
    k = t[0]
    if depth > 7: return "..."
    s = lambda x: show_term(x, depth + 1)
    if k == "v": return t[3] or "_"
    if k == "p": return t[2]
    if k == "f":
        return (s(t[1]) + "." if t[1] != ("this",) else "") + t[2]
    if k == "this": return "this"
    if k in ("int", "bool", "float", "g", "enum"): return str(t[1])
    if k == "str": return '"%s"' % t[1]
    if k == "at": return "%s[%s]" % (s(t[1]), s(t[2]))
    if k == "elem": return "each(%s)" % s(t[1])
    if k == "call":
        return "%s%s(%s)" % (s(t[2]) + "." if t[2] is not None and len(t) > 2 else "", str(t[1]).split("::")[-1], ", ".join(s(x) for x in t[3:]))
    if k == "new": return "%s{%s}" % (t[1].split("::")[-1], ", ".join(s(x) for _, x in t[2]))
    if k in ("==", "<", "+", "-", "*", "/", "%", "&&", "||") and len(t) == 3: return "(%s %s %s)" % (s(t[1]), k, s(t[2]))
    if k == "!": return "!" + s(t[1])
    if k == "truthy": return s(t[1])
    return "%s(%s)" % (k, ", ".join(s(x) if isinstance(x, tuple) else str(x) for x in t[1:]))

# --------------------------------------------------------------- term helpers
def expand_conds(t):
    """Every value of a term for the outcomes of the conditional expressions in it."""
    if not isinstance(t, tuple): return [t]
    if t and t[0] == "cond" and len(t) == 4: return expand_conds(t[2]) + expand_conds(t[3])
    if t and t[0] in ("+", "-", "*") and len(t) == 3: return [(t[0], a, b) for a in expand_conds(t[1]) for b in expand_conds(t[2])]
    return [t]

def linear(t):
    """Coefficients of an integer term (None: the constant), or None."""
    if t[0] == "int":
        try: return {None: int(t[1])}
        except ValueError: return None
    if t[0] in ("+", "-") and len(t) == 3:
        a, b = linear(t[1]), linear(t[2])
        if a is None or b is None: return None
        out = dict(a)
        for k, v in b.items(): out[k] = out.get(k, 0) + (v if t[0] == "+" else -v)
        return out
    return {t: 1}

def strip_ids(t):
    """Drop loop/frame identities, so that equal shapes compare equal."""
    if not isinstance(t, tuple): return t
    if t and t[0] == "elem": return ("elem", strip_ids(t[1]))
    if t and t[0] == "findif": return ("elem", strip_ids(t[1]))
    if t and t[0] == "idx": return ("idx",)
    return tuple(strip_ids(x) for x in t)

def sub_terms(t):
    yield t
    if isinstance(t, tuple):
        for x in t[1:]:
            if isinstance(x, tuple):
                if x and isinstance(x[0], str):
                    yield from sub_terms(x)
                else:
                    for y in x:
                        if isinstance(y, tuple):
                            if y and isinstance(y[0], str) and len(y) == 2 and isinstance(y[1], tuple):
                                yield from sub_terms(y[1])
                            else:
                                yield from sub_terms(y)
                    
def mentions(t, pred):
    return any(isinstance(x, tuple) and x and pred(x) for x in sub_terms(t))

def subst(t, a, b):
    if t == a: return b
    if isinstance(t, tuple): return tuple(subst(x, a, b) for x in t)
    return t
