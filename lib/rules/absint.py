"""Exploration of a function graph with values for a few places.

A state assigns abstract values to local variables and to the cells a rule names.  Values are Python objects: True/False,
int, ("null",), ("tok", ...) and whatever a rule adds; None is unknown.  Branches whose condition has a value are followed
one way only, all others both ways."""
import operator
NULL = ("null",)
UNSIGNED = {"unsigned long": 64, "unsigned long long": 64, "unsigned int": 32, "unsigned short": 16, "unsigned char": 8, "std::size_t": 64, "size_t": 64}
UNK = ("unk",)      # computed from a value of interest, but not known
OPS = {"==": operator.eq, "!=": operator.ne, "<": operator.lt, ">": operator.gt, "<=": operator.le, ">=": operator.ge,
       "+": operator.add, "-": operator.sub, "*": operator.mul}

def truth(v):
    if v is None: return None
    if isinstance(v, bool): return v
    if isinstance(v, int): return v != 0
    if isinstance(v, tuple) and v[:1] == NULL: return False
    if v == UNK: return None
    if isinstance(v, tuple) and v and v[0] in ("tok", "obj", "str", "path", "view", "ptr", "rec", "dom", "domlist", "made", "model", "mdesc", "pt", "alg", "tempdir"): return True
    return None

def wrap(r, t):
    """Conversion of a negative number to an unsigned type."""
    if isinstance(r, int) and not isinstance(r, bool) and r < 0:
        b = UNSIGNED.get((t or "").replace("const ", ""))
        if b: return r + (1 << b)
    return r
def bare_e(e):
    while isinstance(e, dict) and e["k"] in ("icast", "cast"): e = e["e"]
    return isinstance(e, dict) and e["k"] == "this"

class AI:
    """cell(term) -> key of a tracked cell or None; call(ai, e, fr, env) -> value or NotImplemented;
    effect(ai, n, env) -> new env (or None for unchanged)."""
    def __init__(self, g, cell=None, call=None, effect=None, assume=None, limit=60000, loop=None):
        self.loop = loop
        self.g, self.cell, self.callf, self.effect, self.assume, self.limit = g, cell or (lambda t: None), call, effect, assume, limit
    def raw(self, e, fr):
        """Key of a member access as it is written, whatever is known about the member's value."""
        b = self.g.T(e["b"], fr)
        if e.get("arrow") and e["b"]["k"] != "this" and not (e["b"]["k"] == "call" and e["b"].get("op") == "->"): b = self.g.deref(b)
        return self.cell(("f", b, e["n"]))
    def lkey(self, e, fr, env):
        """Key of the object an expression denotes."""
        while isinstance(e, dict) and e["k"] in ("icast", "cast", "defarg"): e = e["e"]
        k = self.raw(e, fr) if e["k"] == "mem" else None
        if e["k"] == "ref" and e.get("dk") in ("local", "param"):
            v = fr.lookup(e["d"])
            if v is not None and not v.ref and v.term in env: k = v.term
            elif v is not None and v.ref and len(v.defs) == 1 and v.defs[0][1] in ("init", "param") and v.defs[0][2] is not None:
                return self.lkey(v.defs[0][2], v.defs[0][3], env)
        return k if k is not None else self.key(self.g.T(e, fr))
    # -------------------------------------------------------------- values
    def key(self, t):
        if t is None: return None
        k = self.cell(t)
        if k is not None: return k
        if t[0] == "idx" and len(t) > 1:
            for lp in self.g.loops:
                if lp.head.id == t[1] and lp.index is not None: return lp.index.term
        return t if t[0] == "v" else None
    def ev(self, e, fr, env, depth=0):
        if e is None or not isinstance(e, dict) or depth > 40: return None
        k = e["k"]
        ev = lambda x, f=fr: self.ev(x, f, env, depth + 1)
        if k in ("int", "char"):
            try: return int(e["v"])
            except Exception: return None
        if k == "bool": return bool(e["v"])
        if k == "null": return NULL
        if k in ("icast", "cast", "defarg"):
            r = ev(e["e"])
            if k == "icast" and e.get("ck") in ("IntegralToBoolean", "PointerToBoolean"): return truth(r)
            return wrap(r, e.get("t")) if k != "defarg" else r
        if k == "ref" and e.get("dk") in ("local", "param", "binding"):
            v = fr.lookup(e["d"])
            if v is None: return None
            if v.term in env: return env[v.term]
            ds = v.defs if len(v.defs) < 2 or not (v.t or "").rstrip().endswith(("*", "* const")) else [d for d in v.defs if d[1] != "mut"]
            if len(ds) == 1 and ds[0][1] in ("init", "param") and ds[0][2] is not None and (v.ref or ds[0][1] == "param"):
                return self.ev(ds[0][2], ds[0][3], env, depth + 1)
        if k in ("ref", "mem", "sub", "this"):
            if k == "mem":
                rk = self.raw(e, fr)
                if rk is not None and rk in env: return env[rk]
            key = self.key(self.g.T(e, fr))
            if key is not None and key in env: return env[key]
            if k == "ref" and e.get("dk") not in ("local", "param", "binding"):
                t = self.g.T(e, fr)
                if t[0] == "int":
                    try: return int(t[1])
                    except ValueError: return None
            return None
        if k == "un":
            op = e["op"]
            if op == "!":
                r = ev(e["e"])
                t = truth(r)
                return (UNK if r == UNK else None) if t is None else not t
            if op in ("*", "&", "+"): return ev(e["e"])
            if op in ("++", "--"):
                # the write has been carried out already
                r = ev(e["e"])
                if not isinstance(r, int): return None
                return r if not e.get("post") else (r - 1 if op == "++" else r + 1)
            if op == "-":
                r = ev(e["e"])
                return -r if isinstance(r, int) and not isinstance(r, bool) else None
            return None
        if k == "bin":
            op = e["op"]
            if op == "=": return ev(e["a"])
            if op == ",": return ev(e["b"])
            if op in ("==", "!=") and (bare_e(e["a"]) or bare_e(e["b"])): return op == "!="     # other objects than *this
            a, b = ev(e["a"]), ev(e["b"])
            return self.binop(op, a, b)
        if k == "cond":
            t = truth(ev(e["c"]))
            if t is None:
                a, b = ev(e["a"]), ev(e["b"])
                return a if a == b else None
            return ev(e["a"] if t else e["b"])
        if k in ("call", "ctor", "new", "init"):
            if self.callf is not None:
                r = self.callf(self, e, fr, env)
                if r is not NotImplemented: return r
            nf = fr.inl.get(id(e)) if k == "call" else None
            if nf is not None:
                r = env.get(("RET", nf.id))
                if r is not None: return r
                return None
            A = e.get("a") or []
            fn = e.get("fn") or ""
            if k == "call":
                op = e.get("op")
                if fn in ("std::move", "std::forward", "std::as_const") and A: return ev(A[0])
                if fn == "std::exchange" and ("XCHG", id(e)) in env: return env[("XCHG", id(e))]
                if op in OPS:
                    ops = ([e["obj"]] if e.get("obj") is not None else []) + A
                    if len(ops) == 2: return self.binop(op, ev(ops[0]), ev(ops[1]))
                if op == "!":
                    t = truth(ev(e["obj"] if e.get("obj") is not None else A[0]))
                    return None if t is None else not t
                if e.get("obj") is not None:
                    nm = fn.split("::")[-1]
                    if e.get("conv") or fn.endswith("operator bool"): 
                        r = ev(e["obj"])
                        return truth(r) if fn.endswith("operator bool") else r
                    if nm in ("get", "load", "value") and not A or op in ("->",) or op == "*" and not A: return ev(e["obj"])
                    if nm == "has_value": return truth(ev(e["obj"]))
                return None
            if k == "ctor":
                if len(A) == 1: return ev(A[0])
                if not A and ("_ptr<" in (e.get("t") or "") or "optional<" in (e.get("t") or "")): return NULL
                return None
            if k == "init" and len(A) == 1 and not e.get("fields"): return ev(A[0])
            return None
        return None
    def coerce(self, r, t, env): return r
    def compound(self, op, old, d, env):
        return (old + d if op[0] == "+" else old - d) if isinstance(old, int) and isinstance(d, int) else None
    def binop(self, op, a, b):
        if op in ("&&", "||"):
            u = UNK in (a, b)
            a, b = truth(a), truth(b)
            if u and (b if a is None else a) is not (op == "||"): return UNK
            if op == "&&": return False if a is False or b is False else (True if a and b else None)
            return True if a or b else (False if a is False and b is False else None)
        if a == UNK or b == UNK: return UNK
        if a is None or b is None: return None
        num = lambda x: isinstance(x, (int, bool))
        if op in ("==", "!="): return (a == b) == (op == "==")
        if num(a) and num(b) and op in OPS: return OPS[op](a, b)
        return None
    # ---------------------------------------------------------- transitions
    def step(self, n, env):
        g = self.g
        if n.k == "decl":
            v = n.d["var"]
            env = dict(env)
            if v.ref: pass
            else:
                r = self.ev(n.d.get("init"), n.fr, env) if n.d.get("init") is not None else None
                r = self.coerce(wrap(r, v.t), v.t, env)
                if r is None: env.pop(v.term, None)
                else: env[v.term] = r
        elif n.k == "write":
            pe, key = n.d.get("place"), None
            if isinstance(pe, dict) and pe.get("k") == "mem": key = self.raw(pe, n.fr)
            elif isinstance(pe, dict) and pe.get("k") == "ref" and n.fr is not None and pe.get("dk") in ("local", "param"):
                v = n.fr.lookup(pe["d"])
                if v is not None and not v.ref and v.term in env: key = v.term
            if key is None: key = self.key(g.place(n))
            xch = n.e is not None and n.e.get("k") == "call" and n.e.get("fn") in ("std::exchange", "std::swap") and n.e
            if xch and key is None:
                env = dict(env); env.pop(("XCHG", id(xch)), None)
            if key is not None:
                env = dict(env)
                op, val = n.d.get("op"), n.d.get("val")
                r = None
                if xch:
                    old = env.get(key)
                    if xch["fn"] == "std::swap" and val is xch["a"][0]: r, val = env.get(("XCHG", id(xch))), None
                    if old is None: env.pop(("XCHG", id(xch)), None)
                    else: env[("XCHG", id(xch))] = old
                if op in ("=", "init") and val is not None: r = self.coerce(self.ev(val, n.fr, env), pe.get("t") if isinstance(pe, dict) else None, env)
                elif op in ("++", "--", "+=", "-="):
                    old = env.get(key)
                    d = 1 if op in ("++", "--") else self.ev(val, n.fr, env)
                    r = self.compound(op, old, d, env)
                if r is None: env.pop(key, None)
                else: env[key] = r
        elif n.k == "ret" and n.e is not None and n.fr is not None:
            r = self.ev(n.e, n.fr, env)
            fr = n.fr
            env = dict(env)
            if r is None: env.pop(("RET", fr.id), None)
            else: env[("RET", fr.id)] = r
        if self.effect is not None:
            r = self.effect(self, n, env)
            if r is not None: env = r
        return env
    def run(self, env0, start=None, watch=None, edge=None, stop=None):
        """Visits every reachable (node, state); returns [(node, env, path)] for exits and watched nodes (env before the node)."""
        g = self.g
        out = []
        fz = lambda env: frozenset(env.items())
        st = [(n, dict(env0)) for n in (start or [g.entry])]
        seen = {}
        for n, env in st: seen[(n, fz(env))] = None
        cnt = 0
        self.forked = self.exceeded = False
        self.forks = {}; self.seen = seen
        while st:
            n, env = st.pop()
            key = (n, fz(env))
            cnt += 1
            if cnt > self.limit: self.exceeded = True; break
            if n is g.exit or watch is not None and watch(n):
                out.append((n, env, key))
            if n is g.exit or stop is not None and stop(n, env): continue
            e2 = self.step(n, env)
            val = None
            only = None
            if n.k == "switch":
                sv = self.ev(n.e, n.fr, e2)
                if sv is not None and sv != UNK:
                    cs = [(lab, self.caseval(lab[1])) for lab, _ in n.succ if isinstance(lab, tuple) and lab[0] == "case"]
                    if all(v is not None for _, v in cs):
                        only = {lab for lab, v in cs if v == sv}
                        if not only: only = {lab for lab, _ in n.succ if not (isinstance(lab, tuple) and lab[0] == "case")}
            if n.k == "branch":
                val = truth(self.ev(n.e, n.fr, e2))
                if val is None: self.forked = True; self.forks[n] = self.forks.get(n, 0) + 1
            must = self.excf(n, env) if self.excf is not None else None
            if n.k == "switch" and only is None or n.k == "loop" and val is None and self.loop is None: self.forks[n] = self.forks.get(n, 0) + 1
            if must is None and len(n.succ) > 1 and any(l == "exc" for l, _ in n.succ): self.forks[n] = self.forks.get(n, 0) + 1
            for lab, m in n.succ:
                if must is not None and (lab == "exc") != must and any(l == "exc" for l, _ in n.succ): continue
                if n.k == "branch" and lab in ("T", "F") and val is not None and (lab == "T") != val: continue
                if only is not None and lab != "exc" and lab not in only: continue
                if edge is not None and not edge(n, lab, m): continue
                # what throws has not taken effect
                e3 = env if lab == "exc" else e2
                if n.k == "branch" and lab in ("T", "F") and val is None:
                    x, pol = n.e, True
                    while isinstance(x, dict) and (x["k"] in ("icast", "cast") or x["k"] == "un" and x["op"] == "!"):
                        if x["k"] == "un": pol = not pol
                        x = x["e"]
                    if isinstance(x, dict) and x["k"] == "ref" and x.get("dk") == "local":
                        v = n.fr.lookup(x["d"])
                        if v is not None and not v.ref and (v.t or "").replace("const ", "") == "bool":
                            e3 = dict(e3); e3[v.term] = (lab == "T") == pol
                if self.loop is not None and n.k == "loop":
                    e3 = self.loop(self, n, lab, e3)
                    if e3 is None: continue
                if self.altf is not None and n.k == "altbranch":
                    e3 = self.altf(n, lab, e3)
                    if e3 is None: continue
                if self.assume is not None and n.k == "branch":
                    e3 = self.assume(self, n, lab, e3)
                    if e3 is None: continue
                for e4 in e3 if isinstance(e3, list) else [e3]:
                    k2 = (m, fz(e4))
                    if k2 not in seen:
                        seen[k2] = key
                        st.append((m, e4))
        self.seen = seen
        return out
    def caseval(self, t):
        """The value a case label stands for."""
        if t[0] == "int":
            try: return int(t[1])
            except (ValueError, TypeError): return None
        return None
    forked = False
    exceeded = False
    excf = None         # excf(n, env): whether a call throws (None: not known)
    altf = None         # altf(n, label, env): the alternatives of a visited variant
    def path(self, key):
        p = []
        while key is not None:
            p.append(key[0]); key = self.seen[key]
        return p[::-1]
