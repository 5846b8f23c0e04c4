"""The travels of one element through the containers of an object.

One element E is followed; containers are abstracted to "holds E or does not" (("set", True/False)).  A loop over a container which
holds E visits E exactly once, at any time among other elements about which nothing is known; a loop over a container which does
not hold E never visits it.  Keys, iterators and copies that are derived from E count as E."""
from slvsim import *
from absint import AI, NULL, UNK, truth
CONT = re.compile(r"^(const )?(std::(__cxx11::)?|boost::(container::)?)?(unordered_)?(multi)?(map|set|vector|list|deque|queue|stack|forward_list|flat_map|flat_set)<")
ADD = {"insert", "emplace", "push_back", "emplace_back", "insert_or_assign", "try_emplace", "push", "push_front", "emplace_front", "emplace_hint"}
FRONT = {"push_front", "emplace_front"}
IN, OUT = ("set", True), ("set", False)

def last_(fn): return re.sub(r"<[^<>]*>$", "", fn or "").split("::")[-1]
def subterms(t):
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple) and x:
            yield x
            st += [y for y in x if isinstance(y, tuple)]
def root(t):
    while isinstance(t, tuple) and t and t[0] == "f": t = t[1]
    return t
def under(t, p):
    while t != p:
        if not (isinstance(t, tuple) and t and t[0] == "f"): return False
        t = t[1]
    return True
def defs(v):
    """The definitions of a variable; what happens to the object a pointer points to is none."""
    if v is None: return []
    return [d for d in v.defs if not (d[1] == "mut" and (v.t or "").rstrip().endswith(("*", "* const")))]
def origin(g, e, fr, depth=0):
    """The expression a variable that is set once stands for."""
    while isinstance(e, dict) and depth < 20:
        depth += 1
        if e["k"] in ("icast", "cast", "defarg") : e = e["e"]; continue
        if e["k"] == "ref" and e.get("dk") in ("local", "param") and fr is not None:
            v = fr.lookup(e["d"])
            ds = defs(v)
            if len(ds) == 1 and ds[0][1] in ("init", "param") and ds[0][2] is not None:
                e, fr = ds[0][2], ds[0][3]; continue
        break
    return e, fr

class Trav(AI):
    """log(ai, n, e, env) -> entry for a call that concerns E, or None; fields: qualified member -> value of E's member;
    alt: the alternative E's variants hold (type name); alone: there are no other elements."""
    def __init__(self, g, fields=None, alt=None, log=None, alone=False, extra=None, rec=None, known=True):
        self.known = known          # does what E names exist in tables that do not hold elements like E?
        self.fields, self.alt, self.logf, self.alone, self.extra, self.rec = fields or {}, alt, log, alone, extra, rec or set()
        self.unknown = []
        super().__init__(g, self.keyof, Trav.call_, Trav.effect_, Trav.assume_, 40000, Trav.loop_)
        self.starts = {}
        for lp in g.loops:
            if lp.kind in ("for", "while") and g.container(lp) is not None:
                for n, lab in [(x[0], x[1]) for x in lp.tstart]:
                    if n.k == "branch" and lab in ("T", "F"): self.starts[n] = (lp, lab)
    # ------------------------------------------------------------------ which terms are E
    @staticmethod
    def keyof(t):
        if t is None: return None
        r = root(t)
        if t[0] == "f" and (r == ("this",) or r[0] in ("v", "p", "obj", "ret")): return t
        if t[0] in ("v", "p", "obj"): return t
        return None
    def isE(self, t, env):
        if t is None: return False
        for x in subterms(t):
            if x[0] == "elem" and len(x) > 2 and env.get(("cur", x[2])) is True: return True
            if x in self.rec_terms(env): return True
        return False
    def rec_terms(self, env): return env.get(("E",), ())
    def termE(self, e, fr, env, depth=0):
        """Is the value of an expression (part of) E?"""
        if not isinstance(e, dict) or depth > 20: return False
        t = self.g.T(e, fr)
        if self.isE(t, env): return True
        if e["k"] == "ref" and fr is not None and e.get("dk") in ("local", "param", "binding"):
            v = fr.lookup(e["d"])
            if v is not None:
                if env.get(("el", v.term)): return True
                if isinstance(env.get(v.term), tuple) and env[v.term][0] == "iter": return env[v.term][2] == "E"
                ds = defs(v)
                if len(ds) == 1 and ds[0][1] in ("init", "param") and ds[0][2] is not None and ds[0][2] is not e:
                    if v.ref or ds[0][1] == "param" or self.keyof(v.term) not in env: return self.termE(ds[0][2], ds[0][3], env, depth + 1)
            return False
        if e["k"] == "lambda": return False
        for kk, x in e.items():
            if kk in ("a", "args") and isinstance(x, list):
                if any(self.termE(y, fr, env, depth + 1) for y in x): return True
            elif kk in ("e", "b", "obj") and isinstance(x, dict) and self.termE(x, fr, env, depth + 1): return True
        return False
    # ------------------------------------------------------------------ values
    def ev(self, e, fr, env, depth=0):
        if isinstance(e, dict) and e["k"] == "mem" and e.get("q") in self.fields and self.termE(e["b"], fr, env): return self.fields[e["q"]]
        return super().ev(e, fr, env, depth)
    def compound(self, op, old, d, env):
        if isinstance(old, tuple) and old[:1] == ("iter",): return ("iter", old[1], "new") if op in ("++", "+=") and d == 1 else None
        r = super().compound(op, old, d, env)
        return None if isinstance(r, int) and d == 1 and abs(r) > 3 else r      # counters in loops
    def size(self, v):
        if v is None or v[:1] != ("set",): return None
        return 1 if v[1] else (0 if self.alone else None)
    @staticmethod
    def call_(ai, e, fr, env):
        if ai.extra is not None:
            r = ai.extra(ai, e, fr, env)
            if r is not NotImplemented: return r
        A = [a for a in e.get("a") or [] if a["k"] != "defarg"]
        t = (e.get("t") or "")
        if e["k"] in ("ctor", "init") and CONT.match(t):
            if not A: return OUT
            if len(A) == 1 and CONT.match(A[0].get("t") or ""): return ai.ev(A[0], fr, env)
            return ("set", any(ai.termE(a, fr, env) for a in A))
        if e["k"] != "call": return NotImplemented
        fn, nm = e.get("fn") or "", last_(e.get("fn"))
        if e.get("op") in ("==", "!="):
            vs = [ai.ev(x, fr, env) for x in ([e["obj"]] if e.get("obj") is not None else []) + A]
            if len(vs) == 2 and any(isinstance(v, tuple) and v[:1] == ("iter",) for v in vs):
                it = next(v for v in vs if isinstance(v, tuple) and v[:1] == ("iter",))
                if not any(isinstance(v, tuple) and v[:2] == ("tok", "end") for v in vs) or it[2] == "new": return None
                return (it[2] == "end") == (e["op"] == "==")
        if e.get("obj") is not None:
            ot = e["obj"].get("t") or ""
            if CONT.match(ot.replace("const ", "")):
                v = ai.ev(e["obj"], fr, env)
                if nm == "empty": n = ai.size(v); return None if n is None else n == 0
                if nm in ("size",): n = ai.size(v); return n if ai.alone or n == 0 else None
                key = bool(A) and ai.termE(A[0], fr, env)
                has = v == IN if v in (IN, OUT) else ai.known
                if nm in ("count", "contains") and key: return has
                if nm == "find" and key: return ("tok", "it", ai.lkey(e["obj"], fr, env)) if has else ("tok", "end", ai.lkey(e["obj"], fr, env))
                if nm in ("begin", "cbegin") and v in (IN, OUT): return ("iter", ai.lkey(e["obj"], fr, env), "new")
                if nm == "erase" and A and ai.itkey(A[0], fr, env) is not None: return ("iter", env[ai.itkey(A[0], fr, env)][1], "new")
                if nm in ("end", "cend"): return ("tok", "end", ai.lkey(e["obj"], fr, env))
                if (nm == "[]" or e.get("op") == "[]" or nm == "operator[]") and key and not has and t.rstrip(" &").endswith("*"): return NULL
                if nm in ("find", "at", "[]") or e.get("op") == "[]": return None
                return NotImplemented
            if nm in ("time_since_epoch", "count", "value") and not A: return ai.ev(e["obj"], fr, env)
            if nm == "value_or" and A:
                v = ai.ev(e["obj"], fr, env)
                return ai.ev(A[0], fr, env) if v == NULL else v
            if re.search(r"optional<", ot) and nm == "operator bool":
                v = ai.ev(e["obj"], fr, env)
                return None if v is None or v == UNK else v != NULL
            if re.search(r"optional<", ot) and nm == "has_value":
                v = ai.ev(e["obj"], fr, env)
                return None if v is None or v == UNK else v != NULL
        if fn in ("std::holds_alternative", "std::get_if") or re.match(r"std::(holds_alternative|get_if)<", fn):
            if ai.alt is not None and A and ai.termE(A[0], fr, env):
                ta = " ".join(e.get("ta") or []) + fn + (e.get("t") or "")
                hit = re.search(r"\b%s\b" % re.escape(ai.alt), ta) is not None
                return hit if "holds" in fn else (None if hit else NULL)
        if nm in ("index",) : return NotImplemented
        return NotImplemented
    # ------------------------------------------------------------------ effects
    @staticmethod
    def effect_(ai, n, env):
        n_env = env
        env = dict(env)
        g = ai.g
        if n.k == "write":
            pl = g.place(n)
            if pl is not None and pl[0] == "at":
                k = ai.keyof(pl[1])
                e = n.d.get("val")
                if k is not None and e is not None and (ai.termE(e, n.fr, env) or ai.isE(pl[2] if len(pl) > 2 else None, env)):
                    if ai.isE(pl, env) or ai.termE(e, n.fr, env): env[k] = IN
            elif pl is not None and ai.keyof(pl) is not None and n.d.get("op") in ("=", "init", None):
                # a whole structure
                val = n.d.get("val")
                e, fr = origin(g, val, n.fr) if val is not None else (None, None)
                e = e if isinstance(e, dict) else {}
                while e.get("k") == "call" and last_(e.get("fn")) in ("move", "forward") and e.get("a"): e, fr = origin(g, e["a"][0], fr)
                k = ai.keyof(pl)
                if e.get("fields") and e.get("a") is not None:
                    for q in [q for q in env if isinstance(q, tuple) and q != k and q[:1] == ("f",) and under(q, k)]: env.pop(q, None)
                    for f, a in zip(e["fields"], e["a"]):
                        v = ai.ev(a, fr, env)
                        if v is None and CONT.match(a.get("t") or ""): v = OUT
                        if v is None and "optional<" in (a.get("t") or "") and not a.get("a"): v = NULL
                        kk = ("f", k, f if isinstance(f, str) else f.get("n"))
                        if v is not None: env[kk] = v
                elif val is not None:
                    src = ai.lkey(e, fr, env) if e.get("k") in ("mem", "ref") else None
                    if src is not None and src != k:
                        for q in [q for q in env if isinstance(q, tuple) and q[:1] == ("f",) and q != k and under(q, k)]: env.pop(q, None)
                        for q in [q for q in env if isinstance(q, tuple) and q[:1] == ("f",) and q != src and under(q, src)]: env[ai.rebase(q, src, k)] = env[q]
                    elif e.get("k") == "ctor" and not e.get("a") and not CONT.match(e.get("t") or ""):
                        for q in [q for q in env if isinstance(q, tuple) and q[:1] == ("f",) and q != k and under(q, k)]: env[q] = OUT if env[q] == IN else env[q]
        if n.k == "decl" and n.d["var"].term and not n.d["var"].ref:
            v = n.d["var"]
            if n.d.get("init") is not None and not CONT.match(v.t or "") and ai.termE(n.d["init"], n.fr, env): env[("el", v.term)] = True
            else: env.pop(("el", v.term), None)
            if CONT.match((v.t or "")) and v.term not in env and n.d.get("init") is None: env[v.term] = OUT
        if n.k == "write" and n.d.get("op") in ("++", "+=") and isinstance(n.d.get("place"), dict):
            k = ai.itkey(n.d["place"], n.fr, n_env)
            if k is not None: env[k] = ("iter", n_env[k][1], "new")
        if n.k == "call" and n.e is not None and n.fr is not None and n.e["k"] == "call":
            e = n.e
            nm = last_(e.get("fn"))
            if e.get("op") == "++":
                k = ai.itkey(e["obj"] if e.get("obj") is not None else (e.get("a") or [None])[0], n.fr, n_env)
                if k is not None: env[k] = ("iter", n_env[k][1], "new")
            A = [a for a in e.get("a") or [] if a["k"] != "defarg"]
            if e.get("obj") is not None and CONT.match((e["obj"].get("t") or "").replace("const ", "")):
                k = ai.lkey(e["obj"], n.fr, env)
                if k is not None:
                    anyE = any(ai.termE(a, n.fr, env) for a in A)
                    if nm == "at" and anyE and "map<" in e["obj"]["t"] and (env.get(k) == OUT or k not in env and not ai.known): env[("dead",)] = True
                    if nm in ADD and anyE: env[k] = IN
                    elif nm in ("erase", "extract") and anyE: env[k] = OUT
                    elif nm == "erase" and len(A) == 2: env[k] = OUT if ai.alone else env.pop(k, None) or OUT
                    elif nm == "clear" or nm in ("resize", "assign") and len(A) == 0: env[k] = OUT
                    elif nm in ("pop", "pop_back", "pop_front") and ai.alone: env[k] = OUT
                    elif nm == "swap" and A:
                        k2 = ai.lkey(A[0], n.fr, env)
                        if k2 is not None:
                            a, b = env.get(k), env.get(k2)
                            for q, v in ((k, b), (k2, a)):
                                if v is None: env.pop(q, None)
                                else: env[q] = v
                    elif nm in ("merge", "splice") and A:
                        k2 = ai.lkey(A[0], n.fr, env)
                        if k2 is not None and env.get(k2) == IN: env[k] = IN; env[k2] = OUT
            if ai.logf is not None:
                x = ai.logf(ai, n, e, env)
                if x is not None:
                    l = env.get(("log",), ())
                    env[("log",)] = (l + (x,))[:8]
        # what has been moved from is empty
        if n.k in ("write", "decl"):
            val = n.d.get("val") if n.k == "write" else n.d.get("init")
            e = val
            while isinstance(e, dict) and (e["k"] in ("icast", "cast") or e["k"] in ("ctor", "init") and len(e.get("a") or []) == 1): e = e["e"] if e["k"] in ("icast", "cast") else e["a"][0]
            if isinstance(e, dict) and e["k"] == "call" and e.get("fn") == "std::move" and CONT.match((e["a"][0].get("t") or "").replace("const ", "")):
                k = ai.lkey(e["a"][0], n.fr, env)
                if k is not None and env.get(k) == IN: env[k] = OUT
        return env
    @staticmethod
    def rebase(q, src, dst):
        return dst if q == src else ("f", Trav.rebase(q[1], src, dst), q[2])
    @staticmethod
    def assume_(ai, n, lab, env):
        if n in ai.starts:
            lp, t = ai.starts[n]
            return ai.visit(lp.head, lp, "T" if lab == t else "F", env) if lab in ("T", "F") else env
        # a comparison of an iterator that has been moved on
        x, pol = n.e, True
        while isinstance(x, dict) and (x["k"] in ("icast", "cast") or x["k"] == "un" and x["op"] == "!"):
            if x["k"] == "un": pol = not pol
            x = x["e"]
        if lab in ("T", "F") and isinstance(x, dict) and x.get("op") in ("==", "!=") and x["k"] in ("call", "bin"):
            ops = ([x["obj"]] if x.get("obj") is not None else []) + (x.get("a") or []) if x["k"] == "call" else [x["a"], x["b"]]
            for a, b in (ops, ops[::-1]) if len(ops) == 2 else ():
                k = ai.itkey(a, n.fr, env)
                if k is not None and isinstance(ai.ev(b, n.fr, env), tuple) and ai.ev(b, n.fr, env)[:2] == ("tok", "end"):
                    _, C, pos = env[k]
                    end = ((x["op"] == "==") == pol) == (lab == "T")
                    if pos == "end" or pos in ("E", "o"): return env if end == (pos == "end") else None
                    v, vis = env.get(C), ("itvis", k)
                    if v not in (IN, OUT): return env
                    env = dict(env)
                    had = env.get(("ithad", k), v == IN)
                    env[("ithad", k)] = had
                    if end:
                        if had and not env.get(vis): return None
                        env[k] = ("iter", C, "end")
                        env.pop(vis, None); env.pop(("ithad", k), None)
                        return env
                    out = []
                    if not ai.alone: o = dict(env); o[k] = ("iter", C, "o"); out.append(o)
                    if had and not env.get(vis): env[k] = ("iter", C, "E"); env[vis] = True; out.append(env)
                    return out or None
        return env
    def itkey(self, e, fr, env):
        while isinstance(e, dict) and (e["k"] in ("icast", "cast") or e["k"] in ("ctor", "init") and len(e.get("a") or []) == 1): e = e["e"] if e["k"] in ("icast", "cast") else e["a"][0]
        if not isinstance(e, dict) or e["k"] != "ref" or e.get("dk") not in ("local", "param", "binding"): return None
        v = fr.lookup(e["d"]) if fr is not None else None
        return v.term if v is not None and isinstance(env.get(v.term), tuple) and env[v.term][0] == "iter" else None
    @staticmethod
    def loop_(ai, n, lab, env):
        return ai.visit(n, n.d.get("loop"), lab, env)
    def visit(ai, n, lp, lab, env):
        C = ai.g.container(lp) if lp is not None else None
        if C is None or lab not in ("T", "F"): return env
        k = ai.lkey(lp.cont_expr[0], lp.cont_expr[1], env) if lp.cont_expr is not None else None
        if k not in env: k = ai.keyof(C)
        v = env.get(k)
        vis, cur = ("vis", n.id), ("cur", n.id)
        env = dict(env)
        if v not in (IN, OUT):
            ai.unknown.append((n, C))
            env.pop(cur, None)
            return env
        had = env.get(("had", n.id), v == IN)
        if lab == "F":
            if had and not env.get(vis) : return None
            for q in (vis, cur, ("had", n.id)): env.pop(q, None)
            return env
        env[("had", n.id)] = had
        other = dict(env); other[cur] = False
        out = [] if ai.alone else [other]
        if had and not env.get(vis):
            env[vis] = env[cur] = True
            out.append(env)
        return out or None
    # ------------------------------------------------------------------ runs
    def go(self, env0):
        """Environments at the normal ends, reduced to what belongs to the object; [(env, log, path key)]."""
        edge = None
        if self.alt is not None:
            def edge(n, lab, m):
                return not (isinstance(lab, tuple) and lab[0] == "alt" and n.k == "altbranch" and lab[1] != self.alt)
        self.unknown = []
        return [r for r in self.run(env0, edge=edge, stop=lambda n, env: ("dead",) in env) if ("dead",) not in r[1]]
    @staticmethod
    def state(env):
        return {k: v for k, v in env.items() if isinstance(k, tuple) and k[:1] == ("f",) and root(k) == ("this",)}
