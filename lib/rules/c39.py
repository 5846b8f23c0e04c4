"""C39: the list of modified variables is exact; initial values go to the variable they name."""
from travel import *
RULE = """
(tracked) Each modifier setter of slave_simulator (for each type, inputs and outputs) is interpreted with one reference followed through the
sets that get_modified_*_variables return: after it returns, the set of its own type holds the reference exactly if the modifier is
not empty; no other set has changed; if it throws, none has.
(listed) execution::get_modified_variables is interpreted with three simulators that have one modified variable of each type: the list
it returns has exactly one entry for each, with the simulator's own index, the type and the reference.
(initial) Before the simulation has been initialised, execution::set_*_initial_value exposes the named variable of the named simulator
for setting and then sets it to the given value, with its own type, once; afterwards it throws and sets nothing.
"""
ASSUME = ["a std::function that has been moved from is empty", "each variable is either an input or an output"]
SS, EX = "cosim::slave_simulator", "cosim::execution"
TYPES = ("real", "integer", "boolean", "string")
SETT = re.compile(r"^(const )?std::unordered_set<(unsigned int|cosim::value_reference)")
VAL = ("tok", "given")

def param_kinds(f): return [p["t"] for p in f["p"]]

class T39(Trav):
    """A function object that is moved into a parameter is left empty."""
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.effect = T39.effect39
    @staticmethod
    def effect39(ai, n, env):
        if n.k == "enter" and n.d.get("frame") is not None:
            nf = n.d["frame"]
            env = dict(env)
            for v in nf.vars.values():
                ds = v.defs
                if v.ref or len(ds) != 1 or ds[0][1] != "param" or not isinstance(ds[0][2], dict): continue
                if "std::function<" not in (v.t or ""): continue
                e, fr = ds[0][2], ds[0][3]
                val = ai.ev(e, fr, env)
                while isinstance(e, dict) and (e["k"] in ("icast", "cast") or e["k"] == "ctor" and len(e.get("a") or []) == 1): e = e["e"] if e["k"] in ("icast", "cast") else e["a"][0]
                if val is not None: env[v.term] = val
                if isinstance(e, dict) and e["k"] == "call" and e.get("fn") == "std::move":
                    k = ai.lkey(e["a"][0], fr, env)
                    if k is not None and k in env: env[k] = NULL
        if n.k == "write" and isinstance(n.d.get("val"), dict):
            e = n.d["val"]
            while isinstance(e, dict) and (e["k"] in ("icast", "cast") or e["k"] == "ctor" and len(e.get("a") or []) == 1): e = e["e"] if e["k"] in ("icast", "cast") else e["a"][0]
            if isinstance(e, dict) and e["k"] == "call" and e.get("fn") == "std::move" and "std::function<" in (e["a"][0].get("t") or ""):
                k = ai.lkey(e["a"][0], n.fr, env)
                if k is not None and k in env: env = dict(env); env[k] = NULL
        r = Trav.effect_(ai, n, env)
        return r if r is not None else env

def check(c):
    db = c.db
    def fn(cls, name):
        fs = [f for f in db.byq.get("%s::%s" % (cls, name), []) if f.get("body") is not None]
        return fs[0] if fs else None
    seen = set()
    def V(rule, f, g, msg, key, path=None):
        if key in seen: return
        seen.add(key)
        c.viol(rule, "%s:%s" % (db.rel(f), f["l"]), msg, key=key, path=path, g=g)
    # ---------------------------------------------------------------- tracked
    sets = {}
    for t in TYPES:
        f = fn(SS, "get_modified_%s_variables" % t)
        if f is None: continue
        g = c.graph(f, track_all=True)
        ts = {x[1] for x in returned(g)}
        ks = {Trav.keyof(x) for x in ts}
        if len(ks) == 1 and None not in ks and next(iter(ks))[0] == "f": sets[t] = next(iter(ks))
        else: c.note("the set returned for %s variables is not recognised" % t)
    for t in sets:
        for u in sets:
            if t < u:
                c.ob("tracked", "%s and %s sets differ" % (t, u))
                if sets[t] == sets[u]:
                    f = fn(SS, "get_modified_%s_variables" % u)
                    V("tracked", f, None, "the modified %s and %s variables are kept in the same set" % (t, u), "same|%s|%s" % (t, u))
    for t in TYPES:
        if t not in sets: continue
        for d in ("input", "output"):
            f = fn(SS, "set_%s_%s_modifier" % (t, d))
            if f is None: continue
            g = c.graph(f, track_all=True)
            for given in (True, False):
                for had in (True, False):
                    c.ob("tracked", "%s %s: %s, %s before" % (t, d, "modifier" if given else "no modifier", "modified" if had else "not modified"))
                    ai = T39(g, {}, None, None, True)
                    env = {k: ("set", had) for u, k in sets.items()}
                    for i, p in enumerate(f["p"]):
                        pv = g.frames[0].vars.get(p["d"])
                        v = VAL if "std::function" not in p["t"] else (("tok", "fn") if given else NULL)
                        if "std::function" not in p["t"]: env[("E",)] = (("p", i, p.get("n")),) + ((pv.term,) if pv is not None else ())
                        if pv is not None: env[pv.term] = v
                        env[("p", i, p.get("n"))] = v
                    ok = False
                    for n, e, key in ai.go(env):
                        if n is not g.exit or any(x.k == "term" for x in ai.path(key)): continue
                        ok = True
                        for u, k in sets.items():
                            have = e.get(k)
                            if have not in (IN, OUT): c.note("the set of modified %s variables is not followed through %s" % (u, f["n"] if "n" in f else f["q"])); continue
                            want = ("set", given if u == t else had)
                            if have != want:
                                if u == t: m = "after %s with %s modifier the variable is %s the modified %s variables" % (f["q"].split("::")[-1], "a" if given else "an empty", "among" if have == IN else "not among", u)
                                else: m = "%s changes the set of modified %s variables" % (f["q"].split("::")[-1], u)
                                V("tracked", f, g, m, "tracked|%s|%s|%s" % (t, d, u), ai.path(key))
                    if not ok: c.note("%s never returns" % f["q"])
                    # an exception leaves everything as it was
                    ai2 = T39(g, {}, None, None, True, known=False)
                    ex = ai2.run(env, watch=lambda n: n.k == "throw")
                    for n, e, key in ex:
                        if n.k != "throw": continue
                        for u, k in sets.items():
                            if e.get(k) in (IN, OUT) and e[k] != ("set", had):
                                V("tracked", f, g, "%s changes the set of modified %s variables and then refuses the modifier" % (f["q"].split("::")[-1], u), "refused|%s|%s" % (t, d), ai2.path(key))
    # ---------------------------------------------------------------- listed
    f = fn(EX, "get_modified_variables")
    if f is not None:
        g = c.graph(f, track_all=True, stop=lambda x: x["q"].split("::")[-1].startswith("get_modified_") and not x["q"].startswith(EX))
        listed(c, f, g, V)
    # ---------------------------------------------------------------- initial
    r = db.R.get(EX + "::impl")
    for t in TYPES:
        f = fn(EX, "set_%s_initial_value" % t)
        if f is None: continue
        g = c.graph(f, track_all=True, stop=lambda x: x["q"].startswith(("cosim::slave_simulator", "cosim::error")))
        initial(c, f, g, t, V)
    c.need("tracked", 38); c.need("listed", 12); c.need("initial", 8)

def typed_call(e):
    m = re.match(r"get_modified_(\w+)_variables$", last_(e.get("fn"))) if e.get("k") == "call" else None
    return m[1] if m and m[1] in TYPES else None

def source(g, e, fr):
    """The type of the set an expression was taken from."""
    e, fr = origin(g, e, fr)
    while isinstance(e, dict) and (e["k"] in ("icast", "cast") or e["k"] in ("ctor", "init") and len(e.get("a") or []) == 1): e, fr = origin(g, e["e"] if e["k"] in ("icast", "cast") else e["a"][0], fr)
    return (typed_call(e), e, fr) if isinstance(e, dict) else (None, e, fr)

class L39(AI):
    N = 3
    def __init__(self, g, sims, rec):
        self.sims = sims
        super().__init__(g, self.keyf, L39.call_, L39.eff, None, 60000, L39.loop_)
        self.odd = []
        self.bad = False
    def keyf(self, t): return t if t is not None and t[0] in ("v", "p", "obj") else None
    def ev(self, e, fr, env, depth=0):
        if isinstance(e, dict) and e["k"] == "ref" and e.get("dk") == "enum": return ("enum", e.get("q"))
        return super().ev(e, fr, env, depth)
    def issims(self, t): return t is not None and t[0] == "f" and t[2] == self.sims
    @staticmethod
    def call_(ai, e, fr, env):
        if e["k"] == "call" and e.get("obj") is not None and last_(e.get("fn")) == "size" and ai.issims(ai.g.T(e["obj"], fr)): return ai.N
        return NotImplemented
    @staticmethod
    def loop_(ai, n, lab, env):
        lp = n.d.get("loop")
        if lp is None or lab not in ("T", "F"): return env
        if lp.kind != "rfor": return env
        C = ai.g.container(lp)
        if ai.issims(C): cnt = ai.N
        elif lp.cont_expr is not None and source(ai.g, *lp.cont_expr)[0]: cnt = 1
        else: ai.bad = True; return env
        env = dict(env)
        pos = env.get(("pos", n.id), 0)
        if lab == "T":
            if pos >= cnt: return None
            env[("pos", n.id)] = pos + 1
            return env
        if pos < cnt: return None
        env.pop(("pos", n.id))
        return env
    def who(self, t, env):
        """Which simulator a term belongs to."""
        for x in subterms(t):
            if x[0] == "elem" and self.issims(x[1]) and len(x) > 2:
                p = env.get(("pos", x[2]))
                if p is not None: return p - 1
                lp = next((l for l in self.g.loops if l.head.id == x[2]), None)
                v = env.get(lp.index.term) if lp is not None and lp.index is not None else None
                return v if isinstance(v, int) else None
            if x[0] in ("at",) and self.issims(x[1]):
                y = x[2]
                k = self.key(y)
                v = env.get(k) if k is not None else None
                return v if isinstance(v, int) else None
        return None
    @staticmethod
    def eff(ai, n, env):
        if n.k != "call" or n.e is None or n.e["k"] != "call" or n.e.get("obj") is None: return None
        e = n.e
        if last_(e.get("fn")) not in ADD or "variable_id" not in (e["obj"].get("t") or ""): return None
        A = [a for a in e.get("a") or [] if a["k"] != "defarg"]
        g = ai.g
        x = None
        if len(A) == 1:
            x, fr = origin(g, A[0], n.fr)
            while isinstance(x, dict) and (x["k"] in ("icast", "cast") or x["k"] in ("ctor",) and len(x.get("a") or []) == 1 and not x.get("fields") or x["k"] == "call" and x.get("fn") in ("std::move", "std::forward")): x, fr = origin(g, x["e"] if x["k"] in ("icast", "cast") else x["a"][0], fr)
            args = (x.get("a") or []) if isinstance(x, dict) and x["k"] in ("ctor", "init") else []
        else: args, fr = A, n.fr
        env = dict(env)
        ent = None
        if len(args) == 3:
            num = ai.ev(args[0], fr, env)
            ty = ai.ev(args[1], fr, env)
            t = g.T(origin(g, args[2], fr)[0], origin(g, args[2], fr)[1])
            of = st = None
            for y in subterms(t):
                if y[0] == "elem" and len(y) > 2:
                    lp = next((l for l in g.loops if l.head.id == y[2]), None)
                    if lp is not None and lp.cont_expr is not None:
                        st, ce, cf = source(g, *lp.cont_expr)
                        if st:
                            of = ai.who(g.T(ce["obj"], cf), env)
                            break
            ent = (num if isinstance(num, int) else None, ty[1].split("::")[-1] if isinstance(ty, tuple) and ty[:1] == ("enum",) else None, of, st)
        env[("log",)] = env.get(("log",), ()) + (ent,)
        return env

def listed(c, f, g, V):
    db = c.db
    sims = None
    for q, r in db.R.items():
        if q.startswith(EX):
            for x in r["fields"]:
                if CONT.match(x["t"]) and re.search(r"cosim::(slave_)?simulator>", x["t"]): sims = x["n"]
    ai = L39(g, sims, None)
    res = [r for r in ai.run({}) if r[0] is g.exit]
    if sims is None or ai.bad or not res or ai.exceeded: c.note("get_modified_variables is not recognised"); return
    for n, env, key in res:
        log = env.get(("log",), ())
        if any(x is None or None in x for x in log) or ai.forked: c.note("entries of the list are not recognised"); 
        P = ai.path(key)
        for x in log:
            if x is None: continue
            num, ty, of, st = x
            if num is not None and of is not None and num != of: V("listed", f, g, "a modified variable of simulator %d is listed as belonging to simulator %d" % (of, num), "index", P)
            if ty is not None and st is not None and ty != st: V("listed", f, g, "modified %s variables are listed with type %s" % (st, ty), "type|" + st, P)
        for t in TYPES:
            for i in range(L39.N):
                c.ob("listed", "simulator %d, %s" % (i, t))
                k = sum(1 for x in log if x is not None and x[3] == t and x[2] == i)
                if any(x is None or x[2] is None or x[3] is None for x in log): continue
                if ai.forked: continue
                if k == 0: V("listed", f, g, "a modified %s variable of simulator %d of %d is not listed" % (t, i, L39.N), "missing|" + t, P)
                if k > 1: V("listed", f, g, "a modified %s variable is listed more than once" % t, "twice|" + t, P)
        for w in returned(g): pass

def initial(c, f, g, t, V):
    db = c.db
    flags = [x for q, r in db.R.items() if q.startswith(EX + "::impl") for x in r["fields"] if x["t"] == "bool"]
    name = f["q"].split("::")[-1]
    B = Bg(g)
    for on in (False, True):
        c.ob("initial", "%s %s" % (name, "after initialisation" if on else "before"))
        def cell(t_): return t_ if t_ is not None and (t_[0] == "f" and root(t_) == ("this",) or t_[0] == "v") else None
        def eff(ai, n, env):
            if n.k == "call" and n.e is not None and n.e["k"] == "call" and n.e.get("obj") is not None and (n.e.get("fn") or "").startswith("cosim::"):
                nm = last_(n.e["fn"])
                m = re.match(r"(expose_for_setting|expose_for_getting|set_(real|integer|boolean|string))$", nm)
                if m: 
                    env = dict(env)
                    env[("log",)] = env.get(("log",), ()) + (n,)
                    return env
        ai = AI(g, cell, None, eff)
        env = {}
        for x in flags:
            for n in g.live():
                for ex in [n.e] if n.k == "branch" else []:
                    st = [ex]
                    while st:
                        y = st.pop()
                        if not isinstance(y, dict): continue
                        if y["k"] == "mem" and y["n"] == x["n"]: 
                            k = cell(g.T(y, n.fr))
                            if k is not None: env[k] = on
                        for kk in ("e", "a", "b", "c", "obj"):
                            z = y.get(kk); st += z if isinstance(z, list) else [z]
        if on and not env: 
            V("initial", f, g, "%s does not test whether the simulation has been initialised" % name, "initial|%s|guard" % t); continue
        res = [r for r in ai.run(env, watch=lambda n: n.k == "throw")]
        ends = [r for r in res if r[0] is g.exit]
        for n, e, key in res:
            log = e.get(("log",), ())
            P = ai.path(key)
            if on:
                if log: V("initial", f, g, "%s sets a value after the simulation has been initialised" % name, "initial|%s|late" % t, P)
                elif n is g.exit: V("initial", f, g, "%s is ignored without an error after the simulation has been initialised" % name, "initial|%s|silent" % t, P)
                continue
            if n is not g.exit: continue
            kinds = [last_(x.e["fn"]) for x in log]
            if kinds.count("set_" + t) != 1 or len([k for k in kinds if k.startswith("set_")]) != 1:
                V("initial", f, g, "%s returns without having set the variable once" % name, "initial|%s|set" % t, P); continue
            if "expose_for_setting" not in kinds[:kinds.index("set_" + t)]:
                V("initial", f, g, "%s sets the variable without exposing it" % name, "initial|%s|expose" % t, P); continue
            for x in log:
                A = [a for a in x.e.get("a") or []]
                ts = [g.T(origin(g, a, x.fr)[0], origin(g, a, x.fr)[1]) for a in A]
                obj = B(g.obj(x))
                owner = [y for y in subterms(obj) if y[0] == "at"]
                if owner and len(owner[0]) > 2 and not any(z[0] == "p" and z[1] == 0 for z in subterms(owner[0][2])): V("initial", f, g, "%s sets the variable of another simulator" % name, "initial|%s|sim" % t, P)
                ps = [[z[1] for z in subterms(y) if z[0] == "p"] if y else [] for y in ts]
                if last_(x.e["fn"]).startswith("set_"):
                    if len(ps) == 2 and ps[0] and ps[0] != [1]: V("initial", f, g, "%s sets another variable" % name, "initial|%s|var" % t, P)
                    if len(ps) == 2 and 2 not in ps[1]: V("initial", f, g, "%s does not set the given value" % name, "initial|%s|value" % t, P)
                else:
                    if len(ps) == 2 and ps[1] and ps[1] != [1]: V("initial", f, g, "%s exposes another variable" % name, "initial|%s|exvar" % t, P)
                    m = [y[1].split("::")[-1] for y in ts[:1] if y and y[0] == "enum"]
                    if m and m[0] != t: V("initial", f, g, "%s exposes a %s variable" % (name, m[0]), "initial|%s|extype" % t, P)
        if not on and not ends: c.note("%s never returns" % name)
