"""C38: decimated simulators step and exchange values only at their own rate."""
from travel import *
import math, re
RULE = """
Constants are propagated through the inlined members of fixed_step_algorithm; one simulator, one function and one connection at a time are
followed through the tables, with given decimation factors, and the step counter is carried over from one step to the next.
(step) For factor n, do_step steps the simulator with n times the base step exactly in steps 0, n, 2n..., and reports it finished exactly at
the end of steps n-1, 2n-1...
(exchange) A value travels over a connection exactly in the steps that end at a multiple of both ends' factors; a function is calculated
exactly at multiples of its factor.
(function) After set_stepsize_decimation_factor, connect_variables, disconnect_variable, remove_simulator and add_function the factor
of a function is the least common multiple of the factors of the simulators it feeds (1 if there are none).
(history) The same, and the values themselves, in whole histories with structured values (fsahist.py, see C43).
(positive) The factor set by add_simulator and set_stepsize_decimation_factor is at least one: a step size that is a multiple of the base
step gets that multiple, none or a smaller one gets 1, and factors below one are refused.
"""
ASSUME = ["the base step is positive (checked by the constructor, C25)", "std::lcm, std::div and std::max compute what they are documented to compute",
          "tasks given to the thread pool are run exactly once before wait_for_tasks_to_finish returns (C08)"]
FSA = "cosim::fixed_step_algorithm"
INT = re.compile(r"^(const )?(unsigned |signed )?(int|long|short|long long|std::u?int\d+_t|std::size_t|char)( int)?$")
BASE = 10
SETS = re.compile(r"^cosim::(manipulable|simulator|function)::set_(real|integer|boolean|string)$")
P = object()

class M38(Trav):
    def __init__(self, g, m, fac, seq, tgt_is_S=False):
        self.m, self.fac, self.seq, self.tgtS = m, fac, seq, tgt_is_S
        self.undecided = []
        super().__init__(g, {}, None, log38, True, M38.more)
        self.assume, self.loop, self.effect = M38.assume38, M38.loop_, M38.effect_
    # ---------------------------------------------------------------- places
    def side(self, t):
        """Which table an element comes from."""
        for x in subterms(t):
            if x[0] in ("elem", "at", "find", "get", "back") and len(x) > 1:
                for y in subterms(x[1]):
                    if y[0] == "f" and y[2] == self.m.S and y[1] != ("this",) or y == ("f", ("this",), self.m.S): return "S"
                    if y[0] == "f" and y[2] == self.m.F and y[1] != ("this",) or y == ("f", ("this",), self.m.F): return "F"
        return None
    def outer(self, t):
        """Like side, for the outermost table."""
        x = t
        while isinstance(x, tuple) and x:
            if x[0] in ("elem", "at", "find", "get", "back"):
                y = x[1]
                if isinstance(y, tuple) and y and y[0] == "f":
                    if y[2] == self.m.S: return "S", x
                    if y[2] == self.m.F: return "F", x
            x = x[1] if len(x) > 1 and isinstance(x[1], tuple) else None
        return None, None
    def keyof(self, t):
        if t is None: return None
        if t[0] == "f":
            s, x = self.outer(t[1])
            if t[2] == self.m.facname.get(s) and s:
                return None if self.role(x) else ("fac", s)
            if s and t[2] in self.m.cons[s]: return ("con", s, t[2])
            if root(t) == ("this",) and t[2] in self.m.fields: return ("f", ("this",), t[2])
        return Trav.keyof(t)
    def role(self, x):
        """The end of a connection an element was looked up for: (role, loop id)."""
        if x[0] not in ("at", "find", "get") or len(x) < 3: return None
        for y in subterms(x[2]):
            if y[0] == "f" and y[2] in self.m.roles:
                z = y
                while isinstance(z, tuple) and z and z[0] not in ("elem", "at", "back"): z = z[1] if len(z) > 1 else None
                if z and z[0] == "elem": return self.m.roles[y[2]], z[2] if len(z) > 2 else None
                if z and z[0] == "at" and len(z) > 2 and z[2][:1] == ("int",): return self.m.roles[y[2]], ("first",) if z[2][1] == "0" else None
                if z and z[0] == "back": return self.m.roles[y[2]], ("last",)
                return self.m.roles[y[2]], None
        return None
    def caseval(self, t):
        if t[0] == "enum" and self.m.vtype is not None: return ("vtype", str(t[1]).split("::")[-1])
        return super().caseval(t)
    def ev(self, e, fr, env, depth=0):
        if isinstance(e, dict):
            if e["k"] in ("mem", "ref") and self.m.vtype is not None and re.sub(r"^const | ?&$", "", e.get("t") or "") == "cosim::variable_type":
                if e.get("dk") == "enum": return ("vtype", e["n"])
                if e["k"] == "mem" or e.get("dk") != "local": return ("vtype", self.m.vtype)
            if e["k"] == "mem":
                if e.get("q") in self.m.facq:
                    t = self.g.T(e, fr)
                    s, x = self.outer(t[1]) if t[0] == "f" else (None, None)
                    if s is None: return super().ev(e, fr, env, depth)
                    r = self.role(x)
                    if r is None:
                        if "new" in self.fac and s == "S" and x[0] in ("at", "find", "get") and len(x) > 2 and any(y[0] == "p" and y[1] == 1 for y in subterms(x[2])): return self.fac["new"]
                        return env.get(("fac", s))
                    if r[0] == "source": return self.fac.get("source")
                    pos = min(1, env.get(("n",), 0)) if r[1] == ("first",) else env.get(("n",), 0) if r[1] == ("last",) else env.get(("pos", r[1]))
                    if pos is None: return None
                    v = self.seq[pos - 1] if 0 < pos <= len(self.seq) else None
                    return env.get(("fac", "S")) if v is P else v
                if e["n"] in ("quot", "rem"):
                    v = self.ev(e["b"], fr, env, depth + 1)
                    if isinstance(v, tuple) and v[:1] == ("div",): return v[1 if e["n"] == "quot" else 2]
            if e["k"] == "ref" and fr is not None and e.get("dk") == "param":
                t = self.g.T(e, fr)
                if t[0] == "acc": return env.get(t)
        return super().ev(e, fr, env, depth)
    def binop(self, op, a, b):
        num = lambda x: isinstance(x, int)
        if op in ("%", "/") and num(a) and num(b):
            if b == 0: return UNK
            q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
            return q if op == "/" else a - q * b
        return super().binop(op, a, b)
    def compound(self, op, old, d, env):
        if isinstance(old, int) and isinstance(d, int) and op not in ("++", "--", "+=", "-="): return self.binop(op[:-1], old, d)
        if isinstance(old, int) and d == 1: return old + 1 if op[0] == "+" else old - 1
        return super().compound(op, old, d, env)
    @staticmethod
    def more(ai, e, fr, env):
        if e["k"] != "call": return NotImplemented
        fn, A = e.get("fn") or "", [a for a in e.get("a") or [] if a["k"] != "defarg"]
        nm = last_(fn)
        if e.get("op") in ("%", "/", "*") and len(A) + (e.get("obj") is not None) == 2:
            a, b = [ai.ev(x, fr, env) for x in ([e["obj"]] if e.get("obj") is not None else []) + A]
            return ai.binop(e["op"], a, b)
        if fn.startswith("std::") and nm in ("lcm", "gcd", "max", "min", "div", "ldiv", "lldiv", "abs") and e.get("obj") is None:
            v = [ai.ev(a, fr, env) for a in A]
            if len(v) == 1 and nm == "abs": return abs(v[0]) if isinstance(v[0], int) else None
            if len(v) != 2 or not all(isinstance(x, int) for x in v): return None
            if nm in ("div", "ldiv", "lldiv"):
                q = ai.binop("/", *v)
                return ("div", q, ai.binop("%", *v)) if q != UNK else UNK
            return {"lcm": math.lcm, "gcd": math.gcd, "max": max, "min": min}[nm](*v)
        if nm in ("div", "ldiv", "lldiv") and len(A) == 2:
            v = [ai.ev(a, fr, env) for a in A]
            if all(isinstance(x, int) for x in v) and v[1]: return ("div", ai.binop("/", *v), ai.binop("%", *v))
            return None
        if nm == "zero" and "duration" in fn: return 0
        if nm in ("duration_cast",) and A: return ai.ev(A[0], fr, env)
        if fn in ("std::accumulate", "std::reduce"):
            for lp in ai.g.loops:
                if lp.kind == "algo" and lp.stmt is e: return env.get(("acc", lp.head.id))
            return None
        if e.get("obj") is not None and nm in ("empty", "size"):
            k = ai.lkey(e["obj"], fr, env)
            if isinstance(k, tuple) and k[:1] == ("con",):
                n = env.get(("n",), 0) if k == ai.m.follow else 0
                return n == 0 if nm == "empty" else n
        return NotImplemented
    # ---------------------------------------------------------------- loops
    def visit(ai, n, lp, lab, env):
        C = ai.g.container(lp) if lp is not None else None
        if C is None or lab not in ("T", "F"): return env
        k = ai.keyof(C)
        if lp.kind == "algo" and lp.algo in ("std::accumulate", "std::reduce") and ("in", n.id) not in env:
            env = dict(env); env[("in", n.id)] = True
            A = lp.stmt["a"]
            v = ai.ev(A[2], lp.fr, env) if len(A) > 2 else None
            if v is None: env.pop(("acc", n.id), None)
            else: env[("acc", n.id)] = v
        if lab == "F" and ("in", n.id) in env: env = dict(env); env.pop(("in", n.id))
        if not (isinstance(k, tuple) and k[:1] == ("con",)): return Trav.visit(ai, n, lp, lab, env)
        cnt = env.get(("n",), 0) if k == ai.m.follow else 0
        pos = env.get(("pos", n.id), 0)
        env = dict(env)
        if lab == "F":
            if pos < cnt: return None
            env.pop(("pos", n.id), None); env.pop(("cur", n.id), None)
            return env
        if pos >= cnt: return None
        env[("pos", n.id)] = pos + 1
        env[("cur", n.id)] = True
        return env
    @staticmethod
    def loop_(ai, n, lab, env): return ai.visit(n, n.d.get("loop"), lab, env)
    @staticmethod
    def effect_(ai, n, env):
        env2 = dict(env)
        if n.k == "ret" and n.fr is not None:
            for v in n.fr.vars.values():
                ds = v.defs
                if len(ds) == 1 and isinstance(ds[0][2], tuple) and ds[0][2][:1] == ("acc",):
                    r = env.get(("RET", n.fr.id))
                    k = ("acc", ds[0][2][1].head.id)
                    if r is None: env2.pop(k, None)
                    else: env2[k] = r
        if n.k == "call" and n.e is not None and n.e["k"] == "call":
            e, nm = n.e, last_(n.e.get("fn"))
            o = e.get("obj") if e.get("obj") is not None else (e.get("a") or [None])[0] if e.get("fn") in ("std::erase_if", "std::erase") else None
            if o is not None:
                k = ai.lkey(o, n.fr, env)
                if isinstance(k, tuple) and k == ai.m.follow:
                    c = env.get(("n",), 0)
                    if nm in ADD: env2[("n",)] = min(c + 1, 3)
                    elif nm in ("erase", "erase_if", "pop_back"): env2[("n",)] = max(c - 1, 0)
                    elif nm == "clear": env2[("n",)] = 0
        r = Trav.effect_(ai, n, env2)
        r = r if r is not None else env2
        r.pop(("dead",), None)
        return r
    def go(self, env0):
        return self.run(env0, edge=lambda n, lab, m: not (n.k == "switch" and isinstance(lab, tuple) and lab[0] == "default" and self.g.covers_enum(n)))
    @staticmethod
    def assume38(ai, n, lab, env):
        if n.k == "branch" and n.e is not None and n.fr is not None and lab in ("T", "F") and n not in ai.starts and truth(ai.ev(n.e, n.fr, env)) is None:
            st = [n.e]
            while st:
                x = st.pop()
                if not isinstance(x, dict): continue
                if x["k"] == "bin" and x["op"] in ("%", "/") or x.get("q") in ai.m.facq or x["k"] == "mem" and INT.match(x.get("t") or "") and x["n"] in ai.m.ints or x["k"] in ("ref",) and x.get("dk") in ("local",) and INT.match(x.get("t") or ""): ai.undecided.append(n); break
                for kk in ("e", "a", "b", "c", "obj"):
                    y = x.get(kk)
                    st += y if isinstance(y, list) else [y]
        return Trav.assume_(ai, n, lab, env)

def log38(ai, n, e, env):
    fn = e.get("fn") or ""
    A = [a for a in e.get("a") or [] if a["k"] != "defarg"]
    if fn in ("cosim::simulator::do_step",) and len(A) == 2: return ("step", ai.ev(A[1], n.fr, env))
    if fn == "cosim::function::calculate": return ("calc",)
    if SETS.match(fn): return ("xfer",)
    if e.get("obj") is not None and re.match(r"^(const )?std::(unordered_)?set<int", (e["obj"].get("t") or "")) and last_(fn) in ADD and ai.termE(A[-1] if A else None, n.fr, env): return ("fin",)
    return None

class Model: pass

def check(c):
    db = c.db
    m = Model()
    # --------------------------------------------- the tables, by their types
    fs = [f for f in db.byq.get(FSA + "::do_step", []) if f.get("body") is not None]
    if not fs: c.need("step", 1); return
    recs = {q: r for q, r in db.R.items() if q.startswith(FSA)}
    info = {}
    for q, r in recs.items():
        for f in r["fields"]:
            for s, t in (("S", "cosim::simulator *"), ("F", "cosim::function *")):
                if f["t"].replace("const", "").strip().startswith(t): info.setdefault(s, []).append((q, r))
    if set(info) != {"S", "F"} or any(len(x) != 1 for x in info.values()): c.note("the tables of simulators and functions are not recognised"); c.need("step", 1); return
    m.facname, m.facq, m.init, m.cons = {}, {}, {}, {}
    for s, [(q, r)] in info.items():
        ints = [f for f in r["fields"] if INT.match(f["t"])]
        if len(ints) > 1: ints = [f for f in ints if re.search("fac|decim", f["n"], re.I)] or ints
        if len(ints) != 1: c.note("the decimation factor of %s is not recognised" % q); c.need("step", 1); return
        m.facname[s] = ints[0]["n"]; m.facq[ints[0].get("q") or q + "::" + ints[0]["n"]] = s
        i = ints[0].get("init")
        m.init[s] = int(i["v"]) if isinstance(i, dict) and i.get("k") == "int" else (0 if i is None else None)
        m.cons[s] = {f["n"]: f["t"] for f in r["fields"] if CONT.match(f["t"])}
    impl = None
    for q, r in recs.items():
        fn = {}
        for f in r["fields"]:
            for s in info:
                if CONT.match(f["t"]) and re.search(r"\b%s\b" % re.escape(info[s][0][0]), f["t"]): fn[s] = f["n"]
        if len(fn) == 2: impl, m.S, m.F = r, fn["S"], fn["F"]
    if impl is None: c.note("the tables of simulators and functions are not recognised"); c.need("step", 1); return
    m.fields = {f["n"] for f in impl["fields"]}
    m.ints = m.fields | {f["n"] for s in info for f in info[s][0][1]["fields"]}
    m.follow = m.vtype = None
    # --------------------------------------------- which end of a connection a field names
    m.roles = {}
    for f in db.byq.get(FSA + "::connect_variables", []):
        if f.get("body") is None: continue
        g = c.graph(f, track_all=True)
        for n in g.live():
            if n.k != "call" or n.e.get("obj") is None or last_(n.e.get("fn")) not in ADD: continue
            A = n.e["a"]
            x, fr = origin(g, A[-1], n.fr) if A else (None, None)
            while isinstance(x, dict) and x["k"] in ("ctor", "icast", "cast") and not x.get("fields") and (len(x.get("a") or []) == 1 or x.get("e")): x, fr = origin(g, x["a"][0] if x.get("a") else x["e"], fr)
            if not isinstance(x, dict) or not x.get("fields"): continue
            for name, v in zip(x["fields"], x["a"]):
                w, wf = origin(g, v, fr)
                while isinstance(w, dict) and w["k"] == "ctor" and len(w.get("a") or []) == 1: w, wf = origin(g, w["a"][0], wf)
                t = g.T(w, wf) if isinstance(w, dict) else None
                if t and t[0] == "p": m.roles[name if isinstance(name, str) else name.get("n")] = ("source", "target")[t[1]]
    if set(m.roles.values()) != {"source", "target"}: c.note("the ends of connections are not recognised"); c.need("step", 1); return
    base = {("f", ("this",), f["n"]): BASE for f in impl["fields"] if re.match(r"^(const )?std::chrono::duration<", f["t"])}
    for f in impl["fields"]:
        i = f.get("init")
        if INT.match(f["t"]) and isinstance(i, dict) and i.get("k") == "int": base[("f", ("this",), f["n"])] = int(i["v"])
    def loc(f): return "%s:%s" % (db.rel(f), f["l"])
    seen = set()
    def V(rule, f, g, msg, key, r=None):
        if key in seen: return
        seen.add(key)
        c.viol(rule, loc(f), msg, key=key, path=r[2][0].path(r[2][1]) if r else None, g=g)
    def run(g, st, fac, seq, all_ends=False):
        ai = M38(g, m, fac, seq)
        res = []
        for n, e, key in ai.go(st):
            if n is not g.exit: continue
            if not all_ends and any(x.k in ("throw", "term") for x in ai.path(key)): continue
            res.append((e, e.get(("log",), ()), (ai, key)))
        if ai.exceeded: c.note("too many states")
        return res, ai
    def keep(e): return {k: v for k, v in e.items() if k in base}
    # ------------------------------------------------------------------ steps
    f = fs[0]
    g = c.graph(f, track_all=True)
    Sk, Fk = ("f", ("this",), m.S), ("f", ("this",), m.F)
    con = lambda s, pat: [("con", s, n) for n, t in m.cons[s].items() if re.search(pat, t)]
    def ends(s):
        """Connection tables of a side by what they feed."""
        out = {}
        for n, t in m.cons[s].items():
            for q, r in recs.items():
                if re.search(r"\b%s\b" % re.escape(q), t) and r.get("fields"):
                    for x in r["fields"]:
                        if m.roles.get(x["n"]) == "target": out["F" if "function_io_id" in x["t"] else "S"] = ("con", s, n)
        return out
    links = [(s, t, k) for s in ("S", "F") for t, k in ends(s).items()]
    if {(s, t) for s, t, k in links} != {("S", "S"), ("S", "F"), ("F", "S")}: c.note("the tables of connections are not recognised: %s" % [(s, t) for s, t, k in links])
    names = {"S": "simulator", "F": "function"}
    def series(s, a, follow, b, judge):
        """do_step six times for one simulator or function with factor a, and one connection to something with factor b."""
        m.follow = follow
        states = [dict(base)]
        for j in range(6):
            nxt = []
            for st0 in states:
                st = dict(st0)
                st.update({Sk: IN if s == "S" else OUT, Fk: IN if s == "F" else OUT, ("fac", s): a, ("n",): 1 if follow else 0})
                rs, ai = run(g, st, {"source": a}, [b])
                if not rs: c.note("do_step never ends normally"); return
                bad = []
                for r in rs:
                    v = judge(j, r[1])
                    if v: bad.append((v, r))
                if bad and (len(bad) == len(rs) or not ai.undecided): return bad[0], j
                if bad or ai.undecided: c.note("a condition on factors is not decided (%s)" % sorted({"%s" % g.db.where(n.fr.fn, n.l) for n in ai.undecided})); 
                for r in rs:
                    k = keep(r[0])
                    if k not in nxt: nxt.append(k)
            states = nxt[:4]
        return None
    for a in (1, 2, 3):
        c.ob("step", "simulator with factor %d, six steps" % a)
        def judge(j, log):
            st = [x for x in log if x[0] == "step"]
            if j % a == 0:
                if not st: return "is not stepped in step %d" % j, "notstepped"
                if len(st) > 1: return "is stepped twice in step %d" % j, "twice"
                if st[0][1] is not None and st[0][1] != a * BASE: return "is stepped by %s instead of %d times the base step" % (("%g times the base step" % (st[0][1] / BASE)) if isinstance(st[0][1], int) else "something else", a), "dt"
            elif st: return "is stepped in step %d, in the middle of its own step" % j, "early"
            fin = [x for x in log if x[0] == "fin"]
            if bool(fin) != ((j + 1) % a == 0): return ("is reported finished after step %d, in the middle of its own step" if fin else "is not reported finished after step %d, where its own step ends") % j, "finished"
        r = series("S", a, None, 1, judge)
        if r: V("step", f, g, "a simulator with factor %d %s" % (a, r[0][0][0]), "step|" + r[0][0][1], r[0][1])
    for s, t, k in links:
        for a, b in ((1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (3, 2), (1, 3)):
            if s == "F" and a % b: continue     # a function's factor is a multiple of its targets'
            c.ob("exchange", "%s with factor %d to %s with factor %d, six steps" % (names[s], a, names[t], b))
            def judge(j, log):
                x = [y for y in log if y[0] == "xfer"]
                want = (j + 1) % a == 0 and (j + 1) % b == 0
                if len(x) > 1: return "is transferred twice at the end of step %d" % j, "twice"
                if bool(x) != want: return ("is transferred at the end of step %d" if x else "is not transferred at the end of step %d") % j, "transferred" if x else "missing"
                if s == "F" and bool([y for y in log if y[0] == "calc"]) != ((j + 1) % a == 0): return "belongs to a function which is%s calculated at the end of step %d" % (" not" if want else "", j), "calc"
            r = None
            for m.vtype in ("real", "integer", "boolean", "string") if (a, b) == (1, 1) or s == "F" and b == 2 else ("real",): r = r or series(s, a, k, b, judge)
            m.vtype = None
            if r: V("exchange", f, g, "a connection from a %s with factor %d to a %s with factor %d %s" % (names[s], a, names[t], b, r[0][0][0]), "exchange|%s%s|%s" % (s, t, r[0][0][1]), r[0][1])
    # ------------------------------------------------------------------ the factors of functions
    fk = next((k for s, t, k in links if (s, t) == ("F", "S")), None)
    m.follow = fk
    lcm = lambda seq: math.lcm(*seq) if seq else 1
    def members(name, pred=lambda f: True): return [f for f in db.byq.get("%s::%s" % (FSA, name), []) if f.get("body") is not None and pred(f)]
    def setp(g, f, st, i, v):
        pv = g.frames[0].vars.get(f["p"][i]["d"])
        if pv is not None: st[pv.term] = v
        st[("p", i, f["p"][i].get("n"))] = v
    cases = []
    for f2 in members("set_stepsize_decimation_factor"): cases.append((f2, 2, [P, 2], 1, {1: 3}, "set_stepsize_decimation_factor"))
    for f2 in members("connect_variables", lambda f: "function_io_id" in f["p"][0]["t"]): cases += [(f2, 1, [2, 3], 1, {}, "connect_variables"), (f2, 0, [3], 1, {}, "connect_variables")]
    for f2 in members("disconnect_variable", lambda f: "function_io_id" not in f["p"][0]["t"]): cases += [(f2, 2, [2, 3], 1, {}, "disconnect_variable"), (f2, 1, [3], 1, {}, "disconnect_variable")]
    for f2 in members("remove_simulator"): cases += [(f2, 2, [2, 3], 1, {}, "remove_simulator"), (f2, 1, [3], 1, {}, "remove_simulator")]
    for f2 in members("add_function"): cases.append((f2, 0, [], 1, {}, "add_function"))
    if fk is not None:
        for f2, n, seq, S0, ps, name in cases:
            g2 = c.graph(f2, track_all=True)
            c.ob("function", "%s, function feeding %d" % (name, n))
            st = dict(base)
            st.update({Sk: IN, Fk: OUT if name == "add_function" else IN, ("fac", "S"): S0, ("n",): n})
            val = lambda e: [e.get(("fac", "S")) if x is P else x for x in seq[:e.get(("n",), 0)]]
            st[("fac", "F")] = lcm(val(st)) if name != "add_function" else m.init["F"]
            st[("E",)] = tuple(("p", i, p.get("n")) for i, p in enumerate(f2["p"]) if name in ("connect_variables", "add_function") and i == 0)
            for i, v in ps.items(): setp(g2, f2, st, i, v)
            rs, ai = run(g2, st, {"new": seq[n]} if name == "connect_variables" else {}, seq)
            if not rs: c.note("%s never ends normally" % name)
            bad = []
            for r in rs:
                e = r[0]
                want, have = lcm([x for x in val(e) if x is not None]), e.get(("fac", "F"))
                if None in val(e): c.note("%s: the factor of a simulator is not followed" % name); continue
                if have is None: c.note("%s: the factor of a function is not followed" % name); continue
                if have != want: bad.append((r, want, have))
            if bad and (len(bad) == len(rs) or not ai.undecided):
                r, want, have = bad[0]
                V("function", f2, g2, "after %s the factor of a function is %s where the least common multiple of the factors of the simulators it feeds is %d" % (name, have if have else "not set", want), "function|" + name, r)
    # ------------------------------------------------------------------ factors are positive
    m.follow = m.vtype = None
    for f2 in members("add_simulator"):
        g2 = c.graph(f2, track_all=True)
        hi = [i for i, p in enumerate(f2["p"]) if "duration" in p["t"]]
        if not hi: c.note("add_simulator takes no step size"); continue
        for hint, want in ((0, {1}), (1, {1}), (4, {1}), (9, {1}), (10, {1}), (20, {2}), (25, {2, 3}), (30, {3}), (70, {7})):
            c.ob("positive", "step size %g times the base step" % (hint / BASE))
            st = dict(base)
            st.update({Sk: OUT, Fk: OUT, ("fac", "S"): m.init["S"]})
            st[("E",)] = (("p", 0, f2["p"][0].get("n")),)
            setp(g2, f2, st, hi[0], hint)
            rs, ai = run(g2, st, {}, [])
            if not rs: c.note("add_simulator never ends normally")
            for r in rs:
                v = r[0].get(("fac", "S"))
                if v is None or not isinstance(v, int): c.note("add_simulator: the factor is not followed"); continue
                if v < 1: V("positive", f2, g2, "a simulator with a step size of %g times the base step gets the factor %d" % (hint / BASE, v), "positive|add", r)
                elif v not in want: V("positive", f2, g2, "a simulator with a step size of %g times the base step gets the factor %d" % (hint / BASE, v), "rate|add", r)
    for f2 in members("set_stepsize_decimation_factor"):
        g2 = c.graph(f2, track_all=True)
        for v in (-4, -1, 0, 1, 2, 5):
            c.ob("positive", "set_stepsize_decimation_factor(%d)" % v)
            st = dict(base)
            st.update({Sk: IN, Fk: OUT, ("fac", "S"): 4})
            setp(g2, f2, st, 1, v)
            st[("E",)] = (("p", 0, f2["p"][0].get("n")),)
            rs, ai = run(g2, st, {}, [], True)
            for r in rs:
                x = r[0].get(("fac", "S"))
                if isinstance(x, int) and x < 1: V("positive", f2, g2, "set_stepsize_decimation_factor(%d) sets the factor %d" % (v, x), "positive|set", r)
                elif isinstance(x, int) and v >= 1 and x != v and not any(y.k in ("throw", "term") for y in ai.path(r[2][1])): V("positive", f2, g2, "after set_stepsize_decimation_factor(%d) the factor is %d" % (v, x), "rate|set", r)
    import fsahist
    fsahist.histories(c, db, "history", {"rate"}, {"step", "calc", "rate", "ret", "order"})
    c.need("step", 3); c.need("exchange", 17); c.need("function", 8); c.need("positive", 15)
