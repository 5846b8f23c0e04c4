"""C33: injecting a system structure."""
from travel import *
RULE = """
inject_system_structure, with its helpers inlined up to the public members of execution and system_structure, is run on symbolic
structures of two or three entities, up to two connections and two initial values, in every combination of entity kinds, connection kinds
and value types that occurs.  On every way to the normal exit each simulator is added once, with its own name, step size and an
instance made for that name, each function once with its own parameters, each connection once with the two variables that source
and target designate, and each initial value once with the setter of its type; connections and values come after the entities they refer to.
The index returned for an entity is stored under its name in the map of its kind, which is the one that is returned.  An
initial value for something else than a simulator variable is refused.
"""
ASSUME = ["system_structure holds only connections and entities it has accepted (C11)", "execution's members do what C09 and C39 say"]
EX, SS = "cosim::execution::", "cosim::system_structure::"
SET = {"double": "set_real_initial_value", "int": "set_integer_initial_value", "bool": "set_boolean_initial_value", "string": "set_string_initial_value"}
VOCAB = {"description", "zero", "size", "get_variable_description", "get_function_io_description", "instantiate", "add_slave", "add_function", "entities", "connections"}
SAME = re.compile(r"^std::(move|forward|as_const|ref|cref)$|basic_string(_view)?(<.*>)?::(operator .*|basic_string(_view)?)$|^std::(__cxx11::)?(basic_)?string(_view)?$")

def tshort(t):
    t = (t or "").replace("const ", "").rstrip(" &*")
    return "string" if "basic_string" in t else t

class M33(AI):
    def __init__(self, g, sc):
        self.sc = sc
        self.bad = []
        super().__init__(g, self.cellf, M33.call_, M33.eff_, None, 60000, M33.loop_)
        self.altf = self.alt_
    def cellf(self, t): return t if t is not None and t[0] == "v" else None
    # ------------------------------------------------------------------ terms
    def kind(self, C):
        if C is None: return None
        C = self.strip(C)
        if C[:2] == ("p", 2): return "V"
        if C[0] == "call" and C[1] == SS + "entities": return "E"
        if C[0] == "call" and C[1] == SS + "connections": return "C"
        return None
    def strip(self, t):
        while isinstance(t, tuple) and t:
            if t[0] == "call" and SAME.search(str(t[1])): t = next((x for x in t[2:] if x is not None), None); continue
            if t[0] == "new" and len(t) > 2 and isinstance(t[2], tuple) and len(t[2]) == 1 and ("basic_string" in str(t[1]) or "variable_id" in str(t[1])) and not isinstance(t[2][0][0] if t[2][0] else None, str): t = t[2][0]; continue
            break
        return t
    def canon(self, t, env, depth=0):
        """The term with the elements named by position, and variables by what they hold."""
        if not isinstance(t, tuple) or not t or depth > 30: return t
        if t[0] == "v" and t in env:
            v = env[t]
            return v[1] if isinstance(v, tuple) and v[:1] == ("sym",) else t
        if t[0] == "elem":
            k = self.kind(t[1])
            if k is not None:
                p = env.get(("pos", t[2]))
                return (k, p - 1 if p is not None else None)
            c = self.canon(t[1], env, depth + 1)
            return ("elem", c, t[2])
        t = self.strip(t)
        if not isinstance(t, tuple) or not t: return t
        if t[0] in ("elem", "v"): return self.canon(t, env, depth + 1)
        if t[0] == "f" and t[2] == "second" and t[1][0] == "find": return ("at",) + tuple(self.canon(x, env, depth + 1) for x in t[1][1:3])
        if t[0] in ("get", "alt") and len(t) > 2: return self.altern(self.canon(t[1], env, depth + 1), tshort(str(t[2])))
        if t[0] == "call" and last(str(t[1])) in ("get", "get_if") and len(t) > 3: return self.altern(self.canon(t[3], env, depth + 1), None)
        return tuple(self.canon(x, env, depth + 1) if isinstance(x, tuple) else x for x in t)
    def altern(self, t, ty):
        # which alternative of an initial value is looked at is decided by the branches
        return ("alt", t, self.sc["V"][t[1][1]] if t[0] == "f" and t[2] == "second" and t[1][0] == "V" and t[1][1] is not None else ty)
    def resolved(self, t):
        st = [t]
        while st:
            x = st.pop()
            if not isinstance(x, tuple) or not x: continue
            if x[0] in ("unk", "cond", "ret", "lambda", "mut", "obj"): return False
            if x[0] == "v" and not self.maps(x): return False
            if x[0] == "call":
                if last(str(x[1])) not in VOCAB: return False
                st += x[3:]         # whatever it is called for
                continue
            if x[0] in ("E", "C", "V") and len(x) == 2 and x[1] is None: return False
            st += [y for y in x if isinstance(y, tuple)]
        return True
    def maps(self, v): return any(w.term == v and "entity_index_maps" in (w.t or "") for f in self.g.frames for w in f.vars.values())
    # ----------------------------------------------------------------- values
    def ev(self, e, fr, env, depth=0):
        r = super().ev(e, fr, env, depth)
        if r is None and isinstance(e, dict) and e["k"] == "ref" and e.get("dk") in ("local", "param") and depth < 30:
            # what get_if and the like are given the address of does not change
            v = fr.lookup(e["d"])
            ds = [d for d in v.defs if d[1] != "mut"] if v is not None else []
            if len(ds) == 1 and ds[0][1] in ("init", "param") and ds[0][2] is not None: r = self.ev(ds[0][2], ds[0][3], env, depth + 1)
        if r is None and isinstance(e, dict) and e["k"] in ("ref", "mem", "call", "ctor", "sub"):
            t = self.g.T(e, fr)
            if t is not None:
                t = self.canon(t, env)
                if isinstance(t, tuple) and any(x[0] in ("E", "C", "V") and len(x) == 2 for x in subterms(t)) and self.resolved(t): return ("sym", t)
        return r
    def binop(self, op, a, b):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, tuple) and x[:1] == ("sym",):
                q = self.group(x[1])
                if q is not None and isinstance(y, tuple) and y in (("str", ""),) and op in ("==", "!="): return (not q) == (op == "==")
                return None
        return super().binop(op, a, b)
    def group(self, t):
        """Does this name a non-empty group?"""
        if t[0] == "f" and t[2] == "variable_group_name":
            b = t[1]
            if b[0] == "f" and b[2] in ("source", "target") and b[1][0] == "C": return self.sc["C"][b[1][1]][b[2] == "target"] == "f"
            if b[0] == "f" and b[2] == "first" and b[1][0] == "V": return self.sc["V"][b[1][1]] == "function"
        return None
    def alternative(self, t, ty):
        """Is this alternative of the variant the current one?  None: not known."""
        if t[0] == "f" and t[2] == "type" and t[1][0] == "E":
            k = self.sc["E"][t[1][1]]
            if "cosim::model>" in ty: return k == "sim"
            if "cosim::function_type>" in ty: return k == "fun"
        if t[0] == "f" and t[2] == "second" and t[1][0] == "V": return self.sc["V"][t[1][1]] == tshort(ty)
        return None
    @staticmethod
    def call_(ai, e, fr, env):
        if e["k"] != "call": return NotImplemented
        fn, A = e.get("fn") or "", e.get("a") or []
        if last(fn) in ("get_if", "holds_alternative") and A:
            v = ai.ev(A[0], fr, env)
            if isinstance(v, tuple) and v[:1] == ("sym",):
                ty = e.get("t") or "" if last(fn) == "get_if" else str(e.get("ta") or "")
                q = ai.alternative(v[1], ty)
                if q is not None: return q if last(fn) != "get_if" else ("tok", "alternative") if q else NULL
            return None
        if last(fn) in ("empty", "size", "length") and e.get("obj") is not None:
            v = ai.ev(e["obj"], fr, env)
            if isinstance(v, tuple) and v[:1] == ("sym",):
                q = ai.group(v[1])
                if q is not None: return (not q) if last(fn) == "empty" else int(q)
            k = ai.kind(ai.g.T(e["obj"], fr))
            o = ai.g.obj_of(e, fr) if hasattr(ai.g, "obj_of") else ai.g.T(e["obj"], fr)
            if o is not None and o[0] == "f" and o[2] in ("simulators", "functions") and ai.maps(o[1]):
                n = len({x[2] for x in env["LOG"] if x[0] == "index" and x[1] == o[2] and x[4] == o[1]})
                return n == 0 if last(fn) == "empty" else n
            if k is not None: return len(ai.sc[k]) == 0 if last(fn) == "empty" else len(ai.sc[k])
        return NotImplemented
    def alt_(self, n, lab, env):
        if not (isinstance(lab, tuple) and lab[0] == "alt"): return env
        A = n.e.get("a") or []
        for a in A[1:]:
            t = self.canon(self.g.T(a, n.fr), env)
            q = self.alternative(t, lab[1]) if isinstance(t, tuple) else None
            if q is not None: return env if q else None
        return env
    @staticmethod
    def loop_(ai, n, lab, env):
        lp = n.d.get("loop")
        if lp is None or lab not in ("T", "F"): return env
        C = ai.g.container(lp)
        if C is None: return env
        k = ai.kind(C)
        if k is None:
            d = ai.g.deep(C)
            k = ai.kind(d)
        if k is None: ai.bad.append(n); return env
        cnt = len(ai.sc[k])
        env = dict(env)
        pos = env.get(("pos", n.id), 0)
        if lab == "T":
            if pos >= cnt: return None
            env[("pos", n.id)] = pos + 1
            return env
        if pos < cnt: return None
        env.pop(("pos", n.id), None)
        return env
    @staticmethod
    def eff_(ai, n, env):
        g = ai.g
        if n.k == "write":
            p = g.place(n)
            if p is not None and p[0] in ("at", "sub", "idx") and len(p) > 2 and p[1][0] == "f" and p[1][2] in ("simulators", "functions") and n.d.get("val") is not None:
                return ai.add(env, ("index", p[1][2], ai.canon(p[2], env), ai.canon(g.T(n.d["val"], n.fr), env), p[1][1], n))
            return None
        if n.k != "call": return None
        fn, A = n.e.get("fn") or "", n.e.get("a") or []
        nm = last(fn)
        if fn.startswith(EX) and (nm in ("add_slave", "add_function", "connect_variables") or nm in SET.values()):
            return ai.add(env, (nm,) + (tuple(ai.canon(g.T(a, n.fr), env) for a in A), ai.canon(g.obj(n), env), n))
        if n.e.get("obj") is not None and nm in ADD | {"operator[]"}:
            o = g.obj(n)
            if o is not None and o[0] == "f" and o[2] in ("simulators", "functions") and nm != "operator[]":
                xs = [ai.canon(g.T(a, n.fr), env) for a in A]
                if len(xs) == 1:
                    x = xs[0]
                    if x[0] == "call" and last(str(x[1])) == "make_pair": xs = list(x[3:])
                    elif x[0] == "new" and len(x) > 2 and len(x[2]) == 2: xs = [y[1] if isinstance(y[0], str) and len(y) == 2 and y[0] in ("first", "second") else y for y in x[2]]
                if len(xs) == 2: return ai.add(env, ("index", o[2], xs[0], xs[1], o[1], n))
                ai.bad.append(n)
        return None
    def add(self, env, x):
        env = dict(env)
        env["LOG"] = env["LOG"] + (x,)
        return env

def check(c):
    fs = [f for f in c.fns("cosim::inject_system_structure") if len(f["p"]) == 3]
    stop = re.compile(r"^cosim::(execution|system_structure|model|function_type)::")
    for f in fs:
        g = c.graph(f, track_all=True, stop=lambda x: stop.search(x["q"]) is not None)
        inject(c, f, g)
    c.need("added once", 4); c.need("refused", 1)

def F(b, *names):
    for n in names: b = ("f", b, n)
    return b

def inject(c, f, g):
    sysp, exe = ("p", 1, f["p"][1]["n"]), ("p", 0, f["p"][0]["n"])
    def run(sc):
        ai = M33(g, sc)
        c.queries += 1
        res = [(env["LOG"], key) for n, env, key in ai.run({"LOG": ()}, edge=lambda n, l, m: l not in ("exc", "term")) if n is g.exit]
        return ai, res
    E2 = [("sim", "fun", "sim"), ("fun", "sim", "fun"), ("sim", "sim")]
    scs = [dict(E=e, C=(), V=()) for e in E2 + [("fun", "fun")]]
    scs += [dict(E=("sim", "fun"), C=x, V=()) for x in (("ss", "sf"), ("fs", "ss"), ("sf", "fs"), ("ss", "ss"))]
    scs += [dict(E=("sim", "fun"), C=("ss",), V=x) for x in (("double", "int"), ("bool", "string"), ("int", "bool"), ("string", "double"), ("double", "double"))]
    for sc in scs:
        what = "entities %s, connections %s, initial values %s" % tuple(", ".join(sc[k]) or "none" for k in "ECV")
        c.ob("added once", what)
        ai, res = run(sc)
        if ai.exceeded or not res: c.note("%s: not decided" % what); continue
        if ai.bad: c.note("%s: %s is not recognised" % (what, g.at_line(ai.bad[0]))); continue
        verdicts = []
        for log, key in res:
            bad, unsure = judge(c, g, ai, sc, log, sysp, exe)
            verdicts.append((bad, unsure, key))
            for u in unsure: c.note("%s: %s" % (what, u))
        # where something is undecided some of the ways are not real ones
        if all(b for b, u, k in verdicts) or not ai.forked and any(b for b, u, k in verdicts):
            b, u, key = next(v for v in verdicts if v[0])
            for n, msg, k in b:
                c.viol("added once", g.at_line(n) if n is not None else c.db.where(f), "%s: %s" % (what, msg), key=k, path=ai.path(key), g=g)
    # the maps that are returned
    for n, e, fr in [(n, n.e, n.fr) for n in g.live() if n.k == "ret" and n.fr is g.rootfr]:
        while isinstance(e, dict) and (e["k"] in ("icast", "cast") or e["k"] in ("ctor", "init") and len(e.get("a") or []) == 1 or e["k"] == "call" and e.get("fn") == "std::move"): e = e["e"] if e["k"] in ("icast", "cast") else e["a"][0]
        t = g.T(e, fr)
        c.ob("returned", g.at_line(n))
        ai, res = run(dict(E=("sim", "fun"), C=(), V=()))
        roots = {x[4] for log, key in res for x in log if x[0] == "index"}
        if t is not None and (t[0] == "v" and roots and t not in roots or t[0] == "new" and not (isinstance(e, dict) and e["k"] == "ref")):
            c.viol("returned", g.at_line(n), "the maps that are returned are not those the entities have been entered in", key="maps")
    # what is not a simulator variable is refused
    ai, res = run(dict(E=("sim", "fun"), C=(), V=("function",)))
    c.ob("refused", "initial value of a function's variable")
    if res and not ai.forked and not ai.bad:
        c.viol("refused", c.db.where(f), "an initial value for something else than a simulator variable is not refused", key="refused", path=ai.path(res[0][1]), g=g)
    elif res: c.note("initial value of a function's variable: not decided")

def judge(c, g, ai, sc, log, sysp, exe):
    bad, unsure = [], []
    def cmp(got, want, n, msg, key):
        if got == want: return True
        if isinstance(got, tuple) and got and (ai.resolved(got)): bad.append((n, msg, key))
        else: unsure.append(msg + "?")
        return False
    def diff(got, want):
        return "%s instead of %s" % (show_term(got), show_term(want))
    smap = lambda x: x[0] == "f" and x[2] == "simulators"
    adds = {}
    used = set()
    # ---- entities
    for i, k in enumerate(sc["E"]):
        e = ("E", i)
        fn = "add_slave" if k == "sim" else "add_function"
        word = "simulator" if k == "sim" else "function"
        mine = [x for x in log if x[0] in ("add_slave", "add_function") and any(y == e for a in x[1] for y in subterms(a))]
        right = [x for x in mine if x[0] == fn]
        if len(right) != 1 or len(mine) != 1:
            if not mine: bad.append((None, "a %s is not added" % word, "missing|" + k))
            elif not right: bad.append((mine[0][-1], "a %s is added as something else" % word, "kind|" + k))
            else: bad.append((mine[-1][-1], "a %s is added %d times" % (word, len(mine)), "twice|" + k))
            continue
        x = right[0]
        used.add(x)
        a = x[1]
        if x[2] != exe: unsure.append("another execution is used")
        if k == "sim":
            inst = a[0]
            if inst[0] == "call" and last(str(inst[1])) == "instantiate": cmp(inst[-1], F(e, "name"), x[-1], "a simulator is made under another name: " + diff(inst[-1], F(e, "name")), "instantiate")
            if len(a) > 1: cmp(a[1], F(e, "name"), x[-1], "a simulator is added under another name: " + diff(a[1], F(e, "name")), "name")
            if len(a) > 2: cmp(a[2], F(e, "step_size_hint"), x[-1], "a simulator is added with another step size: " + diff(a[2], F(e, "step_size_hint")), "step")
            else: bad.append((x[-1], "a simulator is added without its step size", "step"))
        else:
            inst = a[0]
            if inst[0] == "call" and last(str(inst[1])) == "instantiate": cmp(inst[-1], F(e, "parameter_values"), x[-1], "a function is made with other parameters: " + diff(inst[-1], F(e, "parameter_values")), "parameters")
        call = ("call", EX + fn, exe) + a
        ix = [y for y in log if y[0] == "index" and (y[2] == F(e, "name") or y[3] == call)]
        if not ix: bad.append((x[-1], "the index of a %s is not entered in the map" % word, "index|" + k))
        for y in ix:
            if y[1] != ("simulators" if k == "sim" else "functions"): bad.append((y[-1], "the index of a %s is entered in the map of the others" % word, "map|" + k))
            cmp(y[2], F(e, "name"), y[-1], "the index of a %s is entered under another name: %s" % (word, diff(y[2], F(e, "name"))), "key|" + k)
            cmp(y[3], call, y[-1], "another index is entered for a %s: %s" % (word, show_term(y[3])), "value|" + k)
        adds[i] = x
    # ---- connections
    def sim(v):
        d = ("call", SS + "get_variable_description", sysp, v)
        return {"simulator": ("at", "simulators", F(v, "entity_name")), "type": F(d, "type"), "reference": F(d, "reference")}
    def fun(v):
        d = ("call", SS + "get_function_io_description", sysp, v)
        return {"function": ("at", "functions", F(v, "entity_name")), "type": ("alt", F(d, "description", "type"), "cosim::variable_type"),
                "group": F(d, "group_index"), "group_instance": F(v, "variable_group_instance"), "io": F(d, "io_index"), "io_instance": F(v, "variable_instance")}
    def fields(t):
        """{field: term} of a structure, nested ones flattened."""
        if not (isinstance(t, tuple) and t and t[0] == "new" and len(t) > 2): return None
        out = {}
        for x in t[2]:
            if not (isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], str)): return None
            s = fields(x[1]) if x[0] == "reference" else None
            if s is not None and s: out.update(s)
            else: out[x[0]] = x[1]
        return out
    def mapname(t):
        return ("at", t[1][2], t[2]) if isinstance(t, tuple) and t and t[0] == "at" and len(t) > 2 and t[1][0] == "f" and t[1][2] in ("simulators", "functions") else t
    for i, k in enumerate(sc["C"]):
        e = ("C", i)
        mine = [x for x in log if x[0] == "connect_variables" and any(y == e for a in x[1] for y in subterms(a))]
        if len(mine) != 1:
            bad.append((mine[-1][-1] if mine else None, "a connection is made %d times" % len(mine) if mine else "a connection (%s) is not made" % k, ("twice|" if mine else "missing|") + k))
            continue
        x = mine[0]
        used.add(x)
        for j, side in enumerate(("source", "target")):
            v = F(e, side)
            want = sim(v) if k[j] == "s" else fun(v)
            got = fields(x[1][j]) if len(x[1]) > j else None
            if got is None: unsure.append("the %s of a connection" % side); continue
            if set(got) != set(want):
                bad.append((x[-1], "the %s of a connection (%s) is given as another kind of variable" % (side, k), "side|%s|%s" % (side, k))); continue
            for nm in want:
                cmp(mapname(got[nm]), want[nm], x[-1], "the %s of the %s of a connection (%s) is wrong: %s" % (nm, side, k, show_term(got[nm])), "%s|%s|%s" % (side, nm, k))
        for y in log[log.index(x):]:
            if y[0] in ("add_slave", "add_function"): bad.append((x[-1], "a connection is made before all entities have been added", "order|connection"))
    # ---- values
    for i, k in enumerate(sc["V"]):
        e = ("V", i)
        mine = [x for x in log if x[0] in SET.values() and any(y == e for a in x[1] for y in subterms(a))]
        if len(mine) != 1:
            bad.append((mine[-1][-1] if mine else None, "an initial value is set %d times" % len(mine) if mine else "an initial value (%s) is not set" % k, ("twice|" if mine else "missing|") + k))
            continue
        x = mine[0]
        used.add(x)
        if x[0] != SET[k]: bad.append((x[-1], "an initial value of type %s is given to %s" % (k, x[0]), "setter|" + k)); continue
        v = F(e, "first")
        d = ("call", SS + "get_variable_description", sysp, v)
        cmp(mapname(x[1][0]), ("at", "simulators", F(v, "entity_name")), x[-1], "an initial value is given to another simulator: " + show_term(x[1][0]), "value|simulator|" + k)
        cmp(x[1][1], F(d, "reference"), x[-1], "an initial value is given to another variable: " + show_term(x[1][1]), "value|reference|" + k)
        cmp(x[1][2], ("alt", F(e, "second"), k), x[-1], "another initial value is given: " + show_term(x[1][2]), "value|value|" + k)
        for y in log[log.index(x):]:
            if y[0] in ("add_slave", "add_function"): bad.append((x[-1], "an initial value is set before all entities have been added", "order|value"))
    # ---- nothing else
    for x in log:
        if x[0] != "index" and x not in used and not bad and not unsure:
            bad.append((x[-1], "%s is called for something that is not in the structure" % x[0], "extra|" + x[0]))
    return bad, unsure
