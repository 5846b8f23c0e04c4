"""The fixed-step algorithm followed through histories of additions, connections, initialisation and steps, with structured values."""
from slvhist import *
import math, time
FSA = "cosim::fixed_step_algorithm"
PEERS = ("cosim::simulator", "cosim::function")
BASE = 10
def peer_class(db, cls, peers=PEERS):
    """Interface of what the algorithm drives that a class belongs to."""
    for p in peers:
        if cls == p or cls and (isa(db, cls, p) or isa(db, p, cls)): return p
    return None

ACT = ("do_iteration", "start_simulation", "do_step", "calculate")
class Undecided(Exception): pass
LIMIT = 12000
class GAI(HAI):
    """Operations on simulators and functions are recorded as (operation, object, arguments, node)."""
    since, PEERS = {}, PEERS
    def note(self, n, why):
        HAI.note(self, n, why)
        if "loop" in why: raise Undecided(why)
    def sop(self, e):
        fn = e.get("fn") or ""
        if e.get("k") != "call" or e.get("obj") is None or "::" not in fn: return None
        cls, nm = fn.rsplit("::", 1)
        return nm if peer_class(self.db, cls, self.PEERS) else None
    def peer(self, e, fr, env):
        o = e["obj"]
        v = self.ev(o, fr, env)
        if isinstance(v, tuple) and v[:1] == ("ptr",) and v[1][:1] == ("PEER",): return v[1][1]
        p = self.lv(o, fr, env)
        if p is not None and p[0][:1] == ("PEER",): return p[0][1]
        if p is not None:
            try: v = self.get0(p, env)
            except OutOfRange: v = None
            if isinstance(v, tuple) and v[:1] == ("ptr",) and v[1][:1] == ("PEER",): return v[1][1]
        return None
    def version(self, who, env):
        return self.since.get(who, 0) + sum(1 for r in env.get(("TRACE",), ()) if r[1] == who and r[0] in ACT)
    def callval(self, e, fr, env, depth):
        fn = e.get("fn") or ""
        s = self.sop(e)
        if s is not None:
            if s == "do_step": return ("enum", "cosim::step_result::complete")
            if s == "name": return ("str", "n")
            m = re.match(r"get_(real|integer|boolean|string)$", s)
            if m:
                who, r = self.peer(e, fr, env), self.ev(e["a"][0], fr, env, depth + 1)
                return ("rd", m.group(1), (who, r), self.version(who, env)) if who is not None and r is not None else None
            return None
        A = e.get("a") or []
        if fn.startswith("std::") and fn.split("::")[-1] in ("lcm", "gcd", "max", "min", "abs") and e.get("obj") is None:
            v = [self.ev(a, fr, env, depth + 1) for a in A if a["k"] != "defarg"]
            if all(isinstance(x, int) for x in v):
                f = {"lcm": math.lcm, "gcd": math.gcd, "max": max, "min": min, "abs": abs}[fn.split("::")[-1]]
                if len(v) in ((1,) if f is abs else (2,)): return f(*v)
        if fn.split("::")[-1] in ("div", "ldiv", "lldiv") and len(A) == 2:
            v = [self.ev(a, fr, env, depth + 1) for a in A]
            if all(isinstance(x, int) for x in v) and v[1]: return ("rec", "div_t", (("quot", int(v[0] / v[1])), ("rem", v[0] - v[1] * int(v[0] / v[1]))))
            return None
        if e.get("obj") is not None and fn.split("::")[-1] == "count" and "chrono::duration<" in (e["obj"].get("t") or ""): return self.ev(e["obj"], fr, env, depth + 1)
        if fn.split("::")[-1] == "duration_cast" and A: return self.ev(A[0], fr, env, depth + 1)
        return HAI.callval(self, e, fr, env, depth)
    def effects(self, n, env):
        e = n.e
        s = self.sop(e)
        if s is None: return HAI.effects(self, n, env)
        env = dict(env)
        who = self.peer(e, n.fr, env)
        if s not in ("name", "get_modified_real_variables"):
            env[("TRACE",)] = env.get(("TRACE",), ()) + ((s, who, tuple(self.ev(a, n.fr, env) for a in e.get("a") or [] if a["k"] != "defarg"), n),)
        return env

class GHist(Hist):
    AI = GAI
    def graph(self, f):
        if id(f) not in self.graphs: self.graphs[id(f)] = self.c.graph(f, track_all=True, stop=lambda h: bool(peer_class(self.db, h.get("cls"), self.AI.PEERS)))
        return self.graphs[id(f)]
    def run(self, f, heap, args, since={}):
        g = self.graph(f)
        env = dict(heap)
        for p, a in zip(f["p"], args):
            v = g.frames[0].vars.get(p["d"])
            if a is not None and v is not None: env[v.term] = a
        ai = self.AI(g, call=Runner.call, limit=LIMIT)
        ai.ops, ai.since = (), since
        self.ran += 1
        out = []
        try: outcomes = ai.outcomes(env)
        except Undecided: return None
        for kind, n, e, key in outcomes:
            where = next((m for m in reversed(ai.path(key)) if m.k in ("throw", "ret", "call", "write") and m.fr is not None), n)
            r = Run(kind, e, where, ai, key, f, e.get(("RET", g.frames[0].id)) if kind == "return" else None)
            r.heap = {k: v for k, v in e.items() if k in heap or k[0] in ("IMPL", "HEAP")}
            out.append(r)
        return None if ai.exceeded else out

class World:
    """One algorithm, and an oracle: the connections, factors, versions (how often each peer has acted), what is exposed."""
    def __init__(self, c, db, rule):
        self.c, self.db, self.rule = c, db, rule
        self.H = GHist(c, db, FSA)
        self.D = {}
        for f in fns_of(db):
            if f.get("cls") == FSA: self.D.setdefault(f["q"].split("::")[-1], []).append(f)
        self.seen, self.bad = set(), None
        self.ended = False
    def fn(self, n, args):
        l = [f for f in self.D.get(n, []) if len(f["p"]) == len(args) and all(not (isinstance(a, tuple) and a[:1] == ("rec",)) or strip_t(p["t"]) == a[1] for p, a in zip(f["p"], args))]
        return l[0] if len(l) == 1 else None
    def start(self):
        db, cls = self.db, FSA
        R = db.R.get(cls)
        ct = [f for f in self.D.get("fixed_step_algorithm", []) if len(f["p"]) == 2]
        if R is None or len(ct) != 1: return None
        ai0 = GAI(self.H.graph(ct[0]))
        d, heap, impl = ai0.default(cls), {}, None
        for f in R["fields"]:
            m = re.match(r"std::unique_ptr<(.*?)(, std::default_delete<.*)?>$", strip_t(f["t"]))
            if m and strip_t(m.group(1)) in db.R: impl = (f["n"], strip_t(m.group(1)))
        if impl is not None:
            ic = [f for f in fns_of(db) if f.get("cls") == impl[1] and f["q"].split("::")[-1] == impl[1].split("::")[-1] and len(f["p"]) == 2]
            if len(ic) != 1: return None
            rs = self.H.run(ic[0], {("this",): ai0.default(impl[1])}, [BASE, NULL])
            if not rs or len(rs) != 1 or rs[0].kind != "return": return None
            return {("IMPL",): rs[0].this, ("this",): put(d, (impl[0],), ("ptr", ("IMPL",), ()))}
        rs = self.H.run(ct[0], {("this",): d}, [BASE, NULL])
        return dict(rs[0].heap) if rs and len(rs) == 1 and rs[0].kind == "return" else None
    def rec(self, q, **v): return ("rec", q, tuple((f["n"], v.get(f["n"])) for f in self.db.R[q]["fields"]))
    def var(self, who, t, r): return self.rec("cosim::variable_id", simulator=who[1], type=vt(t), reference=r)
    def io(self, who, t, r): return self.rec("cosim::function_io_id", function=who[1], type=vt(t), reference=self.fref(r))
    def fref(self, r): return self.rec("cosim::function_io_reference", group=r[0], group_instance=r[1], io=r[2], io_instance=r[3])
    def end(self, e): return self.var(*e) if e[0][0] == "S" else self.io(*e)
    def ref(self, e): return e[2] if e[0][0] == "S" else self.fref(e[2])
    # ---------------------------------------------------------------- operations
    def begin(self, name):
        self.name, self.hist = name, []
        self.heap = self.start()
        self.conns, self.fac, self.ver, self.exposed, self.last, self.steps, self.live = [], {}, {}, set(), {}, 0, []
        return self.heap is not None
    def viol(self, key, x, node, msg):
        if key in self.seen: return
        self.seen.add(key)
        self.ended = True
        self.c.viol(self.rule, x.ai.g.at_line(node), "after %s: %s" % (", ".join(self.hist), msg), key=self.rule + "|" + key)
    def call(self, word, name, *args):
        self.hist.append(word)
        f = self.fn(name, args)
        if f is None: self.bad = "%s is not found" % name; return None
        rs = self.H.run(f, self.heap, list(args), self.ver)
        if rs is None or len(rs) != 1: self.bad = "%s: outcome is not decided" % self.db.where(f); return None
        x = rs[0]
        x.trace = x.env.get(("TRACE",), ()) if hasattr(x, "env") else x.trace
        if x.kind != "return":
            if x.ai.odd or x.ai.forked: self.bad = "%s: outcome is not decided" % self.db.where(f); return None
            self.viol("fails|" + name, x, x.node, "%s %s" % (name, "throws" if x.kind == "throw" else "ends the program"))
            return None
        self.heap = x.heap
        return x
    def factor(self, who):
        if who[0] == "S": return self.fac[who]
        return math.lcm(1, *[self.fac[t[0]] for s, t in self.conns if s[0] == who])
    def alive(self): return [w for w in self.live if w[0] == "S"]
    # each operation: False when the scenario cannot go on
    def add(self, who, f=1):
        x = self.call("add %s" % say(who) + (" with factor %d" % f if f != 1 else ""), *(("add_simulator", who[1], peer(who), f * BASE) if who[0] == "S" else ("add_function", who[1], peer(who))))
        if x is None: return False
        self.live.append(who); self.ver[who] = 0
        if who[0] == "S": self.fac[who] = f
        return self.scan(x) is not None
    def connect(self, s, t):
        x = self.call("connect %s to %s" % (sayv(s), sayv(t)), "connect_variables", self.end(s), self.end(t))
        if x is None: return False
        self.conns.append((s, t))
        return self.scan(x) is not None
    def disconnect(self, t):
        x = self.call("disconnect %s" % sayv(t), "disconnect_variable", self.end(t))
        if x is None: return False
        self.conns = [k for k in self.conns if k[1] != t]
        return self.scan(x) is not None
    def remove(self, who):
        x = self.call("remove %s" % say(who), "remove_simulator", who[1])
        if x is None: return False
        self.conns = [k for k in self.conns if who not in (k[0][0], k[1][0])]
        self.live.remove(who)
        return self.scan(x) is not None
    def refactor(self, who, f):
        x = self.call("set the factor of %s to %d" % (say(who), f), "set_stepsize_decimation_factor", who[1], f)
        if x is None: return False
        self.fac[who] = f
        return self.scan(x) is not None
    def scan(self, x):
        """What was asked of the simulators and functions: [(index, kind, ...)], or None.  Judges each value on its way."""
        out = []
        for i, (op, who, args, n) in enumerate(x.trace):
            if who is None: self.bad = "%s: which object %s is called on is not decided" % (x.ai.g.at_line(n), op); return None
            if who not in self.live: self.viol("gone", x, n, "%s of %s is called, which is not part of the simulation" % (op, say(who))); return None
            m = re.match(r"(get|set)_(real|integer|boolean|string)$", op)
            if op in ("expose_for_getting", "expose_for_setting"):
                if None in args: self.bad = "%s: what is exposed is not decided" % x.ai.g.at_line(n); return None
                self.exposed.add((who, op[11:14], args[0][1].split("::")[-1], args[1]))
            elif op in ACT or op == "setup":
                if op in ACT: self.ver[who] = self.ver.get(who, 0) + 1
                out.append((i, op, who, args, n))
            elif m:
                if args[0] is None: self.bad = "%s: which variable is accessed is not decided" % x.ai.g.at_line(n); return None
                if who[0] == "S" and (who, m.group(1), m.group(2), args[0]) not in self.exposed:
                    self.viol("exposed|" + m.group(1), x, n, "%s %s of %s is %s without having been exposed for it" % (m.group(2), show(args[0]), say(who), "read" if m.group(1) == "get" else "set")); return None
                if m.group(1) == "get": continue
                v = args[1]
                if v is None: self.bad = "%s: the value set is not decided" % x.ai.g.at_line(n); return None
                k = next((k for k in self.conns if k[1][0] == who and k[1][1] == m.group(2) and self.ref(k[1]) == args[0]), None)
                if k is None: self.viol("other", x, n, "%s %s of %s is set, which is not connected" % (m.group(2), show(args[0]), say(who))); return None
                if not (isinstance(v, tuple) and v[:1] == ("rd",)) or v[1] != k[0][1] or v[2] != (k[0][0], self.ref(k[0])):
                    self.viol("value", x, n, "%s is set to %s, not to %s" % (sayv(k[1]), sayrd(v), sayv(k[0]))); return None
                if v[3] != self.ver[k[0][0]]:
                    self.viol("stale", x, n, "%s is set to a former value of %s" % (sayv(k[1]), sayv(k[0]))); return None
                out.append((i, "set", k, v[3], n))
            else: out.append((i, op, who, args, n))
        return out
    def uptodate(self, x, ev, conns, key, when):
        """Every connection of conns has carried the source's last value, and functions were calculated in between."""
        for k in conns:
            l = [e for e in ev if e[1] == "set" and e[2] == k]
            if not l: self.viol(key + "|missing", x, x.node, "%s does not receive the value of %s %s" % (sayv(k[1]), sayv(k[0]), when)); return False
            if l[-1][3] != self.ver[k[0][0]]: self.viol(key + "|old", x, l[-1][4], "%s is left with a former value of %s %s" % (sayv(k[1]), sayv(k[0]), when)); return False
        return True
    def calculated(self, x, ev, key):
        """No function's input changes after it was calculated, when its outputs are passed on."""
        for w in self.live:
            if w[0] != "F": continue
            calc = [e[0] for e in ev if e[1] == "calculate" and e[2] == w]
            for e in ev:
                if e[1] == "set" and e[2][1][0] == w and calc and e[0] > calc[-1]:
                    self.viol(key + "|late", x, e[4], "%s is set after %s has been calculated" % (sayv(e[2][1]), say(w))); return False
        return True
    def setup(self):
        x = self.call("set up", "setup", ("sym", "t0"), ("sym", "t1"))
        return x is not None and self.scan(x) is not None
    def initialize(self):
        x = self.call("initialise", "initialize")
        if x is None: return False
        inf, inp, started, acted = {w: {w} for w in self.live}, {}, set(), {}
        ev = self.scan(x)
        if ev is None: return False
        for i, op, who, *r in ev:
            n = r[-1]
            if op == "set":
                k = who
                if k[0][0][0] == "F": inf[k[0][0]] |= set().union(*[inp.get(q, set()) for q in self.conns if q[1][0] == k[0][0]] or [set()])
                inp[k] = set(inf[k[0][0]])
                continue
            if who[0] == "F": continue
            acted.setdefault(who, []).append(op)
            if op == "setup":
                if r[0] != (("sym", "t0"), ("sym", "t1"), NULL):
                    if None in r[0]: self.bad = "%s: arguments of setup are not decided" % x.ai.g.at_line(n); return False
                    if r[0][:2] != (("sym", "t0"), ("sym", "t1")): self.viol("setup", x, n, "%s is set up with other times than the algorithm" % say(who)); return False
            elif op == "start_simulation" and not started:
                for k in self.conns:
                    want = {k[0][0]}
                    for _ in self.live: want |= {q[0][0] for q in self.conns if q[1][0] in want}
                    if not want <= inp.get(k, set()):
                        self.viol("propagate", x, n, "the initial values of %s have not reached %s when the simulators are started" % (", ".join(say(w) for w in sorted(want - inp.get(k, set()))), sayv(k[1]))); return False
            if op == "start_simulation": started.add(who)
            elif op in ACT or op == "setup": inf[who] |= set().union(*[inp.get(q, set()) for q in self.conns if q[1][0] == who] or [set()])
        for w in self.alive():
            a = acted.get(w, [])
            if a.count("setup") != 1 or a[0] != "setup" or a.count("start_simulation") != 1 or a[-1] != "start_simulation":
                self.viol("init", x, x.node, "initialisation asks %s for: %s" % (say(w), ", ".join(a) or "nothing")); return False
        return self.calculated(x, ev, "start") and self.uptodate(x, ev, self.conns, "start", "once the simulators have started")
    def step(self):
        j = self.steps
        x = self.call("step", "do_step", ("sym", "t%d" % j))
        if x is None: return False
        ev = self.scan(x)
        if ev is None: return False
        self.steps = j + 1
        last = -1
        for w in self.alive():
            l = [e for e in ev if e[2] == w and e[1] in ACT]
            f = self.fac[w]
            due = j % f == 0
            for e in l: last = max(last, e[0])
            if (len(l) != 1) if due else l:
                self.viol("step|rate", x, x.node if not l else l[-1][4], "%s, which has factor %d, is stepped %d times in step %d" % (say(w), f, len(l), j)); return False
            if due and l[0][3] != (("sym", "t%d" % j), BASE * f):
                if None in l[0][3]: self.bad = "%s: arguments of do_step are not decided" % x.ai.g.at_line(l[0][4]); return False
                self.viol("step|length", x, l[0][4], "%s, which has factor %d, is stepped by %s base steps from %s" % (say(w), f, l[0][3][1] / BASE if isinstance(l[0][3][1], int) else show(l[0][3][1]), show(l[0][3][0]))); return False
        for w in self.live:
            if w[0] != "F": continue
            l = [e for e in ev if e[2] == w and e[1] == "calculate"]
            due = (j + 1) % self.factor(w) == 0
            if bool(l) != due: self.viol("calc", x, l[-1][4] if l else x.node, "%s, whose factor is %d, is %scalculated at the end of step %d" % (say(w), self.factor(w), "" if l else "not ", j)); return False
        due = [k for k in self.conns if (j + 1) % math.lcm(self.factor(k[0][0]), self.factor(k[1][0])) == 0]
        for e in ev:
            if e[1] != "set": continue
            if e[2] not in due: self.viol("rate|early", x, e[4], "%s is passed to %s at the end of step %d, which is no multiple of both factors" % (sayv(e[2][0]), sayv(e[2][1]), j)); return False
            if e[0] < last: self.viol("order", x, e[4], "%s is set before all simulators have been stepped" % sayv(e[2][1])); return False
        if not (self.calculated(x, ev, "step") and self.uptodate(x, ev, due, "step", "at the end of step %d" % j)): return False
        r = x.ret
        if isinstance(r, tuple) and r[:1] == ("rec",):
            d = dict(r[2])
            if d.get("first") is not None and d["first"] != BASE: self.viol("ret|length", x, x.node, "a step of %s base steps is reported" % (d["first"] / BASE if isinstance(d["first"], int) else show(d["first"]))); return False
            s = d.get("second")
            if isinstance(s, tuple) and s[:1] == ("vec",) and None not in s[1]:
                want = {w[1] for w in self.alive() if (j + 1) % self.fac[w] == 0}
                if set(s[1]) != want or len(s[1]) != len(want): self.viol("ret|finished", x, x.node, "simulators %s are reported finished at the end of step %d, not %s" % (sorted(s[1]), j, sorted(want))); return False
        return True

def peer(w): return ("ptr", ("PEER", w), ())
def say(w): return "%s %d" % ("simulator" if w[0] == "S" else "function", w[1])
def sayv(e): return "%s %s of %s" % (e[1], e[2] if e[0][0] == "S" else "/".join(map(str, e[2])), say(e[0]))
def sayrd(v):
    if isinstance(v, tuple) and v[:1] == ("rd",) and isinstance(v[2], tuple): return "%s %s of %s" % (v[1], show(v[2][1]), say(v[2][0]))
    return show(v)

KINDS = ("real", "integer", "boolean", "string")
def S(i): return ("S", i)
F = ("F", 7)
def io(o, t="real"): return (F, t, (o, 1, 2 + o, 3))
def v(i, r, t="real"): return (S(i), t, r)
INIT = [("setup",), ("initialize",)]
STEP = [("step",)]
def scenarios():
    for t in KINDS:
        yield "types", "%s connections" % t, [("add", S(3)), ("add", S(4)), ("add", F), ("connect", v(3, 5, t), v(4, 5, t)), ("connect", v(4, 6, t), io(0, t)), ("connect", io(1, t), v(3, 6, t))] + INIT + STEP * 2
    yield "types", "connections of all types", [("add", S(3)), ("add", S(4)), ("add", F)] + [("connect", v(3, 5, t), v(4, 5, t)) for t in KINDS] + [("connect", v(4, 6, t), io(0, t)) for t in KINDS] + [("connect", io(1, t), v(3, 6, t)) for t in KINDS] + INIT + STEP
    ch = [("connect", v(1, 5), v(2, 6)), ("connect", v(2, 5), v(3, 6)), ("connect", v(3, 5), v(4, 6))]
    fc = [("connect", v(1, 5), v(2, 6)), ("connect", v(2, 5), io(0)), ("connect", io(1), v(3, 6)), ("connect", v(3, 5), v(4, 6))]
    add = [("add", S(i)) for i in (1, 2, 3, 4)]
    for nm, order in (("", 1), (", reversed", -1)):
        yield "chain", "a chain of simulators" + nm, add[::order] + ch + INIT + STEP * 2
        yield "chain", "a chain with a function" + nm, add[::order] + [("add", F)] + fc[::order] + INIT + STEP * 2
        yield "chain", "a ring" + nm, add[::order] + ch[::order] + [("connect", v(4, 5), v(1, 6))] + INIT + STEP
        yield "chain", "a simulator connected to itself" + nm, add[:2][::order] + [("connect", v(1, 5), v(1, 6)), ("connect", v(1, 5), v(2, 6))] + INIT + STEP * 2
        for a, b in ((1, 2), (2, 3), (2, 4), (3, 3)):
            yield "rate", "factors %d and %d" % (a, b) + nm, [("add", S(1), a), ("add", S(2), b), ("add", F)][::order] + [("connect", v(1, 5), v(2, 6)), ("connect", v(2, 5), v(1, 6)), ("connect", v(1, 5), io(0)), ("connect", io(1), v(2, 7))] + INIT + STEP * 7
            yield "rate", "factors %d and %d, functions feeding both" % (a, b) + nm, [("add", S(1), a), ("add", S(2), b), ("add", F)][::order] + [("connect", v(1, 5), io(0)), ("connect", io(1), v(2, 7)), ("connect", io(1), v(1, 7))][::order] + INIT + STEP * 7
    yield "rate", "factors changed", [("add", S(1), 2), ("add", S(2), 3), ("add", F), ("connect", v(1, 5), v(2, 6)), ("connect", v(2, 5), io(0)), ("connect", io(1), v(2, 7))] + INIT + STEP * 3 + [("refactor", S(2), 1)] + STEP * 3 + [("refactor", S(1), 3)] + STEP * 7
    two = [("add", S(i)) for i in (1, 2, 3)] + [("add", F), ("connect", v(1, 5), v(2, 6)), ("connect", v(1, 5), v(2, 7)), ("connect", v(1, 5), v(3, 6)), ("connect", v(2, 6), io(0)), ("connect", v(2, 5), io(2)), ("connect", io(1), v(1, 6)), ("connect", io(1), v(3, 7)), ("connect", io(3), v(1, 7))]
    cut = [v(2, 6), v(2, 7), v(3, 6), io(0), io(2), v(1, 6), v(3, 7), v(1, 7)]
    for t in cut:
        yield "cut", "%s disconnected during the simulation" % sayv(t), two + INIT + STEP + [("disconnect", t)] + STEP * 2
        yield "cut", "%s disconnected and connected to another source" % sayv(t), two + [("disconnect", t), ("connect", v(3, 8), t)] + INIT + STEP * 2
    yield "cut", "all disconnected, one after the other", two + INIT + [o for t in cut for o in [("disconnect", t)] + STEP]
    yield "cut", "an input that is not connected is disconnected", two + [("disconnect", v(2, 9)), ("disconnect", io(4))] + INIT + STEP
    yield "cut", "connections made during the simulation", [("add", S(1)), ("add", S(2)), ("add", F)] + INIT + STEP + [("connect", v(1, 5), v(2, 6))] + STEP + [("connect", v(2, 5), io(0)), ("connect", io(1), v(1, 6))] + STEP * 2
    yield "cut", "functions' factor after a disconnection", [("add", S(1), 2), ("add", S(2), 3), ("add", F), ("connect", v(1, 5), io(0)), ("connect", io(1), v(1, 6)), ("connect", io(1), v(2, 6))] + INIT + STEP * 2 + [("disconnect", v(2, 6))] + STEP * 4
    ring = [("add", S(i)) for i in (1, 2, 3)] + [("add", F), ("connect", v(1, 5), v(2, 6)), ("connect", v(3, 5), v(2, 7)), ("connect", v(1, 5), v(3, 6)), ("connect", v(3, 5), v(1, 6)), ("connect", v(1, 5), io(0)), ("connect", io(1), v(2, 8)), ("connect", io(1), v(3, 7))]
    yield "gone", "a simulator without outgoing connections removed", ring + [("remove", S(2))] + INIT + STEP * 2
    yield "gone", "a simulator removed before it is set up", ring + [("connect", v(2, 5), v(1, 7)), ("remove", S(2))] + INIT + STEP * 2
    yield "gone", "the removed simulator's place is taken", ring + [("remove", S(2)), ("add", S(2)), ("connect", v(1, 5), v(2, 6))] + INIT + STEP * 2

def histories(c, db, rule, what=None, keys=None):
    """Runs the scenarios of the groups in `what`; only violations whose kind is in `keys` are reported.  True: all were decided."""
    ok, n = True, 0
    W, t0 = World(c, db, rule), time.time()
    if FSA not in db.R: return False
    for grp, name, ops in scenarios():
        if what is not None and grp not in what: continue
        try:
            if not W.begin(name): c.note("%s: construction is not decided" % FSA); return False
            W.ended, W.bad = False, None
            if keys is not None: W.seen = Only(keys)
            done = 0
            for o in ops:
                if not getattr(W, o[0])(*o[1:]): break
                done += 1
            if W.bad:
                c.note("%s: %s (after %s)" % (name, W.bad, ", ".join(W.hist))); ok = False
                if time.time() - t0 > 200: return ok        # as good as undecided
            elif done < len(ops) and not W.ended and keys is None: pass
        except (AttributeError, TypeError, KeyError, IndexError, RecursionError, ValueError) as x: c.note("%s: not decided (%s: %s)" % (name, type(x).__name__, x)); ok = False
        n += 1
        c.ob(rule, "%s: %d operations%s" % (name, done, "" if done == len(ops) else " of %d" % len(ops)))
    return ok
class Only:
    """Kinds of violations that are not to be reported count as seen."""
    def __init__(self, keys): self.k, self.s = keys, set()
    def __contains__(self, x): return x in self.s or x.split("|")[0] not in self.k
    def add(self, x): self.s.add(x)
