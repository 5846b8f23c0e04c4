"""Observers followed through histories of observed simulators, steps and queries, with structured values."""
from fsahist import *

class OAI(GAI):
    """Objects made with make_unique live in the environment; integer-keyed maps are kept in the order of their keys."""
    PEERS = ("cosim::observable",)
    past = {}
    H, cur = None, None
    def step(self, n, env):
        self.cur = n
        return GAI.step(self, n, env)
    def get(self, p, env):
        try: return GAI.get(self, p, env)
        except OutOfRange:
            if self.cur is not None: self.past.setdefault(self.cur, p)
            raise
    def order(self, v):
        if isinstance(v, tuple) and v[:1] == ("map",) and v[1] and all(isinstance(k, int) for k, _ in v[1]): return ("map", tuple(sorted(v[1], key=lambda x: x[0])))
        return v
    def deep(self, v, path):
        if v is None: return None
        if path and isinstance(path[0], str) and v[:1] == ("rec",): v = ("rec", v[1], tuple((n, self.deep(x, path[1:]) if n == path[0] else x) for n, x in v[2]))
        elif path and path[0][:1] == ("k",) and v[:1] == ("map",): v = ("map", tuple((k, self.deep(x, path[1:]) if k == path[0][1] else x) for k, x in v[1]))
        return self.order(v)
    def set(self, p, x, env):
        env = GAI.set(self, p, x, env)
        p = self.norm(p, env)
        if p is not None and p[0] in env: env[p[0]] = self.deep(env[p[0]], p[1])
        return env
    def callval(self, e, fr, env, depth):
        fn = e.get("fn") or ""
        if fn in ("std::make_unique", "std::make_shared"): return env.get(("MADE", id(e)))
        if self.sop(e) == "model_description": return self.H.descr
        if fn.split("::")[-1] == "size" and e.get("obj") is not None and "span<" in (e["obj"].get("t") or ""):
            p = self.lv(e["obj"], fr, env, depth + 1)
            p = self.under(p, env) if p is not None else None
            try: x = self.get0(p, env) if p is not None else None
            except OutOfRange: x = None
            if isinstance(x, tuple) and x[:1] == ("vec",): return len(x[1])
        return GAI.callval(self, e, fr, env, depth)
    def effects(self, n, env):
        e = n.e
        if e.get("k") == "call" and e.get("fn") in ("std::make_unique", "std::make_shared"):
            env = dict(env)
            env.pop(("MADE", id(e)), None)
            t = strip_t(targ(e.get("t")))
            A = [a for a in e.get("a") or [] if a["k"] != "defarg"]
            ct = [f for f in fns_of(self.db) if f.get("cls") == t and f["q"].split("::")[-1] == t.split("::")[-1] and len(f["p"]) == len(A)]
            if len(ct) != 1: self.note(n, "which constructor makes the object is not known"); return env
            k = 1 + sum(1 for r in env if r[0] == "HEAP") + 100 * self.H.ran
            rs = self.H.run(ct[0], {("this",): self.default(t)}, [self.ev(a, n.fr, env) for a in A], self.since)
            if not rs or len(rs) != 1 or rs[0].kind != "return": self.note(n, "construction of the object is not decided"); return env
            self.odd.update(rs[0].ai.odd)
            env[("HEAP", k)] = rs[0].heap[("this",)]
            env[("TRACE",)] = env.get(("TRACE",), ()) + rs[0].env.get(("TRACE",), ())
            env[("MADE", id(e))] = ("ptr", ("HEAP", k), ())
            return env
        return GAI.effects(self, n, env)
    def exc_(self, n, env):
        if n.k == "call" and n.e is not None and n.e.get("fn") in ("std::make_unique", "std::make_shared"): return False
        return GAI.exc_(self, n, env)

class OHist(GHist):
    AI = OAI
    def run(self, f, heap, args, since={}, spans=None):
        g = self.graph(f)
        env = dict(heap)
        for p, a in zip(f["p"], args):
            v = g.frames[0].vars.get(p["d"])
            if a is not None and v is not None: env[v.term] = a
        env.update(spans or {})
        ai = OAI(g, call=Runner.call, limit=LIMIT)
        ai.ops, ai.since, ai.H, ai.past = (), since, self, {}
        self.ran += 1
        out = []
        try: outcomes = ai.outcomes(env)
        except Undecided: return None
        for kind, n, e, key in outcomes:
            where = next((m for m in reversed(ai.path(key)) if m.k in ("throw", "ret", "call", "write") and m.fr is not None), n)
            if kind == "end":
                callee = next((self.db.F.get((m.e or {}).get("id")) for m in reversed(ai.path(key)) if m.k == "call" and m.e is not None), None)
                kind = "throw" if callee is not None and callee.get("body") is not None and "panic" not in callee["q"] and throws(callee["body"]) else "end"
            r = Run(kind, e, where, ai, key, f, e.get(("RET", g.frames[0].id)) if kind == "return" else None)
            r.env = e
            r.heap = {k: v for k, v in e.items() if k in heap or k[0] in ("IMPL", "HEAP")}
            out.append(r)
        return None if ai.exceeded else out

def seq(n): return ("vec", tuple(("sym", "old%d" % i) for i in range(n)))
def args_of(**v): return v

class Watch(World):
    """An observer, and an oracle."""
    def __init__(self, c, db, rule, cls):
        self.c, self.db, self.rule, self.cls = c, db, rule, cls
        self.H = OHist(c, db, cls)
        self.H.descr = None
        self.D = {}
        for f in fns_of(db):
            if f.get("cls") == cls: self.D.setdefault(f["q"].split("::")[-1], []).append(f)
        self.seen, self.bad, self.ended = set(), None, False
    def fn(self, n, k, kinds=None):
        l = [f for f in self.D.get(n, []) if len(f["p"]) == k and (kinds is None or all(x in p["t"] for x, p in zip(kinds, f["p"])))]
        return l[0] if len(l) == 1 else None
    def start(self, *args):
        ct = [f for f in self.D.get(self.cls.split("::")[-1], []) if len(f["p"]) == len(args) and not any(self.cls in p["t"] for p in f["p"])]
        if len(ct) != 1: return None
        rs = self.H.run(ct[0], {("this",): OAI(self.H.graph(ct[0])).default(self.cls)}, list(args))
        return dict(rs[0].heap) if rs and len(rs) == 1 and rs[0].kind == "return" else None
    def call(self, word, f, args, spans=None, may_throw=False):
        if word: self.hist.append(word)
        if f is None: self.bad = "a member function is not found (%s)" % word; return None
        rs = self.H.run(f, self.heap, args, self.ver, spans)
        if rs and rs[0].ai.oob and not rs[0].ai.odd:
            n = next(iter(rs[0].ai.oob))
            self.viol("outside|" + f["n"], rs[0], n, "%s accesses an element that does not exist" % f["n"]); return None
        if rs and len(rs) != 1 and rs[0].ai.past and not rs[0].ai.odd:
            n = next(iter(rs[0].ai.past))
            self.viol("outside|" + f["n"], rs[0], n, "%s uses an element beyond the end" % f["n"]); return None
        if rs is None or len(rs) != 1: self.bad = "%s: outcome is not decided" % self.db.where(f); return None
        x = rs[0]
        x.trace = x.env.get(("TRACE",), ())
        if x.kind != "return" and not may_throw:
            if x.ai.odd or x.ai.forked: self.bad = "%s: outcome is not decided" % self.db.where(f); return None
            self.viol("fails|" + f["n"], x, x.node, "%s %s" % (f["n"], "throws" if x.kind == "throw" else "ends the program"))
            return None
        if x.kind == "return": self.heap = x.heap
        for op, who, a, n in x.trace:
            if who is None: self.bad = "%s: which simulator is accessed is not decided" % x.ai.g.at_line(n); return None
            m = re.match(r"get_(real|integer|boolean|string)$", op)
            if op == "expose_for_getting":
                if None in a: self.bad = "%s: what is exposed is not decided" % x.ai.g.at_line(n); return None
                self.exposed.add((who, a[0][1].split("::")[-1], a[1]))
            elif m:
                if a[0] is None: self.bad = "%s: which variable is read is not decided" % x.ai.g.at_line(n); return None
                if (who, m.group(1), a[0]) not in self.exposed: self.viol("exposed|" + m.group(1), x, n, "%s %s of simulator %d is read without having been exposed for getting" % (m.group(1), show(a[0]), who[1])); return None
        return x
    def begin(self, name, *args):
        self.name, self.hist = name, []
        self.heap = self.start(*args)
        self.ver, self.exposed, self.sims, self.gen = {}, set(), {}, {}
        return self.heap is not None
    def saw(self, v):
        if isinstance(v, tuple) and v[:1] == ("rd",): return "%s %s after %d steps of simulator %d" % (v[1], show(v[2][1]), v[3], v[2][0][1])
        return show(v)
    def unclear(self, x, f, what):
        if x.ai.past and not x.ai.odd:
            n = next(iter(x.ai.past))
            self.viol("outside|" + f["n"], x, n, "%s uses an element beyond the end" % f["n"])
        else: self.bad = "%s: %s not decided" % (self.db.where(f), what)
        return False
    def outs(self, x, spans):
        return [x.env.get(k) for k in spans]
    def value(self, sim, t, r, ver): return ("rd", t, (self.key(sim), r), ver)
    def key(self, i): return ("O", i, self.gen.get(i, 0))
    def obs(self, i, new=False):
        """A simulator that takes the place of another is a different one."""
        if new: self.gen[i] = self.gen.get(i, 0) + 1
        return ("ptr", ("PEER", self.key(i)), ())

class Series(Watch):
    CAP = 3
    def add(self, i, t):
        if self.call("add simulator %d at time %d" % (i, t), self.fn("simulator_added", 3), [i, self.obs(i, True), t]) is None: return False
        self.ver[self.key(i)] = 0
        self.sims[i] = {"times": {0: t}, "vars": {}}
        return True
    def gone(self, i):
        if self.call("remove simulator %d" % i, self.fn("simulator_removed", 2), [i, 0]) is None: return False
        self.sims.pop(i)
        return True
    def vid(self, i, t, r): return self.rec("cosim::variable_id", simulator=i, type=vt(t), reference=r)
    def watch(self, i, t, r):
        if self.call("observe %s %d of simulator %d" % (t, r, i), self.fn("start_observing", 1), [self.vid(i, t, r)]) is None: return False
        self.sims[i]["vars"][(t, r)] = {}
        return True
    def unwatch(self, i, t, r):
        if self.call("stop observing %s %d of simulator %d" % (t, r, i), self.fn("stop_observing", 1), [self.vid(i, t, r)]) is None: return False
        self.sims[i]["vars"].pop((t, r), None)
        return True
    def took(self, i, step, time):
        S = self.sims[i]
        for d, v in [(S["times"], time)] + [(d, self.ver[self.key(i)]) for d in S["vars"].values()]:
            d[step] = v
            while len(d) > self.CAP: del d[min(d)]
    def init(self, step, time):
        if self.call("initialise at time %d" % time, self.fn("simulation_initialized", 2), [step, time]) is None: return False
        for i in self.sims: self.took(i, step, time)
        return True
    def step(self, i, step, time):
        self.ver[self.key(i)] += 1
        if self.call("step %d of simulator %d to time %d" % (step, i, time), self.fn("simulator_step_complete", 4), [i, step, 10, time]) is None: return False
        self.took(i, step, time)
        return True
    def quiet(self, step, time):
        """The end of a step of the whole simulation is not a sample."""
        return self.call("step %d complete" % step, self.fn("step_complete", 3), [step, 10, time]) is not None
    # --------------------------------------------------------------- queries
    def samples(self, i, t, r, frm, n):
        f = self.fn("get_%s_samples" % t, 6)
        sp = {("OUT", k): seq(n) for k in "vst"}
        x = self.call(None, f, [i, r, frm] + [("ptr", ("OUT", k), ()) for k in "vst"], sp, True)
        if x is None: return False
        buf = (self.sims.get(i) or {"vars": {}})["vars"].get((t, r))
        q = "%d samples of %s %d of simulator %d from step %d" % (n, t, r, i, frm)
        if x.kind != "return":
            if x.ai.forked or x.ai.odd: self.bad = "%s: outcome is not decided" % self.db.where(f); return False
            if buf: self.viol("samples|throws", x, x.node, "the query for %s fails" % q); return False
            return True
        k = x.ret
        if not isinstance(k, int): return self.unclear(x, f, "number of samples is")
        vals, steps, times = self.outs(x, sp)
        if any(not (isinstance(z, tuple) and z[:1] == ("vec",)) or None in z[1] for z in (vals, steps, times)): return self.unclear(x, f, "samples are")
        have = sorted(s for s in (buf or {}) if s >= frm)
        least = [s for s in have if s < frm + n][:n]
        if k > n: self.viol("samples|more", x, x.node, "the query for %s reports %d" % (q, k)); return False
        got = list(steps[1][:k])
        if got != have[:k]: self.viol("samples|steps", x, x.node, "the query for %s gives steps %s, not %s" % (q, [show(s) for s in got], have[:k])); return False
        if k < len(least): self.viol("samples|fewer", x, x.node, "the query for %s gives only %d of the steps %s" % (q, k, least)); return False
        for j, s in enumerate(got):
            if vals[1][j] != self.value(i, t, r, buf[s]): self.viol("samples|value", x, x.node, "the query for %s gives %s for step %d" % (q, self.saw(vals[1][j]), s)); return False
            if times[1][j] != self.sims[i]["times"].get(s): self.viol("samples|time", x, x.node, "the query for %s gives time %s for step %d" % (q, show(times[1][j]), s)); return False
        return True
    def numbers(self, i, frm, to=None):
        """Steps of the last `frm`, or between two times."""
        f = self.fn("get_step_numbers", 3) if to is None else self.fn("get_step_numbers", 4)
        sp = {("OUT", "s"): seq(2)}
        x = self.call(None, f, ([i, frm] if to is None else [i, frm, to]) + [("ptr", ("OUT", "s"), ())], sp)
        if x is None: return False
        T = self.sims[i]["times"]
        s, = self.outs(x, sp)
        if not (isinstance(s, tuple) and s[:1] == ("vec",)) or None in s[1]: return self.unclear(x, f, "step numbers are")
        last = max(T) if to is None else min([k for k in T if T[k] >= to] or [max(T)])
        beg = T[max(T)] - frm if to is None else frm
        first = max([k for k in T if T[k] <= beg] or [min(T)])
        q = "the last %d" % frm if to is None else "times %d to %d" % (frm, to)
        if s[1][0] != first: self.viol("numbers|first", x, x.node, "the steps for %s (samples at %s) begin with %s, not %d" % (q, sorted(T.items()), show(s[1][0]), first)); return False
        if s[1][1] != last: self.viol("numbers|last", x, x.node, "the steps for %s (samples at %s) end with %s, not %d" % (q, sorted(T.items()), show(s[1][1]), last)); return False
        return True
    def sync(self, i, r, j, u, frm, n):
        f = self.fn("get_synchronized_real_series", 7)
        sp = {("OUT", k): seq(n) for k in "vw"}
        x = self.call(None, f, [i, r, j, u, frm] + [("ptr", ("OUT", k), ()) for k in "vw"], sp, True)
        if x is None: return False
        a, b = self.sims[i]["vars"].get(("real", r)), self.sims[j]["vars"].get(("real", u))
        q = "synchronised samples of real %d of simulator %d and real %d of simulator %d from step %d" % (r, i, u, j, frm)
        if x.kind != "return":
            if x.ai.forked or x.ai.odd: self.bad = "%s: outcome is not decided" % self.db.where(f); return False
            if a and b: self.viol("sync|throws", x, x.node, "the query for %d %s fails" % (n, q)); return False
            return True
        k = x.ret
        if not isinstance(k, int): return self.unclear(x, f, "number of samples is")
        v, w = self.outs(x, sp)
        if any(not (isinstance(z, tuple) and z[:1] == ("vec",)) or None in z[1] for z in (v, w)): return self.unclear(x, f, "samples are")
        both = sorted(s for s in a or {} if s in (b or {}) and s >= frm)
        least = [s for s in both if s < frm + n][:n]
        if k > n: self.viol("sync|more", x, x.node, "the query for %d %s reports %d" % (n, q, k)); return False
        for z, d, ii, rr in ((v, a, i, r), (w, b, j, u)):
            want = [self.value(ii, "real", rr, d[s]) for s in both[:k]]
            if list(z[1][:k]) != want: self.viol("sync|values", x, x.node, "the query for %d %s gives %s, not the values of the steps %s" % (n, q, [self.saw(y) for y in z[1][:k]], both[:k])); return False
        if k < len(least): self.viol("sync|fewer", x, x.node, "the query for %d %s gives only %d of the common steps %s" % (n, q, k, least)); return False
        return True
    def look(self, *what):
        """Queries of everything that is observed."""
        for i, S in list(self.sims.items()):
            top = max(S["times"])
            for t, r in [("real", 1), ("real", 2), ("integer", 1)]:
                for frm in ((0, top - 1) if "few" in what else (0, 1, top - 1, top, top + 1)):
                    for n in ((2,) if "few" in what else (0, 1, 2, 5)):
                        if not self.samples(i, t, r, frm, n): return False
            T = sorted(S["times"].values())
            for d in (0, 5, 10, 15, 20, 1000):
                if not self.numbers(i, d): return False
            pts = sorted({T[0] - 5, T[0], T[0] + 5, T[-1] - 5, T[-1], T[-1] + 5} | set(T))
            for b in pts:
                for e in pts:
                    if b <= e and not self.numbers(i, b, e): return False
        ids = [(i, r) for i, S in self.sims.items() for (t, r) in S["vars"] if t == "real"]
        for i, r in ids:
            for j, u in ids:
                for frm in (0, 1, 3):
                    for n in (0, 1, 4):
                        if not self.sync(i, r, j, u, frm, n): return False
        return True

TS = "cosim::time_series_observer"
def series_scenarios():
    w = [("watch", 1, "real", 1), ("watch", 1, "integer", 1)]
    def run(sims, every, k, t0=0, w=(), look=()):
        """Steps 1..k of simulators, each in its own rhythm."""
        out = []
        for s in range(1, k + 1):
            for i in sims:
                if s % every.get(i, 1) == 0: out.append(("step", i, s, t0 + 10 * s))
            if s in look: out.append(("look",))
        return out
    yield "one simulator, more steps than are kept", [("add", 1, 0)] + w + [("init", 0, 0), ("look",)] + run([1], {}, 5, look=(1, 3, 5))
    yield "nothing has been observed yet", [("add", 1, 7)] + w + [("look",)]
    yield "steps of the whole simulation", [("add", 1, 0)] + w + [("init", 0, 0), ("step", 1, 1, 10), ("quiet", 1, 10), ("quiet", 2, 20), ("look", "few"), ("step", 1, 3, 30), ("quiet", 3, 30), ("look", "few")]
    two = [("add", 1, 0), ("add", 2, 0)] + w + [("watch", 2, "real", 1), ("watch", 2, "real", 2), ("init", 0, 0)]
    yield "two simulators of different rhythm", two + run([1, 2], {2: 2}, 6, look=(3, 4, 6))
    yield "a variable observed later", [("add", 1, 0)] + w + [("init", 0, 0)] + run([1], {}, 1) + [("watch", 1, "real", 2), ("look", "few"), ("step", 1, 2, 20), ("look",), ("step", 1, 3, 30), ("look", "few")]
    yield "a variable no longer observed", two + run([1, 2], {}, 2) + [("unwatch", 1, "real", 1), ("unwatch", 2, "real", 2), ("look", "few")] + [("step", 1, 3, 30), ("step", 2, 3, 30), ("look", "few"), ("unwatch", 1, "integer", 1), ("watch", 1, "real", 1), ("step", 1, 4, 40), ("look", "few")]
    yield "a simulator removed, and its place taken", two + run([1, 2], {}, 2) + [("gone", 1), ("look", "few"), ("add", 1, 20), ("watch", 1, "integer", 1), ("step", 1, 3, 30), ("step", 2, 3, 30), ("look", "few")]
    yield "a simulation that starts at a later time", [("add", 1, 1000)] + w + [("init", 0, 1000)] + run([1], {}, 4, 1000, look=(2, 4))

def explore(c, rule, W, scenes, *args):
    ok, t0 = True, time.time()
    for name, ops in scenes:
        done = 0
        try:
            if not W.begin(name, *args): c.note("%s: construction is not decided" % W.cls); return False
            W.ended, W.bad = False, None
            for o in ops:
                if not getattr(W, o[0])(*o[1:]): break
                done += 1
            if W.bad:
                c.note("%s: %s (after %s)" % (name, W.bad, ", ".join(W.hist))); ok = False
                if time.time() - t0 > 200: return ok        # as good as undecided
        except (AttributeError, TypeError, KeyError, IndexError, RecursionError, ValueError) as x:
            if W.DEBUG: raise
            c.note("%s: not decided (%s: %s)" % (name, type(x).__name__, x)); ok = False
        c.ob(rule, "%s: %d operations%s" % (name, done, "" if done == len(ops) else " of %d" % len(ops)))
    return ok
Watch.DEBUG = False
def series(c, db, rule):
    if TS not in db.R: return False
    return explore(c, rule, Series(c, db, rule, TS), series_scenarios(), Series.CAP)

# ------------------------------------------------------------- last values
LV = "cosim::last_value_observer"
REFS = (5, 2, 9)
class Last(Watch):
    def begin(self, name, *args):
        ok = Watch.begin(self, name, *args)
        db = self.db
        vf = [f["n"] for f in (db.R.get("cosim::variable_description") or {"fields": []})["fields"]]
        vs = [("rec", "cosim::variable_description", tuple((n, {"name": ("str", "%s%d" % (t, r)), "reference": r, "type": vt(t)}.get(n)) for n in vf)) for r in REFS for t in KINDS]
        self.H.descr = ("rec", "cosim::model_description", tuple((f["n"], ("vec", tuple(vs)) if f["n"] == "variables" else None) for f in (db.R.get("cosim::model_description") or {"fields": []})["fields"]))
        self.at = {}
        return ok
    def add(self, i, t):
        if self.call("add simulator %d" % i, self.fn("simulator_added", 3), [i, self.obs(i, True), t]) is None: return False
        self.ver[self.key(i)] = 0
        self.at[i] = None
        return True
    def gone(self, i):
        if self.call("remove simulator %d" % i, self.fn("simulator_removed", 2), [i, 0]) is None: return False
        self.at.pop(i)
        return True
    def init(self):
        if self.call("initialise", self.fn("simulation_initialized", 2), [0, 0]) is None: return False
        for i in self.at: self.at[i] = self.ver[self.key(i)]
        return True
    def step(self, i, s):
        self.ver[self.key(i)] += 1
        if self.call("step %d of simulator %d" % (s, i), self.fn("simulator_step_complete", 4), [i, s, 10, 10 * s]) is None: return False
        self.at[i] = self.ver[self.key(i)]
        return True
    def inside(self, i):
        """The simulator is in the middle of a step."""
        self.ver[self.key(i)] += 1
        self.hist.append("simulator %d has begun another step" % i)
        return True
    def look(self):
        for i, at in self.at.items():
            if at is None: continue
            for t in KINDS:
                for refs in ((), (5,), (2, 5), (9, 2, 5), (2, 2, 9)):
                    f = self.fn("get_" + t, 3)
                    sp = {("OUT", "v"): seq(len(refs)), ("OUT", "r"): ("vec", refs)}
                    x = self.call(None, f, [i, ("ptr", ("OUT", "r"), ()), ("ptr", ("OUT", "v"), ())], sp)
                    if x is None: return False
                    v = x.env.get(("OUT", "v"))
                    if not (isinstance(v, tuple) and v[:1] == ("vec",)) or None in v[1]: return self.unclear(x, f, "values are")
                    want = [self.value(i, t, r, at) for r in refs]
                    if list(v[1]) != want:
                        k = next(k for k in range(len(refs)) if v[1][k] != want[k])
                        self.viol("last|" + t, x, x.node, "the query for %s %s of simulator %d, which has taken %d steps, gives %s" % (t, list(refs), i, at, self.saw(v[1][k]))); return False
        return True
def last_scenarios():
    yield "one simulator", [("add", 1, 0), ("init",), ("look",), ("step", 1, 1), ("look",), ("step", 1, 2), ("inside", 1), ("look",)]
    yield "two simulators", [("add", 1, 0), ("add", 2, 0), ("init",), ("step", 1, 1), ("look",), ("step", 2, 1), ("step", 1, 2), ("look",)]
    yield "a simulator removed, and its place taken", [("add", 1, 0), ("add", 2, 0), ("init",), ("step", 1, 1), ("step", 2, 1), ("gone", 1), ("look",), ("add", 1, 10), ("step", 1, 2), ("look",)]
    yield "a simulator added late", [("add", 2, 0), ("init",), ("step", 2, 1), ("add", 1, 10), ("look",), ("step", 1, 2), ("step", 2, 2), ("look",)]
def last(c, db, rule):
    if LV not in db.R: return False
    return explore(c, rule, Last(c, db, rule, LV), last_scenarios())
