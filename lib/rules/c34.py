"""C34: real-time pacing only delays."""
from travel import *
from absint import *
from rule import writes_of as rule_writes, reads_of
RULE = """
(pacing) real_time_timer::start and sleep, with everything they call inlined, are run on known values: histories of calls with given
simulated times and clock readings, for several settings, with a setting changed between calls or by another thread before any one of the loads in
a call.  Nothing is slept while pacing is off or the factor is not positive; otherwise exactly until the clock has advanced by the
simulated time since the reference divided by the factor; a changed setting and start() restart the reference; a setting that
changes during a call is never combined with the reference of the old one.
(metrics) What is stored as real-time factor is the ratio of simulated to real time over a period that ends now and starts at the reference, for the total,
or at an earlier call, for the rolling average.
(every step) simulate_until starts the timer before the first step and lets it sleep after each step, with the time after that step.
(no influence) Outside the timer, no function reachable from the simulation uses a clock, the timer's settings or its metrics in a
condition, an argument, a result or a stored value, or sleeps.
(atomics) Settings and metrics are atomics, the shared objects are not exchanged after construction, and what
the functions that hand them out read is not written by pacing.
"""
ASSUME = ["std::chrono conversions, rounded to whole nanoseconds, are exact in the situations considered", "sleep_for and sleep_until sleep as long as they are asked to",
          "different settings have different hash values"]
T = "cosim::real_time_timer"
CFG, MET = "cosim::real_time_config", "cosim::real_time_metrics"
NOWFN = re.compile(r"^std::chrono::\w*(clock|Clock)::now$|^boost::chrono::\w+::now$")
CLOCK = re.compile(r"^(std|boost)::chrono::(\w+_clock|_V2::\w+_clock)::now$|^(::)?(gettimeofday|clock_gettime|clock|time)$|^boost::(posix_time|date_time)::.*(local_time|universal_time)$")
SLEEP = re.compile(r"^(std|boost)::this_thread::(sleep_for|sleep_until|sleep)$")
DUR = re.compile(r"std::chrono::duration<[^,<>]+, std::ratio<(\d+), (\d+)>>")
GIGA = 10 ** 9

def unit(t):
    """Nanoseconds per tick of a duration type."""
    m = DUR.search(t or "")
    return int(m.group(1)) * GIGA / int(m.group(2)) if m else None

class TAI(AI):
    def __init__(self, g, fields, **kw):
        self.fields = fields
        self.decls = {}
        super().__init__(g, self.cell_, TAI.call_, TAI.effect_, **kw)
    def cell_(self, t):
        if t[0] == "f":
            if t[2] in self.fields:
                r = root(self.g.deep(t))
                if r[0] == "v" and self.byvalue(r): return t
                return ("CFG", t[2])
            if root(t) == ("this",): return t
        return None
    def byvalue(self, r):
        for f in self.g.frames:
            for v in f.vars.values():
                if v.term == r: return not v.ref and CFG in (v.t or "") and "_ptr<" not in (v.t or "") and not (v.t or "").rstrip().endswith("*")
        return False
    def binop(self, op, a, b):
        if op == "/":
            if not isinstance(a, (int, float)) or not isinstance(b, (int, float)): return None
            if b == 0: return UNK
            if isinstance(a, int) and isinstance(b, int): return int(a / b)
            return a / b
        if op == "<=>": return None
        if isinstance(a, float) or isinstance(b, float):
            if isinstance(a, (int, float)) and isinstance(b, (int, float)) and op in OPS: return OPS[op](a, b)
        if op in ("^", "+", "|", "*", "-") and (isinstance(a, tuple) and a[:1] == ("hash",) or isinstance(b, tuple) and b[:1] == ("hash",)) and a is not None and b is not None:
            return ("hash", op, a, b)
        if op in ("<<", ">>", "%") and isinstance(a, tuple) and a[:1] == ("hash",): return ("hash", op, a, b)
        return super().binop(op, a, b)
    def ev(self, e, fr, env, depth=0):
        if isinstance(e, dict):
            k = e["k"]
            if k == "float":
                try: return float(e["v"])
                except ValueError: return None
            if k == "zero": return 0
            if k == "un" and e["op"] == "-":
                r = self.ev(e["e"], fr, env, depth + 1)
                return -r if isinstance(r, float) else super().ev(e, fr, env, depth)
            if k in ("icast", "cast") and depth < 40:
                r = self.ev(e["e"], fr, env, depth + 1)
                t = (e.get("t") or "").replace("const ", "")
                if isinstance(r, float) and t in ("int", "long", "long long"): return int(r)
                if e.get("ck") == "FloatingToBoolean" and isinstance(r, float): return r != 0
            if k == "ref" and e.get("dk") not in ("local", "param", "binding"):
                gl = self.g.db.G.get(e.get("q") or e.get("n"))
                if gl is not None and gl.get("const") and gl.get("init") is not None and depth < 30:
                    r = self.ev(gl["init"], fr, env, depth + 1)
                    if r is not None: return r
            if k in ("ref", "mem"):
                key = self.lkey(e, fr, env)
                if key is not None and key[0] == "CFG": return self.setting(key[1], env)
        return super().ev(e, fr, env, depth)
    def setting(self, name, env):
        ch = env.get("CHANGE")
        if ch is not None and ch[0] == name and env.get("LOADS", 0) >= ch[1]: return ch[2]
        return env.get(("CFG", name))
    def ticks(self, e, fr, env):
        """The operand of a duration's constructor or count()."""
    @staticmethod
    def call_(ai, e, fr, env):
        fn, A = e.get("fn") or "", e.get("a") or []
        if e["k"] == "call" and e.get("obj") is not None and ("LD", id(e), fr.id) in env: return env[("LD", id(e), fr.id)]
        if CLOCK.match(fn): return env.get("NOW")
        if e["k"] == "call" and last(fn) in ("load", "exchange") and fn.startswith("std::") and e.get("obj") is not None: return ai.ev(e["obj"], fr, env)
        if fn == "std::nullopt_t::nullopt_t": return NULL
        if e["k"] in ("ctor", "init") or e["k"] == "call" and last(fn) == "operator=":
            u = unit(fn if e["k"] == "ctor" else e.get("t"))
            a = A[-1:] if e["k"] == "call" else A
            if u is not None and len(a) == 1 and "duration" in (e.get("cls") or fn) or u is not None and e["k"] == "init" and len(a) == 1:
                r = ai.ev(a[0], fr, env)
                if not isinstance(r, (int, float)) or isinstance(r, bool): return r
                if unit(typ(a[0])) is not None or "chrono::" in (typ(a[0]) or ""): return r
                return r * u if not (r * u == int(r * u)) else int(r * u)
            if u is not None and not a: return 0
            if e["k"] == "ctor" and not a and re.search(r"chrono::time_point<", e.get("fn") or ""): return 0
        if e["k"] == "call":
            if last(fn) == "count" and e.get("obj") is not None:
                u = unit(fn)
                r = ai.ev(e["obj"], fr, env)
                if u is None or not isinstance(r, (int, float)): return None
                return int(r / u) if isinstance(r, int) else r / u
            if last(fn) in ("time_since_epoch",) and e.get("obj") is not None: return ai.ev(e["obj"], fr, env)
            if re.match(r"std::chrono::(duration_cast|time_point_cast|round|floor|ceil)$", fn) and A: return ai.ev(A[0], fr, env)
            if fn in ("std::max", "std::min") and len(A) == 2:
                a, b = ai.ev(A[0], fr, env), ai.ev(A[1], fr, env)
                return (max if fn == "std::max" else min)(a, b) if isinstance(a, (int, float)) and isinstance(b, (int, float)) else None
            if re.match(r"std::hash<(?!cosim)", fn) and last(fn) == "operator()" and A:
                v = ai.ev(A[-1], fr, env)
                return ("hash", "", v) if v is not None else None
            if re.match(r"boost::hash_value$", fn) and A:
                v = ai.ev(A[0], fr, env)
                return ("hash", "", v) if v is not None else None
            if fn.endswith("duration::zero") or re.search(r"duration<.*>::zero$", fn): return 0
            if e.get("op") == "-" and len(A) == 1 and e.get("obj") is None or e.get("op") == "-" and not A and e.get("obj") is not None:
                r = ai.ev(A[0] if A else e["obj"], fr, env)
                return -r if isinstance(r, (int, float)) else None
            if e.get("op") in ("/", "*", "%") :
                ops = ([e["obj"]] if e.get("obj") is not None else []) + A
                if len(ops) == 2:
                    a, b = ai.ev(ops[0], fr, env), ai.ev(ops[1], fr, env)
                    if isinstance(a, (int, float)) and isinstance(b, (int, float)): return ai.binop(e["op"], a, b)
                    return None
        return NotImplemented
    def compound(self, op, old, d, env):
        if isinstance(old, (int, float)) and isinstance(d, (int, float)) and op[0] in "+-*/":
            return self.binop(op[0], old, d) if op not in ("++", "--") else super().compound(op, old, d, env)
        return super().compound(op, old, d, env)
    @staticmethod
    def effect_(ai, n, env):
        g = ai.g
        if n.k == "write" and n.d.get("op") == "=":
            # metrics
            p = g.place(n)
            if p[0] == "f" and p[2] in ai.metrics:
                env = dict(env)
                env["LOG"] = env["LOG"] + (("MET", p[2], ai.ev(n.d["val"], n.fr, env), n),)
                return env
            return None
        if n.k != "call": return None
        e = n.e
        fn, A = e.get("fn") or "", e.get("a") or []
        if last(fn) in ("load",) or last(fn).startswith("operator ") or fn.startswith("std::atomic") and e.get("conv"):
            if e.get("obj") is not None:
                k = ai.lkey(e["obj"], n.fr, env)
                if k is not None and k[0] == "CFG":
                    env = dict(env)
                    v = ai.setting(k[1], env)
                    env[("LD", id(e), n.fr.id)] = v
                    env["LOADS"] = env.get("LOADS", 0) + 1
                    return env
            return None
        if last(fn) == "store" and fn.startswith("std::") and e.get("obj") is not None and A:
            p = g.T(e["obj"], n.fr)
            if p[0] == "f" and p[2] in ai.metrics:
                env = dict(env)
                env["LOG"] = env["LOG"] + (("MET", p[2], ai.ev(A[0], n.fr, env), n),)
                return env
            k = ai.lkey(e["obj"], n.fr, env)
            if k is not None:
                env = dict(env)
                v = ai.ev(A[0], n.fr, env)
                if v is None: env.pop(k, None)
                else: env[k] = v
                return env
            return None
        if last(fn) in ("hash_combine", "reset") and A:
            if last(fn) == "hash_combine":
                k = ai.lkey(A[0], n.fr, env)
                if k is None: return None
                old, v = ai.ev(A[0], n.fr, env), ai.ev(A[1], n.fr, env)
                env = dict(env)
                if old is None or v is None: env.pop(k, None)
                else: env[k] = ("hash", "", old, v)
                return env
        if last(fn) == "reset" and e.get("obj") is not None and not A:
            k = ai.lkey(e["obj"], n.fr, env)
            if k is not None: env = dict(env); env[k] = NULL; return env
        if SLEEP.match(fn) and A:
            v = ai.ev(A[0], n.fr, env)
            env = dict(env)
            now = env["NOW"]
            if "until" in last(fn): v = v - now if isinstance(v, (int, float)) else None
            env["LOG"] = env["LOG"] + (("SLEEP", v, n),)
            if isinstance(v, (int, float)) and v > 0: env["NOW"] = now + int(v)
            return env
        return None

def typ(e):
    while isinstance(e, dict):
        if e["k"] == "call": return e.get("t") or ""
        if e.get("t"): return e["t"]
        if e["k"] in ("icast", "cast", "defarg"): e = e.get("e"); continue
        return ""
    return ""

class Timer:
    """Runs histories of calls of the timer."""
    def __init__(self, c):
        self.c = c
        self.start = c.graph(c.one(T + "::start"), track_all=True)
        self.sleep = c.graph(c.one(T + "::sleep"), track_all=True)
        self.cfg = {f["n"]: f for f in c.db.R[CFG]["fields"]}
        self.met = {f["n"] for f in c.db.R[MET]["fields"]}
    def initial(self):
        env = {}
        for n, f in self.cfg.items():
            env[("CFG", n)] = {"real_time_simulation": True, "real_time_factor_target": 1.0, "steps_to_monitor": 3, "sampling_period_to_monitor": -1000000}.get(n, 0)
        # members with initialisers
        base = {g.place(n)[1] for g in (self.start, self.sleep) for n in g.live() if n.k == "write" and g.place(n)[0] == "f" and root(g.place(n)) == ("this",) and g.place(n)[2] not in self.met}
        ai = TAI(self.start, self.cfg)
        for q, r in self.c.db.R.items():
            if not q.startswith(T + "::"): continue
            for f in r["fields"]:
                i = f.get("init")
                if i is None:
                    # set by the constructor, from settings that are not those of the situation
                    if re.match(r"^(unsigned (long|int)|std::size_t|size_t)$", f["t"]):
                        for b in base: env[("f", b, f["n"])] = ("hash", "initial")
                    elif re.match(r"^std::chrono::time_point<", f["t"]):
                        for b in base: env[("f", b, f["n"])] = 0
                    continue
                v = NULL if "nullopt" in str(i) else ai.ev(i, self.start.rootfr, {})
                for b in base:
                    if v is not None: env[("f", b, f["n"])] = v
        return env
    def call(self, which, sim, now, envs, change=None):
        """[(env, log, path)] after a call, for each state before it; None: not decided."""
        g = self.start if which == "start" else self.sleep
        out, seen = [], set()
        for env in envs:
            e0 = {k: v for k, v in env.items() if isinstance(k, tuple) and (k[0] == "CFG" or k[0] == "f")}
            e0["NOW"], e0["LOG"] = now, ()
            if change is not None: e0["CHANGE"] = change
            for p in g.entry_fn["p"]:
                v = g.rootfr.lookup(p["d"])
                if v is not None: e0[v.term] = sim
            ai = TAI(g, self.cfg)
            ai.metrics = self.met
            res = ai.run(e0, edge=lambda n, l, m: l not in ("term", "exc"))
            if ai.exceeded: return None
            for n, e1, key in res:
                e2 = {k: v for k, v in e1.items() if isinstance(k, tuple) and (k[0] == "CFG" or k[0] == "f" and root(k) == ("this",))}
                if change is not None and ("CFG", change[0]) in e2:
                    self.loads = max(getattr(self, "loads", 0), e1.get("LOADS", 0))
                    e2[("CFG", change[0])] = change[2]
                fz = (frozenset(e2.items()), e1["LOG"])
                if fz in seen: continue
                seen.add(fz)
                out.append((e2, e1["LOG"], ai.path(key)))
        return out
    def settle(self, sim=0, now=0, **cfg):
        """States in which the settings have been noticed, the reference being (sim, now)."""
        env = self.initial()
        for k, v in cfg.items(): env[("CFG", k)] = v
        a = self.call("start", sim, now, [env])
        if a is None: return None
        b = self.call("sleep", sim, now, [x[0] for x in a])
        return None if b is None else [x[0] for x in b]

S1 = 10 ** 9
def slept(log): return [x for x in log if x[0] == "SLEEP"]
def total(log):
    s = slept(log)
    if any(x[1] is None or x[1] == UNK for x in s): return None
    return sum(max(0, x[1]) for x in s)
def near(a, b): return abs(a - b) <= 1e-6 * max(abs(a), abs(b), 1000)
def sec(x): return "%.6g s" % (x / S1)

def check(c):
    for q in (CFG, MET):
        if c.db.R.get(q) is None: raise AnalysisError("%s not found" % q)
    t = Timer(c)
    pacing(c, t)
    metrics(c, t)
    steps(c)
    influence(c, t)
    atomics(c, t)
    c.need("pacing", 10); c.need("every step", 2); c.need("atomics", 5); c.need("no influence", 10)

def where(t, log, g):
    s = slept(log)
    return g.at_line(s[-1][-1]) if s else t.c.db.where(g.entry_fn)

def pacing(c, t):
    want = {"real_time_simulation", "real_time_factor_target"}
    if not want <= set(t.cfg): c.note("the settings of the timer are not recognised"); return
    g = t.sleep
    def judge(what, res, ok, key, must=None):
        """ok: accepted total amounts (None: undecided is a note)."""
        c.ob("pacing", what)
        c.queries += 1
        if res is None: c.note("%s: too many states" % what); return
        if not res: c.note("%s: no result" % what); return
        # where something is not decided, some of the ways are not real ones: all of them must be wrong
        bad, fine = None, False
        for env, log, path in res:
            a = total(log)
            if a is None: c.note("%s: how long it sleeps is not decided" % what)
            if a is None or any(near(a, x) for x in ok): fine = True
            else: bad = (a, log, path)
        if fine: bad = None
        if bad:
            a, log, path = bad
            c.viol("pacing", where(t, log, g), "%s: sleeps %s instead of %s" % (what, sec(a) if a else "not at all", " or ".join(sec(x) if x else "not at all" for x in ok)), key=key, path=path, g=g)
    on = dict(real_time_simulation=True)
    # A: the right amount
    for f in (1.0, 2.0, 0.5):
        e = t.settle(real_time_factor_target=f, **on)
        if e is None: c.note("too many states"); return
        r = t.call("sleep", S1, 4 * S1 // 10, e)
        judge("factor %g, 1 s simulated, 0.4 s passed" % f, r, [max(0, S1 / f - 4 * S1 // 10)], "amount|%g" % f)
        if r:
            r2 = t.call("sleep", 3 * S1, 2 * S1, [x[0] for x in r])
            judge("factor %g, 3 s simulated in two steps, 2 s passed" % f, r2, [max(0, 3 * S1 / f - 2 * S1)], "amount2|%g" % f)
    e = t.settle(real_time_factor_target=1.0, **on)
    judge("simulation slower than real time", t.call("sleep", S1, 2 * S1, e), [0], "late")
    for kind, cfg in (("steps", dict(steps_to_monitor=2, sampling_period_to_monitor=-1000000)), ("period", dict(steps_to_monitor=3, sampling_period_to_monitor=S1))):
        if not set(cfg) <= set(t.cfg): continue
        e = t.settle(real_time_factor_target=1.0, **cfg, **on)
        for i in range(1, 7):
            r = t.call("sleep", i * S1, (i - 1) * S1 + (i + 1) * S1 // 10, e)
            judge("rolling average over %s, call %d" % (kind, i), r, [S1 - (i + 1) * S1 // 10], "amount|rolling|%s" % kind)
            if not r: break
            e = [x[0] for x in r]
    # C: off
    for what, cfg in (("pacing switched off", dict(real_time_simulation=False, real_time_factor_target=1.0)), ("a factor of zero", dict(real_time_factor_target=0.0, **on)),
                      ("a negative factor", dict(real_time_factor_target=-1.0, **on))):
        e = t.settle(**cfg)
        judge(what, t.call("sleep", S1, S1 // 10, e), [0], "off|" + what)
        judge(what + ", later", t.call("sleep", -S1, S1 // 10, e), [0], "off2|" + what)
    # D: start() restarts the reference
    e = t.settle(real_time_factor_target=1.0, **on)
    r = t.call("sleep", S1, S1 // 2, e)
    if r:
        r = t.call("start", S1, 9 * S1, [x[0] for x in r])
        r = r and t.call("sleep", 2 * S1, 9 * S1 + S1 // 4, [x[0] for x in r])
        judge("1 s simulated, 0.25 s passed since start() was called again", r, [3 * S1 // 4], "restart")
    # B: settings changed between calls
    def changed(name, new, base, f1):
        """History: settled; `name` set; sleep at (3 s, 5 s); sleep at (4 s, 5.25 s)."""
        e = t.settle(**base)
        if e is None: return
        e = [dict(x, **{}) for x in e]
        r = t.call("sleep", S1, S1 - S1 // 10, e)
        if not r: return
        e = [dict(x[0]) for x in r]
        for x in e: x[("CFG", name)] = new
        what = "%s changed from %s to %s" % (name, base.get(name), new)
        r = t.call("sleep", 3 * S1, 5 * S1 // 2, e)
        judge(what + ", first call after", r, [0], "changed|%s" % name)
        if not r: return
        r = t.call("sleep", 4 * S1, 5 * S1 // 2 + S1 // 4, [x[0] for x in r])
        judge(what + ", 1 s simulated and 0.25 s passed since then", r, [max(0, S1 / f1 - S1 // 4)] if f1 else [0], "changed2|%s" % name)
    b = dict(real_time_simulation=True, real_time_factor_target=1.0, steps_to_monitor=3, sampling_period_to_monitor=-1000000)
    changed("real_time_factor_target", 0.25, b, 0.25)
    changed("real_time_factor_target", 2.0, b, 2.0)
    changed("real_time_simulation", True, dict(b, real_time_simulation=False), 1.0)
    changed("real_time_simulation", False, b, 0)
    for n in ("steps_to_monitor", "sampling_period_to_monitor"):
        if n in t.cfg: changed(n, 7 if n == "steps_to_monitor" else 7000000, b, 1.0)
    # E: a setting changed by another thread during a call
    for name, old, new, f0, f1 in (("real_time_factor_target", 1.0, 0.05, 1.0, 0.05), ("real_time_factor_target", 0.05, 1.0, 0.05, 1.0),
                                   ("real_time_simulation", False, True, 0, 1.0), ("real_time_simulation", True, False, 1.0, 0)):
        base = dict(b); base[name] = old
        e = t.settle(now=0, **base)
        if e is None: continue
        t.loads = 0
        k = 0
        while k <= 12:
            # (20 s simulated, 21 s or 1 s passed): with the old reference the new factor gives another amount
            now = S1
            r = t.call("sleep", 20 * S1, now, e, change=(name, k, new))
            if r is None: break
            oldamt = max(0, 20 * S1 / f0 - now) if f0 else 0
            what = "%s changed from %s to %s by another thread during the call" % (name, old, new)
            judge(what, r, [0, oldamt], "race|%s|%s" % (name, new))
            if c.viols: break
            # what happens afterwards: the change must have been noticed, now or in the next call
            for env, log, path in r:
                a = total(log)
                if a is None: continue
                n1 = now + int(a)
                r2 = t.call("sleep", 21 * S1, n1 + S1 // 4, [env])
                ok = [0] + ([max(0, S1 / f1 - S1 // 4)] if f1 else [])
                judge(what + ", next call", r2, ok, "race2|%s|%s" % (name, new))
            if k >= t.loads: break
            k += 1

def metrics(c, t):
    """Histories of calls at irregular times; the ratio stored must belong to a period of the history."""
    if not t.met: return
    g = t.sleep
    sims = [0, 1, 3, 4, 8, 9, 15, 17, 28, 29, 41, 42, 60]
    nows = [0, 2, 3, 7, 11, 13, 18, 29, 31, 47, 51, 69, 77]
    for what, cfg in (("over steps", dict(steps_to_monitor=3, sampling_period_to_monitor=-1000000)), ("over a period", dict(steps_to_monitor=3, sampling_period_to_monitor=9 * S1))):
        if not set(cfg) <= set(t.cfg): return
        e = t.settle(real_time_simulation=False, real_time_factor_target=1.0, **cfg)
        if e is None: return
        rolled = False
        for i in range(1, len(sims)):
            r = t.call("sleep", sims[i] * S1, nows[i] * S1, e)
            if r is None: c.note("metrics: too many states"); return
            for env, log, path in r:
                c.ob("metrics", "%s, call %d" % (what, i))
                m = [x for x in log if x[0] == "MET"]
                if len(r) > 1: c.note("metrics (%s): not decided" % what); continue
                for x in m:
                    v = x[2]
                    if not isinstance(v, (int, float)): c.note("metrics: %s is not decided" % x[1]); continue
                    if "total" in x[1]: ok = [sims[i] / nows[i]]
                    else: ok = [(sims[i] - sims[j]) / (nows[i] - nows[j]) for j in range(i)]; rolled = True
                    if not any(abs(v - y) <= 1e-9 * max(1, abs(y)) for y in ok):
                        c.viol("metrics", g.at_line(x[3]), "%s (%s): %.4g is stored, which is not the ratio of simulated to real time %s" % (x[1], what, v, "since the reference" if "total" in x[1] else "over any period that ends now"), key="%s|%s" % (x[1], what), path=path, g=g)
                        return
            e = [x[0] for x in r]
        if not rolled and len(e) == 1: c.viol("metrics", c.db.where(g.entry_fn), "the rolling average is not updated in %d calls (%s)" % (len(sims) - 1, what), key="rolling|" + what)

def in_timer(f):
    q = f.get("cls") or f["q"]
    return q == T or q.startswith(T + "::") or "std::hash<" in q or f["q"].startswith(T + "::")

def steps(c):
    for q in ("simulate_until", "simulate_until_async"):
        for f in c.fns("cosim::execution::" + q):
            g = c.graph(f, track_all=True, stop=lambda f: (f.get("cls") or "") == T)
            B = Bg(g)
            isstep = lambda n: n.k == "call" and (n.e.get("fn") or "") == "cosim::algorithm::do_step"
            tm = lambda n, m: n.k == "call" and (n.e.get("fn") or "") == T + "::" + m
            st = [n for n in g.live() if isstep(n)]
            if not st: c.note("%s: no step found" % f["q"]); continue
            what = f["q"]
            ok = lambda n, lab, m: lab not in ("exc", "term")
            for s in st:
                c.ob("every step", "%s: %s" % (what, g.at_line(s)))
                p = c.path(g, [g.entry], lambda n: n is s, avoid=lambda n: tm(n, "start"), edge=ok)
                if p is not None: c.viol("every step", g.at_line(s), "%s: a step is carried out before the timer has been started" % what, key=what + "|start", path=p, g=g)
                p = c.path(g, [m for lab, m in s.succ if lab != "exc"], lambda n: isstep(n) or n is g.exit, avoid=lambda n: tm(n, "sleep"), edge=ok)
                if p is not None: c.viol("every step", g.at_line(s), "%s: the timer is not consulted after a step" % what, key=what + "|sleep", path=p, g=g)
                # the time passed is the one the step starts from, which advances in between
                cur = g.args(s)[0] if g.args(s) else None
                fld = lambda x: x[2] if x is not None and x[0] == "f" else None
                F = fld(B(cur)) if cur is not None else None
                if F is None: c.note("%s: the time a step starts at is not recognised" % what); continue
                iswr = lambda n: n.k == "write" and fld(g.place(n)) == F
                for z in [n for n in g.live() if tm(n, "sleep")]:
                    a = B(g.args(z)[0])
                    if fld(a) == F:
                        p = c.path(g, [m for lab, m in s.succ if lab != "exc"], lambda n: n is z, avoid=iswr, edge=ok)
                        if p is not None: c.viol("every step", g.at_line(z), "%s: the timer is given the time before the step" % what, key=what + "|time", path=p, g=g)
                    elif fld(a) is not None or a[0] in ("int", "p"):
                        c.viol("every step", g.at_line(z), "%s: the timer is given %s, which is not the current time" % (what, show_term(a)), key=what + "|arg")
                for z in [n for n in g.live() if tm(n, "start")]:
                    a = B(g.args(z)[0])
                    if fld(a) != F and (fld(a) is not None or a[0] in ("int", "p")):
                        c.viol("every step", g.at_line(z), "%s: the timer is started with %s, which is not the current time" % (what, show_term(a)), key=what + "|startarg")
                    p = c.path(g, [m for lab, m in z.succ if lab != "exc"], lambda n: tm(n, "start"), edge=ok)
                    if p is not None and any(isstep(n) for n in p):
                        c.viol("every step", g.at_line(z), "%s: the reference is restarted between steps" % what, key=what + "|again", path=p, g=g)

def walk(x, f):
    if isinstance(x, dict):
        f(x)
        for v in x.values():
            if isinstance(v, (dict, list)): walk(v, f)
    elif isinstance(x, list):
        for v in x: walk(v, f)

def influence(c, t):
    db = c.db
    over = {}
    for f in db.F.values():
        for r in db.roots(f["id"]) if f.get("ov") else ():
            over.setdefault(db._mq.get(r), []).append(f)
    lam = {}
    todo = []
    for q in ("cosim::execution::step", "cosim::execution::simulate_until", "cosim::execution::simulate_until_async"): todo += c.fns(q)
    done = {}
    uses = set()
    while todo:
        f = todo.pop()
        if f["id"] in done or f.get("body") is None or f.get("dependent"): continue
        done[f["id"]] = f
        if in_timer(f) or re.search(r"observer", f.get("cls") or ""): continue
        def see(x):
            if x.get("k") in ("call", "ctor", "new") and x.get("fn"):
                q = x["fn"]
                if CLOCK.match(q) or SLEEP.match(q): uses.add(f["id"])
                if q.startswith(T + "::") and not re.search(r"(^|\W)void$", x.get("t") or "void") and "get_real_time" not in q and last(q) not in ("real_time_timer", "~real_time_timer"): uses.add(f["id"])
                todo.extend(db.byq.get(q, []))
                todo.extend(over.get(q, []))
            if x.get("k") == "mem" and x.get("n") in set(t.cfg) | t.met: uses.add(f["id"])
            for i in x.get("ids") or () if x.get("k") == "lambda" else ():
                if i in db.F: todo.append(db.F[i])
        walk(f.get("body"), see)
        walk(f.get("inits"), see)
    c.ob("no influence", None, n=len(done))
    c.ob("no influence", "%d functions reachable from the simulation" % len(done), n=0)
    for i in sorted(uses):
        f = done[i]
        g = c.graph(f, track_all=True, stop=lambda x: True)
        B = Bg(g)
        bad = lambda x: isinstance(x, tuple) and x and (x[0] == "call" and (CLOCK.match(str(x[1])) or str(x[1]).startswith(T + "::") and "get_real_time" not in str(x[1])) or x[0] == "f" and len(x) > 2 and x[2] in set(t.cfg) | t.met)
        m = lambda e, fr: e is not None and mentions(B(g.deep(g.T(e, fr))), bad)
        for n in g.live():
            why = None
            if n.k == "branch" and m(n.e, n.fr): why = "decides with it"
            elif n.k == "call":
                fn = n.e.get("fn") or ""
                if SLEEP.match(fn): why = "sleeps"
                elif fn.startswith("cosim::") and not fn.startswith("cosim::log") and any(m(a, n.fr) for a in n.e.get("a") or []): why = "passes it on"
            elif n.k == "write" and n.d.get("val") is not None and not any(x in str(g.place(n)) for x in ()):
                p = g.place(n)
                if root(p)[0] != "v" and m(n.d["val"], n.fr): why = "stores it"
            elif n.k == "ret" and n.fr is not None and n.e is not None and m(n.e, n.fr): why = "returns it"
            if why: c.viol("no influence", g.at_line(n), "%s %s" % (f["q"], "sleeps outside the timer" if why == "sleeps" else "uses real time, or the timer's settings, in the simulation and " + why), key="%s|%s" % (f["q"], why))

def atomics(c, t):
    db = c.db
    for q in (CFG, MET):
        r = db.R[q]
        for f in r["fields"]:
            c.ob("atomics", "%s::%s" % (q, f["n"]))
            if not re.match(r"^(const )?std::(atomic|mutex)", f["t"]) and not f.get("const"):
                c.viol("atomics", "%s:%s" % (db.rel(r), r["l"]), "%s::%s is exchanged between threads, but is not atomic" % (q, f["n"]), key=q + "::" + f["n"])
    shared = set()
    for q, r in db.R.items():
        if q == T or q.startswith(T + "::"):
            for f in r["fields"]:
                if CFG in f["t"] or MET in f["t"]: shared.add(f["n"])
    written = {}
    for g in (t.start, t.sleep):
        for n in g.live():
            for p in rule_writes(g, n):
                if p[0] == "f" and p[2] not in t.cfg and p[2] not in t.met and root(p) == ("this",): written.setdefault(p[2], (g, n))
    atomic = {f["n"] for q, r in db.R.items() if q == T or q.startswith(T + "::") for f in r["fields"] if re.match(r"^(const )?std::(atomic|mutex)", f["t"])}
    for n in sorted(shared):
        c.ob("atomics", "%s stays the same object" % n)
        if n in written: g, x = written[n]; c.viol("atomics", g.at_line(x), "the object other threads have been given (%s) is exchanged" % n, key="exchanged|" + n)
    for q in ("get_real_time_config", "get_real_time_metrics"):
        for f in c.fns(T + "::" + q):
            g = c.graph(f, track_all=True)
            c.ob("atomics", f["q"])
            for n in g.live():
                for p in list(reads_of(g, n)) + list(rule_writes(g, n)):
                    if p[0] == "f" and p[2] in written and p[2] not in atomic: c.viol("atomics", g.at_line(n), "%s uses %s, which pacing writes" % (f["q"], p[2]), key="%s|%s" % (q, p[2]))
            for n, r in [(x[0], x[1]) for x in returned(g)]:
                x = Bg(g)(g.deep(r))
                if x[0] == "v":
                    v = next((v for f in g.frames for v in f.vars.values() if v.term == x), None)
                    if v is not None and not v.ref:
                        ds = [d for d in v.defs if d[1] == "init" and d[2] is not None]
                        if ds: x = Bg(g)(g.T(ds[0][2], ds[0][3]))
                if x[0] == "new" or x[0] == "call" and last(str(x[1])) in ("make_shared", "make_unique"):
                    c.viol("atomics", g.at_line(n), "%s hands out a copy" % f["q"], key=q + "|copy")
