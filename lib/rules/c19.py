"""C19: file locks."""
from slvsim import *
from absint import AI, NULL, truth
from c18 import strip_cr, exprs_of
RULE = """
Explored with abstract values for the in-process mutex (none / exclusive / shared), the on-disk lock and the lock objects that own
them (std RAII types; try-locks split at the test of their outcome, a lock operation may throw): in every member function of file_lock
the disk lock is taken only while the mutex is held, and released while it still is; lock / lock_shared return holding both, owned by
the object's own lock members in the right mode; try_lock / try_lock_shared return true iff both are so held, and otherwise, like every
exception, leave neither held; unlock / unlock_shared release both from the members; the disk member is destroyed before the mutex
member; the constructor acquires exactly what its argument asks for.  The shared counting wrapper is explored from every
state (-1, 0, 1, 2, 3 holders): after each operation that succeeds the count says what is held (-1 exclusive, 0 none, n>0 shared), one that
fails changes nothing, and count and disk lock are touched only under the wrapper's mutex.  The table of mutexes is accessed only under its
mutex; what get_file_mutex returns comes from the table, where files are compared by identity, or is entered into it before returning.
"""
ASSUME = ["operations on std / boost lock types do what their documentation says; unlocking does not throw",
          "preconditions in the documentation of file_lock hold (not locked twice by the same thread)"]
FL = "cosim::utility::file_lock"
LT = re.compile(r"^std::(unique_lock|shared_lock|lock_guard|scoped_lock)<(.*)>$")

def disk_types(c):
    """boost::interprocess::file_lock and the repo classes that contain one."""
    out = {"boost::interprocess::file_lock"}
    for q, r in c.db.R.items():
        if any(f["t"] == "boost::interprocess::file_lock" for f in r["fields"]): out.add(q)
    return out

def check(c):
    disk = disk_types(c)
    rec = c.db.R.get(FL)
    if rec is None: raise AnalysisError("anchor vanished: " + FL)
    M = Model(c, disk)
    for nm in ("lock", "try_lock", "lock_shared", "try_lock_shared", "unlock", "unlock_shared"):
        fs = [f for f in c.fns(FL + "::" + nm) if f["cls"] == FL]
        for f in fs: M.method(f, nm)
    M.members(rec)
    M.ctor()
    for w in sorted(disk):
        if w in c.db.R and w != FL: wrapper(c, w)
    table(c)
    c.need("acquire and release", 6); c.need("shared count", 10); c.need("table", 1)

class Model:
    def __init__(self, c, disk): self.c, self.disk = c, disk
    def which(self, t):
        """'M' or 'F' for the type of a lockable object."""
        t = strip_cr(t)
        if t in self.disk: return "F"
        if re.match(r"std::(shared_|shared_timed_|timed_|recursive_)?mutex$", t): return "M"
        return None
    def locktype(self, t):
        m = LT.match(strip_cr(t))
        if not m: return None
        w = self.which(m.group(2))
        return (w, "s" if m.group(1) == "shared_lock" else "x") if w else None
    def memtype(self, t):
        """Which lock a member owns, from its type."""
        ws = {self.which(x) for x in re.findall(r"(?:unique_lock|shared_lock)<([^<>]*)>", strip_cr(t))}
        return ws.pop() if len(ws) == 1 else None
    def setup(self, f):
        c = self.c
        ops = ("lock", "try_lock", "lock_shared", "try_lock_shared", "unlock", "unlock_shared", "lock_sharable", "try_lock_sharable", "unlock_sharable")
        stop = lambda x: x.get("cls") in self.disk or x["q"].endswith("::get_file_mutex")
        def thr(e):
            fn = e.get("fn") or ""
            if e["k"] == "ctor" and self.locktype(e.get("t")) and len(e.get("a") or []) >= 1:
                return not any(re.search("try_to_lock_t|defer_lock_t|adopt_lock_t", a.get("t") or "") for a in e["a"]) and self.which((e["a"][0].get("t"))) is not None
            if e["k"] == "call" and last(fn) in ("lock", "lock_shared") and e.get("obj") is not None:
                return self.which(e["obj"].get("t")) is not None or self.locktype(e["obj"].get("t")) is not None
            return False
        g = c.graph(f, track_all=True, stop=stop, extra_throw=thr)
        mem = {x["n"]: self.memtype(x["t"]) for x in c.db.R[f["cls"]]["fields"] if self.memtype(x["t"])}
        return g, mem
    def method(self, f, nm):
        c = self.c
        g, mem = self.setup(f)
        bad = {}
        unknown = []
        if set(mem.values()) != {"M", "F"}:
            c.note("%s: lock members not recognised" % FL); return
        byw = {w: n for n, w in mem.items()}
        def cell(t):
            while t[0] in ("get", "alt", "*"): t = t[1]
            if t[0] == "f" and t[1] == ("this",) and t[2] in mem: return ("mem", t[2])
            return None
        def unwrap(e):
            while isinstance(e, dict) and (e["k"] in ("icast", "cast") or e["k"] == "call" and e.get("fn") in ("std::move", "std::forward", "std::get") and e.get("a")): e = e["e"] if e["k"] != "call" else e["a"][0]
            return e
        def objkey(e, fr):
            """Key of the lock object an expression designates."""
            e = unwrap(e)
            if e["k"] == "ref":
                v = fr.lookup(e["d"])
                if v is not None and not v.ref and self.locktype(v.t): return v.term
                if v is not None and v.ref and v.defs and v.defs[0][1] in ("init", "param") and v.defs[0][2] is not None: return objkey(v.defs[0][2], v.defs[0][3])
            return cell(g.T(e, fr))
        def how(e):
            for a in (e.get("a") or [])[1:]:
                t = a.get("t") or ""
                if "try_to_lock" in t: return "try"
                if "defer_lock" in t: return "no"
                if "adopt_lock" in t: return "adopt"
            return "own"
        def newlock(e):
            lt = self.locktype(e.get("t"))
            if lt and e["k"] == "ctor" and e.get("a") and self.which(e["a"][0].get("t")): return lt
            return None
        def call(ai, e, fr, env):
            if e["k"] == "ctor":
                lt = newlock(e)
                if lt:
                    h = how(e)
                    return ("lk",) + lt + ("own" if h == "adopt" else h,)
                if self.locktype(e.get("t")) and not e.get("a"): return ("lk",) + self.locktype(e.get("t")) + ("no",)
                if "variant" in (e.get("t") or "") and not e.get("a"): return ("lk", "?", "?", "no")
                if len(e.get("a") or []) == 1:
                    k = objkey(e["a"][0], fr)
                    if k is not None: return env.get(k)
            if e["k"] == "call" and e.get("obj") is not None:
                nm2 = last(e.get("fn"))
                if nm2 in ("owns_lock", "operator bool"):
                    k = objkey(e["obj"], fr)
                    if k is not None and env.get(k) is not None:
                        s = env[k][3]
                        return True if s == "own" else (False if s == "no" else None)
            return NotImplemented
        def acquire(env, n, w, mode, st):
            if w == "F" and env["M"] not in ("x", "s"): fault(env, n, "takes the on-disk lock without holding the in-process mutex")
            if st == "own" and env[w] in ("x", "s") and w == "M": fault(env, n, "locks the in-process mutex twice")
            env[w] = mode if st == "own" else ("try", mode)
        def release(env, n, w):
            if w == "M" and env["F"] in ("x", "s"): fault(env, n, "releases the in-process mutex before the on-disk lock")
            env[w] = "none"
        def fault(env, n, msg):
            env[("bad",)] = (n, msg)
        def effect(ai, n, env):
            if n.k == "call":
                e = n.e
                lt = newlock(e)
                if lt:
                    h = how(e)
                    env = dict(env)
                    if h in ("own", "try"): acquire(env, n, lt[0], lt[1], h)
                    return env
                if e["k"] == "call" and e.get("obj") is not None:
                    nm2 = last(e.get("fn"))
                    if nm2 in ("lock", "try_lock", "unlock", "lock_shared", "try_lock_shared", "unlock_shared", "lock_sharable", "try_lock_sharable", "unlock_sharable", "release", "swap"):
                        w = self.which(e["obj"].get("t"))
                        if w:
                            env = dict(env)
                            if nm2.startswith("unlock"): release(env, n, w)
                            else: acquire(env, n, w, "s" if "shar" in nm2 else "x", "try" if nm2.startswith("try") else "own")
                            return env
                        k = objkey(e["obj"], n.fr)
                        if k is not None:
                            env = dict(env)
                            v = env.get(k)
                            if v is None: unknown.append(n); return env
                            lt = self.locktype(e["obj"].get("t"))
                            if k[0] == "mem" and lt and v[2] != "?" and v[2] != lt[1]: fault(env, n, "uses the %s lock as if it were the other kind" % ("exclusive" if v[2] == "x" else "shared"))
                            w, mode = (v[1], v[2]) if v[1] != "?" else lt
                            if nm2 == "unlock":
                                if v[3] == "no": fault(env, n, "unlocks what it does not hold")
                                release(env, n, w); env[k] = ("lk", w, mode, "no")
                            elif nm2 == "release": env[k] = ("lk", w, mode, "no")
                            elif nm2 in ("lock", "try_lock"):
                                st = "own" if nm2 == "lock" else "try"
                                acquire(env, n, w, mode, st); env[k] = ("lk", w, mode, st)
                            return env
                        if self.locktype(e["obj"].get("t")): unknown.append(n)
            if n.k in ("decl", "write"):
                val = n.d.get("init") if n.k == "decl" else n.d.get("val")
                if val is None: return None
                src = None
                for x in [val] + ([val["a"][0]] if val["k"] == "ctor" and len(val.get("a") or []) == 1 else []):
                    while x["k"] in ("icast", "cast"): x = x["e"]
                    if x["k"] == "call" and x.get("fn") == "std::move" and x.get("a"): src = objkey(x["a"][0], n.fr)
                if src is not None and src in env:
                    env = dict(env)
                    v = env[src]
                    if v is not None: env[src] = v[:3] + ("no",)
                    return env
            if n.k == "dtor":
                k = n.d["var"].term
                v = env.get(k)
                if v is not None and isinstance(v, tuple) and v and v[0] == "lk" and v[3] in ("own", "try"):
                    env = dict(env); release(env, n, v[1]); env.pop(k, None)
                    return env
            return None
        def assume(ai, n, lab, env):
            a, pol = g.atom(n)
            if lab not in ("T", "F"): return env
            v = (lab == "T") == pol
            k = None
            e = n.e
            # the tested lock object
            st = [e]
            while st:
                x = st.pop()
                if not isinstance(x, dict): continue
                if x["k"] == "call" and x.get("obj") is not None and last(x.get("fn")) in ("owns_lock", "operator bool", "try_lock", "try_lock_shared", "try_lock_sharable"):
                    k = objkey(x["obj"], n.fr)
                    w = self.which(x["obj"].get("t"))
                    if k is None and w is not None and isinstance(env.get(w), tuple):
                        env = dict(env); env[w] = env[w][1] if v else "none"
                        return env
                    break
                st.extend(y for y in (x.get("e"), x.get("a"), x.get("b"), x.get("obj")) if isinstance(y, dict))
                if isinstance(x.get("a"), list): st.extend(x["a"])
            if k is None:
                # through a flag
                if a[0] == "truthy" and a[1][0] == "v": 
                    kk = env.get(("flag", a[1]))
            if k is not None and env.get(k) is not None and env[k][3] == "try":
                env = dict(env)
                lk = env[k]
                env[k] = lk[:3] + ("own" if v else "no",)
                env[lk[1]] = lk[2] if v else "none"
            return env
        mode = "s" if nm.endswith("shared") else "x"
        env0 = {"M": "none", "F": "none"}
        for n_, w in mem.items(): env0[("mem", n_)] = ("lk", w, "?", "no")
        if nm.startswith("unlock"):
            env0 = {"M": mode, "F": mode}
            for n_, w in mem.items(): env0[("mem", n_)] = ("lk", w, mode, "own")
        ai = AI(g, cell, call, effect, assume)
        c.queries += 1
        c.ob("acquire and release", f["q"])
        res = ai.run(env0, watch=lambda n: n is g.xexit, edge=lambda n, l, m: l != "term" and not (l == "exc" and n.k == "call" and last(n.e.get("fn")).startswith("unlock")), stop=lambda n, env: ("bad",) in env)
        # ordering faults on any path
        for (n, fe) in list(ai.seen):
            env = dict(fe)
            if ("bad",) in env:
                bn, msg = env[("bad",)]
                c.viol("acquire and release", g.at_line(bn), "%s %s" % (f["q"], msg), key=nm + "|" + msg, path=ai.path((n, fe)), g=g)
                break
        if unknown: c.note("%s: %s on a lock of unknown state" % (f["q"], g.at_line(unknown[0]))); return
        got = False
        for n, env, key in res:
            if ("bad",) in env: continue
            both = env["M"] == mode and env["F"] == mode
            none = env["M"] == "none" and env["F"] == "none"
            own = all(env.get(("mem", byw[w])) == ("lk", w, mode, "own") for w in byw)
            say = lambda msg, k: c.viol("acquire and release", c.db.where(f), "%s %s" % (f["q"], msg), key=nm + "|" + k, path=ai.path(key), g=g)
            if n is g.xexit:
                if nm.startswith("unlock"): continue
                if not none: say("may leave %s held when it throws" % held(env), "throw")
                continue
            if nm in ("lock", "lock_shared"):
                if not both: say("may return without holding both locks (%s)" % state(env), "nothold")
                elif not own: say("holds the locks, but not in the members that release them", "members")
            elif nm in ("unlock", "unlock_shared"):
                if not none: say("may return with %s still held" % held(env), "still")
            else:
                r = truth(env.get(("RET", g.rootfr.id)))
                if r is None:
                    c.note("%s: value returned on some path not known" % f["q"]); continue
                got = got or r
                if r and not both: say("may return true without holding both locks (%s)" % state(env), "true")
                elif r and not own: say("holds the locks, but not in the members that release them", "members")
                elif not r and not none: say("may return false with %s held" % held(env), "false")
    def members(self, rec):
        c = self.c
        order = [(f["n"], self.memtype(f["t"])) for f in rec["fields"]]
        pos = {w: i for i, (n, w) in enumerate(order) if w}
        c.ob("acquire and release", "members: " + ", ".join(n for n, w in order))
        dt = [f for f in c.db.F.values() if f.get("cls") == FL and f["n"].startswith("~") and f.get("body") is not None and not f.get("dflt")]
        if set(pos) == {"M", "F"} and not dt:
            if pos["F"] < pos["M"]: c.viol("acquire and release", "%s" % FL, "the in-process lock is destroyed (released) before the on-disk lock", key="members|order")
        hold = [i for i, f in enumerate(rec["fields"]) if "shared_ptr<" in f["t"]]
        if pos and hold and min(hold) > min(pos.values()) and not dt: c.viol("acquire and release", "%s" % FL, "the locked objects may be destroyed before the locks that refer to them", key="members|owner")
    def ctor(self):
        c = self.c
        pre = "cosim::utility::file_lock_initial_state::"
        for f in c.db.F.values():
            if f["q"] != FL + "::file_lock" or len(f["p"]) != 2 or f.get("body") is None: continue
            g = c.graph(f, track_all=True, stop=lambda x: x.get("cls") == FL and x["n"] != "file_lock" or x.get("cls") in self.disk)
            for val, want in (("locked", "lock"), ("locked_shared", "lock_shared"), ("not_locked", None)):
                c.ob("acquire and release", "constructor: " + val)
                edge = typed(g, val, pre)
                calls = {n: last(n.e.get("fn")) for n in g.live() if n.k == "call" and n.e.get("obj") is not None and last(n.e.get("fn")) in ("lock", "lock_shared", "try_lock", "try_lock_shared") and bare(g.obj(n)) == ("this",)}
                if not calls: c.note("constructor: acquisition not recognised"); return
                e2 = lambda n, l, m: l not in ("exc", "term") and edge(n, l, m)
                for n, k in calls.items():
                    if k != want:
                        p = c.path(g, [g.entry], lambda m: m is n, edge=e2)
                        if p: c.viol("acquire and release", g.at_line(n), "the constructor calls %s() for %s" % (k, val), key="ctor|" + val, path=p, g=g)
                if want:
                    p = c.path(g, [g.entry], lambda m: m is g.exit, avoid=lambda m: calls.get(m) == want, edge=e2)
                    if p: c.viol("acquire and release", c.db.where(f), "the constructor may not call %s() for %s" % (want, val), key="ctor|" + val, path=p, g=g)

def state(env): return "mutex: %s, file: %s" % (env["M"] if isinstance(env["M"], str) else "?", env["F"] if isinstance(env["F"], str) else "?")
def held(env): return " and ".join(x for w, x in (("M", "the in-process mutex"), ("F", "the on-disk lock")) if env[w] != "none")

# ------------------------------------------------------------------ wrapper
BL = {"lock": ("x", 0), "try_lock": ("x", 1), "unlock": ("none", 0), "lock_sharable": ("s", 0), "try_lock_sharable": ("s", 1), "unlock_sharable": ("none", 0)}
def wrapper(c, w):
    r = c.db.R[w]
    ints = [f["n"] for f in r["fields"] if re.match(r"^(int|long|short|std::atomic<int>|unsigned int|std::size_t|unsigned long)$", f["t"])]
    disk = [f["n"] for f in r["fields"] if f["t"] == "boost::interprocess::file_lock"]
    mux = [f["n"] for f in r["fields"] if MUTEX.match(f["t"]) and f["t"] != "boost::interprocess::file_lock"]
    if len(ints) != 1 or len(disk) != 1: c.note("%s: shared counting of unrecognised shape" % w); return
    K, D = ints[0], disk[0]
    def cell(t):
        if t[0] == "f" and t[1] == ("this",) and t[2] == K: return ("k",)
        return None
    ms = {"lock": [0], "try_lock": [0], "unlock": [-1], "lock_shared": [0, 1, 2], "try_lock_shared": [0, 1, 2], "unlock_shared": [1, 2, 3]}
    inv = lambda k: "x" if k == -1 else ("none" if k == 0 else "s")
    for nm, starts in ms.items():
        for f in [x for x in c.fns(w + "::" + nm, must=False) if x.get("cls") == w]:
            g = c.graph(f, track_all=True, extra_throw=lambda e: bool(re.match(r"boost::interprocess::file_lock::(lock|try_lock|lock_sharable|try_lock_sharable)$", e.get("fn") or "")))
            def op(n):
                return n.k == "call" and n.e.get("obj") is not None and (n.e.get("fn") or "").startswith("boost::interprocess::file_lock::") and bare(g.obj(n)) == ("f", ("this",), D) and last(n.e["fn"]) in BL
            def effect(ai, n, env):
                if op(n):
                    st, tr = BL[last(n.e["fn"])]
                    env = dict(env)
                    if st != "none" and env["d"] != "none": env[("bad",)] = (n, "locks the file although it is locked already")
                    if st == "none" and env["d"] == "none": env[("bad",)] = (n, "unlocks a file that is not locked")
                    if st == "none" and env["d"] != ("s" if "shar" in last(n.e["fn"]) else "x") and env["d"] != "none": env[("bad",)] = (n, "releases the wrong kind of lock")
                    env["d"] = ("try", st) if tr else st
                    return env
                if n.k == "call" and n.e.get("obj") is not None and (n.e.get("fn") or "").startswith("std::atomic") : return None
                return None
            def assume(ai, n, lab, env):
                if lab not in ("T", "F"): return env
                a, pol = g.atom(n)
                if isinstance(env.get("d"), tuple) and mentions(a, lambda x: x[0] == "call" and last(str(x[1])).startswith("try_lock")):
                    env = dict(env); env["d"] = env["d"][1] if (lab == "T") == pol else "none"
                return env
            def call(ai, e, fr, env): return NotImplemented
            for k0 in starts:
                c.ob("shared count", "%s from %d" % (f["q"], k0)); c.queries += 1
                ai = AI(g, cell, call, effect, assume)
                res = ai.run({("k",): k0, "d": inv(k0)}, watch=lambda n: n is g.xexit, edge=lambda n, l, m: l != "term" and not (l == "exc" and op(n) and last(n.e["fn"]).startswith("unlock")), stop=lambda n, env: ("bad",) in env)
                for (n, fe) in list(ai.seen):
                    env = dict(fe)
                    if ("bad",) in env:
                        bn, msg = env[("bad",)]
                        c.viol("shared count", g.at_line(bn), "%s with %s: %s" % (f["q"], holders(k0), msg), key="%s|%d|%s" % (nm, k0, msg), path=ai.path((n, fe)), g=g)
                        break
                norm = False
                for n, env, key in res:
                    if ("bad",) in env: continue
                    k1, d = env.get(("k",)), env["d"]
                    if k1 is None or not isinstance(d, str): c.note("%s: count or lock state not known on some path" % f["q"]); continue
                    say = lambda msg: c.viol("shared count", c.db.where(f), "%s with %s: %s" % (f["q"], holders(k0), msg), key="%s|%d|%s" % (nm, k0, msg), path=ai.path(key), g=g)
                    ok = {"lock": -1, "try_lock": -1, "unlock": 0, "lock_shared": k0 + 1, "try_lock_shared": k0 + 1, "unlock_shared": k0 - 1}[nm]
                    if n is g.xexit:
                        if k1 != k0 or d != inv(k0): say("an exception leaves the count at %d while the file is %s" % (k1, words(d)))
                        continue
                    norm = True
                    r_ = truth(env.get(("RET", g.rootfr.id))) if nm.startswith("try") else True
                    if r_ is None: c.note("%s: value returned on some path not known" % f["q"]); continue
                    want = ok if r_ else k0
                    if d != inv(want): say("%s with the file %s" % ("returns" if not nm.startswith("try") else "returns %s" % str(r_).lower(), words(d)))
                    elif k1 != want: say("leaves the count at %d instead of %d" % (k1, want))
                if not norm and not any("bad" in str(v["key"]) for v in c.viols): c.viol("shared count", c.db.where(f), "%s with %s does not return" % (f["q"], holders(k0)), key="%s|%d|noreturn" % (nm, k0))
            # mutual exclusion
            if mux:
                L = Locks(g)
                for n in g.live():
                    acc = op(n)
                    if not acc:
                        acc = any(bare(p) == ("f", ("this",), K) for p in writes_of(g, n) + reads_of(g, n))
                    if acc and "__assert_fail" not in str(n.e and n.e.get("fn")):
                        if not any(m[0][0] == "f" and m[0][2] in mux for m in L.at(n)):
                            c.viol("shared count", g.at_line(n), "%s uses the count or the lock without holding the mutex" % f["q"], key=nm + "|unlocked")
def holders(k): return "an exclusive holder" if k == -1 else ("no holder" if k == 0 else "%d shared holder%s" % (k, "s" if k > 1 else ""))
def words(d): return {"x": "locked exclusively", "s": "locked for sharing", "none": "not locked"}[d]

# -------------------------------------------------------------------- table
def table(c):
    fs = [f for f in c.db.F.values() if f.get("cls") == FL and f.get("body") is not None and "shared_ptr<" in (f.get("rt") or f.get("t") or "") and f["n"] not in ("file_lock",)]
    fs = [f for f in c.db.F.values() if f["q"] == FL + "::get_file_mutex" and f.get("body") is not None]
    if not fs: c.note("the table of mutexes is not recognised"); c.ob("table"); return
    f = fs[0]
    g = c.graph(f, track_all=True)
    pn = f["p"][0]["n"]
    L = Locks(g)
    tabs = {}
    for n in g.live():
        if n.k == "call" and n.e.get("obj") is not None:
            o = n.e["obj"]
            while o["k"] in ("icast", "cast"): o = o["e"]
            v = n.fr.lookup(o["d"]) if o["k"] == "ref" and o.get("dk") in ("local", "binding") else None
            if v is not None and v.static and re.match(r"std::(vector|list|map|unordered_map|deque|set)<", v.t or ""): tabs.setdefault(v.term, []).append(n)
    # also class statics and globals
    for n in g.live():
        if n.k == "call" and n.e.get("obj") is not None and g.obj(n)[0] == "g" and re.match(r"(const )?std::(vector|list|map|unordered_map|deque|set)<", n.e["obj"].get("t") or ""): tabs.setdefault(g.obj(n), []).append(n)
    if not tabs: c.note("%s: the table of mutexes is not recognised" % f["q"]); c.ob("table"); return
    for t, ns in tabs.items():
        for n in ns:
            if last(n.e.get("fn")) in ("vector", "list", "map", "unordered_map", "deque") or n.e["k"] == "ctor": continue
            c.ob("table", "%s: %s" % (g.at_line(n), n.e.get("fn")))
            if not any(True for m, md in L.at(n) if md == "x"): c.viol("table", g.at_line(n), "the table of mutexes is accessed without holding its mutex", key="unlocked")
    ins = {n for ns in tabs.values() for n in ns if last(n.e.get("fn")) in ("push_back", "emplace_back", "insert", "emplace", "try_emplace", "insert_or_assign", "push_front", "emplace_front")}
    new = [n for n in g.live() if n.k == "call" and (n.e.get("fn") or "") == "std::make_shared" and "file_mutex" in (n.e.get("t") or "")]
    for n in new:
        c.ob("table", "%s: new entry" % g.at_line(n))
        p = c.path(g, g.normal(n), lambda m: m is g.exit, avoid=lambda m: m in ins, edge=lambda a, l, b: l not in ("exc", "term"))
        if p: c.viol("table", g.at_line(n), "a new mutex may be handed out without being entered into the table: the next user of the file gets another one", key="noinsert", path=p, g=g)
    # how files are compared
    eq = [n for n in g.live() if n.k == "call" and re.search(r"filesystem::equivalent$", n.e.get("fn") or "")]
    cmp_ = [n for n in g.live() if n.k == "branch" and mentions(g.atom(n)[0], lambda x: x[0] in ("==",) and mentions(x, lambda y: is_param(y, pn)))]
    canon = [n for n in g.live() if n.k == "call" and re.search(r"filesystem::(weakly_)?canonical$", n.e.get("fn") or "")]
    c.ob("table", "comparison of files")
    if not eq and cmp_ and not any(mentions(g.atom(n)[0], lambda x: x[0] == "call" and "canonical" in str(x[1])) for n in cmp_):
        c.viol("table", g.at_line(cmp_[0]), "files are compared by name only: two names of one file get different mutexes", key="compare")
    # the files of other entries may be gone
    for n in eq:
        a = [x for x in n.e.get("a") or [] if x["k"] != "defarg"]
        if len(a) >= 3: continue
        others = [B for B in g.args(n) if not mentions(B, lambda y: is_param(y, pn))]
        ex = [m for m in g.live() if m.k == "call" and re.search(r"filesystem::exists$", m.e.get("fn") or "") and any(bare(g.args(m)[0]) == bare(o) for o in others)]
        if ex: continue
        p = c.path(g, g.excs(n), lambda m: m is g.xexit) if g.excs(n) else None
        if p: c.viol("table", g.at_line(n), "looking for the mutex of a file fails when another file in the table has been deleted", key="deleted", path=p, g=g)
    # the one that is found is the one that is equivalent
    if eq:
        def edge(n, lab, m):
            if lab in ("exc", "term"): return False
            if n.k == "branch":
                a, v = says(g, n, lab)
                if a is not None and mentions(a, lambda x: x[0] == "call" and str(x[1]).endswith("filesystem::equivalent")): return not v
                if a is not None and mentions(a, lambda x: x[0] == "call" and str(x[1]).endswith("filesystem::exists")): return v
            return True
        p = c.path(g, [g.entry], lambda m: m is g.exit, avoid=lambda m: m in new, edge=edge)
        if p: c.viol("table", c.db.where(f), "may hand out the mutex of a different file", key="different", path=p, g=g)
