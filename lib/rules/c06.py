"""C06: running flag, stop request and result of simulate_until()."""
from common import *
RULE = """
The running flag is what execution::is_running() returns (through any polarity).  It must be atomic.
stop_simulation() writes the not-running value on every path; the constructor leaves it not running.
simulate_until() writes the running value before its first algorithm::do_step, and from there on no path,
normal or exceptional, leaves without writing the not-running value.  simulate_until_async() writes the
running value before it hands off the task and never inside the task, which resets the flag on every exit; a
failing hand-off resets it too.  Between two steps there is always a test of the flag whose stop side reaches
no further step and, unless no end time was given, a comparison of the end time with the current time whose
'reached' side reaches no further step and whose other side does not end the simulation.  The result is the
flag read before it is reset, in the running polarity, or a constant on the matching side of the flag's test.
No other entry point writes the flag.
"""
DO = ALG + "do_step"
SPAWN = lambda e: "std::async" in (e.get("fn") or "") or "std::thread" in (e.get("fn") or "")
SIMQ = ("cosim::execution::simulate_until", "cosim::execution::simulate_until_async")

def flag_of(c, g):
    """(flag place, value that means running) from is_running()."""
    out = set()
    for r, e, fr in g.rootfr.rets:
        for t in g.alts(g.fresh(g.T(e, fr), r)):
            a, pol = g.canon(t)
            if a[0] == "truthy" and a[1][0] == "f": out.add((a[1], pol))
            elif a[0] == "==" :
                for x, y in ((a[1], a[2]), (a[2], a[1])):
                    if x[0] == "f" and y[0] in ("enum", "bool", "int"): out.add((x, (y, pol)))
    return out

def val_of(t):
    while t is not None and t[0] in ("ctor", "new") and len(t) > 2 and len(t[2]) == 1: t = t[2][0]
    if t is None: return None
    return t[1] if t[0] == "bool" else (t[1] == "1" if t[0] == "int" and t[1] in ("0", "1") else None)

def check(c):
    db = c.db
    f0 = c.one("cosim::execution::is_running")
    g0 = c.graph(f0)
    fl = flag_of(c, g0)
    if len(fl) != 1:
        raise AnalysisError("is_running() does not return a single flag: %s" % fl)
    F, run = next(iter(fl))
    if not isinstance(run, bool): raise AnalysisError("the running state is not a boolean flag")
    fname = F[2]
    isF = lambda t: isinstance(t, tuple) and t[0] == "f" and t[2] == fname
    c.ob("running flag is atomic", show_term(F))
    if fname not in db.atomic_fields():
        c.viol("flag", db.where(f0), "the running flag %s is shared between threads but is not atomic" % show_term(F), key="atomic")
    def wval(g, n):
        """Value written to the flag at n: True = running, False = not, None = unknown."""
        if n.k == "write" and isF(g.place(n)):
            v = val_of(g.value(n))
            return None if v is None else v == run
        if n.k == "call" and n.e.get("obj") is not None and isF(g.obj(n)):
            nm = (n.e.get("fn") or "").split("::")[-1]
            if nm in ("store", "exchange", "operator="):
                a = g.args(n)
                v = val_of(a[0]) if a else None
                return None if v is None else v == run
        return "no"
    isw = lambda g, n: wval(g, n) != "no" and (n.k == "write" or n.k == "call")
    sets = lambda g, n, v: wval(g, n) is v
    def reads(g, n):
        if n.k != "call" or n.e.get("obj") is None or not isF(g.obj(n)): return False
        return not isw(g, n)

    # --- stop_simulation
    for f in c.fns("cosim::execution::stop_simulation"):
        g = c.graph(f)
        c.ob("stop requests", db.where(f))
        p = c.path(g, [g.entry], lambda n: n is g.exit, avoid=lambda n: sets(g, n, False))
        if p: c.viol("stop", db.where(f), "stop_simulation() can return without asking the simulation to stop", key="stop|write", path=p, g=g)
        for n in g.live():
            if sets(g, n, True): c.viol("stop", g.at_line(n), "stop_simulation() marks the simulation as running", key="stop|run")
    # --- the constructor
    for f in [f for f in db.F.values() if (f.get("cls") or "").startswith("cosim::execution") and f.get("body") is not None and f["n"] == f["cls"].split("::")[-1] and f["p"] and f.get("ck") not in ("copy", "move")]:
        g = c.graph(f)
        ws = [n for n in g.live() if isw(g, n)]
        if ws: c.ob("initial state", db.where(f))
        for n in ws:
            if wval(g, n) is True and not c.path(g, g.normal(n), lambda m: m is g.exit, avoid=lambda m: sets(g, m, False)) is None:
                c.viol("initial", g.at_line(n), "a new execution reports itself as running", key="ctor|run")
    # --- others leave the flag alone
    pub = [f for f in entry_points(db, "cosim::execution") if f["n"] not in ("simulate_until", "simulate_until_async", "stop_simulation", "execution", "~execution", "operator=")]
    for f in pub:
        g = c.graph(f)
        c.ob("other entry points", f["q"])
        for n in g.live():
            if isw(g, n): c.viol("others", g.at_line(n), "%s changes the running state" % f["q"], key=f["q"] + "|flag")
    # --- simulate_until(_async)
    for q in SIMQ:
        for f in c.fns(q):
            g = c.graph(f, track_all=True, extra_throw=SPAWN)
            simulate(c, f, g, F, run, wval, isw, sets, reads, isF)
    c.need("flag tests", 2); c.need("end time tests", 2); c.need("results", 2)

def simulate(c, f, g, F, run, wval, isw, sets, reads, isF):
    db, live = c.db, g.live()
    q = f["q"]
    steps = [n for n in live if n.k == "call" and g.root(n) == DO]
    if not steps: c.viol("simulate", db.where(f), "%s takes no steps" % q, key=q + "|nostep"); return
    isstep = lambda n: n in steps
    spawns = [n for n in live if n.k == "spawn"]
    asy = bool(spawns) or q.endswith("_async")
    # running before the first step / before the hand-off
    first = (lambda n: n in spawns) if asy else isstep
    c.ob("running while simulating", db.where(f))
    p = c.path(g, [g.entry], first, avoid=lambda n: sets(g, n, True))
    if p: c.viol("running", db.where(f), "%s %s before it is marked as running" % (q, "hands off the simulation" if asy else "steps"), key=q + "|before", path=p, g=g)
    runw = [n for n in live if sets(g, n, True)]
    if asy:
        for s in spawns:
            task = in_task(g, s)
            for w in runw:
                if w in task:
                    c.viol("running", g.at_line(w), "the simulation thread marks the simulation as running: a stop request made before that is lost", key=q + "|task")
    # every way out resets
    for w in runw:
        c.ob("reset on every exit", g.at_line(w))
        for end, name in ((g.exit, "returns"), (g.xexit, "ends with an exception")):
            if end is None: continue
            starts = g.normal(w)
            p = c.path(g, starts, lambda n: n is end, avoid=lambda n: sets(g, n, False))
            if asy and p is not None and end is g.exit:
                # the caller returns while the task runs: the task's own exits count
                p = None
            if p: c.viol("running", g.at_line(w), "%s still reports itself as running when it %s" % (q, name), key=q + "|reset|" + name, path=p, g=g)
        # not reset while stepping goes on
        p = c.path(g, g.normal(w), isstep, avoid=lambda n: not sets(g, n, False) and False)
    for w in [n for n in live if sets(g, n, False)]:
        p = c.path(g, g.normal(w), isstep, avoid=lambda n: sets(g, n, True))
        if p: c.viol("running", g.at_line(w), "the simulation goes on stepping after it was marked as not running", key=q + "|early", path=p, g=g)
    for w in [n for n in live if isw(g, n) and wval(g, n) is None]:
        c.viol("running", g.at_line(w), "the running flag is set to something other than a constant", key=q + "|odd")
    if asy:
        for s in spawns:
            c.ob("task resets", db.where(f))
            for n, name in ((s.d.get("end"), "normally"), (s.d.get("escape"), "with an exception")):
                if n is None: continue
                p = c.path(g, steps_in(g, steps) , lambda m: m is n, avoid=lambda m: sets(g, m, False))
                if p: c.viol("running", g.at_line(n), "the simulation thread can end (%s) without marking the simulation as stopped" % name, key=q + "|task|" + name, path=p, g=g)
    # --- between two steps
    def fedge(n, lab):
        """True: this edge was taken because the flag says running; False: stopped."""
        if n.k != "branch" or lab not in ("T", "F"): return None
        a, pol = g.atom(n)
        val = (lab == "T") == pol
        ts = g.fresh(a, n)
        if ts[0] == "truthy" and isF(ts[1]): return val == run
        if ts[0] == "truthy" and mentions(ts, lambda x: isF(x)):
            return val == run
        if ts[0] == "==" and any(isF(x) for x in ts[1:]):
            y = [x for x in ts[1:] if not isF(x)]
            if y and y[0][0] == "bool": return (val == y[0][1]) == run
        if ts[0] == "truthy" and ts[1][0] in ("ret", "v"):
            al = g.alts(ts[1])
            for x in al:
                ca, cp = g.canon(x)
                if ca[0] == "truthy" and isF(ca[1]) and len(al) == 1: return (val == cp) == run
        return None
    c.ob("flag tests", db.where(f))
    for s in steps:
        p = c.path(g, g.normal(s), isstep, edge=lambda n, lab, m: fedge(n, lab) is None)
        if p: c.viol("stop", g.at_line(s), "%s can take another step without looking at the stop flag" % q, key=q + "|noflag", path=p, g=g)
    stops = [(n, lab) for n in live if n.k == "branch" for lab, _ in n.succ if fedge(n, lab) is False]
    for n, lab in stops:
        p = c.path(g, [(n, lab)], isstep)
        if p: c.viol("stop", g.at_line(n), "%s takes another step after a stop request was seen" % q, key=q + "|afterstop", path=p, g=g)
    # --- end time
    ends = [p for p in f["p"] if "optional" in (p.get("t") or "")] or f["p"]
    names = set(p["n"] for p in ends)
    def isend(t):
        return isinstance(t, tuple) and (t[0] == "p" and t[-1] in names or t[0] == "v" and t[-1] in names)
    times = time_places(c, g, steps)
    istime = lambda t: any(bare(t) == x for x in times)
    def absent(n, lab):
        if n.k != "branch" or lab not in ("T", "F"): return False
        a, pol = g.atom(n)
        a = g.fresh(a, n)
        val = (lab == "T") == pol
        return a[0] == "truthy" and strip_opt(a[1], isend) and val is False
    cmps = {}
    for n in live:
        for t in node_terms(g, n):
            for a, pol in cmp_atoms(g, g.fresh(t, n)):
                s = sign(a, isend)
                if s: cmps.setdefault(n, []).append((a, s))
    c.ob("end time tests", "%d comparisons" % len(cmps))
    for s in steps:
        p = c.path(g, g.normal(s), isstep, avoid=lambda n: n in cmps, edge=lambda n, lab, m: not absent(n, lab))
        if p: c.viol("end", g.at_line(s), "%s can take another step without comparing the time with the end time" % q, key=q + "|noend", path=p, g=g)
    for n, l in cmps.items():
        for a, s in l:
            c.ob("end time tests", g.at_line(n) + " " + show_term(a))
            if times and not mentions(a, lambda x: isinstance(x, tuple) and istime(x)):
                c.viol("end", g.at_line(n), "the end time is compared with %s, not with the current time" % show_term(a), key=q + "|cmp")
    decide(c, f, g, steps, isstep, cmps, fedge, isend, q)
    results(c, f, g, steps, isstep, fedge, isF, run, sets, reads, spawns, q, isw)

def strip_opt(t, isend):
    while isinstance(t, tuple) and len(t) > 1 and not isend(t) and t[0] in ("*", "call", "get"):
        t = t[2] if t[0] == "call" and len(t) > 2 else t[1]
    return isend(t)

def in_task(g, s):
    fr = s.d.get("frame")
    return set(n for n in g.nodes if n.fr is not None and any(x is fr for x in n.fr.chain()))

def task_frames(g, spawns):
    return [s.d["frame"] for s in spawns if s.d.get("frame") is not None]

def steps_in(g, steps):
    return [x for s in steps for x in g.normal(s)]

def node_terms(g, n):
    if n.k == "branch":
        a, _ = g.atom(n)
        return [a]
    if n.k == "decl" and n.d.get("init") is not None: return [g.T(n.d["init"], n.fr)]
    if n.k == "write":
        v = g.value(n)
        return [v] if v is not None else []
    if n.k == "ret" and n.e is not None: return [g.T(n.e, n.fr)]
    return []

def cmp_atoms(g, t):
    """Comparisons inside a term, canonicalised."""
    out = []
    for x in sub_terms(t):
        if isinstance(x, tuple) and x and x[0] in ("<", "<=", ">", ">=") :
            out.append(g.canon(x))
    if isinstance(t, tuple) and t and t[0] in ("<", "<="): out.append((t, True))
    return out

def sign(a, isend):
    """+1: the comparison being true means the end time is (nearly) reached;
    -1: it means that it is not; 0: no comparison with the end time."""
    if a[0] not in ("<", "<="): return 0
    return coef(a[1], isend) - coef(a[2], isend)
def coef(t, isend):
    if isend(t): return 1
    if not isinstance(t, tuple) or not t: return 0
    if t[0] == "-" and len(t) == 3: return sgn(coef(t[1], isend) - coef(t[2], isend))
    if t[0] == "-" and len(t) == 2 or t[0] == "neg": return -coef(t[1], isend)
    if t[0] == "+": return sgn(sum(coef(x, isend) for x in t[1:]))
    if t[0] in ("*", "get", "call", "ctor", "new", "at", "f"): 
        for x in t[1:]:
            if isinstance(x, tuple):
                for y in ([x] if not x or not isinstance(x[0], tuple) else x):
                    k = coef(y, isend)
                    if k: return k
    return 0
def sgn(x): return (x > 0) - (x < 0)

def time_places(c, g, steps):
    """Places that hold the current logical time: what do_step is given, and
    what is advanced by its result."""
    out = set()
    for s in steps:
        a = g.args(s)
        if a: out.add(bare(a[0])); out.add(bare(g.fresh(a[0], s)))
    return out

def decide(c, f, g, steps, isstep, cmps, fedge, isend, q):
    for n, l in cmps.items():
        for a, s in l:
            reached = s > 0
            # reached -> no further step
            for want, goal, msg, key in ((reached, isstep, "takes another step although the end time is reached", "past"),):
                st = [(n, lab) for lab, _ in n.succ if lab != "exc"]
                if n.k == "branch":
                    at, pol = g.atom(n)
                    if bare(g.fresh(at, n)) == bare(a): st = [(n, "T" if pol == want else "F")]
                p = c.path(g, st, goal, facts={a: want, **alias(g, n, a, want)}, avoid=lambda m: m in cmps and m is not n)
                if p: c.viol("end", g.at_line(n), "%s %s" % (q, msg), key=q + "|" + key, path=p, g=g)
            want = not reached
            st = [(n, lab) for lab, _ in n.succ if lab != "exc"]
            if n.k == "branch":
                at, pol = g.atom(n)
                if bare(g.fresh(at, n)) == bare(a): st = [(n, "T" if pol == want else "F")]
            p = c.path(g, st, lambda m: m is g.exit or m.k == "ret" and m.fr is g.rootfr, facts={a: want, **alias(g, n, a, want)},
                       avoid=lambda m: isstep(m) or m in cmps and m is not n, edge=lambda m, lab, k: fedge(m, lab) is not False)
            if p and not before(c, g, steps, n): c.viol("end", g.at_line(n), "%s ends before the end time is reached" % q, key=q + "|short", path=p, g=g)

def before(c, g, steps, n): return False
def alias(g, n, a, want):
    """The same comparison as the branch atoms spell it."""
    out = {}
    for t in node_terms(g, n):
        for x, pol in cmp_atoms(g, t):
            if bare(g.fresh(x, n)) == bare(a) or x == a: out[x] = want
    return out

def results(c, f, g, steps, isstep, fedge, isF, run, sets, reads, spawns, q, isw):
    frs = [g.rootfr] if not spawns else task_frames(g, spawns)
    if not frs: raise AnalysisError("cannot find the task of %s" % q)
    live = g.live()
    for fr in frs:
        for r, e, rfr in fr.rets:
            if e is None or r not in live: continue
            seen_const = False
            t0 = g.fresh(g.T(e, rfr), r)
            for t in g.alts(t0):
                c.ob("results", "%s %s" % (g.at_line(r), show_term(t)))
                a, pol = g.canon(t)
                if a[0] == "truthy" and isF(a[1]):
                    if pol != run: c.viol("result", g.at_line(r), "%s reports a stop as completion and completion as a stop" % q, key=q + "|polarity")
                    # read before the reset
                    for w in [n for n in live if sets(g, n, False)]:
                        p = c.path(g, g.normal(w), lambda n: reads(g, n), avoid=lambda n: sets(g, n, True) or isstep(n))
                        if p: c.viol("result", g.at_line(p[-1]), "the result of %s is read after the flag was reset" % q, key=q + "|late", path=p, g=g)
                elif a[0] == "bool":
                    v = a[1] == pol
                    # where is the constant chosen?
                    nodes = const_nodes(g, r, e, rfr, v)
                    for m in nodes:
                        if v:
                            for n in live:
                                if n.k != "branch": continue
                                for lab, _ in n.succ:
                                    if fedge(n, lab) is False:
                                        p = c.path(g, [(n, lab)], lambda x: x is m, avoid=isstep)
                                        if p: c.viol("result", g.at_line(m), "%s reports completion after a stop request" % q, key=q + "|true", path=p, g=g)
                        else:
                            p = c.path(g, [x for s in steps for x in g.normal(s)], lambda x: x is m, edge=lambda n, lab, k: fedge(n, lab) is not False)
                            if p: c.viol("result", g.at_line(m), "%s reports a stop that nobody requested" % q, key=q + "|false", path=p, g=g)
                elif a[0] in ("<", "<=", "=="):
                    c.note("result %s of %s is not derived from the flag" % (show_term(t), q))
                    c.viol("result", g.at_line(r), "the result of %s is %s, which does not tell whether it was stopped" % (q, show_term(t)), key=q + "|other")

def const_nodes(g, r, e, fr, v):
    t = g.T(e, fr)
    if t == ("bool", v): return [r]
    out = []
    for fx in g.frames:
        for rr, ee, rf in fx.rets:
            if ee is not None and rr in g.live() and g.T(ee, rf) == ("bool", v) and fx.fn.get("rt") == "bool":
                # only frames whose result reaches r
                if mentions(t, lambda x: x[0] == "ret" and len(x) > 1 and x[1] == fx.id) or True: out.append(rr)
    for n in g.live():
        if n.k == "write" and g.value(n) == ("bool", v) and n.fr is fr and g.place(n)[0] == "v": out.append(n)
        if n.k == "decl" and n.fr is fr and n.d.get("init") is not None and g.T(n.d["init"], n.fr) == ("bool", v): out.append(n)
    return [n for n in out if n.fr is fr or (t[0] == "ret")]
