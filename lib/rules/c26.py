"""C26: scenario events fire once, when due, and are undone at the end."""
from travel import *
RULE = """
One event is followed through the scenario manager's containers by an abstract interpretation of its public members (everything inlined; a
container either holds the event or not, a loop over a container that holds it visits it once among other elements about
which nothing is known; times are placed before, at and after each other).  The state of the object after one call is carried over into the next.
(schedule) After load_scenario every event is held and the scenario is running; a step before the event's time performs no
action; the first step at or after its time performs it, later steps do not.
(action) The action exposes the event's variable - for setting if it is an input, for getting otherwise - with the type of its
modifier, then installs this modifier on this variable of the simulator the event names; for each of the four types and both directions.
(undo) When all events have been executed and the end time, if there is one, has been reached; when the scenario is aborted; and when another one is loaded:
each executed event's modifier is removed (same variable, type and direction, empty function), and the scenario is not
reported as running; before that it is reported as running and nothing is removed.
(simulator) An event for a simulator that does not exist (any more) uses no null pointer.
"""
ASSUME = ["the modifier setters of manipulable replace what was set before (C06, C10)", "exceptions from a simulator end the simulation: paths after a failed action are not followed"]
SM = "cosim::scenario_manager"
EV, VA = "cosim::scenario::event", "cosim::scenario::variable_action"
TYPES = ["real", "integer", "boolean", "string"]
CALL = re.compile(r"^cosim::(manipulable|observable|simulator)::(set_(\w+)_(input|output)_modifier|expose_for_(setting|getting))$")

def isnull(ai, e, fr, env):
    e, fr = origin(ai.g, e, fr)
    while isinstance(e, dict) and e["k"] in ("icast", "cast", "ctor", "init") and len(e.get("a") or [e.get("e")]) == 1:
        e, fr = origin(ai.g, (e.get("a") or [e.get("e")])[0], fr)
    return isinstance(e, dict) and (e["k"] == "null" or e["k"] in ("ctor", "init") and not e.get("a") and "std::function" in (e.get("t") or ""))
def field_of(ai, e, fr, env, name, depth=0):
    """Does an expression read this field of E (possibly through copies)?"""
    e, fr = origin(ai.g, e, fr)
    while isinstance(e, dict) and e["k"] in ("ctor", "init") and len(e.get("a") or []) == 1: e, fr = origin(ai.g, e["a"][0], fr)
    if not isinstance(e, dict): return False
    t = ai.g.T(e, fr)
    return (e["k"] == "mem" and e.get("n") == name or t is not None and t[0] == "f" and t[2] == name) and ai.termE(e, fr, env)
def mentions_f(ai, e, fr, env, name):
    for x in exprs_in(ai, e, fr):
        if field_of(ai, x[0], x[1], env, name): return True
    return False
def exprs_in(ai, e, fr, depth=0):
    e, fr = origin(ai.g, e, fr)
    if not isinstance(e, dict) or depth > 12: return
    yield e, fr
    nf = fr.inl.get(id(e)) if e["k"] == "call" and fr is not None else None
    if nf is not None:
        for r in ai.g.nodes:
            if r.k == "ret" and r.fr is nf and r.e is not None: yield from exprs_in(ai, r.e, nf, depth + 1)
    if e["k"] == "cond":
        for kk in ("a", "b"): yield from exprs_in(ai, e[kk], fr, depth + 1)
        return
    for kk in ("a", "args"):
        for y in e.get(kk) or []:
            if isinstance(y, dict): yield from exprs_in(ai, y, fr, depth + 1)
    for kk in ("e", "b", "obj"):
        if isinstance(e.get(kk), dict): yield from exprs_in(ai, e[kk], fr, depth + 1)

def logger(ai, n, e, env):
    m = CALL.match(e.get("fn") or "")
    if not m: return None
    A = [a for a in e.get("a") or [] if a["k"] != "defarg"]
    if not (any(ai.termE(a, n.fr, env) for a in A) or ai.termE(e.get("obj"), n.fr, env)): return None
    if ai.ev(e.get("obj"), n.fr, env) == NULL: return ("null", last_(e.get("fn")))
    sim = mentions_f(ai, e.get("obj"), n.fr, env, "simulator")
    if m[5]:
        t = ai.g.T(A[0], n.fr)
        ty = last(str(t[1])) if t and t[0] in ("enum", "g", "e") else last(str(A[0].get("n")))
        return ("expose", m[5], ty, field_of(ai, A[1], n.fr, env, "variable"), sim)
    kind = "undo" if isnull(ai, A[1], n.fr, env) else "install"
    return (kind, m[4], m[3], field_of(ai, A[0], n.fr, env, "variable"), sim if kind == "install" or sim else sim, kind == "undo" or mentions_mod(ai, A[1], n.fr, env))
def mentions_mod(ai, e, fr, env):
    if any(ai.termE(x, f, env) for x, f in exprs_in(ai, e, fr)): return True
    # the alternative handed to a visitor
    t = ai.g.deep(ai.g.T(e, fr))
    for x in subterms(t) if t is not None else ():
        if x[0] == "alt" and any(isinstance(env.get(y), tuple) and env[y][:1] == ("iter",) and env[y][2] == "E" for y in subterms(x)): return True
    return False

T0, TE, TEND = 100, 10, 20
def fields(inp=True): return {EV + "::time": TE, VA + "::is_input": inp}

class M:
    """The manager's members as transformers of the object state."""
    def __init__(self, c):
        self.c, self.G, self.bad, self.alt, self.inp = c, {}, None, "cosim::scenario::real_modifier", True
        self.known = True
    def graph(self, name, pred=lambda f: True):
        if name not in self.G:
            fs = [f for f in self.c.db.byq.get("%s::%s" % (SM, name), []) if f.get("body") is not None and pred(f)]
            self.G[name] = (fs[0], self.c.graph(fs[0], track_all=True)) if fs else None
        return self.G[name]
    def call(self, name, state, args=(), recs=None, alone=False, pred=lambda f: True):
        """[(state, log, path)] at the normal ends."""
        fg = self.graph(name, pred)
        if fg is None: self.bad = "%s::%s not found" % (SM, name); return []
        f, g = fg
        ai = Trav(g, fields(self.inp), self.alt, logger, alone, known=self.known)
        env = dict(state)
        for i, v in enumerate(args):
            if v is not None and i < len(f["p"]):
                pv = g.frames[0].vars.get(f["p"][i]["d"])
                if pv is not None: env[pv.term] = v
        for fld, v in (recs or {}).items():
            pv = g.frames[0].vars.get(f["p"][fld[0]]["d"])
            if pv is not None:
                env[("f", pv.term, fld[1])] = v
                env[("f", ("p", fld[0], f["p"][fld[0]].get("n")), fld[1])] = v
        out = []
        for n, e, key in ai.go(env):
            if n is not g.exit or any(x.k == "throw" for x in ai.path(key)): continue
            r = (Trav.state(e), e.get(("log",), ()), (ai, key), e.get(("RET", 0), e.get(("RET", g.frames[0].id))))
            out.append(r)
        if ai.exceeded: self.bad = "too many states in " + name
        return out

def boolof(rs): return {r[3] for r in rs}

def check(c):
    m = M(c)
    st = lambda x: x[0]
    def wh(name): f = m.graph(name)[0]; return "%s:%s" % (c.db.rel(f), f["l"])
    SCEN = lambda f: len(f["p"]) == 2 and "scenario::scenario" in f["p"][0]["t"]
    if m.graph("load_scenario", SCEN) is None or m.graph("step_commencing") is None or m.graph("abort_scenario") is None or m.graph("is_scenario_running") is None:
        c.need("schedule", 1); return
    load = lambda s, end, t=T0, alone=False: m.call("load_scenario", s, (None, t), {(0, "events"): IN, (0, "end"): end}, alone, SCEN)
    step = lambda s, t, alone=False: m.call("step_commencing", s, (t,), None, alone)
    running = lambda s: {truth(r[3]) for r in m.call("is_scenario_running", s)}
    def runs(states): return set().union(*[running(s) for s in states]) if states else set()
    installs = lambda log: sum(1 for x in log if x[0] == "install")
    undos = lambda log: sum(1 for x in log if x[0] == "undo")
    def uniq(rs):
        out = {}
        for r in rs: out.setdefault((frozenset(r[0].items()), r[1]), r)
        return list(out.values())
    # the state of a fresh object is whatever load_scenario makes of it
    seenkeys = set()
    def V(rule, name, msg, key, r=None):
        if key in seenkeys: return
        seenkeys.add(key)
        c.viol(rule, wh(name), msg, key=key, path=r[2][0].path(r[2][1]) if r else None, g=m.graph(name)[1])
    ends = [("no end time", NULL), ("an end time", TEND)]
    for what, end in ends:
        L = uniq(load({}, end))
        if not L: c.note("load_scenario is not understood"); return
        c.ob("schedule", "load, " + what)
        if any(not any(v == IN for v in s.values()) for s, *_ in L):
            V("schedule", "load_scenario", "an event of the scenario is not kept", "load|lost", [r for r in L if not any(v == IN for v in r[0].values())][0])
            return
        if not all(v in (IN, OUT) or True for v in ()): pass
        if runs([r[0] for r in L]) == {False}: V("schedule", "load_scenario", "the scenario is not reported as running after it has been loaded", "load|running")
        for r0 in L:
            S0 = r0[0]
            # before, at, after
            c.ob("schedule", "step before the event's time, " + what)
            early = uniq(step(S0, T0 + TE - 1))
            for r in early:
                if installs(r[1]): V("schedule", "step_commencing", "an event is executed in a step that begins before its time", "early", r)
            c.ob("schedule", "abort before the event")
            for ra in uniq(m.call("abort_scenario", S0)):
                for r2 in uniq(step(ra[0], T0 + TE)):
                    if installs(r2[1]): V("schedule", "step_commencing", "an event is executed after the scenario has been aborted", "abort|again", r2)
            if end == NULL or True:
                c.ob("schedule", "still running")
                x = [r for r in early if running(r[0]) == {False}]
                if x: V("undo", "step_commencing", "the scenario is no longer reported as running although one of its events has not been executed", "running|early", x[0])
            c.ob("schedule", "not lost")
            for r in early:
                for name, t in (("at", T0 + TE), ("after", T0 + TE + 3)):
                    c.ob("schedule", "step %s the event's time, %s" % (name, what))
                    for r1 in uniq(step(r[0], t)):
                        k = installs(r1[1])
                        if k != 1:
                            V("schedule", "step_commencing", "the event is %s in the first step that begins %s its time" % ("not executed" if k == 0 else "executed more than once", name), "due|%s|%s" % (name, "no" if k == 0 else "many"), r1)
                            continue
                        after(c, m, V, r1, t, end, what, step, load, runs, running, uniq, installs, undos)
    types(c, m, V, load, step, uniq)
    keys(c, m, V, SCEN)
    unknown(c, m, V, load, step, uniq)
    members(c, m, V)
    if m.bad: c.note(m.bad)
    c.need("schedule", 10)
    c.need("undo", 6)
    c.need("action", 8)

def after(c, m, V, r1, t, end, what, step, load, runs, running, uniq, installs, undos):
    """The event has been executed."""
    if running(r1[0]) == {False} and end != NULL and t < T0 + end: V("undo", "step_commencing", "the scenario ends before its end time", "end|early", r1)
    c.ob("undo", "abort, " + what)
    for r in uniq(m.call("abort_scenario", r1[0])):
        if undos(r[1]) != 1: V("undo", "abort_scenario", "aborting the scenario %s the modifier of an executed event" % ("does not remove" if undos(r[1]) == 0 else "removes more than once"), "abort|undo", r)
        if running(r[0]) == {True}: V("undo", "abort_scenario", "the scenario is still reported as running after it has been aborted", "abort|running", r)
        for r2 in uniq(step(r[0], t + 1)):
            if installs(r2[1]): V("schedule", "step_commencing", "an event is executed after the scenario has been aborted", "abort|again", r2)
            if undos(r2[1]): V("undo", "step_commencing", "modifiers are removed again in a step after the scenario has been aborted", "abort|twice", r2)
    c.ob("undo", "load another, " + what)
    for r in uniq(m.call("load_scenario", r1[0], (None, t), {(0, "events"): OUT, (0, "end"): NULL}, False, lambda f: True)):
        if undos(r[1]) == 0: V("undo", "load_scenario", "loading another scenario leaves the modifiers of the running one in place", "reload|undo", r)
    c.ob("schedule", "next step, " + what)
    # other events are still waiting, or the end has not been reached
    for alone in (False, True):
        for t2 in ([t + 1] if end == NULL else [T0 + end - 1, T0 + end, T0 + end + 1]):
            done = end == NULL or t2 >= T0 + end
            rs = uniq(step(r1[0], t2, alone))
            c.ob("undo", "step %s, %s" % (t2, what))
            for r in rs:
                if installs(r[1]): V("schedule", "step_commencing", "an event is executed again in a later step", "twice", r); continue
                ru = running(r[0])
                if alone and done:
                    if undos(r[1]) != 1: V("undo", "step_commencing", "when the scenario ends, the modifier of an executed event is %s" % ("not removed" if undos(r[1]) == 0 else "removed more than once"), "end|undo|%s" % what, r)
                    if ru == {True}: V("undo", "step_commencing", "the scenario is still reported as running after its end", "end|running|%s" % what, r)
                    if ru == {False}: ended(c, m, V, r, t2, step, uniq, undos, installs)
                elif alone and not done:
                    if ru == {False}: V("undo", "step_commencing", "the scenario ends before its end time", "end|early", r)
                    if undos(r[1]): V("undo", "step_commencing", "the modifier of an executed event is removed before the scenario ends", "end|early|undo", r)
                else:
                    if undos(r[1]) and ru == {True}: V("undo", "step_commencing", "the modifier of an executed event is removed while the scenario is running", "undo|running", r)
                    if not undos(r[1]) and ru == {False}: V("undo", "step_commencing", "the scenario ends and the modifier of an executed event is not removed", "end|undo|others", r)

def ended(c, m, V, r, t, step, uniq, undos, installs):
    c.ob("undo", "after the end")
    for r2 in uniq(step(r[0], t + 1, True)):
        if undos(r2[1]): V("undo", "step_commencing", "modifiers are removed again in a step after the scenario has ended", "ended|step", r2)
        if installs(r2[1]): V("schedule", "step_commencing", "an event is executed after the scenario has ended", "ended|install", r2)
    for r2 in uniq(m.call("abort_scenario", r[0], (), None, True)):
        if undos(r2[1]): V("undo", "abort_scenario", "aborting after the end of a scenario removes modifiers that are no longer the scenario's", "ended|abort", r2)

def types(c, m, V, load, step, uniq):
    for ty in TYPES:
        for inp in (True, False):
            m.alt, m.inp = "cosim::scenario::%s_modifier" % ty, inp
            d, ex = ("input", "setting") if inp else ("output", "getting")
            nm = "%s %s" % (ty, d)
            c.ob("action", nm)
            for r0 in uniq(load({}, NULL)):
                for r in uniq(step(r0[0], T0 + TE)):
                    judge(V, r, "step_commencing", nm, ty, d, ex)
                    for r2 in uniq(m.call("abort_scenario", r[0])):
                        u = [x for x in r2[1] if x[0] == "undo"]
                        if not u and [x for x in r[1] if x[0] == "install"]: V("action", "abort_scenario", "the modifier of an event for %s %s variables is not removed" % (ty, d), "undo|none|" + nm, r2)
                        for x in u:
                            if x[1:3] != (d, ty): V("action", "abort_scenario", "undoing an event for %s %s variables removes the %s %s modifier" % (ty, d, x[2], x[1]), "undo|" + nm, r2)
                            elif not x[3]: V("action", "abort_scenario", "undoing an event for %s %s variables removes the modifier of another variable" % (ty, d), "undo|var|" + nm, r2)
                            elif not x[4]: V("action", "abort_scenario", "undoing an event for %s %s variables is not addressed to the event's simulator" % (ty, d), "undo|sim|" + nm, r2)
    m.alt, m.inp = "cosim::scenario::real_modifier", True

def judge(V, r, name, nm, ty, d, ex):
    inst = [x for x in r[1] if x[0] == "install"]
    if not inst: V("action", name, "no modifier is installed for %s %s variables" % (ty, d), "none|" + nm, r)
    for i, x in enumerate(r[1]):
        if x[0] == "undo": V("action", name, "for %s %s variables the modifier is removed instead of installed" % (ty, d), "undone|" + nm, r)
        if x[0] != "install": continue
        if x[1:3] != (d, ty): V("action", name, "a modifier for %s %s variables is installed as a %s %s modifier" % (ty, d, x[2], x[1]), "wrong|" + nm, r); continue
        if not x[3]: V("action", name, "the modifier for %s %s variables is installed on another variable than the one named" % (ty, d), "var|" + nm, r)
        if not x[4]: V("action", name, "the modifier for %s %s variables is installed in another simulator than the one named" % (ty, d), "sim|" + nm, r)
        if not x[5]: V("action", name, "the modifier installed for %s %s variables is not the one given" % (ty, d), "mod|" + nm, r)
        pre = [y for y in r[1][:i] if y[0] == "expose"]
        if not any(y[1:3] == (ex, ty) and y[3] for y in pre):
            V("action", name, "a %s %s variable is not exposed for %s before its modifier is installed" % (ty, d, ex), "expose|" + nm, r)

def keys(c, m, V, SCEN):
    """Events are kept under keys of their own."""
    f, g = m.graph("load_scenario", SCEN)
    for n in g.live():
        pl, key = None, None
        if n.k == "write" and g.place(n) is not None and g.place(n)[0] == "at": pl, key = g.place(n)[1], g.place(n)[2]
        elif n.k == "call" and last_(n.e.get("fn")) in ("emplace", "insert_or_assign", "try_emplace") and n.e.get("obj") is not None and "map<" in (n.e["obj"].get("t") or "") and len(g.args(n)) == 2:
            pl, key = g.obj(n), g.args(n)[0]
        if pl is None or key is None or root(pl) != ("this",): continue
        lps = [lp for lp in g.loops if lp.nodes and n in lp.nodes or g_in(g, lp, n)]
        if not lps: continue
        c.ob("schedule", "key of an event")
        key = g.deep(key)
        grown = {bare(g.place(x)[1]) for x in g.live() if x.k == "write" and g.place(x) is not None and g.place(x)[0] == "at"} | \
                {bare(g.obj(x)) for x in g.live() if x.k == "call" and last_(x.e.get("fn")) in ADD and x.e.get("obj") is not None}
        if key[0] == "int" or key[0] == "size" and bare(key[1]) not in grown:
            V("schedule", "load_scenario", "events are kept under the same key: only the last one remains", "load|key")
def g_in(g, lp, n):
    """Is n in the body of the loop?"""
    seen, st = set(), [m for m in [e[0].succ and next((y for l, y in e[0].succ if l == e[1]), None) for e in lp.tstart] if m is not None]
    while st:
        x = st.pop()
        if x in seen or x is lp.head: continue
        seen.add(x); st += [y for l, y in x.succ if l != "exc"]
    back = lp.head in {y for x in seen for l, y in x.succ}
    return back and n in seen and reaches(n, lp.head)
def reaches(n, m):
    seen, st = set(), [n]
    while st:
        x = st.pop()
        if x is m: return True
        if x in seen: continue
        seen.add(x); st += [y for l, y in x.succ if l != "exc"]
    return False

def unknown(c, m, V, load, step, uniq):
    """The event names a simulator that does not exist, or no longer."""
    for what in ("unknown", "removed"):
        c.ob("simulator", what)
        for r0 in uniq(load({}, NULL)):
            m.known = what == "removed"
            for r in uniq(step(r0[0], T0 + TE)):
                if what == "unknown" and any(x[0] == "null" for x in r[1]): V("simulator", "step_commencing", "an event for a simulator that does not exist dereferences a null pointer", "unknown", r)
                if what == "removed":
                    m.known = False
                    for r2 in uniq(m.call("abort_scenario", r[0])):
                        if any(x[0] == "null" for x in r2[1]): V("simulator", "abort_scenario", "undoing an event whose simulator has been removed dereferences a null pointer", "removed", r2)
            m.known = True

def members(c, m, V):
    """The table of simulators."""
    for name, what in (("simulator_added", True), ("simulator_removed", False)):
        fg = m.graph(name)
        if fg is None: continue
        c.ob("action", name)
        f, g = fg
        pi = g.frames[0].vars.get(f["p"][0]["d"])
        hit = False
        for n in g.live():
            if n.k == "write" and g.place(n) is not None and g.place(n)[0] == "at" and mentions(g.place(n), lambda x: x == pi.term): hit = True
            if n.k == "call" and last_(n.e.get("fn")) in (ADD if what else ("erase", "extract")) and any(mentions(x, lambda y: y == pi.term) for x in g.args(n) if x): hit = True
        if not hit:
            if any(n.k == "call" for n in g.live()): c.note("%s: not recognised how the table of simulators is updated" % name)
            else: V("action", name, "%s does not update the table of simulators" % name, name)
