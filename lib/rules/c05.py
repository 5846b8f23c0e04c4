from common import *
LEVEL = "other"
RULE = """
On the flow graphs of execution::step, simulate_until and simulate_until_async (implementation inlined): every path to
algorithm::do_step either passed algorithm::initialize or is known to have a boolean field set that is only ever set
after initialize returned normally, and initialize is only reached with that field unset; between that and do_step
every manipulator (whole container, no skipped element, no early exit) gets step_commencing with the very time passed
to do_step; after do_step, before any observer call, the next step or the return, time is advanced exactly once by
the step's duration and the step number exactly once by one; then, for every observer, simulator_step_complete for
every finished simulator, then step_complete, all with the step's number, duration and new time; the returned duration
is the step's. add_slave / add_observer / add_manipulator tell every present observer/manipulator about every
simulator with consistent index and pointer, keep what was added, and a late observer is told about initialisation.
The four set_*_initial_value operations touch a simulator only when the simulation is known to be uninitialised and
otherwise throw."""
ASSUME = ["observers and manipulators do not re-enter the execution"]

def names(c, t): return lambda x: x[0] == "call" and x[1] == t

def time_like(g, c): pass

def check(c):
    db = c.db
    DO, INIT = ALG + "do_step", ALG + "initialize"
    entry = []
    for q in ("step", "simulate_until", "simulate_until_async"):
        for f in c.fns("cosim::execution::" + q):
            g = c.graph(f, track_all=True)
            entry.append((f, g))
            steps = live_calls(g, {DO})
            if not steps: raise AnalysisError("%s does not reach algorithm::do_step" % f["q"])
            for n in steps: one_step(c, f, g, n, steps)
    ctor(c)
    added(c)
    initial_values(c)
    c.need("co-simulation steps", 3)
    c.need("initial value setters", 4)

def bool_fields(c, facts):
    return [(a[1], v) for a, v in facts.items() if a[0] == "truthy" and a[1][0] == "f" and pimpl_this(a[1])]

def is_cont(c, cls):
    """Containers of shared_ptr<cls> that are fields of the object."""
    names = set()
    for r in c.db.R.values():
        for f in r["fields"]:
            if re.search(r"(shared_ptr|unique_ptr)<(const )?%s(,|>)" % re.escape(cls), f["t"]) and re.match(r"std::(vector|list|deque|set|unordered_set)<", f["t"]): names.add(f["n"])
    return lambda t: t[0] == "f" and t[2] in names and pimpl_this(t)

def one_step(c, f, g, n, steps):
    DO, INIT = ALG + "do_step", ALG + "initialize"
    c.ob("co-simulation steps", g.at_line(n))
    fq = f["q"]
    live = g.live()
    args = lambda x: [g.fresh(a, x) for a in g.args(x)]
    time = args(n)[0]
    inits = [m for m in live if m.k == "call" and g.root(m) == INIT]
    # --- initialised once
    ROLE = None
    states = c.path(g, [g.entry], lambda m: m is n, avoid=lambda m: m in inits, collect=True)
    flags_ = None
    for m, facts, p in states:
        s = set((a, v) for a, v in bool_fields(c, facts))
        flags_ = s if flags_ is None else flags_ & s
    c.ob("initialisation guards", g.at_line(n))
    if states and not flags_:
        c.viol("init", g.at_line(n), "%s can step a simulation that was never initialised" % fq, key=fq + "|uninit", path=states[0][2], g=g)
    if not inits:
        c.viol("init", c.db.where(f), "%s never initialises the simulation" % fq, key=fq + "|noinit")
    elif flags_:
        for m in inits:
            c.ob("initialisations", g.at_line(m))
            okflags = []
            for (fl, val) in flags_:
                good = True
                for _, facts, p in c.path(g, [g.entry], lambda x: x is m, collect=True):
                    if truth(facts, fl) != (not val): good = False; bad = p
                if not good:
                    continue
                # set after success, before anything else can observe or another initialisation happens
                setw = lambda x, fl=fl, val=val: x.k == "write" and bare(g.place(x)) == bare(fl) and g.value(x) == ("bool", val)
                p = c.path(g, g.normal(m), lambda x: x is n or x is g.exit or x is g.xexit or x in inits, avoid=setw)
                if p:
                    c.viol("init", g.at_line(m), "after initialisation %s does not remember it" % fq, key=fq + "|forget", path=p, g=g); continue
                p = c.path(g, g.excs(m), lambda x: setw(x))
                if p: c.viol("init", g.at_line(m), "a failed initialisation is remembered as done", key=fq + "|failed", path=p, g=g)
                for x in [x for x in live if setw(x)]:
                    p = c.path(g, [g.entry], lambda y: y is x, avoid=lambda y: y in inits)
                    if p: c.viol("init", g.at_line(x), "the simulation is marked as initialised before it is", key=fq + "|early", path=p, g=g)
                okflags.append((fl, val))
            if not okflags and not any(v["rule"] == "init" for v in c.viols):
                c.viol("init", g.at_line(m), "%s can initialise the simulation twice" % fq, key=fq + "|twice")
            c.roles = okflags
            p = c.path(g, g.normal(m), lambda x: x in inits)
            if p: c.viol("init", g.at_line(m), "%s can initialise the simulation twice" % fq, key=fq + "|twice2", path=p, g=g)
            # observers learn about it
            c.each("observers told about initialisation", g, "observers told about initialisation", is_cont(c, "cosim::observer"),
                   lambda x, lp: x.k == "call" and g.root(x) == OBS + "simulation_initialized" and (lp is None or c.elem_of(g.obj(x), lp)),
                   start=g.normal(m), dst=lambda x: x is n or x is g.exit, dstname="the first step")
        # nothing else sets the flag
        for fl, val in getattr(c, "roles", []):
            for h in c.db.F.values():
                if h.get("cls") and (h["cls"].startswith("cosim::execution")) and h.get("body") is not None:
                    hg = c.graph(h)
                    for x in hg.live():
                        if x.k == "write" and hg.place(x)[0] == "f" and hg.place(x)[2] == fl[2] and pimpl_this(hg.place(x)) and hg.value(x) is not None:
                            if hg.value(x) == ("bool", val):
                                i2 = [y for y in hg.live() if y.k == "call" and hg.root(y) == INIT]
                                if c.path(hg, [hg.entry], lambda y: y is x, avoid=lambda y: y in i2): c.viol("init", hg.at_line(x), "the simulation is marked as initialised without being initialised", key=h["q"] + "|mark")
                            elif hg.value(x) == ("bool", not val) and h["n"] != "impl" and h.get("n") != "execution":
                                c.viol("init", hg.at_line(x), "an initialised simulation is marked as uninitialised", key=h["q"] + "|unmark")
    # --- manipulators
    starts = [g.entry] + g.normal(n)
    man = lambda x: x.k == "call" and g.root(x) == MAN + "step_commencing"
    c.each("manipulators before the step", g, "manipulators called before the step", is_cont(c, "cosim::manipulator"),
           lambda x, lp: man(x) and (lp is None or c.elem_of(g.obj(x), lp)), start=starts, dst=lambda x: x is n, dstname="the algorithm steps")
    for x in [x for x in live if man(x)]:
        c.ob("manipulator arguments", g.at_line(x))
        if bare(args(x)[0]) != bare(time): c.viol("manipulate", g.at_line(x), "manipulators are told %s, the algorithm %s" % (show_term(g.args(x)[0]), show_term(time)), key=fq + "|mantime")
        p = c.path(g, g.normal(n), lambda y: y is x, avoid=lambda y: y.k == "write" and bare(g.place(y)) == bare(time))
        if p: c.viol("manipulate", g.at_line(x), "manipulators are called after the algorithm stepped", key=fq + "|manafter", path=p, g=g)
    # init happens before manipulators? (manipulators belong to the step)
    # --- advance
    is_do = lambda t: mentions(t, names(c, DO))
    def adv_time(x):
        if x.k != "write" or bare(g.place(x)) != bare(time): return False
        return True
    def adv_ok(x):
        v = g.value(x)
        v = v and g.fresh(v, x)
        if x.d["op"] == "+=": return is_first(v)
        if x.d["op"] == "=": return v is not None and v[0] == "+" and any(is_first(y) for y in v[1:]) and any(bare(y) == bare(time) for y in v[1:])
        return False
    def is_first(v): return v is not None and v[0] == "f" and v[2] == "first" and v[1][0] == "call" and v[1][1] == DO or v is not None and v[0] == "get" and is_do(v) and "duration" in str(v[2])
    obs = lambda x: x.k == "call" and (g.root(x) or "").startswith(OBS)
    endn = lambda x: x is g.exit or x.k == "taskend" or (x is n)
    c.ob("time advances", g.at_line(n))
    p = c.path(g, g.normal(n), lambda x: endn(x) or obs(x) or man(x), avoid=adv_time)
    if p: c.viol("advance", g.at_line(n), "%s %s before logical time has advanced" % (fq, "returns" if p[-1].k != "call" else "calls " + g.root(p[-1])), key=fq + "|time", path=p, g=g)
    for x in [x for x in live if adv_time(x)]:
        if not adv_ok(x): c.viol("advance", g.at_line(x), "logical time changes by something other than the step taken: %s %s" % (x.d["op"], show_term(g.value(x)) if g.value(x) else ""), key=fq + "|timeval")
        p = c.path(g, g.normal(x), adv_time, avoid=lambda y: y is n)
        if p: c.viol("advance", g.at_line(x), "logical time can advance twice in one step", key=fq + "|timetwice", path=p, g=g)
        p = c.path(g, [g.entry] , lambda y: y is x, avoid=lambda y: y is n)
        if p: c.viol("advance", g.at_line(x), "logical time changes without a step", key=fq + "|timenostep", path=p, g=g)
        p = c.path(g, g.excs(n), lambda y: y is x)
        if p: c.viol("advance", g.at_line(x), "logical time changes after a failed step", key=fq + "|timefail", path=p, g=g)
    # --- observers
    oc = is_cont(c, "cosim::observer")
    fin = lambda t: is_do(t) and (t[0] == "f" and t[2] == "second" or t[0] == "get")
    sc = lambda x: x.k == "call" and g.root(x) == OBS + "step_complete"
    ssc = lambda x: x.k == "call" and g.root(x) == OBS + "simulator_step_complete"
    c.each("observers told about the step", g, "every observer told that the step is complete", oc, lambda x, lp: sc(x) and (lp is None or c.elem_of(g.obj(x), lp)), start=g.normal(n), dst=endn, dstname="the step ends")
    c.each("observers told about finished simulators", g, "every observer told about finished simulators", oc, lambda x, lp: finloop(g, x, lp, fin, ssc, c), start=g.normal(n), dst=endn, dstname="the step ends")
    c.each("finished simulators reported", g, "every finished simulator reported", fin, lambda x, lp: ssc(x) and (lp is None or c.elem_of(g.args(x)[0], lp)), start=g.normal(n), dst=endn, must_run=False)
    num = None
    for x in [x for x in live if sc(x) or ssc(x)]:
        a = args(x)
        if ssc(x): a = a[1:]
        c.ob("observer arguments", g.at_line(x))
        if bare(a[2]) != bare(time): c.viol("observe", g.at_line(x), "observers are told time %s instead of the simulation's" % show_term(a[2]), key=fq + "|obstime")
        if not is_first(a[1]): c.viol("observe", g.at_line(x), "observers are told step size %s" % show_term(a[1]), key=fq + "|obsstep")
        if num is not None and bare(a[0]) != bare(num): c.viol("observe", g.at_line(x), "observers are told different step numbers", key=fq + "|obsnum")
        num = a[0]
    # first the simulators, then the step
    heads = set(lp.head for lp in g.loops if g.container(lp) is not None and oc(g.container(lp)))
    for x in [x for x in live if sc(x)]:
        p = c.path(g, g.normal(x), ssc, avoid=lambda y: y in heads or y is n)
        if p: c.viol("observe", g.at_line(x), "an observer hears of the step before a simulator that finished in it", key=fq + "|order", path=p, g=g)
        outer = [lp for lp in g.loops if lp.head in heads and x in g.body(lp)]
        same = any(ssc(y) for lp in outer for y in g.body(lp))
        p2 = c.path(g, g.normal(n), lambda y: y is x, edge=(lambda a, lab, b: not (a in heads and lab == "F")) if not same else None, avoid=lambda y: y.k in ("loop", "loophead") and any(lp.head is y and g.container(lp) is not None and fin(g.container(lp)) for lp in g.loops))
        if p2: c.viol("observe", g.at_line(x), "an observer hears of the step before the simulators that finished in it", key=fq + "|order2", path=p2, g=g)
    # --- step number
    if num is not None and num[0] == "f":
        inc = lambda x: x.k == "write" and bare(g.place(x)) == bare(num)
        def inc_ok(x):
            v = g.value(x)
            return x.d["op"] == "++" or x.d["op"] == "+=" and v == ("int", "1") or x.d["op"] == "=" and v is not None and v[0] == "+" and ("int", "1") in v[1:]
        c.ob("step numbers", g.at_line(n))
        p = c.path(g, g.normal(n), lambda x: endn(x) or obs(x), avoid=inc)
        if p: c.viol("advance", g.at_line(n), "%s %s before the step was counted" % (fq, "returns" if p[-1].k != "call" else "calls " + g.root(p[-1])), key=fq + "|num", path=p, g=g)
        for x in [x for x in live if inc(x)]:
            if not inc_ok(x): c.viol("advance", g.at_line(x), "the step number changes by something other than one", key=fq + "|numval")
            p = c.path(g, g.normal(x), inc, avoid=lambda y: y is n)
            if p: c.viol("advance", g.at_line(x), "a step can be counted twice", key=fq + "|numtwice", path=p, g=g)
            p = c.path(g, [g.entry], lambda y: y is x, avoid=lambda y: y is n)
            if p: c.viol("advance", g.at_line(x), "a step is counted that was not taken", key=fq + "|numnostep", path=p, g=g)
    # --- result of step()
    if f["n"] == "step":
        for r, e, fr in g.rootfr.rets:
            if e is None: continue
            for t in g.alts(g.fresh(g.T(e, fr), r)):
                c.ob("returned durations", g.at_line(r))
                if t[0] in ("int", "f", "call", "new") and not is_first(t): c.viol("advance", g.at_line(r), "step() returns %s instead of the step's duration" % show_term(t), key=fq + "|ret")

def finloop(g, x, lp, fin, ssc, c):
    if x.k not in ("loop", "loophead"): return False
    for l2 in g.loops:
        if l2.head is x and g.container(l2) is not None and fin(g.container(l2)):
            ns = [y for y in g.body(l2) if y in g.live() and ssc(y)]
            return any(lp is None or c.elem_of(g.obj(y), lp) for y in ns)
    return False

def ctor(c):
    fs = [f for f in c.db.F.values() if (f.get("cls") or "").startswith("cosim::execution") and f["n"] == f["cls"].split("::")[-1] and f.get("body") is not None and f["p"]]
    gs = [(f, c.graph(f)) for f in fs]
    gs = [(f, g, [n for n in g.live() if n.k == "call" and g.root(n) == ALG + "setup"]) for f, g in gs]
    if not any(s for f, g, s in gs): c.viol("setup", "cosim::execution", "no constructor tells the algorithm the start time", key="setup|none")
    for f, g, s in gs:
        if not s: continue
        c.ob("algorithm set-up", g.at_line(s[0]) if s else c.db.where(f))
        p = c.path(g, [g.entry], lambda n: n is g.exit, avoid=lambda n: n in s)
        if p: c.viol("setup", c.db.where(f), "the algorithm is not told the start time", key=f["q"] + "|setup", path=p, g=g)

def added(c):
    db = c.db
    oc, mc, simc = is_cont(c, "cosim::observer"), is_cont(c, "cosim::manipulator"), is_cont(c, "cosim::simulator")
    roles = getattr(c, "roles", [])
    for f in c.fns("cosim::execution::add_slave"):
        g = c.graph(f, track_all=True)
        add = [n for n in g.live() if n.k == "call" and g.root(n) == ALG + "add_simulator"]
        if not add: c.viol("added", db.where(f), "add_slave does not tell the algorithm", key="add_slave|alg"); continue
        idx, sim = g.args(add[0])[:2]
        for nm, cont in (("observer", oc), ("manipulator", mc)):
            q = "cosim::%s::simulator_added" % nm
            ev = lambda x, lp: x.k == "call" and g.root(x) == q and (lp is None or c.elem_of(g.obj(x), lp))
            c.each("simulators announced", g, "every %s told about the new simulator" % nm, cont, ev, dst=lambda n: n is g.exit)
            for x in [x for x in g.live() if ev(x, None)]:
                a = g.args(x)
                if bare(a[0]) != bare(idx): c.viol("added", g.at_line(x), "%ss are told another index (%s) than the algorithm (%s)" % (nm, show_term(a[0]), show_term(idx)), key="add_slave|idx|" + nm)
                if bare(a[1]) != bare(sim): c.viol("added", g.at_line(x), "%ss are told about another simulator than the algorithm" % nm, key="add_slave|sim|" + nm)
        for r, e, fr in g.rootfr.rets:
            t = g.T(e, fr)
            c.ob("returned indexes", g.at_line(r))
            if all(bare(x) != bare(idx) for x in g.alts(t) + [t]): c.viol("added", g.at_line(r), "add_slave returns %s, not the new simulator's index" % show_term(t), key="add_slave|ret")
        adds = [n for n in g.live() if n.k == "call" and n.e.get("obj") is not None and simc(g.obj(n)) and (n.e.get("fn") or "").split("::")[-1] in ("push_back", "emplace_back")]
        p = c.path(g, [g.entry], lambda n: n is g.exit, avoid=lambda n: n in adds)
        if p: c.viol("added", db.where(f), "add_slave does not keep the simulator", key="add_slave|keep", path=p, g=g)
        # the index is the position of the new element
        ok = index_ok(c, g, idx, adds, simc)
        if not ok: c.viol("added", g.at_line(add[0]), "the index given to the algorithm (%s) is not the new simulator's position" % show_term(idx), key="add_slave|pos")
    for f in c.fns("cosim::execution::add_function"):
        g = c.graph(f, track_all=True)
        fc = is_cont(c, "cosim::function")
        add = [n for n in g.live() if n.k == "call" and g.root(n) == ALG + "add_function"]
        adds = [n for n in g.live() if n.k == "call" and n.e.get("obj") is not None and fc(g.obj(n)) and (n.e.get("fn") or "").split("::")[-1] in ("push_back", "emplace_back")]
        c.ob("functions added", db.where(f))
        for what, ns in (("tell the algorithm", add), ("keep the function", adds)):
            p = c.path(g, [g.entry], lambda n: n is g.exit, avoid=lambda n: n in ns)
            if p: c.viol("added", db.where(f), "add_function does not %s" % what, key="add_function|" + what, path=p, g=g)
        if add and not index_ok(c, g, g.args(add[0])[0], adds, fc): c.viol("added", g.at_line(add[0]), "the index given to the algorithm is not the new function's position", key="add_function|pos")
        for r, e, fr in g.rootfr.rets:
            t = g.T(e, fr)
            if add and all(bare(x) != bare(g.args(add[0])[0]) for x in g.alts(t) + [t]): c.viol("added", g.at_line(r), "add_function returns %s, not the new function's index" % show_term(t), key="add_function|ret")
    for nm, cont in (("observer", oc), ("manipulator", mc)):
        for f in c.fns("cosim::execution::add_" + nm):
            g = c.graph(f, track_all=True)
            q = "cosim::%s::simulator_added" % nm
            c.each("earlier simulators announced", g, "a new %s is told about every simulator" % nm, simc,
                   lambda x, lp: x.k == "call" and g.root(x) == q and (lp is None or c.elem_of(g.args(x)[1], lp)), dst=lambda n: n is g.exit)
            for x in [x for x in g.live() if x.k == "call" and g.root(x) == q]:
                a = g.args(x)
                for lp in g.loops:
                    if x in g.body(lp) and lp.index is not None:
                        c.ob("announced indexes", g.at_line(x))
                        if not mentions(a[0], lambda t: t == ("idx", lp.head.id)): c.viol("added", g.at_line(x), "a new %s is told index %s for another simulator" % (nm, show_term(a[0])), key="add_%s|idx" % nm)
                if bare(g.obj(x)) != ("v",) and not mentions(g.obj(x), lambda t: t[0] in ("v", "p", "back", "call")): pass
            adds = [n for n in g.live() if n.k == "call" and n.e.get("obj") is not None and cont(g.obj(n)) and (n.e.get("fn") or "").split("::")[-1] in ("push_back", "emplace_back", "insert", "emplace")]
            c.ob("kept", db.where(f))
            p = c.path(g, [g.entry], lambda n: n is g.exit, avoid=lambda n: n in adds)
            if p: c.viol("added", db.where(f), "add_%s does not keep the %s" % (nm, nm), key="add_%s|keep" % nm, path=p, g=g)
            if nm == "observer":
                ini = [n for n in g.live() if n.k == "call" and g.root(n) == OBS + "simulation_initialized"]
                for fl, val in roles:
                    atom = ("truthy", fl)
                    c.ob("late observers", db.where(f))
                    p = c.path(g, [g.entry], lambda n: n is g.exit, avoid=lambda n: n in ini, edge=lambda n, lab, m: not (n.k == "branch" and fl[2] in str(g.atom(n)[0]) and ((lab == "T") == g.atom(n)[1]) != val))
                    if p: c.viol("added", db.where(f), "an observer added after initialisation is not told about it", key="add_observer|init", path=p, g=g)
                    for n in ini:
                        p = c.path(g, [g.entry], lambda x: x is n, edge=lambda n, lab, m: not (n.k == "branch" and fl[2] in str(g.atom(n)[0]) and ((lab == "T") == g.atom(n)[1]) == val))
                        if p: c.viol("added", g.at_line(n), "an observer added before initialisation is told that it happened", key="add_observer|noinit", path=p, g=g)

def index_ok(c, g, idx, adds, cont):
    def has_size(t): return mentions(t, lambda x: x[0] == "size" and cont(x[1]))
    ts = [idx] if idx[0] != "v" else []
    v = g.var_of(idx) if idx[0] == "v" else None
    if v is None and has_size(idx):
        # not captured in a local before the container grew
        return mentions(idx, lambda x: x[0] == "-" and ("int", "1") in x)
    if v is not None:
        for d in v.defs:
            if d[1] != "init" or d[2] is None: return True
            t = g.T(d[2], d[3])
            if not has_size(t): return t[0] not in ("int",)
            before = not any(c.path(g, g.normal(a), lambda n: n is d[0]) for a in adds)
            minus = mentions(t, lambda x: x[0] == "-" and ("int", "1") in x)
            plus = mentions(t, lambda x: x[0] == "+")
            if plus or before == minus: return False
        return True
    return True

def initial_values(c):
    roles = getattr(c, "roles", [])
    for t in TYPES:
        for f in c.fns("cosim::execution::set_%s_initial_value" % t):
            g = c.graph(f, track_all=True)
            c.ob("initial value setters", c.db.where(f))
            acts = [n for n in g.live() if n.k == "call" and (g.root(n) in SIM_SET or g.root(n) == EXPOSE_SET)]
            if not acts: c.viol("initial", c.db.where(f), "%s sets nothing" % f["q"], key=f["n"] + "|nothing"); continue
            for fl, val in roles:
                for n in acts:
                    for m, facts, p in c.path(g, [g.entry], lambda m: m is n, collect=True):
                        known = [v for a, v in facts.items() if a[0] == "truthy" and a[1][0] == "f" and a[1][2] == fl[2]]
                        if known != [not val]:
                            c.viol("initial", g.at_line(n), "%s accepts values after initialisation" % f["q"], key=f["n"] + "|late", path=p, g=g); break
                p = c.path(g, [g.entry], lambda m: m is g.exit, avoid=lambda m: m in acts)
                if p: c.viol("initial", c.db.where(f), "%s can return without setting anything or throwing" % f["q"], key=f["n"] + "|silent", path=p, g=g)
            for n in acts:
                if g.root(n) in SIM_SET:
                    p = c.path(g, [g.entry], lambda m: m is n, avoid=lambda m: m.k == "call" and g.root(m) == EXPOSE_SET)
                    if p: c.viol("initial", g.at_line(n), "the variable is set before it is exposed", key=f["n"] + "|expose", path=p, g=g)
