from common import *
LEVEL = "other"
RULE = """
For every implementation of algorithm::initialize and algorithm::do_step, an interprocedural flow graph is
built in which each task handed to the thread pool runs at its submission point (the schedule of a pool without
workers; a task's effects on flags and messages are the same under every schedule once the phase barrier, C02, and
the exclusion rule, C03, hold). From the exceptional edge of every simulator phase call, and from the point where a
step result other than 'complete' was returned, every feasible path must end in an exception leaving the algorithm
call: none may reach its normal return, leave a task as an exception (std::terminate on a worker), reach
std::terminate, or reach a later phase, a calculation or a value transfer. The same is required in
slave_simulator for every call on the slave (whose step result must be returned unchanged) and in execution for
algorithm::initialize/do_step, where in addition no time/step update and no observer or manipulator notification
may follow the failure."""
ASSUME = ["a call on a virtual interface of the library that is not noexcept may throw any exception derived from std::exception",
          "worker threads exist only through thread_pool::submit, std::thread and std::async",
          "asking a simulator for its name does not throw"]
COMPLETE = "cosim::step_result::complete"

def no_name(e): return (e.get("fn") or "").endswith("::name") and not e.get("a")
def is_step(g, t):
    return mentions(t, lambda x: x[0] == "call" and x[1] == SIM + "do_step")

def check(c):
    for q in ("initialize", "do_step"):
        for f in c.impls(ALG + q):
            g = c.graph(f, stop=pool_stop, nothrow=no_name)
            phase_calls = live_calls(g, PHASES)
            if not phase_calls:
                c.viol("phase", c.db.where(f), "%s drives no simulator" % f["q"], key=f["q"] + "|nothing")
                continue
            for n in phase_calls:
                r = g.root(n)
                name = PHASES[r]
                later = lambda m, r=r: m.k == "call" and (g.root(m) in TRANSFER or g.root(m) in PHASES and g.root(m) != r)
                bad = lambda m: m is g.exit or m.k == "taskescape" or m is g.term_node or later(m)
                def report(p, what, n=n, name=name):
                    e = p[-1]
                    if e is g.exit: msg = "%s during %s is swallowed: %s can return normally" % (what, name, f["q"])
                    elif e.k == "taskescape": msg = "%s during %s escapes the task and would terminate the process" % (what, name)
                    elif e is g.term_node: msg = "%s during %s ends in std::terminate" % (what, name)
                    else: msg = "%s during %s does not prevent %s" % (what, name, g.root(e))
                    c.viol("failure-propagates", g.at_line(n), msg, key="%s|%s|%s|%s" % (f["q"], name, what, e.k if e.k != "call" else "later"), path=p, g=g)
                c.ob("exceptions of simulator calls", "%s %s" % (g.at_line(n), r))
                st = g.excs(n)
                if not st: 
                    continue
                # facts at the call itself: any
                starts = entry_states(c, g, n, st)
                p = c.path(g, starts, bad)
                if p: report(p, "an exception")
                if r == SIM + "do_step":
                    c.ob("incomplete steps", g.at_line(n))
                    p = incomplete(c, g, n, bad)
                    if p: report(p, "an incomplete step")
    c.need("exceptions of simulator calls", 4)
    c.need("incomplete steps", 1)

    # slave_simulator: failures of the slave reach the caller
    for q in ("setup", "do_iteration", "start_simulation", "do_step"):
        for f in c.impls(SIM + q):
            g = c.graph(f)
            for n in [n for n in g.nodes if n.k == "call" and n in g.live() and (g.root(n) or "").startswith(SLV) and not n.e.get("nt")]:
                c.ob("exceptions of slave calls", "%s %s" % (g.at_line(n), g.root(n)))
                if not g.excs(n): continue
                p = c.path(g, g.excs(n), lambda m: m is g.exit or m is g.term_node)
                if p: c.viol("slave-failure", g.at_line(n), "an exception from %s does not leave %s" % (g.root(n), f["q"]), path=p, g=g)
                if g.root(n) == SLV + "do_step":
                    result_returned(c, g, f, n)

    # execution: nothing happens after a failed algorithm call
    for q in ("cosim::execution::step", "cosim::execution::simulate_until"):
        for f in c.fns(q):
            g = c.graph(f)
            calls = live_calls(g, {ALG + "initialize", ALG + "do_step"})
            for n in calls:
                c.ob("exceptions of algorithm calls", "%s %s" % (g.at_line(n), g.root(n)))
                bad = lambda m: m is g.exit or m is g.term_node or m.k == "call" and ((g.root(m) or "").startswith(OBS) or (g.root(m) or "").startswith(MAN) or (g.root(m) or "").startswith(ALG))
                p = c.path(g, g.excs(n), bad)
                if p:
                    e = p[-1]
                    c.viol("execution-failure", g.at_line(n), "a failure of %s %s" % (g.root(n), "does not leave " + f["q"] if e.k != "call" else "does not prevent " + g.root(e)), key=f["q"] + "|" + g.root(n) + "|" + e.k, path=p, g=g)
                # time does not advance
                times = lambda m: m.k == "write" and m.d["op"] in ("+=", "=", "++") and pimpl_this(g.place(m)) and ("time_point" in wtype(c, g, m) or m.d["op"] == "++")
                p = c.path(g, g.excs(n), times)
                if p: c.viol("execution-failure", g.at_line(n), "%s changes after %s failed" % (show_term(g.place(p[-1])), g.root(n)), key=f["q"] + "|time|" + g.root(n), path=p, g=g)
    c.need("exceptions of algorithm calls", 4)
    # asynchronous variant: the future carries the exception
    for f in c.fns("cosim::execution::simulate_until_async"):
        g = c.graph(f)
        for s in g.spawns:
            c.ob("asynchronous simulation", g.at_line(s))
            fr = s.d.get("frame")
            if fr is None: continue
            for n in live_calls(g, {ALG + "initialize", ALG + "do_step"}):
                p = c.path(g, g.excs(n), lambda m: m.k == "taskend" or m is g.term_node)
                if p: c.viol("execution-failure", g.at_line(n), "a failure of %s is lost in %s" % (g.root(n), f["q"]), path=p, g=g)
            if not s.e.get("fn", "").startswith("std::async"):
                if g.excs(s) is not None and any(m.k == "taskescape" for m in g.nodes if m in g.live()):
                    c.viol("execution-failure", g.at_line(s), "an exception can leave a thread function in %s" % f["q"])

def wtype(c, g, m):
    p = m.d["place"]
    return (p.get("t") or "") if isinstance(p, dict) else ""

def entry_states(c, g, n, st):
    """Start states: what is known when control arrives at n for the first time."""
    found = c.path(g, [g.entry], lambda m: m is n, collect=True, keep=flags)
    out = []
    for _, facts, _p in found[:200]: 
        for s in st: out.append((s, dict(facts)))
    res = []
    for s, facts in out:
        node, lab = s
        for l2, m in node.succ:
            if l2 == lab:
                f2 = g.step_facts(node, lab, facts)
                if f2 is not None: res.append((m, f2))
    return res or st

def incomplete(c, g, n, bad):
    """A path to `bad` on which the step driven by n was not complete."""
    fn0 = n.fr
    spawned = [s for s in g.spawns if s.d.get("end") is not None]
    # places the result is stored in
    places = set()
    for w in g.writes():
        v = g.value(w)
        if v is not None and is_step(g, v): places.add(bare(g.place(w)))
    def of_result(t):
        if is_step(g, t): return True
        if any(is_step(g, a) for a in g.alts(t)): return True
        return bare(t) in places or (t[0] == "f" and any(p[0] == "f" and p[2] == t[2] for p in places))
    def blocked(m, lab):
        if m.k == "branch":
            a, pol = g.atom(m)
            x = enum_atom(a, COMPLETE)
            if x is not None and of_result(x): return ((lab == "T") == pol)
            for q in c.db.enumerators("cosim::step_result"):
                pass
        if m.k == "switch" and lab and lab[0] == "case" and lab[1] == ("enum", COMPLETE) and of_result(g.T(m.e, m.fr)): return True
        return False
    edge_in = lambda m, lab, s: not blocked(m, lab)
    start = entry_states(c, g, n, g.normal(n))
    end = None
    for s in spawned:
        fr = s.d.get("frame")
        if fr is not None and fr in list(n.fr.chain()): end = s.d["end"]
    # when the step runs in line, the loop header plays the part of the task's end
    heads = [lp.head for lp in g.loops if n in g.body(lp)]
    stop = (lambda m: m is end) if end is not None else (lambda m: m in heads)
    p = c.path(g, start, bad, avoid=stop, edge=edge_in)
    if p: return p
    states = c.path(g, start, stop, edge=edge_in, collect=True)
    spf = set(id(f) for f in g.frames if f.spawned)
    edge_out = lambda m, lab, s: id(m.fr) in spf or n in (m,) or not blocked(m, lab) or (end is None and any(m in g.body(lp) and n in g.body(lp) for lp in g.loops))
    for m, facts, p0 in states[:200]:
        p = c.path(g, [(m, facts)], bad, edge=edge_out)
        if p: return p0 + p[1:]
    return None

def result_returned(c, g, f, n):
    """The result of slave::do_step is what the operation returns."""
    rets = [r for r, e, fr in g.rootfr.rets]
    for r in rets:
        p = c.path(g, g.normal(n), lambda m: m is r)
        if p is None: continue
        c.ob("step result returned", g.at_line(r))
        t = g.T(r.e, r.fr)
        for a in g.alts(t):
            ok = mentions(a, lambda x: x[0] == "call" and x[1] == SLV + "do_step") and a[0] == "call"
            if a == ("enum", COMPLETE) or (a[0] == "enum" and False): ok = False
            elif a[0] in ("enum",) : ok = True     # any other constant is a failure
            elif a[0] not in ("call",): ok = True  # not understood: no alarm
            if not ok:
                # a constant 'complete' is fine where the slave is known to have completed
                facts_ok = all_paths_complete(c, g, n, r)
                if not facts_ok:
                    c.viol("step-result", g.at_line(r), "%s reports %s whatever the slave's step returned" % (f["q"], show_term(a)), path=p, g=g)
def all_paths_complete(c, g, n, r):
    def edge(m, lab, s):
        if m.k == "branch":
            a, pol = g.atom(m)
            x = enum_atom(a, COMPLETE)
            if x is not None: return (lab == "T") != pol
        return True
    return c.path(g, g.normal(n), lambda m: m is r, edge=edge) is None
