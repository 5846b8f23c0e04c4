from common import *
LEVEL = "other"
RULE = """
In every implementation of algorithm::initialize / algorithm::do_step, from each hand-off of work to other threads
(thread_pool::submit, std::thread, std::async) every feasible path must pass a wait for that work before it reads or
writes exchanged values, calculates a function, hands over work of another phase, or leaves the algorithm call
(normally, by throw, or through a failing call on a library interface). A variable captured by reference must
outlive the work: it may not be re-created or go out of scope before the wait."""
ASSUME = ["thread_pool::wait_for_tasks_to_finish returns only when all submitted work is done (decided by C04)",
          "standard-library calls between hand-off and wait do not throw (allocation failure is not modelled)"]

def task_phases(c, g, s):
    """Phases driven by the task spawned at s (found in the inlined twin graph)."""
    out = set()
    fr = s.d.get("frame")
    if fr is None: return out
    for n in g.nodes:
        if n.k == "call" and n in g.live() and g.root(n) in PHASES and fr in list(n.fr.chain()): out.add(g.root(n))
    return out

def check(c):
    for q in ("initialize", "do_step"):
        for f in c.impls(ALG + q):
            g = c.graph(f, stop=pool_stop_all)
            spawns = [s for s in g.spawns if s in g.live()]
            c.ob("algorithm calls", f["q"])
            inside = lambda n: any(fr.spawned for fr in n.fr.chain()) if n.fr else False
            for s in spawns:
                ph = task_phases(c, g, s)
                c.ob("hand-offs", "%s %s" % (g.at_line(s), ",".join(sorted(PHASES[p] for p in ph))))
                done = s.d.get("end") or s
                fs = s.d.get("frame")
                mine = lambda n: fs is not None and fs in list(n.fr.chain())
                def bad(n):
                    if n is g.exit or n is g.xexit: return True
                    if inside(n) and not (n.k == "spawn"): return False
                    if n.k == "call" and g.root(n) in TRANSFER: return True
                    if n.k == "call" and g.root(n) in PHASES and not inside(n): return True
                    if n.k == "spawn" and n is not s:
                        p2 = task_phases(c, g, n)
                        return bool(p2 - ph) 
                    return False
                def edge(n, lab, m):
                    if lab == "exc":
                        return n.k == "throw" or n.k == "call" and bool(n.e.get("virt")) and not inside(n)
                    return True
                if s.d.get("end") is None:
                    starts = g.normal(s)
                else:
                    starts = [done]
                # do not re-enter tasks: their own effects are C01/C03's business
                p = c.path(g, starts, bad, avoid=lambda n: is_wait(n) and not inside(n), edge=edge, keep=flags)
                if p:
                    e = p[-1]
                    msg = "returns" if e is g.exit else "throws" if e is g.xexit else "goes on to %s" % (g.root(e) if e.k == "call" else "hand over work of another phase")
                    c.viol("barrier", g.at_line(s), "%s %s while tasks may still be running" % (f["q"], msg), key=f["q"] + "|" + ",".join(sorted(ph)) + "|" + e.k, path=p, g=g)
                lifetime(c, g, f, s, starts, inside)
            if spawns:
                pass
    c.need("algorithm calls", 2)
    # the asynchronous simulation call keeps its parameters alive: captures by value
    for f in c.fns("cosim::execution::simulate_until_async"):
        g = c.graph(f, spawn="opaque")
        for s in g.spawns:
            c.ob("hand-offs", g.at_line(s))
            lam = s.d.get("lam")
            if not lam: continue
            for cp in lam[0]["caps"]:
                if cp.get("byref") and not cp.get("this"):
                    v = lam[1].lookup(cp.get("d"))
                    if v is not None and not v.ref and not any(is_wait(n) for n in g.nodes):
                        c.viol("lifetime", g.at_line(s), "the asynchronous task keeps a reference to local '%s' of %s" % (v.n, f["q"]), key=f["q"] + "|" + "ref-capture")

def lifetime(c, g, f, s, starts, inside):
    lam = s.d.get("lam")
    if not lam: return
    for cp in lam[0]["caps"]:
        if cp.get("init") is not None or not cp.get("byref"): continue
        v = lam[1].lookup(cp.get("d"))
        if v is None or v.ref or v.node is None: continue
        c.ob("variables captured by reference", "%s %s" % (g.at_line(s), v.n))
        decl = v.node
        p = c.path(g, starts, lambda n: n is decl, avoid=lambda n: is_wait(n) and not inside(n), keep=flags)
        if p:
            c.viol("lifetime", g.at_line(s), "the task refers to '%s', which is destroyed and created anew before the task is known to have finished" % v.n, key=f["q"] + "|" + "recreated", path=p, g=g)
            continue
        # modified by the submitting thread while the task may read it: C03
