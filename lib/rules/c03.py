from common import *
LEVEL = "other"
RULE = """
For each task handed to the thread pool in the implementations of algorithm::initialize/do_step, every place the task
reads or writes is classified: local to the task, reached through the element (simulator) of the loop that created the
task, or shared. Phase operations may only be called on the task's own element. A shared place that some task writes,
or that the submitting thread writes between the hand-off and the wait, must be atomic or be accessed under one
common mutex at every such access (must-hold lock sets, the task starting with no lock). Calls on other library
objects count as writes. A variable captured by reference may not be changed by the submitting thread meanwhile."""
ASSUME = ["const member functions of standard types and of the library do not modify shared state",
          "the simulator objects of different loop elements are distinct (they are values of one container)"]

def check(c):
    for q in ("initialize", "do_step"):
        for f in c.impls(ALG + q):
            g = c.graph(f, stop=pool_stop_all)
            c.ob("algorithm calls", f["q"])
            L = Locks(g)
            live = g.live()
            spawns = [s for s in g.spawns if s in live and s.d.get("frame") is not None]
            for s in [s for s in g.spawns if s in live and s.d.get("frame") is None]:
                c.note("task body not visible at %s" % g.at_line(s))
            phases = live_calls(g, PHASES)
            tasks = []
            for s in spawns:
                fr = s.d["frame"]
                nodes = [n for n in g.nodes if n in live and n.fr is not None and fr in list(n.fr.chain())]
                loops = [lp for lp in g.loops if s in g.body(lp)]
                hs = L.at(s)
                tasks.append((s, fr, set(nodes), loops, hs))
            allin = set().union(*[t[2] for t in tasks]) if tasks else set()
            # group tasks that may overlap: everything handed off before a wait
            for s, fr, nodes, loops, hs in tasks:
                c.ob("tasks", g.at_line(s))
                inner = set(x.id for x in g.frames if fr in list(x.chain()))
                end = s.d.get("end")
                window = between(g, [end] if end is not None else [s], allin)
                conc = [t for t in tasks if t[0] is s or t[0] in window]
                self_par = bool(loops)
                def private(p):
                    b = base_of(p)
                    if b[0] == "v" and b[1] in inner: return True
                    if b[0] in ("ret",) and b[1] in inner: return True
                    if b[0] in ("new", "none", "str", "int", "bool", "call", "enum", "float"): return True
                    if b[0] in ("elemof", "acc", "idx") and False: return True
                    if any(c.elem_of(p, lp) for lp in loops): return True
                    # loops run by the task itself over private things
                    return False
                def own(p):
                    b = base_of(p)
                    return not (b[0] in ("v", "ret") and b[1] in inner) and any(c.elem_of(p, lp) for lp in loops) and not mentions(p, lambda t: t[0] in ("idx", "elemof"))
                writes, reads, owrites, oreads = [], [], [], []
                for n in nodes:
                    if n.k == "call" and g.root(n) in PHASES:
                        c.ob("phase operations in tasks", "%s %s" % (g.at_line(n), g.root(n)))
                        o = g.obj(n)
                        if loops and not private(o):
                            c.viol("own-simulator", g.at_line(n), "a task calls %s on %s, which is not the simulator it was created for" % (g.root(n), show_term(o)), key=f["q"] + "|" + g.root(n))
                    elif n.k == "call" and n.e.get("id") and n.e.get("obj") is not None and not n.e.get("const") and not n.e.get("constm"):
                        m = c.db.F.get(n.e["id"]) or {}
                        if not const_method(c, n) and not private(g.obj(n)): writes.append((n, g.obj(n)))
                    for p in writes_of(g, n):
                        if not private(p) and n.k != "decl": writes.append((n, p))
                        if own(p) and p[0] == "f": owrites.append((n, p))
                    for p in reads_of(g, n):
                        if not private(p): reads.append((n, p))
                        elif own(p) and p[0] == "f": oreads.append((n, p))
                out_w, out_r = [], []
                for n in window:
                    if n in allin: continue
                    for p in writes_of(g, n): out_w.append((n, p))
                    for p in reads_of(g, n): out_r.append((n, p))
                shared = {}
                if self_par or len(conc) > 1:
                    for n, p in writes: shared.setdefault(bare(p), []).append(n)
                else:
                    for n, p in writes:
                        if any(overlap(p, q) for _, q in out_w + out_r): shared.setdefault(bare(p), []).append(n)
                for n, p in out_w:
                    if any(overlap(p, q) for _, q in writes + reads): shared.setdefault(bare(p), []).append(n)
                for n, p in out_r:
                    if any(overlap(p, q) for _, q in writes): shared.setdefault(bare(p), [])
                # the task's own element, touched by the submitting thread (under whatever loop)
                for n, p in [(n, p) for n, p in out_w if any(bare(p) == bare(q) for _, q in owrites + oreads)] + [(n, p) for n, p in out_r if any(bare(p) == bare(q) for _, q in owrites)]:
                    hs2 = [set(x for x, _ in L.at(m)) for m, q in owrites + oreads if bare(q) == bare(p)] + [set(x for x, _ in L.at(n))]
                    if not set.intersection(*hs2) and not is_atomic(c, g, n, p):
                        c.viol("unguarded", g.at_line(n), "%s is accessed by the submitting thread while the task that owns it may run" % show_term(p), key="%s|own|%s" % (f["q"], show_term(bare(p))))
                for p, ns in sorted(shared.items(), key=repr):
                    acc = [(n, q, True) for n, q in writes + reads if overlap(p, q)] + [(n, q, False) for n, q in out_w + out_r if overlap(p, q)]
                    acc = [a for a in acc if not is_atomic(c, g, a[0], a[1])]
                    if not acc: continue
                    c.ob("shared places written while tasks run", "%s: %s" % (g.at_line(s), show_term(p)))
                    common = None
                    for n, q, ins in acc:
                        h = set(m for m, mode in L.at(n)) - (set(m for m, mode in hs) if ins else set())
                        if ins: h = set(m for m in h if not private(m))
                        common = h if common is None else common & h
                    if not common:
                        worst = [n for n, q, ins in acc if not (L.at(n) - (hs if ins else frozenset()))] or [acc[0][0]]
                        c.viol("unguarded", g.at_line(worst[0]), "%s is modified while tasks run in parallel, without a common mutex" % show_term(p), key="%s|%s" % (f["q"], show_term(bare(p))))
                # by-reference captures that the submitter changes
                lam = s.d.get("lam")
                for cp in (lam[0]["caps"] if lam else []):
                    if cp.get("init") is not None or not cp.get("byref"): continue
                    v = lam[1].lookup(cp.get("d"))
                    if v is None or v.ref: continue
                    for n in window:
                        if n in allin or n.k != "write": continue
                        e = n.d["place"]
                        if isinstance(e, dict) and e.get("k") == "ref" and n.fr.lookup(e.get("d")) is v and not (set(L.at(n))):
                            c.viol("unguarded", g.at_line(n), "'%s', captured by reference by a task, changes while the task may run" % v.n, key=f["q"] + "|capture")
                # deadlock: waiting with a mutex held that tasks need
                for n in window:
                    if is_wait(n):
                        h = set(m for m, _ in L.at(n))
                        for m in nodes:
                            if m.k in ("decl", "call") and (set(x for x, _ in L.held(L.transfer(m, L.inn[m])) - L.at(m)) & h):
                                c.viol("deadlock", g.at_line(n), "waits for tasks while holding a mutex they lock", key=f["q"] + "|deadlock")
            if phases and not any(n in allin for n in phases): c.note("%s does not use worker threads" % f["q"])
    c.need("algorithm calls", 2)

def const_method(c, n):
    t = n.e.get("fn") or ""
    if n.e.get("cm"): return True
    for r in c.db.R.values():
        for m in r["methods"]:
            if m["id"] == n.e.get("id"): return bool(m.get("const"))
    return False
def overlap(p, q):
    p, q = bare(p), bare(q)
    return p == q or mentions(q, lambda t: t == p) or mentions(p, lambda t: t == q and t[0] != "this")
def is_atomic(c, g, n, p):
    if n.k == "write" and n.d.get("atomic"): return True
    f = p
    while isinstance(f, tuple) and len(f) > 1:
        if f[0] == "f" and f[2] in c.db.atomic_fields(): return True
        if f[0] == "v":
            v = g.var_of(f)
            return v is not None and bool(re.search(r"atomic|std::(recursive_|shared_)?mutex|condition_variable|std::once_flag|latch|semaphore", v.t))
        f = f[1]
    r = root_field(p)
    if r is not None:
        for rec in c.db.R.values():
            for x in rec["fields"]:
                if x["n"] == r[2] and re.match(r"std::(recursive_|shared_)?mutex|std::condition_variable|cosim::utility::thread_pool|std::once_flag", x["t"]): return True
    return False
def between(g, starts, allin):
    """Nodes that may execute between a hand-off and the wait for it."""
    seen, st = set(starts), list(starts)
    while st:
        n = st.pop()
        if is_wait(n) and n not in allin: continue
        for _, m in n.succ:
            if m not in seen: seen.add(m); st.append(m)
    return seen
