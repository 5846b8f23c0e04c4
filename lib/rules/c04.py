from common import *
LEVEL = "other"
RULE = """
The thread pool's entry points (public operations, constructor, destructor and the function run by its threads) are
found by call graph; its fields are classified by type (task queue, thread list, mutex, condition variables, task
counter, done flag). With must-hold lock sets and facts that are dropped whenever the mutex is released: (1) every
access to queue, counter or flag is made with the mutex held exclusively; (2) no task runs with the mutex held, every
task taken from the queue is removed in the same critical section and then run exactly once; (3) waiting for
completion returns only with the queue known to be empty and the counter known to be zero, the counter being raised in
the critical section that removes (or adds) the task and lowered after it ran; (4) a thread blocks only when the queue
is known to be empty and the flag unset, and every waiting loop re-checks; (5) each change that can make a waiter's
condition true is followed by a notification before the function blocks or returns; (6) a thread ends only when the
flag is set and the queue is empty; (7) submit runs the task itself iff there are no threads, else queues it once;
(8) the destructor, and a constructor that fails after starting threads, set the flag, wake all threads and join each."""
ASSUME = ["one thread at a time waits for completion (a single notification suffices); submit wakes one worker per task"]
CLS = "cosim::utility::thread_pool"
ADD = ("push", "emplace", "push_back", "emplace_back", "push_front", "emplace_front")
POP = ("pop", "pop_front", "pop_back")

def thread_ctor(e):
    fn = e.get("fn") or ""
    return bool(re.search(r"std::(__basic_)?thread|std::jthread", fn)) and (e["k"] == "ctor" and bool(e.get("a")) or fn.split("::")[-1] in ("emplace_back", "push_back", "emplace"))

def check(c):
    db = c.db
    r = db.rec(CLS)
    F = lambda rx: [("f", ("this",), f["n"]) for f in r["fields"] if re.search(rx, f["t"])]
    queues = F(r"^std::(queue|deque|list|vector)<std::function|^std::(queue|deque|list)<")
    threads = F(r"std::(j?thread)\b")
    mutexes = F(r"^std::.*mutex$")
    cvs = F(r"condition_variable")
    counters = F(r"^(unsigned|int|long|size_t|std::size_t|unsigned \w+)$|^std::atomic<(unsigned|int|long)")
    flagsf = F(r"^bool$|^std::atomic<bool>$|atomic_bool")
    if not queues or not threads or not mutexes or not cvs: raise AnalysisError("thread_pool's fields have unexpected types")
    atomic = set(F(r"atomic"))
    guarded = set(queues + counters + flagsf)
    fns = entry_points(db, CLS)
    graphs = []
    sync = lambda p: p in guarded
    for f in fns:
        g = c.graph(f, sync=sync, track_all=True, extra_throw=thread_ctor, spawn="opaque")
        graphs.append((f, g, Locks(g)))
        for s in g.spawns:
            for i in (s.d["lam"][0]["ids"] if s.d.get("lam") else []):
                if i in db.F: fns.append(db.F[i])
    nm = lambda n: (n.e.get("fn") or "").split("::")[-1] if n.k == "call" else ""
    on = lambda g, n, ps: n.k == "call" and n.e.get("obj") is not None and g.obj(n) in ps
    held = lambda L, n: any(m in mutexes and mode == "x" for m, mode in L.at(n))
    is_run = lambda g, n: n.k == "call" and ("std::function" in (n.e.get("fn") or "") and nm(n) == "operator()" or n.e.get("op") == "()" and not n.e.get("id")) 
    adds = lambda g, n: on(g, n, queues) and nm(n) in ADD
    pops = lambda g, n: on(g, n, queues) and nm(n) in POP
    notif = lambda g, n, cv: n.k == "call" and nm(n) in ("notify_one", "notify_all") and g.obj(n) == cv
    blocks = lambda g, n: n.k == "call" and bool(Graph.CVWAIT.search(n.e.get("fn") or ""))
    starts = lambda g, n: n.k == "call" and thread_ctor(n.e) or n.k == "spawn"
    joins = lambda g, n: n.k == "call" and nm(n) == "join" and "thread" in (n.e.get("fn") or "")
    def release(L, n): return n.k in ("call", "dtor") and held(L, n) and not any(m in mutexes for m, _ in L.held(L.transfer(n, L.inn[n])))

    # (1) lock discipline
    for f, g, L in graphs:
        shared = None
        if "ctor" in method_kind(r, f):
            shared = after(g, [n for n in g.nodes if n in g.live() and starts(g, n)])
        joined = None
        if "dtor" in method_kind(r, f):
            lps = [lp for lp in g.loops_over(lambda t: t in threads) if any(joins(g, n) for n in g.body(lp))]
            joined = set(lps[0].exit and [lps[0].exit] or []) if lps else None
        done = after(g, list(joined)) if joined else set()
        for n, p, how in accesses(g):
            fld = root_field(p)
            if fld is None: continue
            x = [q for q in guarded if fld == q or mentions(p, lambda t, q=q: t == q)]
            if not x or x[0] in atomic: continue
            if shared is not None and n not in shared: continue
            if n in done: continue
            c.ob("guarded accesses", "%s %s" % (g.at_line(n), show_term(p)))
            if not held(L, n):
                # evaluation of a wait's lambda capture etc. is not an access
                c.viol("lock", g.at_line(n), "%s is %s without the pool's mutex in %s" % (x[0][2], "changed" if how == "w" else "read", f["n"]), key="%s|%s" % (f["q"], x[0][2]))
        for n, (m, _) in L.double:
            c.viol("lock", g.at_line(n), "the pool's mutex is locked while already held in %s" % f["n"], key=f["q"] + "|double")

    # (2) tasks
    workers = []
    for f, g, L in graphs:
        ps = [n for n in g.nodes if n in g.live() and pops(g, n)]
        if ps: workers.append((f, g, L))
        for n in g.nodes:
            if n not in g.live() or not is_run(g, n): continue
            c.ob("task executions", g.at_line(n))
            if held(L, n): c.viol("task", g.at_line(n), "a task is run with the pool's mutex held in %s" % f["n"], key=f["q"] + "|held")
            if ps:
                p = c.path(g, g.normal(n), lambda m: m is not n and is_run(g, m) or m is n, avoid=lambda m: pops(g, m), edge=lambda a, lab, b: lab != "exc")
                if p: c.viol("task", g.at_line(n), "a task can be run twice without another one being taken from the queue", key=f["q"] + "|twice", path=p, g=g)
        for n in ps:
            c.ob("tasks taken", g.at_line(n))
            p = c.path(g, g.normal(n), lambda m: m is g.exit or blocks(g, m) or pops(g, m), avoid=lambda m: is_run(g, m))
            if p: c.viol("task", g.at_line(n), "a task taken from the queue may never be run", key=f["q"] + "|dropped", path=p, g=g)
            # known to be non-empty
            for _, facts, p in c.path(g, [g.entry], lambda m: m is n, collect=True)[:50]:
                if is_empty(facts, g.obj(n)) is not False:
                    c.viol("task", g.at_line(n), "a task is taken though the queue may be empty", key=f["q"] + "|empty", path=p, g=g); break
            # element read in the same critical section, before it is removed
            reads = [m for m in g.nodes if m in g.live() and on(g, m, queues) and nm(m) in ("front", "back", "top")]
            for m in reads:
                p = c.path(g, g.normal(m), lambda x: release(L, x) or is_run(g, x), avoid=lambda x: pops(g, x))
                if p: c.viol("task", g.at_line(m), "the mutex is released before the task read from the queue is removed from it", key=f["q"] + "|release", path=p, g=g)
                pt = ("at", g.obj(m), ("int", "0"))
            if not any(c.path(g, g.normal(m), lambda x: x is n) for m in reads):
                c.note("no front() before %s" % g.at_line(n))
            # the same task
            for x in g.nodes:
                if x in g.live() and is_run(g, x):
                    o = g.obj(x) if x.e.get("obj") is not None else None
                    if o is not None and root_field(o) in queues and x.e["obj"]["k"] in ("ref", "mem", "call"):
                        if x.e["obj"]["k"] == "call": c.viol("task", g.at_line(x), "the task is called in place in the queue", key=f["q"] + "|inplace")
                        v = x.fr.lookup(x.e["obj"].get("d")) if x.e["obj"]["k"] == "ref" else None
                        if v is not None and v.ref: c.viol("task", g.at_line(x), "the task that is run is a reference into the queue", key=f["q"] + "|ref")
    if not workers: raise AnalysisError("no function takes tasks from the queue")

    # (3) completion
    inc = lambda g, n: n.k == "write" and n.d["op"] in ("++", "+=") and g.place(n) in counters
    dec = lambda g, n: n.k == "write" and n.d["op"] in ("--", "-=") and g.place(n) in counters
    at_pop = any(inc(g, n) for f, g, L in workers for n in g.live())
    at_push = any(inc(g, n) and any(adds(g, m) for m in g.live()) for f, g, L in graphs for n in g.live())
    waitcv = None
    for f, g, L in graphs:
        if f["n"] != "wait_for_tasks_to_finish": continue
        c.ob("completion waits", f["q"])
        outs = c.path(g, [g.entry], lambda m: release(L, m) or m is g.exit, collect=True)
        for m, facts, p in outs:
            if not held(L, m):
                c.viol("completion", g.at_line(m), "waiting returns without looking at the queue under the mutex", key="nolock", path=p, g=g); break
            e = [is_empty(facts, q) for q in queues]
            z = [zero(facts, k) for k in counters]
            if at_push and not at_pop: bad = z != [True] * len(counters) or not counters
            else: bad = not all(x is True for x in e) or not counters or not all(x is True for x in z)
            if bad:
                c.viol("completion", g.at_line(m), "waiting can return while %s" % ("tasks may be queued" if not all(x is True for x in e) else "a task may be running"), key="early", path=p, g=g); break
        for n in g.live():
            if blocks(g, n):
                waitcv = g.obj(n)
                c.ob("blocking waits", g.at_line(n))
                for m, facts, p in c.path(g, [g.entry], lambda m: m is n, collect=True):
                    e = [is_empty(facts, q) for q in queues]; z = [zero(facts, k) for k in counters]
                    if not any(x is False for x in e + z):
                        c.viol("wake-up", g.at_line(n), "waiting for completion blocks without knowing that work is left", key="blocks", path=p, g=g); break
    c.need("completion waits")
    if not (at_pop or at_push) : c.viol("completion", CLS, "running tasks are not counted", key="uncounted")
    for f, g, L in workers:
        for n in [n for n in g.nodes if n in g.live() and pops(g, n)]:
            if at_pop:
                c.ob("tasks counted", g.at_line(n))
                before = [m for m in g.live() if inc(g, m)]
                # counted somewhere in this critical section
                pb = None
                for b in [b for b in g.live() if b.k in ("decl", "call") and acquires(L, b, mutexes)]:
                    pb = pb or both(c, g, b, n, L, release, inc)
                if pb: c.viol("completion", g.at_line(n), "a task is taken without being counted as running in the same critical section", key=f["q"] + "|count", path=pb, g=g)
        for n in [n for n in g.nodes if n in g.live() and is_run(g, n)]:
            c.ob("tasks counted", g.at_line(n))
            p = c.path(g, g.normal(n), lambda m: m is g.exit or blocks(g, m) or is_run(g, m) or pops(g, m), avoid=lambda m: dec(g, m))
            if p: c.viol("completion", g.at_line(n), "a finished task stays counted as running", key=f["q"] + "|dec", path=p, g=g)
        for n in [n for n in g.nodes if n in g.live() and dec(g, n)]:
            p = c.path(g, g.normal(n), lambda m: dec(g, m) , avoid=lambda m: is_run(g, m) or inc(g, m))
            if p: c.viol("completion", g.at_line(n), "a finished task is discounted twice", key=f["q"] + "|dec2", path=p, g=g)
            p = c.path(g, [s for m in g.live() if pops(g, m) for s in g.normal(m)], lambda m: m is n, avoid=lambda m: is_run(g, m))
            if p: c.viol("completion", g.at_line(n), "a task is discounted before it has run", key=f["q"] + "|decearly", path=p, g=g)
            # (5) wake-up of the waiter
            if waitcv is not None:
                c.ob("notifications", g.at_line(n))
                p = c.path(g, g.normal(n), lambda m: m is g.exit or blocks(g, m) or is_run(g, m), avoid=lambda m: notif(g, m, waitcv),
                           edge=lambda a, lab, b: not refutes(g, a, lab, queues, counters))
                if p: c.viol("wake-up", g.at_line(n), "nobody waiting for completion is woken after a task finished", key=f["q"] + "|notify", path=p, g=g)
    # (4), (6)
    wcv = None
    for f, g, L in workers:
        for n in [n for n in g.nodes if n in g.live() and blocks(g, n)]:
            c.ob("blocking waits", g.at_line(n))
            wcv = g.obj(n)
            for m, facts, p in c.path(g, [g.entry], lambda m: m is n, collect=True):
                if not all(is_empty(facts, q) is True for q in queues) or not all(truth(facts, k) is False for k in flagsf):
                    c.viol("wake-up", g.at_line(n), "a worker can block although %s" % ("there is work" if not all(is_empty(facts, q) is True for q in queues) else "the pool is being destroyed"), key=f["q"] + "|block", path=p, g=g); break
        if not any(method_kind(r, f)):
            c.ob("worker exits", f["q"])
            for m, facts, p in c.path(g, [g.entry], lambda m: m is g.exit or release(L, m) and never_again(c, g, m, blocks, is_run), collect=True):
                if not all(truth(facts, k) is True for k in flagsf) or not all(is_empty(facts, q) is True for q in queues):
                    c.viol("worker-exit", g.at_line(m), "a worker can end although %s" % ("tasks may be left in the queue" if not all(is_empty(facts, q) is True for q in queues) else "the pool is still in use"), key=f["q"] + "|end", path=p, g=g); break
    # (5) submit
    for f, g, L in graphs:
        for n in [n for n in g.nodes if n in g.live() and adds(g, n)]:
            c.ob("notifications", g.at_line(n))
            p = c.path(g, g.normal(n), lambda m: m is g.exit, avoid=lambda m: wcv is not None and notif(g, m, wcv))
            if p: c.viol("wake-up", g.at_line(n), "no worker is woken after a task was queued", key=f["q"] + "|notify", path=p, g=g)
    # (7)
    for f, g, L in graphs:
        if f["n"] != "submit": continue
        c.ob("submissions", f["q"])
        act = lambda m: is_run(g, m) or adds(g, m)
        p = c.path(g, [g.entry], lambda m: m is g.exit, avoid=act)
        if p: c.viol("submit", c.db.where(f), "a submitted task can be neither run nor queued", key="lost", path=p, g=g)
        for n in [n for n in g.live() if act(n)]:
            p = c.path(g, g.normal(n), act)
            if p: c.viol("submit", g.at_line(n), "a submitted task can be run or queued twice", key="twice", path=p, g=g)
            for m, facts, p in c.path(g, [g.entry], lambda m: m is n, collect=True):
                e = [is_empty(facts, t) for t in threads]
                if adds(g, n) and True in e or adds(g, n) and e == [None]:
                    c.viol("submit", g.at_line(n), "a task is queued although there may be no thread to run it", key="noworker", path=p, g=g); break
                if is_run(g, n) and all(x is not True for x in e):
                    c.note("submit runs a task itself although there may be threads")
    c.need("submissions")
    # (8)
    for f, g, L in graphs:
        mk = method_kind(r, f)
        if "dtor" in mk:
            begin, dst, what = [g.entry], (lambda m: m is g.exit), "destruction"
        elif "ctor" in mk:
            st = [n for n in g.nodes if n in g.live() and starts(g, n)]
            c.ob("thread starts", ", ".join(g.at_line(n) for n in st), n=len(st))
            begin = [s for n in st for s in g.excs(n)]
            if not begin: continue
            dst, what = (lambda m: m is g.exit or m is g.xexit or m is g.term_node), "failed construction"
            if c.path(g, begin, lambda m: m is g.exit): c.viol("shut-down", g.at_line(st[0]), "a failure to start a thread is swallowed", key="swallow")
        else: continue
        c.ob("shut-downs", f["q"])
        setf = lambda m: m.k == "write" and g.place(m) in flagsf and g.value(m) == ("bool", True)
        p = c.path(g, begin, lambda m: joins(g, m) or dst(m), avoid=setf)
        if p: c.viol("shut-down", c.db.where(f), "%s goes on without telling the threads to stop" % what, key=what + "|flag", path=p, g=g)
        for n in [n for n in g.live() if setf(n)]:
            p = c.path(g, g.normal(n), lambda m: joins(g, m) or dst(m), avoid=lambda m: nm(m) == "notify_all" and (wcv is None or g.obj(m) == wcv))
            if p: c.viol("shut-down", g.at_line(n), "%s does not wake every thread" % what, key=what + "|wake", path=p, g=g)
        def skip(n, lab, lp):
            if n.k == "branch":
                a, pol = g.atom(n)
                if a[0] in ("truthy",) and "joinable" in str(a): return (lab == "T") != pol
            return False
        c.each("shut-downs", g, "every thread is joined (%s)" % what, lambda t: t in threads, lambda n, lp: joins(g, n) and c.elem_of(g.obj(n), lp), start=begin, dst=dst, skip=skip, dstname="the end of " + what)
        for n in [n for n in g.live() if joins(g, n)]:
            if held(L, n): c.viol("shut-down", g.at_line(n), "threads are joined with the mutex held", key=what + "|join-held")
    c.need("shut-downs", 1)
    if not any("dtor" in method_kind(r, f) for f, g, L in graphs):
        if not any("jthread" in f["t"] for f in r["fields"]): c.viol("shut-down", CLS, "the thread pool has no destructor that joins its threads", key="nodtor")

def refutes(g, n, lab, queues, counters):
    """Taking lab at n means no waiter's condition holds now."""
    if n.k != "branch": return False
    a, pol = g.atom(n)
    val = (lab == "T") == pol
    for q in queues:
        if is_empty({a: val}, q) is False: return True
    for k in counters:
        if zero({a: val}, k) is False: return True
    return False
def method_kind(r, f):
    return [m.get("ck") or "" for m in r["methods"] if m["id"] == f["id"]]
def after(g, ns):
    seen = set(); st = list(ns)
    while st:
        n = st.pop()
        for _, m in n.succ:
            if m not in seen: seen.add(m); st.append(m)
    return seen
def acquires(L, n, mutexes):
    b = L.held(L.inn[n]) if n in L.inn else None
    if b is None: return False
    a = L.held(L.transfer(n, L.inn[n]))
    return any(m in mutexes for m, _ in a - b)
def both(c, g, b, n, L, release, inc):
    """A path from lock acquisition b through n to the release without inc."""
    for m, facts, p in c.path(g, g.normal(b), lambda m: m is n, avoid=lambda m: release(L, m) or inc(g, m), collect=True):
        q = c.path(g, [((s), facts) for s in g.normal(n)], lambda m: release(L, m) or m is g.exit, avoid=lambda m: inc(g, m))
        if q: return p + q[1:]
    return None
def never_again(c, g, m, blocks, is_run):
    return c.path(g, g.normal(m), lambda x: blocks(g, x) or is_run(g, x), track=False) is None
