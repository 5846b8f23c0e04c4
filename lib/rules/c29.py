"""C29: FMU instances obey the FMI lifecycle and release everything they acquired."""
from fmisim import *
from c28 import slaves, ctor_args
RULE = """
The classes that hold objects of FMI Library are driven through call histories by propagating structured values: construction with each acquisition
succeeding or failing, and, for slave instances, every sequence of setup, start, step and end in which each FMI call succeeds or fails, followed by
destruction; the FMI calls on each path are recorded. (release) What was acquired is released exactly once, in the reverse order, when
construction fails and when the object is destroyed; what was not acquired is not released. (terminate) An instance is terminated only if it was started,
at most once, and before it is freed. (order) setup, initialization and start happen in FMI's order.
"""
ASSUME = ["the stub of FMI Library's header has the signatures of the real one", "allocation failures of the standard library are not considered",
          "the library's own description of an FMU has only enumerators that FMI Library defines (others end the process)"]
ACQ = dict(RES, get_variable_list="variable list")
FREE = dict(REL, free_variable_list="variable list")
ART = {"description": "the model description", "library": "the FMU's library", "instance": "the FMU instance", "run": "the run", "variable list": "the variable list"}
SEQ = {"setup_experiment": (("instance",), ()), "enter_initialization_mode": (("instance",), ("run",)), "exit_initialization_mode": (("instance",), ("run",)),
       "initialize_slave": (("instance",), ("run",)), "do_step": (("run",), ())}

def ok(s, status): return status in (None, "ok", "warning", "success") or isinstance(status, int)

def judge(trace, done):
    """What a sequence of FMI calls does wrong: (message, line), or None. done: everything has to be released at the end."""
    held = []
    gone = set()
    for s, a, st, l in trace:
        if s in SEQ:
            need, no = SEQ[s]
            for x in need:
                if x not in held: return "%s is called when %s" % (s, "the simulation is not running" if x == "run" else "there is no instance"), l
            for x in no:
                if x in held: return "%s is called when the simulation is already running" % s, l
        if s in ACQ:
            x = ACQ[s]
            if s in ("parse_xml", "get_variable_list") and st == NULL: continue
            if not ok(s, st): continue
            if x in held: return "%s is acquired again with %s" % (ART[x], s), l
            held.append(x)
        elif s in FREE:
            x = FREE[s]
            if x == "run" and x not in held: return ("it is terminated %s" % ("again" if x in gone else "although it was not started")), l
            if x not in held: return "%s is released with %s %s" % (ART[x], s, "again" if x in gone else "although it was not acquired"), l
            i = held.index(x)
            later = [y for y in held[i + 1:]]
            if later: return "%s is released with %s before %s%s" % (ART[x], s, "the instance was terminated" if later[-1] == "run" else ART[later[-1]], "" if later[-1] == "run" else " was released"), l
            held.remove(x); gone.add(x)
    if done and held: return "%s %s never released" % (" and ".join(ART[x] for x in reversed(held)), "are" if len(held) > 1 else "is"), None
    return None

def check(c):
    db = c.db
    F = Fmi(c, db)
    seen = set()
    def report(rule, what, f, r, done=True):
        """Judge a path; True if it is all right."""
        m = judge(r.trace, done)
        if m is None: return True
        c.viol(rule, "%s:%d" % (db.rel(f), m[1]) if m[1] else loc(c, f, r.node), "%s: %s" % (what, m[0]), key="%s:%s:%s" % (rule, what, m[0]), path=F.path(r), g=F.graph(f))
        return False
    def fails(f, this, args, base, trace):
        """Scripts in which one of the calls of a run fails."""
        out = []
        for r in base:
            for s, a, st, l in r.trace[len(trace):]:
                if s == "parse_xml": k = [NULL]
                elif st == "ok" and s not in FREE: k = ["error"] + (["discard"] if s == "do_step" else [])
                elif st == "ok" and FREE[s] == "run": k = ["error"]
                else: continue
                for x in k:
                    if {s: x} not in out: out.append({s: x})
        return out
    def say(sc): return "when " + ", ".join("%s %s" % (s, "gives nothing" if v == NULL else "fails" if v != "discard" else "is discarded") for s, v in sc.items())
    # construction of every class that acquires something
    for q, fs in sorted(classes(db).items()):
        nm = q.replace("cosim::", "")
        sn = q.split("::")[-1]
        for ct in [f for f in fs if f["q"].split("::")[-1] == sn]:
            if not any(s in ACQ for s, t in calls_fmi(db, ct)): continue
            dt = next((f for f in fs if f["q"].split("::")[-1] == "~" + sn), None)
            args = ctor_args(ct)
            for count in (0, 1):
                sz = {"get_variable_list_size": count}
                base = F.run(ct, ("rec", q, ()), args, sz)
                for sc in [{}] + fails(ct, ("rec", q, ()), args, base, ()):
                    rs = F.run(ct, ("rec", q, ()), args, dict(sc, **sz)) if sc else base
                    c.queries += 1
                    what = "construction of %s%s" % (nm, " " + say(sc) if sc else "")
                    c.ob("construction", what)
                    if not any(r.kind in ("return", "throw") for r in rs): c.note("%s: %s is not decided" % (db.where(ct), what)); continue
                    for r in rs:
                        if r.kind == "throw":
                            if not report("release", what, ct, r): break
                        elif r.kind == "return":
                            if sc and all(not ok(s, v) for s, v in sc.items()): continue      # C28
                            held = judge(r.trace, False)
                            if held: report("release", what, ct, r, False); break
                            if dt is None: continue
                            ds = F.run(dt, r.this, (), None, trace=r.trace)
                            c.ob("destruction", "%s after construction" % nm)
                            for x in ds:
                                if x.kind == "return" and not report("release", "destruction of %s after construction" % nm, dt, x): break
    # histories of slave instances
    for q, d, ct in slaves(db):
        nm = q.replace("cosim::", "")
        dt = next((f for f in classes(db)[q] if "~" in f["q"]), None)
        if dt is None: c.note("%s: no destructor" % nm); continue
        start = [r for r in F.run(ct, ("rec", q, ()), ctor_args(ct)) if r.kind == "return" and isinstance(r.this, tuple)]
        if not start: c.note("%s: construction is not decided" % nm); continue
        work = [("constructed", start[0], ("setup",))]
        visited = set()
        bad = False
        while work and not bad:
            label, r0, nxt = work.pop()
            key = (r0.this, tuple((t[0], t[2]) for t in r0.trace), nxt)
            if key in visited: continue
            visited.add(key)
            c.ob("histories", "%s: %s" % (nm, label))
            for x in F.run(dt, r0.this, (), None, trace=r0.trace):
                if x.kind in ("return", "throw") and not report("release", "%s destroyed after: %s" % (nm, label), dt, x): bad = True; break
            for m in nxt:
                if m not in d: continue
                base = F.run(d[m], r0.this, [None] * len(d[m]["p"]), trace=r0.trace)
                for sc in [{}] + fails(d[m], r0.this, None, base, r0.trace):
                    rs = base if not sc else F.run(d[m], r0.this, [None] * len(d[m]["p"]), sc, trace=r0.trace)
                    c.queries += 1
                    for r in rs:
                        if r.kind not in ("return", "throw") or not isinstance(r.this, tuple): continue
                        l2 = "%s, %s%s" % (label, m, "" if not sc else " " + say(sc))
                        if not report("order", "%s: %s" % (nm, l2), d[m], r, False): bad = True; break
                        after = {"setup": ("start_simulation",), "start_simulation": ("do_step", "end_simulation"), "do_step": ("do_step", "end_simulation") if label.count("do_step") < 2 else ("end_simulation",), "end_simulation": ()}[m]
                        if r.kind == "throw": after = ("end_simulation",) if m == "do_step" else ()
                        work.append((l2, r, after))
                    if bad: break
    c.need("construction", 8); c.need("destruction", 4); c.need("histories", 20)
