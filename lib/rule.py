"""Shared vocabulary of the rules: obligations, reports, loop coverage,
lock sets, access sets."""
import os, re, json, time
from facts import AnalysisError
import ir
from ir import Graph, show_term, strip_ids, mentions, sub_terms, subst

class Ctx:
    def __init__(self, db, pid, tier="quick"):
        self.db, self.pid, self.tier = db, pid, tier
        self.counts = {}
        self.samples = {}
        self.viols = []
        self.functions = set()
        self.graphs = 0
        self.nodes = 0
        self.queries = 0
        self.assumptions = []
        self.notes = []
        self._g = {}

    # ---- graphs
    def graph(self, fn, **kw):
        key = (fn["id"], tuple(sorted((k, id(v) if callable(v) else repr(v)) for k, v in kw.items())))
        g = self._g.get(key)
        if g is None:
            g = self._g[key] = Graph(self.db, fn, **kw)
            self.graphs += 1
            self.nodes += len(g.live())
            for f in g.frames: self.functions.add(f.fn["id"])
        return g

    # ---- obligations
    def ob(self, rule, what=None, n=1):
        self.counts[rule] = self.counts.get(rule, 0) + n
        if what is not None:
            self.samples.setdefault(rule, [])
            if len(self.samples[rule]) < 40: self.samples[rule].append(what)
    def need(self, rule, n=1):
        if self.viols: return
        if self.counts.get(rule, 0) < n:
            raise AnalysisError("rule '%s' matched %d instances, at least %d expected" % (rule, self.counts.get(rule, 0), n))
    def viol(self, rule, where, msg, key=None, path=None, g=None):
        if path is not None and g is not None and path and not isinstance(path[0], str): path = g.show(path)
        key = "%s|%s" % (rule, key if key is not None else re.sub(r":\d+", "", where) + "|" + msg)
        for v in self.viols:
            if v["key"] == key: return
        self.viols.append({"rule": rule, "where": where, "msg": msg, "key": key, "path": path or []})
    def note(self, s):
        if s not in self.notes: self.notes.append(s)
    def assume(self, s):
        if s not in self.assumptions: self.assumptions.append(s)

    # ---- anchors
    def impls(self, q, n=None, must=True):
        """Bodies of the functions that implement the (virtual) function q."""
        out = []
        for f in self.db.F.values():
            if f.get("body") is None or f.get("dependent") or f.get("lambda"): continue
            if n is not None and len(f["p"]) != n: continue
            if f["q"] == q: out.append(f); continue
            if f.get("ov"):
                if any(self.db._mq.get(x) == q for x in self.db.roots(f["id"])): out.append(f)
        out.sort(key=lambda f: (f["f"], f["l"]))
        if not out and must: raise AnalysisError("anchor vanished: nothing implements %s" % q)
        return out
    def fns(self, q, n=None, must=True):
        return sorted(self.db.fn(q, n, must), key=lambda f: (f["f"], f["l"], f["id"]))
    def one(self, q, n=None, pred=None):
        return self.db.one(q, n, pred)

    # ---- queries
    def path(self, g, starts, goal, **kw):
        self.queries += 1
        return g.explore(starts, goal, **kw)

    def loop_starts(self, lp): return list(lp.tstart)

    def covers(self, rule, g, what, loops, event, start=None, dst=None, skip=None, must_run=True, dstname="returning", fn=None, extra_ok=None, facts=None):
        """Every iteration of every loop in `loops` performs `event`, the loop
        is not left early, and (must_run) is passed on every path from start
        to dst.  event(node, loop) -> bool."""
        fq = (fn or g.entry_fn)["q"]
        ok = True
        heads = set(lp.head for lp in loops)
        for lp in loops:
            self.ob(rule, "%s: %s" % (g.at_line(lp.head), what))
            if lp.partial:
                self.viol(rule, g.at_line(lp.head), "%s: the loop does not cover every element: %s" % (what, lp.partial), key=fq + "|" + what + "|partial"); ok = False
                continue
            st = self.loop_starts(lp)
            edge = (lambda n, lab, m: not skip(n, lab, lp)) if skip else None
            p = self.path(g, st, lambda n: n is lp.head, avoid=lambda n: event(n, lp), edge=edge, facts=facts)
            if p is not None:
                self.viol(rule, g.at_line(lp.head), "%s: an iteration can go by without it" % what, key=fq + "|" + what + "|skipped", path=p, g=g); ok = False
            p = self.path(g, st, lambda n: n is lp.exit, avoid=lambda n: n is lp.head, facts=facts)
            if p is not None and not (extra_ok and extra_ok(p)) and lp.algo not in Graph.EARLY:
                self.viol(rule, g.at_line(lp.head), "%s: the loop can end before the last element" % what, key=fq + "|" + what + "|break", path=p, g=g); ok = False
        if must_run:
            d = dst or (lambda n: n is g.exit)
            p = self.path(g, start or [g.entry], d, avoid=lambda n: n in heads, facts=facts)
            if p is not None:
                self.viol(rule, "%s (%s)" % (self.db.where(fn or g.entry_fn), fq), "%s: can be left out before %s" % (what, dstname), key=fq + "|" + what + "|unreached", path=p, g=g); ok = False
        return ok

    def each(self, rule, g, what, cont, event, start=None, dst=None, skip=None, must_run=True, dstname="returning", fn=None, key=None, facts=None, extra_ok=None):
        """`event(node, elem)` happens for each element of the containers
        accepted by cont."""
        fq = (fn or g.entry_fn)["q"]
        evn = lambda lp: (lambda n: event(n, lp))
        loops = [lp for lp in g.loops_over(cont) if lp.head in g.live() and any(event(n, lp) for n in self.body_live(g, lp))]
        if not loops:
            anyl = [n for n in g.nodes if n in g.live() and event(n, None)]
            self.ob(rule, "%s: %s" % (fq, what))
            if anyl:
                # the event happens, but not in a loop we recognise
                if any(self.in_unknown_loop(g, n) for n in anyl):
                    self.note("%s: %s in a loop of unrecognised shape (%s)" % (fq, what, g.at_line(anyl[0])))
                    return None
            self.viol(rule, "%s (%s)" % (self.db.where(fn or g.entry_fn), fq), "%s: not done for every element" % what, key=fq + "|" + what + "|missing")
            return False
        return self.covers(rule, g, what, loops, event, start, dst, skip, must_run, dstname, fn, facts=facts, extra_ok=extra_ok)
    def body_live(self, g, lp):
        return [n for n in g.body(lp) if n in g.live()]
    def in_unknown_loop(self, g, n):
        for lp in g.loops:
            if n in g.body(lp) and g.container(lp) is None: return True
        return False

    # ---- elements
    @staticmethod
    def elem_of(t, lp):
        """Does term t refer to the current element of loop lp?"""
        if lp is None: return True
        h = lp.head.id
        idx = lp.index is not None
        return mentions(t, lambda x: x[0] == "elem" and len(x) > 2 and x[2] == h or x == ("idx", h) or x == ("elemof", h))

def bare(t):
    """Term without pointer dereferences and loop identities."""
    return strip_ids(_ns(t))
def _ns(t):
    if not isinstance(t, tuple): return t
    if len(t) == 2 and t[0] == "*": return _ns(t[1])
    return tuple(_ns(x) for x in t)

def root_field(t):
    """Innermost ('f', base, name) rooted in `this`-like base, or None."""
    last = None
    while isinstance(t, tuple):
        if t[0] == "f":
            last = t
            t = t[1]
            continue
        if t[0] in ("at", "elem", "back", "find", "begin", "end", "*", "size", "get", "alt") and len(t) > 1:
            t = t[1]; continue
        break
    return last

def base_of(t):
    while isinstance(t, tuple) and t[0] in ("f", "at", "elem", "back", "find", "begin", "end", "*", "get", "alt") and len(t) > 1: t = t[1]
    return t

def pimpl_this(t):
    """this, or a chain of fields from it that only passes pointers."""
    while isinstance(t, tuple) and (t[0] == "f" or t[0] == "*"): t = t[1]
    return t == ("this",)

def flags(a):
    """Atoms about locals only (flags, counters, collected messages)."""
    return not any(p[0] in ("f", "elem", "at", "g", "p") for p in _places(a))
def _places(t, out=None):
    if out is None: out = []
    if isinstance(t, tuple) and t:
        if t[0] in ("v", "f", "ret", "p", "elem", "at", "back", "acc", "g", "alt"): out.append(t)
        for x in t[1:]:
            if isinstance(x, tuple): _places(x, out)
    return out

# ------------------------------------------------------------------ locks
MUTEX = re.compile(r"^(const )?(std::(mutex|recursive_mutex|shared_mutex|timed_mutex|shared_timed_mutex)|boost::(mutex|shared_mutex|interprocess::(interprocess_mutex|file_lock)))$")

class Locks:
    """Must-hold lock sets: at(n) = frozenset of (mutex term, 'x'|'s')."""
    def __init__(self, g):
        self.g = g
        self.double = []          # nodes that lock what is already held
        self.order = set()        # (held, acquired, node)
        live = g.live()
        inn = {g.entry: {}}
        work = [g.entry]
        outc = {}
        cnt = 0
        while work:
            n = work.pop()
            st = inn[n]
            o = self.transfer(n, st)
            for lab, m in n.succ:
                oo = self.transfer_exc(n, st) if lab == "exc" and n.k in ("call", "decl") else o
                if n.k == "branch": oo = self.branch(n, lab, oo)
                if m in inn:
                    j = {k: v for k, v in inn[m].items() if oo.get(k) == v}
                    if j != inn[m]:
                        inn[m] = j
                        work.append(m)
                else:
                    inn[m] = dict(oo)
                    work.append(m)
            cnt += 1
            if cnt > 2000000: raise AnalysisError("lock analysis does not converge")
        self.inn = inn
        for n in g.nodes:
            if n in inn: self.record(n)
    def key(self, t): return bare_locks(t)
    def mode(self, t):
        return "s" if "shared_lock" in t or "sharable" in t else "x"
    def transfer_exc(self, n, st): return st
    def branch(self, n, lab, st):
        # if (lock.owns_lock()) / if (m.try_lock())
        a, pol = self.g.atom(n)
        val = (lab == "T") == pol
        t = a[1] if a[0] == "truthy" else a
        if t[0] == "call" and str(t[1]).split("::")[-1] in ("owns_lock", "try_lock", "try_lock_shared"): t = t[2]
        k = self.key(t)
        if k in st and st[k][1] == "try":
            st = dict(st)
            if val: st[k] = (st[k][0], "held", st[k][2])
            else: st[k] = (st[k][0], "free", st[k][2])
        elif a[0] == "truthy" and a[1][0] == "call" and str(a[1][1]).split("::")[-1] in ("try_lock", "try_lock_shared") and val:
            st = dict(st)
            mode = "s" if "shared" in str(a[1][1]) else "x"
            st[("direct", k)] = ((k,), "held", mode)
        return st
    def transfer(self, n, st):
        g = self.g
        if n.k == "decl":
            v = n.d["var"]
            if ir.is_lock_type(v.rec or ""):
                st = dict(st)
                st[self.key(v.term)] = self.lock_value(n.d.get("init"), n.fr, v.t, st)
                return st
        elif n.k == "write":
            v = g.place(n)
            k = self.key(v)
            val = n.d.get("val")
            if val is not None and k in st:
                st = dict(st)
                st[k] = self.lock_value(val, n.fr, val.get("t") or "", st)
                return st
        elif n.k == "dtor":
            v = n.d["var"]
            k = self.key(v.term)
            if k in st and not (len(st[k]) > 3 and st[k][3] == "ret"):
                st = dict(st)
                del st[k]
                return st
        elif n.k == "ret":
            if n.e is not None:
                t = g.T(n.e, n.fr)
                k = self.key(t)
                if k in st:
                    st = dict(st)
                    st[k] = st[k][:3] + ("ret",)
                    return st
        elif n.k == "call" and n.e.get("obj") is not None:
            nm = (n.e.get("fn") or "").split("::")[-1]
            o = g.obj(n)
            k = self.key(o)
            if k in st:
                st = dict(st)
                ms, h, mode = st[k][:3]
                if nm in ("lock", "lock_shared"): st[k] = (ms, "held", mode)
                elif nm in ("unlock", "unlock_shared", "release"): st[k] = (ms, "free", mode)
                elif nm in ("try_lock",): st[k] = (ms, "try", mode)
                return st
            if self.is_mutex(n.e["obj"]):
                st = dict(st)
                if nm in ("lock", "lock_shared", "lock_sharable"): st[("direct", k)] = ((k,), "held", "s" if "shar" in nm else "x")
                elif nm in ("unlock", "unlock_shared", "unlock_sharable"): st.pop(("direct", k), None)
                return st
        return st
    def is_mutex(self, e):
        return bool(MUTEX.match(ir.strip_type(e.get("t") or "")))
    def lock_value(self, init, fr, t, st):
        g = self.g
        mode = self.mode(t)
        if init is None: return ((), "free", mode)
        e = init
        while e["k"] in ("icast", "cast"): e = e["e"]
        tm = g.T(e, fr)
        k = self.key(tm)
        if k in st and st[k][1] in ("held", "try", "free"):
            r = st[k][:3]
            return r
        args = None
        if tm[0] == "new": args = [x for _, x in tm[2]]
        elif e["k"] == "ctor": args = [g.T(a, fr) for a in e["a"]]
        if args is None:
            args = [tm]
        ms, how = [], "held"
        for a in args:
            s = show_term(a)
            if "defer_lock" in s: how = "free"
            elif "try_to_lock" in s: how = "try"
            elif "adopt_lock" in s: how = "held"
            else: ms.append(self.key(a))
        if not ms: how = "free"
        return (tuple(ms), how, mode)
    def held(self, st):
        out = set()
        for k, v in st.items():
            if v[1] == "held":
                for m in v[0]: out.add((m, v[2]))
        return frozenset(out)
    def at(self, n):
        return self.held(self.inn.get(n, {}))
    def record(self, n):
        before = self.held(self.inn[n])
        after = self.held(self.transfer(n, self.inn[n]))
        for m in after - before:
            for h in before:
                if h[0] == m[0]: self.double.append((n, m))
                self.order.add((h[0], m[0], n))
        if n.k in ("decl", "call", "write"):
            # locking the same mutex twice
            if n.k == "decl" and ir.is_lock_type(n.d["var"].rec or ""):
                v = self.transfer(n, self.inn[n]).get(self.key(n.d["var"].term))
                if v and v[1] == "held":
                    for m in v[0]:
                        if any(h[0] == m for h in before) and not self.moved(n): self.double.append((n, (m, v[2])))
            if n.k == "call" and n.e.get("obj") is not None and (n.e.get("fn") or "").split("::")[-1] == "lock":
                k = self.key(self.g.obj(n))
                s = self.inn[n].get(k) or self.inn[n].get(("direct", k))
                if s and s[1] == "held": self.double.append((n, (s[0][0] if s[0] else None, s[2])))
    def moved(self, n):
        init = n.d.get("init")
        if init is None: return False
        k = self.key(self.g.T(init, n.fr))
        return k in self.inn[n]

def bare_locks(t):
    return _ns(t)

# ----------------------------------------------------------------- accesses
def accesses(g, nodes=None):
    """Yield (node, place term, 'r'|'w', expr) for every evaluated mention of
    a field / variable in live nodes."""
    live = g.live()
    for n in (nodes if nodes is not None else g.nodes):
        if n not in live: continue
        for p in writes_of(g, n): yield n, p, "w"
        for p in reads_of(g, n): yield n, p, "r"

def writes_of(g, n):
    if n.k == "write":
        p, e = g.place(n), n.d.get("place")
        if p[0] != "v" and isinstance(e, dict) and e.get("k") == "ref" and e.get("dk") in ("local", "param") and n.fr is not None:
            v = n.fr.lookup(e["d"])
            if v is not None and not v.ref: return []          # an iterator moves on; what it denotes is not changed
        return [p]
    if n.k == "call": return list(g.muts(n))
    return []

def reads_of(g, n):
    c = n._c.get("reads")
    if c is not None: return c
    out = []
    def walk(e):
        if not isinstance(e, dict): return
        k = e.get("k")
        if k == "lambda": return
        if k in ("ref", "mem"):
            if not local_value(e, n.fr): out.append(g.T(e, n.fr))
            if k == "mem": walk(e["b"])
            return
        for f in ("e", "a", "b", "c", "obj", "calleeE"):
            v = e.get(f)
            if isinstance(v, list):
                for x in v: walk(x)
            elif isinstance(v, dict): walk(v)
    if n.k in ("call", "branch", "spawn", "throw", "switch", "altbranch"):
        if n.e is not None: walk(n.e if n.k != "loop" else None)
    elif n.k == "write":
        if n.d.get("val") is not None: walk(n.d["val"])
        e = n.d["place"]
        if n.d["op"] not in ("=", "init"): walk(e)
        else:
            # indices and bases of the assigned place are read
            x = e
            while isinstance(x, dict) and x.get("k") in ("mem", "sub", "call", "icast", "cast", "un"):
                if x["k"] == "mem": x = x["b"]; walk(x) if isinstance(x, dict) and x.get("k") in ("mem",) else None
                elif x["k"] == "sub": walk(x.get("b")); x = x.get("a")
                elif x["k"] == "call":
                    for a in x.get("a") or []: walk(a)
                    x = x.get("obj")
                else: x = x.get("e")
    elif n.k == "decl":
        if n.d.get("init") is not None: walk(n.d["init"])
    elif n.k == "ret":
        if n.e is not None: walk(n.e)
    elif n.k == "loop":
        lp = n.d["loop"]
        if lp.cont_expr: walk(lp.cont_expr[0])
    n._c["reads"] = out
    return out

VALUE_T = re.compile(r"^(const )?(std::(__cxx11::|__1::)?(map|unordered_map|vector|set|unordered_set|deque|list|basic_string|string|array|optional|pair|tuple|multimap)\b|[a-z_:]*optional<)")
def into_local(e, fr, depth=0):
    """Does e designate an element of a container (or optional, ...) that is a local object?"""
    if depth > 12 or not isinstance(e, dict): return False
    k = e["k"]
    if k == "mem": return into_local(e["b"], fr, depth + 1)
    if k in ("cast", "icast", "un"): return into_local(e["e"], fr, depth + 1)
    if k == "call":
        if e.get("obj") is not None: return into_local(e["obj"], fr, depth + 1)
        if e.get("op") in ("->", "*", "[]", "++", "--") and e.get("a"): return into_local(e["a"][0], fr, depth + 1)
        return False
    if k == "ctor" and len(e.get("a") or []) == 1: return into_local(e["a"][0], fr, depth + 1)
    if k == "ref":
        v = fr.lookup(e.get("d"))
        if v is None or v.ref: return False
        if VALUE_T.match(v.t or "") and not v.ptrlike(): return v.t.rstrip()[-1:] not in "&*"
        ds = [d for d in v.defs if d[1] == "init"]
        if len(ds) == 1 and "iterator" in (v.t or ""): return into_local(ds[0][2], ds[0][3], depth + 1)
    return False
def local_value(e, fr):
    """Does e designate (part of) a local object, as opposed to what a
    reference or pointer designates?"""
    if isinstance(e, dict) and e["k"] in ("mem", "ref") and into_local(e, fr): return True
    while isinstance(e, dict) and (e["k"] in ("mem",) and not e.get("arrow")): e = e["b"]
    if not isinstance(e, dict) or e["k"] != "ref": return False
    v = fr.lookup(e.get("d"))
    return v is not None and not v.ref and not v.ptrlike()

def call_atoms(t):
    """Names of the calls inside a term."""
    return set(x[1] for x in sub_terms(t) if isinstance(x, tuple) and x and x[0] == "call")

def fields_by_type(db, cls, rx):
    r = db.R.get(cls)
    if not r: return []
    return [f for f in r["fields"] if re.search(rx, f["t"])]

def entry_points(db, cls):
    """Methods of cls that are called from outside: public ones, and those
    that no method of the class calls directly (thread functions, ...)."""
    ms = [f for f in db.F.values() if f.get("cls") == cls and f.get("body") is not None and not f.get("lambda") and not f.get("dependent")]
    called = set()
    for f in db.F.values():
        if f.get("body") is None: continue
        for x in exprs(f["body"]):
            if x.get("id") and x["k"] in ("call", "ctor"): called.add(x["id"])
    out = [f for f in ms if f.get("acc") == 0 or f["id"] not in called]
    out.sort(key=lambda f: (f["f"], f["l"]))
    return out
def exprs(s):
    """All syntax nodes below s."""
    st = [s]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            if "k" in x: yield x
            st.extend(v for v in x.values() if isinstance(v, (dict, list)))
        elif isinstance(x, list): st.extend(v for v in x if isinstance(v, (dict, list)))

def zero(f, p):
    """What is known about number p: True = zero, False = not zero."""
    for a, v in f.items():
        if a[0] == "==" and p in a[1:] and ("int", "0") in a[1:]: return v
        if a[0] in ("truthy", "pos") and a[1] == p: return not v
        if a[0] == "<" and a[1] == ("int", "0") and a[2] == p: return not v
        if a[0] == "<" and a[1] == p and a[2] == ("int", "1"): return v
    return None
def is_empty(f, q):
    for a, v in f.items():
        if a == ("empty", q): return v
    return zero(f, ("size", q))
def truth(f, p):
    for a, v in f.items():
        if a in (("truthy", p), p): return v
        if a[0] == "==" and p in a[1:] and ("bool", True) in a[1:]: return v
        if a[0] == "==" and p in a[1:] and ("bool", False) in a[1:]: return not v
    return None
