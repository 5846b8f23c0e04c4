"""C18: the file caches never let a writer in beside anybody else, and never delete what is in use."""
from slvsim import *
from absint import AI, NULL, truth
RULE = """
Temporary cache, get_directory_rw / get_directory_ro (calls inlined), explored with abstract values for the two ownership cells (the
weak pointers in which the functions store the token that the returned handle keeps): with a live writer no path of either function
returns; with a live reader no path of get_directory_rw returns; a free directory is granted by some path; on every return the handle holds
the token its cell refers to (the token of the readers already there, if any), so access lasts exactly as long as the handles; the
handle shares ownership of the temporary directory.  Persistent cache: on every return of get_directory_rw (ro) the handle contains a
file lock that is held exclusively (at least shared), for a lock file derived from the same key and in the same way in both; the lock on
the cache's root is held whenever a directory's lock is acquired, and exclusively whenever cleanup() removes anything; everything
cleanup() removes is derived from an entry whose lock file is locked exclusively at that point.
"""
ASSUME = ["file_lock and std::weak_ptr do what they say (C19 decides file_lock)", "the temporary cache is used by one thread at a time, as documented"]
CACHE = "cosim::file_cache"
FL = "cosim::utility::file_lock"
STATE = "cosim::utility::file_lock_initial_state::"
stop = lambda f: f["q"].startswith(FL + "::") or f["q"] == "cosim::percent_encode"

def strip_cr(t): return re.sub(r"^const | ?[&*]$", "", (t or "").replace("(anonymous namespace)::", ""))
def exprs_of(e):
    st = [e]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            if "k" in x: yield x
            st.extend(v for k, v in x.items() if isinstance(v, (dict, list)))
        elif isinstance(x, list): st.extend(x)

def check(c):
    for nm, q in (("rw", CACHE + "::get_directory_rw"), ("ro", CACHE + "::get_directory_ro")):
        c.impls(q)
    kinds = {}
    for f in c.impls(CACHE + "::get_directory_rw") + c.impls(CACHE + "::get_directory_ro"):
        kinds.setdefault(f["cls"], {})["rw" if f["n"].endswith("rw") else "ro"] = f
    for cls, fs in sorted(kinds.items()):
        if set(fs) != {"rw", "ro"}: continue
        g = {k: c.graph(f, track_all=True, stop=stop) for k, f in fs.items()}
        locks = any(is_fl(n) for k in g for n in g[k].live())
        if locks: persistent(c, cls, fs, g)
        else: temporary(c, cls, fs, g)
    c.need("tokens", 2); c.need("lock held", 2); c.need("removals", 1)

# ------------------------------------------------------------------ handles
def handle_calls(c, g, base):
    """(node, expression, class, args) of every creation of a handle object."""
    out = []
    for n in g.live():
        if n.k != "call": continue
        e = n.e
        cls = None
        if e.get("fn") in ("std::make_unique", "std::make_shared"):
            m = re.match(r"std::(?:unique|shared)_ptr<(.*?)(?:, std::default_delete<.*)?>$", e.get("t") or "")
            cls = m and strip_cr(m.group(1))
        elif e["k"] == "ctor": cls = strip_cr(e.get("t"))
        if cls in c.db.R and cls != base and derives(c.db, cls, base): out.append((n, e, cls, [a for a in e.get("a") or [] if a["k"] != "defarg"]))
    # make_unique<X>(...) and a constructor call node for the same thing: prefer those with arguments
    return [x for x in out if x[3]]
def derives(db, cls, base):
    r = db.R.get(cls)
    if cls == base: return True
    return bool(r) and any(derives(db, strip_cr(b if isinstance(b, str) else b.get("t") or b.get("q")), base) for b in r.get("bases") or [])

def kept(c, cls, i, nargs):
    """Type of the member in which the i-th constructor argument ends up, or None."""
    for f in c.db.F.values():
        if f.get("cls") == cls and f["n"] == cls.split("::")[-1] and len(f["p"]) >= nargs and f.get("body") is not None:
            g = c.graph(f); B = Bg(g)
            pn = f["p"][i]["n"]
            for n in g.live():
                if n.k == "write" and g.value(n) is not None and mentions(B(g.value(n)), lambda x: is_param(x, pn)):
                    p = B(g.place(n))
                    if p[0] == "f" and p[1] == ("this",):
                        for x in c.db.R[cls]["fields"]:
                            if x["n"] == p[2]: return x["t"]
            return None
    r = c.db.R.get(cls)
    if r and len(r["fields"]) > i and not any(f.get("cls") == cls and f["n"] == cls.split("::")[-1] and f["p"] for f in c.db.F.values()): return r["fields"][i]["t"]
    return ""

# ---------------------------------------------------------------- temporary
def temporary(c, cls, fs, g):
    sp = re.compile(r"shared_ptr<(.*)>$")
    # cells: places outside the function in which a smart pointer is stored
    cells, typ = {}, {}
    for k in g:
        for n in g[k].live():
            if n.k == "write" and n.d.get("op") == "=":
                t = strip_cr(n.d["place"].get("t"))
                p = g[k].place(n)
                m = re.match(r"std::(weak|shared)_ptr<(.*)>$", t)
                if m and p[0] == "f": cells.setdefault(k, {})[p[2]] = m.group(1); typ[p[2]] = m.group(2)
    base = {"rw": CACHE + "::directory_rw", "ro": CACHE + "::directory_ro"}
    own = {k: [x for x in v if x not in cells.get("ro" if k == "rw" else "rw", {})] for k, v in cells.items()}
    for k in ("rw", "ro"):
        if not cells.get(k):
            hs = handle_calls(c, g[k], base[k])
            toks = [a for _, _, _, args in hs for a in args if sp.search(strip_cr(a.get("t")))]
            writes = [n for n in g[k].live() if n.k == "write" and root_field(g[k].place(n)) is not None]
            if toks and not writes:
                c.ob("tokens", fs[k]["q"])
                c.viol("tokens", c.db.where(fs[k]), "%s does not record that the directory is in use" % fs[k]["q"], key=k + "|unrecorded")
                continue
            c.note("%s: how ownership is recorded is not recognised" % fs[k]["q"])
        elif len(own.get(k) or []) != 1:
            c.note("%s: more than one cell: %s" % (fs[k]["q"], sorted(cells[k])))
    if any(len(own.get(k) or []) != 1 for k in ("rw", "ro")): return
    cell = {k: own[k][0] for k in own}
    W = set(cell.values())
    for k in ("rw", "ro"): scenario(c, fs[k], g[k], k, cell, typ, cells, base)

def scenario(c, f, g, k, cell, typ, cells, base):
    """Values of a cell: ("dead",) | ("tok", id).  Scenarios: who lives."""
    pointee = typ[cell[k]]
    names = set(cell.values())
    def ck(t):
        if t[0] == "f" and t[2] in names: return ("cell", t[2])
        return None
    def count(ai, e, fr, env):
        t = g.T(e["obj"], fr)
        key = ck(t)
        if key is None: return NotImplemented
        v = env.get(key)
        shared = cells[[kk for kk in cell if cell[kk] == key[1]][0]][key[1]] == "shared"
        if v == ("dead",): return 1 if shared else 0
        if v is None: return None
        return env.get(("n", v), 1) + (1 if shared else 0)
    def call(ai, e, fr, env):
        fn = e.get("fn") or ""
        nm = last(fn)
        if e["k"] == "call":
            if nm in ("use_count", "expired", "lock", "owner_before", "unique") and e.get("obj") is not None:
                key = ck(g.T(e["obj"], fr))
                if key is None: return None if nm != "lock" else NotImplemented
                v = env.get(key)
                if nm == "use_count": return count(ai, e, fr, env)
                if nm == "expired": return None if v is None else v == ("dead",)
                if nm == "lock": return NULL if v == ("dead",) else v
                return None
            if fn in ("std::make_shared",) : return ("tok", id(e))
        if e["k"] == "ctor" and len(e.get("a") or []) == 1 and e["a"][0]["k"] == "new": return ("tok", id(e["a"][0]))
        if e["k"] == "new": return ("tok", id(e))
        return NotImplemented
    hs = {n: (e, hc, a) for n, e, hc, a in handle_calls(c, g, base[k])}
    if not hs:
        c.note("%s: no creation of a handle recognised" % f["q"]); return
    def effect(ai, n, env):
        if n in hs:
            e, hc, a = hs[n]
            toks = []
            for i, x in enumerate(a):
                if re.search(r"shared_ptr<%s>" % re.escape(pointee), strip_cr(x.get("t"))):
                    toks.append(ai.ev(x, n.fr, env))
            env = dict(env)
            env[("handle",)] = tuple(toks)
            return env
        return None
    # what the handle keeps
    for n, (e, hc, a) in hs.items():
        dirs = False
        for i, x in enumerate(a):
            t = kept(c, hc, i, len(a))
            if re.search(r"shared_ptr<%s>" % re.escape(pointee), strip_cr(x.get("t"))):
                c.ob("tokens", "%s: kept as %s" % (hc, t))
                if t is None or t and (t.rstrip().endswith(("&", "*")) or "weak_ptr" in t):
                    c.viol("tokens", g.at_line(n), "%s does not keep its ownership token alive" % hc, key=hc + "|token")
            elif re.search(r"shared_ptr<", strip_cr(x.get("t"))): 
                if t and re.match(r"(const )?std::shared_ptr<", t) and not t.endswith("&"): dirs = True
                elif t is None or t: c.viol("tokens", g.at_line(n), "%s does not keep alive what contains the directory" % hc, key=hc + "|root")
    old = {"rw": ("tok", "writer"), "ro": ("tok", "readers")}
    cases = [("free", None, 1), ("writer", "rw", 1), ("reader", "ro", 1), ("two readers", "ro", 2)]
    for what, who, cnt in cases:
        env = {("cell", cell[x]): ("dead",) for x in cell}
        if who: env[("cell", cell[who])] = old[who]; env[("n", old[who])] = cnt
        c.ob("tokens", "%s: %s" % (f["q"], what)); c.queries += 1
        def assume(ai, n, lab, env, who=who):
            a, v = says(g, n, lab)
            if who and a is not None:
                # the directory is known to the cache
                if a[0] == "==" and any(x[0] == "end" for x in a[1:]) and any(x[0] in ("v", "find", "it") for x in a[1:]) and v: return None
                if a[0] == "has" and not v: return None
            return env
        ai = AI(g, ck, call, effect, assume)
        res = ai.run(env, edge=lambda n, l, m: l not in ("exc", "term"))
        if ai.exceeded: c.note("%s: too many states" % f["q"]); continue
        shut = who == "rw" or who == "ro" and k == "rw"
        if shut:
            for n, env2, key in res[:1]:
                c.viol("tokens", c.db.where(f), "%s may grant access while a %s holds the directory" % (f["q"], "writer" if who == "rw" else "reader"), key="%s|%s" % (k, who), path=ai.path(key), g=g)
            continue
        if not res:
            c.viol("tokens", c.db.where(f), "%s never grants access to a directory that %s" % (f["q"], "is free" if not who else "others only read"), key="%s|refused|%s" % (k, who)); continue
        for n, env2, key in res:
            h = env2.get(("handle",))
            cv = env2.get(("cell", cell[k]))
            if h is None: c.note("%s: a return without a recognised handle" % f["q"]); continue
            if not h:
                c.viol("tokens", c.db.where(f), "%s: the handle holds no ownership token" % f["q"], key=k + "|notoken", path=ai.path(key), g=g); continue
            if any(x is None for x in h) or cv is None: c.note("%s: value of the ownership token not known" % f["q"]); continue
            if cv == ("dead",):
                c.viol("tokens", c.db.where(f), "%s may grant access without recording it" % f["q"], key=k + "|unrecorded", path=ai.path(key), g=g)
            elif who and cv != old[who]:
                c.viol("tokens", c.db.where(f), "%s forgets the %s that already hold the directory" % (f["q"], "readers"), key=k + "|forgets", path=ai.path(key), g=g)
            elif cv not in h:
                c.viol("tokens", c.db.where(f), "%s: the handle does not hold the token that is recorded" % f["q"], key=k + "|other", path=ai.path(key), g=g)

# --------------------------------------------------------------- persistent
def is_fl(n): return n.k == "decl" and n.d["var"] is not None and strip_cr(n.d["var"].t) == FL

def initial(g, n):
    """Initial state given to a file lock where it is declared: 'x', 's', '' or None."""
    init = n.d.get("init")
    if init is None: return ""
    for x in exprs_of(init):
        if x["k"] == "ctor" and strip_cr(x.get("t")) == FL or x["k"] == "init":
            a = [y for y in x.get("a") or []]
            if len(a) < 2: 
                if len(a) == 1 and strip_cr(a[0].get("t")) == FL: continue
                return ""
            t = g.T(a[1], n.fr)
            e = enum_of(t, STATE)
            return {"locked": "x", "locked_shared": "s", "not_locked": ""}.get(e)
    t = g.T(init, n.fr)
    return None

def var_in(e, fr, g, depth=0):
    """Variables of type file_lock that an expression refers to."""
    out = []
    for x in exprs_of(e):
        if x["k"] == "ref" and x.get("dk") in ("local", "param"):
            v = fr.lookup(x["d"])
            if v is None: continue
            if strip_cr(v.t) == FL:
                if v.node is not None and v.node.k == "decl" and not v.ref: out.append(v)
                else:
                    for d in v.defs:
                        if d[1] in ("init", "param") and d[2] is not None and d[3] is not None and depth < 6: out += var_in(d[2], d[3], g, depth + 1)
    return out

class Held:
    """Acquisitions and releases of one file_lock variable."""
    def __init__(self, g, var):
        self.g, self.var = g, var
        self.acq, self.rel, self.decl, self.unknown = {}, set(), None, False
        for n in g.live():
            if n.k == "decl" and n.d["var"] is var:
                self.decl = n
                s = initial(g, n)
                if s is None: self.unknown = True
                elif s: self.acq[n] = s
            elif n.k == "call":
                e = n.e
                nm = last(e.get("fn"))
                if e.get("obj") is not None and var in var_in(e["obj"], n.fr, g):
                    if nm in ("lock", "lock_shared"): self.acq[n] = "x" if nm == "lock" else "s"
                    elif nm in ("try_lock", "try_lock_shared"): pass
                    elif nm in ("unlock", "unlock_shared"): self.rel.add(n)
                elif nm not in ("move", "forward", "make_unique", "make_shared") and not (e["k"] == "ctor") and any(var in var_in(a, n.fr, g) for a in e.get("a") or []):
                    if not (e.get("id") and e["id"] in g.db.F and g.db.F[e["id"]].get("body") is not None): self.unknown = True
                elif e["k"] == "ctor" and any(var in var_in(a, n.fr, g) for a in e.get("a") or []) and re.search(r"(unique|shared|scoped)_lock|lock_guard", e.get("t") or ""): self.unknown = True
            elif n.k == "write" and n.d.get("val") is not None:
                p = g.place(n)
                if p == var.term: self.unknown = True
    def got(self, n, lab):
        """Mode acquired on an edge."""
        if lab in ("exc", "term"): return None
        if n in self.acq: return self.acq[n]
        if n.k == "branch" and lab in ("T", "F"):
            a, pol = self.g.atom(n)
            v = (lab == "T") == pol
            t = a[1] if a[0] == "truthy" else a
            if v and t[0] == "call" and last(str(t[1])) in ("try_lock", "try_lock_shared") and len(t) > 2 and (t[2] == self.var.term):
                return "x" if last(str(t[1])) == "try_lock" else "s"
        return None
    def lacking(self, c, goal, modes):
        """A path to goal on which the lock is not held in one of the modes."""
        g = self.g
        starts = [g.entry] + [(r, l) for r in self.rel for l in set(x for x, _ in r.succ)]
        return c.path(g, starts, goal, edge=lambda n, l, m: self.got(n, l) not in modes, track=True)

def roots_of(g, t, seen=None):
    """What a path is made from: parameters, fields, literals, loop entries - through locals and their modifications."""
    if seen is None: seen = set()
    out = set()
    if not isinstance(t, tuple) or not t: return out
    if t[0] == "str": return {t}
    if t[0] == "p": return {("p", t[2])}
    if t[0] == "f" and pimpl_this(t): return {("f", t[2])}
    if t[0] == "v":
        if t in seen: return out
        seen.add(t)
        v = g.var_of(t)
        hit = False
        if v is not None:
            for d in v.defs:
                if d[1] in ("init", "param") and d[2] is not None and d[3] is not None:
                    hit = True
                    out |= roots_of(g, g.T(d[2], d[3]), seen)
            for n in g.live():
                if n.k == "write" and g.value(n) is not None and g.place(n) == t: out |= roots_of(g, g.value(n), seen)
                if n.k == "call" and n.e.get("obj") is not None and last(n.e.get("fn")) in ("replace_extension", "append", "concat", "replace_filename", "operator/=", "operator+=") and g.obj(n) == t:
                    for a in g.args(n): out |= roots_of(g, a, seen)
        if v is not None and ("directory_iterator" in (v.t or "") or "directory_entry" in (v.t or "")): out = {("entry", strip_ids(t))}
        return out or {t}
    if t[0] in ("elem", "elemof", "each"): return {("entry", strip_ids(t))}
    for x in t[1:]:
        if isinstance(x, tuple):
            if x and isinstance(x[0], str): out |= roots_of(g, x, seen)
            else:
                for y in x:
                    if isinstance(y, tuple): out |= roots_of(g, y[1] if len(y) == 2 and isinstance(y[0], str) and isinstance(y[1], tuple) else y, seen)
    return out

def lockpath(g, var):
    for d in var.defs:
        if d[1] == "init" and d[2] is not None:
            for x in exprs_of(d[2]):
                if x["k"] in ("ctor", "init") and x.get("a") and strip_cr(x.get("t")) == FL and strip_cr(x["a"][0].get("t")) != FL:
                    return g.T(x["a"][0], d[3])
    return None

REMOVE = re.compile(r"^std::filesystem::(__cxx11::)?(remove|remove_all)$|^boost::filesystem::(remove|remove_all)$")

def persistent(c, cls, fs, g):
    base = {"rw": CACHE + "::directory_rw", "ro": CACHE + "::directory_ro"}
    made = {}
    rootpath = {}
    for k in ("rw", "ro"):
        gg, f = g[k], fs[k]
        key = f["p"][0]["n"]
        vars_ = sorted({n.d["var"] for n in gg.live() if is_fl(n) and not n.d["var"].ref}, key=lambda v: v.term)
        info = {}
        for v in vars_:
            p = lockpath(gg, v)
            r = roots_of(gg, p) if p is not None else None
            info[v] = (Held(gg, v), r)
        isdir = lambda v: info[v][1] is not None and ("p", key) in info[v][1]
        hs = handle_calls(c, gg, base[k])
        if not hs: c.note("%s: no creation of a handle recognised" % f["q"]); continue
        for n, e, hc, a in hs:
            c.ob("lock held", "%s: %s" % (f["q"], gg.at_line(n)))
            mine = []
            for i, x in enumerate(a):
                if strip_cr(x.get("t")) == FL:
                    mine += [(v, i) for v in var_in(x, n.fr, gg)]
                    t = kept(c, hc, i, len(a))
                    if t is None: c.viol("lock held", gg.at_line(n), "%s does not keep the lock" % hc, key=hc + "|lock")
            if not mine:
                if any(strip_cr(x.get("t")) == FL for x in a) or any("lock" in (x.get("t") or "") for x in a): c.note("%s: which lock the handle holds is not recognised" % f["q"]); continue
                c.viol("lock held", gg.at_line(n), "%s: the handle holds no lock" % f["q"], key=k + "|nolock"); continue
            for v, i in mine:
                if v not in info: c.note("%s: unknown lock %s" % (f["q"], v.n)); continue
                h, r = info[v]
                if h.unknown: c.note("%s: state of %s not known" % (f["q"], v.n)); continue
                p = h.lacking(c, lambda m: m is n, ("x",) if k == "rw" else ("x", "s"))
                if p: c.viol("lock held", gg.at_line(n), "%s: the handle's lock %s may not be held%s" % (f["q"], v.n, " exclusively" if k == "rw" else ""), key=k + "|unlocked", path=p, g=gg)
                if r is not None and ("p", key) not in r and not any(x[0] == "v" for x in r):
                    c.viol("lock held", gg.at_line(n), "%s: the lock file does not depend on the key" % f["q"], key=k + "|key")
                made[k] = r
            d = [x for x in a if strip_cr(x.get("t")) != FL]
            for x in d:
                r = roots_of(gg, gg.T(x, n.fr))
                if ("p", key) not in r and not any(y[0] == "v" for y in r): c.viol("lock held", gg.at_line(n), "%s: the directory does not depend on the key" % f["q"], key=k + "|dir")
                made[k + "dir"] = r
        # the root lock comes first and is held while a directory's lock is acquired
        roots = [v for v in info if info[v][1] is not None and ("p", key) not in info[v][1] and not any(x[0] == "v" for x in info[v][1])]
        for v in info:
            if not isdir(v): continue
            h = info[v][0]
            for an in list(h.acq) or [h.decl]:
                c.ob("root lock", "%s: %s" % (f["q"], gg.at_line(an)))
                if not roots: c.viol("root lock", gg.at_line(an), "%s acquires the lock of a directory without holding that of the cache: cleanup() may be deleting the lock file" % f["q"], key=k + "|noroot"); continue
                rs = [info[x][0] for x in roots]
                if any(x.unknown for x in rs): c.note("%s: state of the root lock not known" % f["q"]); continue
                ps = [x.lacking(c, lambda m: m is an, ("x", "s")) for x in rs]
                if all(ps): c.viol("root lock", gg.at_line(an), "%s may acquire the lock of a directory without holding that of the cache: cleanup() may be deleting the lock file" % f["q"], key=k + "|noroot", path=ps[0], g=gg)
        if roots: rootpath[k] = info[roots[0]][1]
    if made.get("rw") is not None and made.get("ro") is not None:
        c.ob("lock held", "same lock file for readers and writers")
        if made["rw"] != made["ro"]: c.viol("lock held", c.db.where(fs["rw"]), "%s: readers and writers use different lock files: %s / %s" % (cls, names(made["rw"]), names(made["ro"])), key="lockfile")
        if made.get("rwdir") != made.get("rodir") and made.get("rwdir") and made.get("rodir"): c.viol("lock held", c.db.where(fs["rw"]), "%s: readers and writers use different directories: %s / %s" % (cls, names(made["rwdir"]), names(made["rodir"])), key="directory")
    # everything that removes
    for f in c.db.F.values():
        if f.get("body") is None or f.get("lambda") or f.get("dependent"): continue
        if f.get("cls") != cls or f.get("acc") != 0: continue
        gg = c.graph(f, track_all=True, stop=stop)
        rem = [n for n in gg.live() if n.k == "call" and REMOVE.match(n.e.get("fn") or "")]
        if not rem: continue
        if f["n"].startswith("~"): c.note("%s removes files" % f["q"]); 
        vars_ = {n.d["var"] for n in gg.live() if is_fl(n) and not n.d["var"].ref}
        info = {v: (Held(gg, v), roots_of(gg, lockpath(gg, v)) if lockpath(gg, v) is not None else None) for v in vars_}
        isroot = lambda r: r is not None and not any(x[0] in ("entry", "v", "p") for x in r)
        for n in rem:
            c.ob("removals", "%s: %s" % (gg.at_line(n), show_term(Bg(gg)(gg.args(n)[0]))))
            r = roots_of(gg, gg.args(n)[0])
            what = {x for x in r if x[0] in ("entry", "v", "p")}
            cand = [v for v in info if info[v][1] is not None and info[v][1] & what]
            if any(info[v][1] is None or info[v][0].unknown for v in info): c.note("%s: locks of unrecognised shape" % f["q"]); continue
            if not cand: c.viol("removals", gg.at_line(n), "%s: deletes what belongs to a directory without looking at that directory's lock" % f["q"], key="unlocked|nolock")
            else:
                ps = [info[v][0].lacking(c, lambda m: m is n, ("x",)) for v in cand]
                if all(ps): c.viol("removals", gg.at_line(n), "%s: may delete what is in use: the directory's lock may not be held exclusively" % f["q"], key="unlocked", path=ps[0], g=gg)
                lits = set()
                for v in [v for v, p in zip(cand, ps) if not p]: lits |= {x for x in info[v][1] if x[0] == "str"} or tested(gg, n, v)
                want = {x for x in (made.get("rw") or ()) if x[0] == "str"}
                if want and lits and not want <= lits: c.viol("removals", gg.at_line(n), "%s: locks a different file than those who use a directory do: %s / %s" % (f["q"], names(lits), names(want)), key="lockname")
            rs = [v for v in info if isroot(info[v][1])]
            ps = [info[v][0].lacking(c, lambda m: m is n, ("x",)) for v in rs]
            if not rs or all(ps): c.viol("removals", gg.at_line(n), "%s: deletes without exclusive access to the cache: a lock file may be deleted that somebody is about to lock" % f["q"], key="root", path=ps[0] if ps else None, g=gg)
            for v in rs:
                for k in rootpath:
                    if rootpath[k] != info[v][1]: c.viol("removals", gg.at_line(n), "%s: uses a different lock file for the cache than get_directory_%s: %s / %s" % (f["q"], k, names(info[v][1]), names(rootpath[k])), key="rootname|" + k)

def tested(g, n, v):
    """Extensions that conditions on the way compare with."""
    out = set()
    for m in g.live():
        if m.k == "branch":
            a, pol = g.atom(m)
            if a[0] == "==" and any(x[0] == "str" for x in a[1:]): out |= {x for x in a[1:] if x[0] == "str"}
    return out
def names(s): return ", ".join(sorted(show_term(x) if x[0] != "f" and x[0] != "p" else str(x[-1]) for x in s))
