"""Scripted runs of the classes that drive an FMU through FMI Library."""
from conc import *
from c36 import Runner, loc
from c30 import LAI, fns_of, bare_t, text_of, last_of
HANDLE = ("ptr", ("xml",), ())
FMI = re.compile(r"^(fmi[12]?)_import_(\w+)$")
STATUS = re.compile(r"^(fmi[12])_status_t$|^jm_status_enu_t$")
# resources: what acquires and what releases them
RES = {"parse_xml": "description", "create_dllfmu": "library", "instantiate": "instance", "instantiate_slave": "instance",
       "exit_initialization_mode": "run", "initialize_slave": "run"}
REL = {"free": "description", "destroy_dllfmu": "library", "free_instance": "instance", "free_slave_instance": "instance",
       "terminate": "run", "terminate_slave": "run"}
ORDER = ("description", "library", "instance", "run")
RELNAME = {"description": "its description is freed", "library": "its library is unloaded", "instance": "the instance is freed", "run": "it is terminated"}

def short(fn):
    m = FMI.match(fn or "")
    return m.group(2) if m else None
def status_fn(db, e):
    """Type of status that a call of FMI Library returns."""
    t = bare_t(e.get("t"))
    return t if short(e.get("fn")) and STATUS.match(t) else None
def status_value(t, k):
    if t == "jm_status_enu_t": return ("enum", "jm_status_" + {"ok": "success"}.get(k, k))
    return ("enum", t[:4] + "_status_" + k)
def kinds(t): return ("success", "warning", "error") if t == "jm_status_enu_t" else ("ok", "warning", "discard", "error", "fatal", "pending")

class FAI(LAI):
    """Values and effects of FMI Library's functions as the script says; the calls are recorded in ("TRACE",)."""
    script = {}; out = None
    def callval(self, e, fr, env, depth):
        s = short(e.get("fn"))
        if s is None:
            if (e.get("fn") or "").endswith("::data") and e.get("obj") is not None and VEC.search(strip_t(e["obj"].get("t"))):
                p = self.target(e["obj"], fr, env, depth) if e.get("arrow") else self.lv(e["obj"], fr, env, depth + 1)
                return ("it", p[0], p[1], 0, "i") if p is not None else None
            if (e.get("fn") or "").endswith(("::c_str", "::data")) and e.get("obj") is not None:
                v = self.ev(e["obj"], fr, env, depth + 1)
                if isinstance(v, tuple) and v[:1] == ("str",): return v
            return LAI.callval(self, e, fr, env, depth)
        t = status_fn(self.db, e)
        if t: return status_value(t, self.script.get(s, "ok"))
        if s in self.script: return self.script[s]
        if s == "parse_xml": return HANDLE
        if s.endswith("_list_size"): return 0
        return None
    def effects(self, n, env):
        e = n.e
        s = short(e.get("fn")) if e["k"] == "call" else None
        if s is None: return LAI.effects(self, n, env)
        env = dict(env)
        args = []
        for a in e.get("a") or []:
            v = self.ev(a, n.fr, env)
            if isinstance(v, tuple) and v[:1] == ("it",):
                try: x = self.get((v[1], v[2]), env)
                except OutOfRange: x = None
                v = ("at", v[3], x)
            args.append(v)
        env[("TRACE",)] = env.get(("TRACE",), ()) + ((s, tuple(args), self.script.get(s, "ok") if status_fn(self.db, e) else self.script.get(s), n.l),)
        if s.startswith("get_") and self.out is not None and len(e["a"]) == 4:
            v = self.ev(e["a"][3], n.fr, env)
            if isinstance(v, tuple) and v[:1] == ("it",): env = self.set((v[1], v[2]), ("vec", self.out), env)
        return env

class Run:
    def __init__(self, kind, env, node, ai, key, f, ret):
        self.kind, self.env, self.node, self.ai, self.key, self.f, self.ret = kind, env, node, ai, key, f, ret
        self.this = env.get(("this",))
        self.trace = env.get(("TRACE",), ())

class Fmi:
    def __init__(self, c, db):
        self.c, self.db = c, db
        self.ran = 0
        self.graphs = {}
        self.odd = set()
    def graph(self, f):
        if id(f) not in self.graphs: self.graphs[id(f)] = self.c.graph(f, track_all=True, stop=lambda f: False)
        return self.graphs[id(f)]
    def run(self, f, this, args=(), script=None, out=None, trace=()):
        g = self.graph(f)
        env = {("this",): this, ("TRACE",): trace}
        for p, a in zip(f["p"], args):
            v = g.frames[0].vars.get(p["d"])
            if a is not None and v is not None: env[v.term] = a
        ai = FAI(g, call=Runner.call)
        ai.script, ai.out = script or {}, out
        self.ran += 1
        res = []
        try: outs = ai.outcomes(env)
        except RecursionError: return []
        if ai.exceeded: self.c.note("%s: too many states" % self.db.where(f)); return []
        for kind, n, e, key in outs:
            r = e.get(("RET", g.frames[0].id)) if kind == "return" else None
            if kind == "end":
                callee = next((self.db.F.get((m.e or {}).get("id")) for m in reversed(ai.path(key)) if m.k == "call" and m.e is not None), None)
                kind = "throw" if callee is not None and callee.get("body") is not None and "panic" not in callee["q"] and _throws(callee["body"]) else "end"
            where = next((m for m in reversed(ai.path(key)) if m.k in ("throw", "ret", "call", "write") and m.fr is not None), n)
            res.append(Run(kind, e, where, ai, key, f, r))
        if ai.oob: self.c.note("%s: %s" % (self.db.where(f), "access outside a container in a scripted run"))
        return res
    def path(self, r): return r.ai.path(r.key)

def _throws(b):
    if isinstance(b, dict): return b.get("k") == "throw" or any(_throws(x) for x in b.values())
    if isinstance(b, list): return any(_throws(x) for x in b)
    return False

def classes(db):
    """Classes with constructors from which FMI Library's description is parsed: name -> member functions with a body."""
    out = {}
    for f in fns_of(db):
        if f.get("cls") and re.search(r"\bfmi\b", f["cls"]) : out.setdefault(f["cls"], []).append(f)
    return out
def calls_fmi(db, f, seen=None):
    """FMI Library functions a function calls, directly or through others of the library."""
    seen = set() if seen is None else seen
    if f["id"] in seen: return set()
    seen.add(f["id"])
    r = set()
    def go(x):
        if isinstance(x, dict):
            if x.get("k") == "call":
                s = short(x.get("fn"))
                if s: r.add((s, status_fn(db, x)))
                h = db.F.get(x.get("id"))
                if h is not None and h.get("body") is not None: r.update(calls_fmi(db, h, seen))
            for y in x.values(): go(y)
        elif isinstance(x, list):
            for y in x: go(y)
    go(f.get("body")); go(f.get("inits"))
    return r
