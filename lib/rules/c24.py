"""C24: temporary directories are removed exactly once, by their last owner."""
from strval import *
RULE = """
Abstract interpretation of the special members of temp_dir (calls inlined) with known paths: objects that own a directory, own none, and,
for moves, every combination of the two.  On every way out each existing directory is referred to by exactly one object, a
moved-from object refers to none, move assignment has first removed what it owned, the destructor has removed what it owned
and nothing else, recursively, and nothing is removed twice.  The constructor creates the directory it refers to, under a name taken from a
random UUID, below the place its parameter asks for, and leaves nothing behind when it throws.  Objects cannot be copied.
"""
ASSUME = ["libstdc++: a moved-from path or string is empty", "no self-assignment"]
TD = "cosim::utility::temp_dir"
CREATE = re.compile(r"^std::filesystem::create_director(y|ies)$")
TMP, UUID = "/T", "%UUID%"

def check(c):
    fs = [f for f in c.db.F.values() if f.get("cls") == TD and f.get("body") is not None]
    r = c.db.R.get(TD)
    if r is None or not fs: c.need("special members", 4); return
    cells = [x["n"] for x in r["fields"] if re.search(r"filesystem::path|basic_string<char", x["t"])]
    if len(cells) != 1: c.note("how %s stores its path is not recognised" % TD); return
    P = cells[0]
    if re.match(r"^(std::filesystem::path|std::basic_string<char)", next(x["t"] for x in r["fields"] if x["n"] == P)):
        for m in r["methods"]:
            if m.get("ck") in ("copy", "copyassign"):
                c.ob("not copied", m["q"])
                f = c.db.F.get(m["id"])
                if not m.get("del") and (f is None or f.get("body") is None or copies(c, f, P)):
                    c.viol("not copied", "%s:%s" % (c.db.rel(r), r["l"]), "a copy of a %s refers to the same directory" % TD, key=m["ck"])
            if m.get("ck") == "moveassign" and not m.get("del"):
                f = c.db.F.get(m["id"])
                if m.get("dflt"):
                    c.viol("special members", "%s:%s" % (c.db.rel(r), r["l"]), "assigning to a %s leaves the directory it owned in place" % TD, key="moveassign|default")
            if m.get("ck") == "dtor" and m.get("dflt"):
                c.viol("special members", "%s:%s" % (c.db.rel(r), r["l"]), "the destructor of %s removes nothing" % TD, key="dtor|default")
        if not any(m.get("ck") in ("move", "moveassign", "copy", "copyassign") for m in r["methods"]):
            c.viol("not copied", "%s:%s" % (c.db.rel(r), r["l"]), "a copy of a %s refers to the same directory" % TD, key="implicit")
        if not any(m.get("ck") == "dtor" for m in r["methods"]):
            c.viol("special members", "%s:%s" % (c.db.rel(r), r["l"]), "%s has no destructor" % TD, key="dtor|none")
    for f in sorted(fs, key=lambda f: f["q"]):
        if f["n"] in ("temp_dir", "operator=", "~temp_dir", "path"): member(c, f, P)
    c.need("special members", 6)

def copies(c, f, P):
    g = c.graph(f, track_all=True)
    return any(n.k == "write" and g.place(n) == ("f", ("this",), P) and g.value(n) is not None and mentions(g.value(n), lambda x: x[0] == "f" and x[2] == P and x[1] != ("this",)) for n in g.live())

def moved(e):
    """The operand of std::move, or of the conversion to an rvalue."""
    while isinstance(e, dict) and (e["k"] in ("icast", "cast", "defarg") or e["k"] in ("ctor", "init") and len(e.get("a") or []) == 1):
        e = e["e"] if e["k"] in ("icast", "cast", "defarg") else e["a"][0]
    if isinstance(e, dict) and e["k"] == "call" and e.get("fn") in ("std::move", "std::forward") and e.get("a"):
        return e["a"][0]
    return None

def member(c, f, P):
    other = bool(f["p"]) and TD in f["p"][0]["t"]
    g = c.graph(f, track_all=True)
    ot = g.rootfr.lookup(f["p"][0]["d"]) if other else None
    def cell(t):
        if t[0] == "f" and t[2] == P:
            if t[1] == ("this",): return ("c", "this")
            if ot is not None and (t[1][:2] == ("p", 0) or t[1] == ot.term): return ("c", "other")
            return ("c", t[1])
        return None
    if f["n"] == "temp_dir" and not other:
        runs = [("parent " + k, {"arg": v}) for k, v in (("empty", ""), ("absolute", "/A/b"), ("relative", "r/s"))]
    elif f["n"] == "temp_dir": runs = [("from an owner", {("c", "other"): ("path", "/T/oth")}), ("from an object that owns nothing", {("c", "other"): ("path", "")})]
    elif f["n"] == "operator=": runs = [("%s = %s" % (a or "nothing", b or "nothing"), {("c", "this"): ("path", a), ("c", "other"): ("path", b)}) for a in ("/T/own", "") for b in ("/T/oth", "")]
    else: runs = [("an owner", {("c", "this"): ("path", "/T/own")}), ("an object that owns nothing", {("c", "this"): ("path", "")})]
    for what, st in runs:
        c.queries += 1
        c.ob("special members", "%s (%s)" % (f["q"], what))
        arg = st.get("arg")
        env0 = {k: v for k, v in st.items() if k != "arg"}
        env0["live"] = frozenset(v[1] for v in env0.values() if isinstance(v, tuple) and v[1])
        if arg is not None:
            for p in f["p"]:
                v = g.rootfr.lookup(p["d"])
                if v is not None: env0[v.term] = ("path", arg)
        def extra(ai, e, fr, env):
            fn = e.get("fn") or ""
            if fn == "std::filesystem::temp_directory_path": return ("path", TMP)
            if fn == "boost::uuids::to_string":
                return ("str", UUID if mentions(g.deep(g.T(e["a"][0], fr)), lambda x: any("random_generator" in str(y) for y in x[1:2])) else "%SAME%")
            if fn in ("std::filesystem::exists", "std::filesystem::is_directory", "std::filesystem::remove_all", "std::filesystem::remove", "std::filesystem::equivalent") or CREATE.match(fn): return None
            return NotImplemented
        def eff(ai, n, env):
            if n.k == "write" and n.d.get("op") in ("=", "init") and n.d.get("val") is not None:
                m = moved(n.d["val"])
                if m is not None:
                    k = ai.raw(m, n.fr) if m["k"] == "mem" else ai.key(g.T(m, n.fr))
                    w = ai.raw(n.d["place"], n.fr) if n.d["place"].get("k") == "mem" else None
                    if k is not None and k in env and k != w: env = dict(env); env[k] = ("path", ""); return env
                return None
            if n.k == "decl" and n.d.get("init") is not None and not n.d["var"].ref:
                m = moved(n.d["init"])
                if m is not None:
                    k = ai.raw(m, n.fr) if m["k"] == "mem" else ai.key(g.T(m, n.fr))
                    if k is not None and k in env and k != n.d["var"].term: env = dict(env); env[k] = ("path", ""); return env
                return None
            if n.k != "call": return None
            fn, A = n.e.get("fn") or "", n.e.get("a") or []
            if CREATE.match(fn) and A:
                v = s_of(ai.ev(A[0], n.fr, env))
                env = dict(env)
                if v is None: env[("unk",)] = True
                else: env["live"] = env["live"] | {v}
                return env
            if fn in ("std::filesystem::remove_all", "boost::filesystem::remove_all") and A:
                v = s_of(ai.ev(A[0], n.fr, env))
                env = dict(env)
                if v is None: env[("unk",)] = True
                elif v in env["live"]: env["live"] = env["live"] - {v}
                elif v: env["bad"] = (n, "removes %s" % ("a directory that has been removed already" if v in ("/T/own", "/T/oth") else "a directory it does not own"))
                return env
            if last(fn) in ("swap", "exchange") and fn not in ("std::swap", "std::exchange") or fn == "std::filesystem::rename": env = dict(env); env[("unk",)] = True; return env
            return None
        ai = SAI(g, cell, extra, eff)
        res = ai.run(env0, watch=lambda n: n is g.xexit, edge=lambda n, l, m: l != "term", stop=lambda n, env: "bad" in env)
        if ai.exceeded: c.note("%s: too many states" % f["q"]); continue
        def say(where, key, msg): c.viol("special members", where, "%s (%s): %s" % (f["q"], what, msg), key="%s|%s|%s" % (f["n"], "move" if other else "", msg), path=ai.path(key), g=g)
        hit = False
        for (n, fe) in list(ai.seen):
            env = dict(fe)
            if "bad" in env and not env.get(("unk",)): say(g.at_line(env["bad"][0]), (n, fe), env["bad"][1]); hit = True; break
        if hit: continue
        for n, env, key in res:
            if env.get(("unk",)): c.note("%s (%s): not decided" % (f["q"], what)); continue
            x = n is g.xexit
            gone = f["n"] == "~temp_dir" or x and f["n"] == "temp_dir"
            this = None if gone else s_of(env.get(("c", "this")))
            oth = s_of(env.get(("c", "other"))) if other else None
            if not gone and this is None or other and oth is None: c.note("%s (%s): resulting path not known" % (f["q"], what)); continue
            held = [p for p in (this, oth) if p]
            w = c.db.where(f)
            left = [p for p in env["live"] if p not in held]
            if left: say(w, key, "the directory %s stays behind" % ("that was owned before" if "/T/own" in left else "just created" if not other and f["n"] == "temp_dir" else "taken over")); break
            if any(p not in env["live"] for p in held): say(w, key, "%s refers to a directory that does not exist" % ("the object" if this and this not in env["live"] else "the moved-from object")); break
            if len(held) != len(set(held)): say(w, key, "two objects refer to the same directory"); break
            if other and not x and oth: say(w, key, "the moved-from object still refers to a directory"); break
            if other and not x and this != s_of(st[("c", "other")]): say(w, key, "the directory is not taken over"); break
            if arg is not None and not x:
                if not this: say(w, key, "creates no directory"); break
                if UUID not in filename(this):
                    say(w, key, "the name of the directory is not unique"); break
                want = TMP if not arg else arg if arg[0] == "/" else join(TMP, arg)
                if parent(this) != want: say(w, key, "the directory is created in %s instead of %s" % (parent(this), want)); break
            if f["n"] == "path" and not x:
                v = env.get(("RET", g.rootfr.id))
                if v is not None and v != env[("c", "this")]: say(w, key, "does not return the path of the directory"); break
