"""C22: URIs are built from valid components, and the accessors return them."""
from urisim import *
RULE = """
Partial evaluation of the two constructors and of the accessors of cosim::uri over representative components: every
combination of present and absent components (of distinct lengths, so that a wrong offset or size cannot go unnoticed), every
kind of character in every component at the first, a middle and the last place, and the structural shapes of paths.
The component constructor throws exactly if a component holds a character that would end it, the scheme is not one, or the path
would be read differently next to the other components; otherwise its result is the RFC 3986 composition of the components, and each accessor
returns the component given.  The parsing constructor yields the components RFC 3986 appendix B prescribes, or throws if the scheme is not one.
No view is taken of a string that is later reallocated, and nothing is read outside of the text.
"""
ASSUME = ["the C locale", "short-string buffers hold 15 characters", "objects that have been moved from are not read"]
NAMES = ("scheme", "authority", "path", "query", "fragment")
SV = "basic_string_view"

def compose(s, a, p, q, f):
    return ("" if s is None else s + ":") + ("" if a is None else "//" + a) + p + ("" if q is None else "?" + q) + ("" if f is None else "#" + f)
def split(u):
    m = re.match(r"^(([^:/?#]+):)?(//([^/?#]*))?([^?#]*)(\?([^#]*))?(#(.*))?$", u, re.S)
    s = m.group(2)
    if s is not None and not re.match(r"^[A-Za-z0-9+.-]+\Z", s): 
        # a colon in the first segment of a relative reference
        rest = u
        m2 = re.match(r"^()()(//([^/?#]*))?([^?#]*)(\?([^#]*))?(#(.*))?$", rest, re.S)
        return None, m2.group(4), m2.group(5), m2.group(7), m2.group(9)
    return s, m.group(4), m.group(5), m.group(7), m.group(9)
def valid(s, a, p, q, f):
    if s is not None and not re.match(r"^[A-Za-z][A-Za-z0-9+.-]*\Z", s): return False
    if a is not None and re.search(r"[/?#]", a): return False
    if re.search(r"[?#]", p) or q is not None and "#" in q: return False
    if a is not None and p and p[0] != "/": return False
    if a is None and p.startswith("//"): return False
    if s is None and a is None and ":" in p.split("/")[0]: return False
    return True

def shapes():
    """Component tuples, each with what is special about it."""
    W = ("sch+em.e-1", "user@auth:12", "/p/a:t;h", "que?r=/y:", "frag?m/e:n#t%")
    for m in range(32):
        c = [W[i] if m >> i & 1 else None for i in range(5)]
        c[2] = c[2] or ""
        yield "components %s" % (", ".join(NAMES[i] for i in range(5) if m >> i & 1) or "none"), tuple(c)
    for m in range(16):
        c = ["" if m >> i & 1 else None for i in range(4)]
        yield "empty components", (W[0], c[0], "/", c[1], c[2])
    for p in ("", "/", "a", "a/b", "a:b", ":", "/a:b", "./a:b", "a/b:c", "//", "//a", "//a/b:c", "/a//b", "a//b"):
        for s in (None, "s"):
            for a in (None, "", "h"): yield "path %r%s%s" % (p, " after a scheme" if s else "", " after an authority" if a is not None else ""), (s, a, p, None, None)
    for i, nm in enumerate(NAMES):
        for ch in [chr(x) for x in range(32, 48)] + list("09:;<=>?@AZ[]^_`az{|}~") + ["\x01", "\x7f", "\xff"]:
            for k, w in enumerate((ch + "bcd", "ab" + ch + "d", "abc" + ch)):
                if k != 1 and ch not in "/:?#+1-.0aA%" or i != 0 and ch in "09AZaz": continue
                c = ["sc", "au", "/p", "q", "f"]
                c[i] = ("/" if nm == "path" else "") + w
                if nm == "path" and k == 0: c[i] = "/" + w
                yield "%s with %s at the %s" % (nm, repr(ch), ("start", "middle", "end")[k]), tuple(c)
    yield "empty scheme", ("", None, "p", None, None)

def build(c):
    fs = [f for f in c.db.F.values() if f.get("cls") == "cosim::uri" and f.get("body") is not None and f["n"] == "uri"]
    comp = [f for f in fs if len(f["p"]) == 5]
    parse = [f for f in fs if len(f["p"]) == 1 and strtype(f["p"][0]["t"])]
    acc = {f["n"]: f for f in c.db.F.values() if f.get("cls") == "cosim::uri" and f.get("body") is not None and f["n"] in NAMES + ("view", "empty") and not f["p"]}
    return comp, parse, acc

class Uri:
    """Evaluates constructors and accessors of uri."""
    def __init__(self, c):
        self.c = c
        self.recs = {q: r for q, r in c.db.R.items() if q.startswith("cosim::detail::") or q.startswith("cosim::(")}
        self.comp, self.parse, self.acc = build(c)
        self.gs = {}
    def graph(self, f):
        if f["id"] not in self.gs:
            g = self.c.graph(f, track_all=True)
            def cell(t):
                return ("c", t[2]) if t[0] == "f" and t[1] == ("this",) else None
            self.gs[f["id"]] = (g, cell, URIAI(g, cell, records=self.recs))
        return self.gs[f["id"]]
    def run(self, f, vals, cells=None):
        """[(kind, env)] with kind in ret, throw, bad, term; None when not decided."""
        g, cell, ai = self.graph(f)
        ai.exceeded, ai.mixed = False, None
        env = dict(cells or {})
        for p, v in zip(f["p"], vals):
            x = g.rootfr.lookup(p["d"])
            env[x.term] = v
        out = []
        edge = lambda n, l, m: not (l == "exc" and n.k in ("call", "write", "decl"))
        res = ai.run(env, watch=lambda n: n is g.xexit or n is g.term_node, edge=edge, stop=lambda n, e: "bad" in e)
        if ai.mixed and res: return ("bad", {"bad": (None, ai.mixed)}, res[0][2]), ai
        if not ai.forked and (ai.exceeded or not res): return ("bad", {"bad": (None, "does not come to an end")}, next(iter(ai.seen))), ai
        for n, e, key in res:
            if e.get(("unk",)): return None, None
            out.append(("ret" if n is g.exit else "throw" if n is g.xexit else "term", e, key))
        for (n, fe), prev in list(ai.seen.items()):
            e = dict(fe)
            if "bad" in e:
                if e.get(("unk",)): return None, None
                out = [("bad", e, (n, fe))]; break
        if ai.exceeded or len({o[0] for o in out}) != 1: return None, None
        return out[0], ai
    def cells(self, env): return {k: v for k, v in env.items() if isinstance(k, tuple) and (k[0] == "c" or k[0] in ("gen", "cap") and isinstance(k[1], tuple) and k[1][0] == "c")}
    def read(self, nm, env):
        """Value of an accessor: (decided, value, problem)."""
        f = self.acc.get(nm)
        if f is None: return False, None, None
        r, ai = self.run(f, [], self.cells(env))
        if r is None: return False, None, None
        if r[0] == "bad": return True, None, r[1]["bad"][1]
        if r[0] != "ret": return True, None, "throws"
        g = self.graph(f)[0]
        v = r[1].get(("RET", g.rootfr.id))
        if v is None or v == UNK: return False, None, None
        if v == NULL: return True, None, None
        if isinstance(v, bool): return True, v, None
        if v[0] == "view":
            s, p = ai.view(v, r[1])
            return (s is not None or p is not None), s, p
        return s_of(v) is not None, s_of(v), None

def check(c):
    U = Uri(c)
    if not U.comp or not U.parse or len(U.acc) < 5: c.need("constructors and accessors", 7); return
    for f in U.comp:
        und = 0
        for what, comp in shapes():
            c.queries += 1
            ok = valid(*comp)
            r, ai = U.run(f, [NULL if x is None else ("str", x) for x in comp])
            if r is None: und += 1; continue
            c.ob("component constructor", "%s: %s" % (f["q"], what) if not re.match(r".*with '", what) else "%s: characters of %s" % (f["q"], what.split()[0]))
            judge(c, U, f, what, comp, ok, r, ai)
        if und: c.note("%s: %d representatives not decided" % (f["q"], und))
    for f in U.parse:
        und = 0
        for u in texts():
            c.queries += 1
            want = split(u)
            ok = want[0] is None or re.match(r"^[A-Za-z]", want[0]) is not None
            if u.startswith(":"): ok = False
            r, ai = U.run(f, [("str", u)])
            if r is None: und += 1; continue
            c.ob("parsing constructor", "%s: %r" % (f["q"], u))
            judge(c, U, f, "text %r" % u, want, ok, r, ai)
        if und: c.note("%s: %d representatives not decided" % (f["q"], und))
    c.need("component constructor", 20); c.need("parsing constructor", 20)

def texts():
    seen = set()
    for _, comp in shapes():
        if not valid(*comp): continue
        u = compose(*comp)
        if len(u) <= 12 and not u.isalpha() or not any(ord(x) > 126 or ord(x) < 32 for x in u) and len(u) > 16:
            if u not in seen: seen.add(u); yield u
    for u in ("", ":", "::", ":a", "1a:b", "+a:b", "-:", "a", "a:", "a:b:c", "a/b:c", "a_b:c", "?", "#", "??", "##", "?#", "#?", "//", "///", "/", "//?", "//#", "//a:b", "//a?b:c", "a?b#c?d#e", "a#b?c", "?a:b", "#a:b", "/a:b", "s://", "s:///", "s:?", "s:#", "s://h?q", "s://h#f", "s://h/p//q?r//s#t//u"):
        if u not in seen: seen.add(u); yield u

def judge(c, U, f, what, comp, ok, r, ai):
    kind, env, key = r
    site = c.db.where(f)
    g = U.graph(f)[0]
    cls = re.sub(r" with .* at the ", " with a character at the ", what)
    def say(where, msg, k): c.viol("components of a URI", where, "%s (%s): %s" % (f["q"], what, msg), key="%s|%d|%s" % (f["n"], len(f["p"]), k), path=ai.path(key), g=g)
    if kind == "bad": say(g.at_line(env["bad"][0]) if env["bad"][0] is not None else site, env["bad"][1], env["bad"][1]); return
    if kind == "term": say(site, "fails an assertion", "assertion"); return
    if kind == "throw":
        if ok: say(site, "refuses valid components", "refused")
        return
    if not ok:
        say(site, "accepts what is not valid for its position", "accepted: " + cls); return
    dec, v, p = U.read("view", env)
    if p: say(site, "view() afterwards %s" % p, "view"); return
    if dec and v != compose(*comp): say(site, "gives %r instead of %r" % (v, compose(*comp)), "text"); return
    for i, nm in enumerate(NAMES):
        dec, v, p = U.read(nm, env)
        if p: say(c.db.where(U.acc[nm]), "%s() afterwards %s" % (nm, p), nm); return
        if dec and v != comp[i]:
            say(c.db.where(U.acc[nm]), "%s() gives %s instead of %s" % (nm, "nothing" if v is None else repr(v), "nothing" if comp[i] is None else repr(comp[i])), nm); return
    dec, v, p = U.read("empty", env)
    if dec and v is not (compose(*comp) == ""): say(c.db.where(U.acc["empty"]), "empty() gives %s" % v, "empty")
