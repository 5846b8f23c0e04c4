"""C23: URI processing stays inside its input and follows RFC 3986."""
from urisim import *
from c22 import compose, valid, NAMES
RULE = """
Partial evaluation of percent_decode and resolve_reference (helpers inlined) over representative texts, with a bounds check at every
character access, front/back, remove_prefix, substr, erase of a text and with detection of views of strings that have been changed.
percent_decode: escapes at every distance from the start and the end of the text, with every kind of digit and non-digit in both
places; a complete escape gives its octet, any other '%' is refused, everything else is copied.  resolve_reference: every
combination of present and absent components of base and reference, and paths with dot segments and empty segments; the result has the components
RFC 3986 section 5.2.2 prescribes (unless these cannot be composed); a base without scheme is refused.
"""
ASSUME = ["the C locale", "std::string and std::string_view members behave as the standard says"]

def remove_dots(p):
    out, inp = "", p
    while inp:
        if inp.startswith("../"): inp = inp[3:]
        elif inp.startswith("./"): inp = inp[2:]
        elif inp.startswith("/./"): inp = inp[2:]
        elif inp == "/.": inp = "/"
        elif inp.startswith("/../") or inp == "/..":
            inp = inp[3:] if inp != "/.." else "/"
            out = out[:out.rfind("/")] if "/" in out else ""
        elif inp in (".", ".."): inp = ""
        else:
            i = inp.find("/", 1)
            if i < 0: i = len(inp)
            out += inp[:i]; inp = inp[i:]
    return out
def merge(auth, bp, rp):
    if auth and not bp: return "/" + rp
    return bp[:bp.rfind("/") + 1] + rp
def resolve(b, r):
    """RFC 3986 5.2.2."""
    if r[0] is not None: s, a, p, q = r[0], r[1], remove_dots(r[2]), r[3]
    else:
        if r[1] is not None: a, p, q = r[1], remove_dots(r[2]), r[3]
        else:
            if not r[2]: p, q = b[2], r[3] if r[3] is not None else b[3]
            else:
                p = remove_dots(r[2] if r[2][0] == "/" else merge(b[1] is not None, b[2], r[2]))
                q = r[3]
            a = b[1]
        s = b[0]
    return s, a, p, q, r[4]

def pairs():
    seen = set()
    def out(b, r):
        if not valid(*b) or not valid(*r) or (b, r) in seen: return []
        seen.add((b, r)); return [(b, r)]
    for ba in (None, "ba"):
        for bp in ("", "/b/c/d", "b/c"):
            for bq in (None, "bq"):
                for rs in (None, "rs"):
                    for ra in (None, "ra"):
                        for rp in ("", "/r/s", "r"):
                            for rq, f in ((None, None), ("rq", "rf")): yield from out(("bs", ba, bp, bq, "bf"), (rs, ra, rp, rq, f))
    for e in range(1, 5): yield from out(("bs", "ba", "/b", "bq", None), (None, "" if e == 1 else None, "" if e != 4 else "x", "" if e in (2, 4) else None, "" if e == 3 else None))
    D = (".", "..", "./", "../", "g/.", "g/..", "./g", "../g", "../../g", "../../../g", "../../../../g", "g/./h", "g/../h", "./../g", "./g/.", "g/./", "g/../", ".g", "..g", "g.", "g..", "g//h", "g//../h", "..//g", ".//g", "...", "a/b/../../..", "/.", "/..", "/./", "/../", "/./g", "/../g", "/a/./b/../c", "/a//../b", "/a//..", "/a/..//b", "/a/b//../..//c", "//", "/a/...", "/./..", "/../.", "a:b/..")
    for d in D:
        for bp in ("/b/c/d;p", "/b/c/", "/", "", "b", "/b//c", "/b/../c", "b/c"):
            for ba in ("h", None):
                yield from out(("bs", ba, bp, None, None), (None, None, d, None, None))
        yield from out(("bs", "h", "/x", None, None), (None, "h2", d, None, None))
        yield from out(("bs", "h", "/x", None, None), ("s2", None, d, None, None))

def decode(s):
    out, i = "", 0
    while i < len(s):
        if s[i] == "%":
            h = s[i + 1:i + 3]
            if len(h) < 2 or not re.match(r"^[0-9A-Fa-f]{2}\Z", h): return None
            out += chr(int(h, 16)); i += 3
        else: out += s[i]; i += 1
    return out
def texts():
    for n in range(0, 5):
        yield "abcd"[:n]
        for m in range(0, 5):
            for e in ("%", "%4", "%41", "%4g", "%g4", "%%", "%%41", "%4%41"): yield "abcd"[:n] + e + "wxyz"[:m]
    for ch in "/09:@AFG`afg%- \x01\xff": yield "%" + ch + "1"; yield "%1" + ch; yield "x%a" + ch + "y"
    for t in ("%41%42", "%41%", "%41%4", "a%41b%42c%43", "%00", "%ff%FF%fF", "%25%34%31", "+", "%2B+", "%00%", "\xe4%C3%A4"): yield t

def check(c):
    rs = [f for f in c.db.byq.get("cosim::resolve_reference", []) if f.get("body") is not None]
    ds = [f for f in c.db.byq.get("cosim::percent_decode", []) if f.get("body") is not None]
    if not rs or not ds: c.need("functions", 2); return
    for f in ds: decoding(c, f)
    for f in rs: resolving(c, f)
    c.need("percent_decode", 50); c.need("resolve_reference", 50)

def run(c, g, ai, f, env0):
    """(kind, env, key) or None."""
    ai.exceeded, ai.mixed = False, None
    c.queries += 1
    edge = lambda n, l, m: not (l == "exc" and n.k in ("call", "write", "decl"))
    res = ai.run(env0, watch=lambda n: n is g.xexit or n is g.term_node, edge=edge, stop=lambda n, e: "bad" in e)
    if ai.mixed and res: return "bad", {"bad": (None, ai.mixed)}, res[0][2]
    for (n, fe) in list(ai.seen):
        e = dict(fe)
        if "bad" in e: return (None if e.get(("unk",)) else ("bad", e, (n, fe)))
    if not ai.forked and (ai.exceeded or not res): return "endless", {}, next(iter(ai.seen))
    if ai.exceeded or any(e.get(("unk",)) for n, e, k in res): return None
    out = [("ret" if n is g.exit else "throw" if n is g.xexit else "term", e, k) for n, e, k in res]
    return out[0] if len({o[0] for o in out}) == 1 else None

def decoding(c, f):
    g = c.graph(f, track_all=True)
    recs = {q: r for q, r in c.db.R.items() if r["f"] == f["f"]}
    ai = URIAI(g, records=recs)
    und = 0
    for t in texts():
        x = g.rootfr.lookup(f["p"][0]["d"])
        r = run(c, g, ai, f, {x.term: ("str", t)})
        if r is None: und += 1; continue
        want = decode(t)
        c.ob("percent_decode", repr(t))
        def say(where, msg, k): c.viol("percent_decode", where, "%s(%r) %s" % (f["q"], t, msg), key=k, path=ai.path(r[2]), g=g)
        w = c.db.where(f)
        if r[0] == "bad": say(g.at_line(r[1]["bad"][0]) if r[1]["bad"][0] is not None else w, r[1]["bad"][1], "bounds")
        elif r[0] == "endless": say(w, "does not come to an end", "endless")
        elif r[0] == "term": say(w, "fails an assertion", "assertion")
        elif r[0] == "throw":
            if want is not None: say(w, "is refused", "refused")
        elif want is None: say(w, "is accepted", "accepted")
        else:
            v = ai.norm(r[1].get(("RET", g.rootfr.id)), r[1])
            if s_of(v) is None: und += 1
            elif v[1] != want: say(w, "gives %r instead of %r" % (v[1], want), "result")
    if und: c.note("percent_decode: %d representatives not decided" % und)

def resolving(c, f):
    g = c.graph(f, track_all=True, stop=lambda x: x.get("cls") == "cosim::uri")
    recs = {q: r for q, r in c.db.R.items() if r["f"] == f["f"]}
    terms = [g.rootfr.lookup(p["d"]).term for p in f["p"][:2]]
    cur = [None, None]
    def which(x, fr, env):
        t = g.T(x, fr)
        for i in (0, 1):
            if t == terms[i] or t[:2] == ("p", i): return i
        return None
    def extra(ai, e, fr, env):
        fn = e.get("fn") or ""
        if e["k"] == "call" and e.get("obj") is not None and fn.startswith("cosim::uri::") and last(fn) in NAMES + ("empty",) and not e.get("a"):
            i = which(e["obj"], fr, env)
            if i is None:
                v = ai.ev(e["obj"], fr, env)
                if not (isinstance(v, tuple) and v and v[0] == "uri"): return UNK
                comp = v[1]
            else: comp = cur[i]
            if last(fn) == "empty": return compose(*comp) == ""
            x = comp[NAMES.index(last(fn))]
            return NULL if x is None else ("str", x)
        if e["k"] in ("ctor", "init") and (fn == "cosim::uri::uri" or (e.get("t") or "").replace("const ", "") == "cosim::uri"):
            A = [a for a in e.get("a") or []]
            if len(A) == 1 and (A[0].get("t") or "").replace("const ", "").rstrip(" &") == "cosim::uri":
                i = which(A[0], fr, env)
                return ("uri", tuple(cur[i])) if i is not None else ai.ev(A[0], fr, env)
            if len(A) != 5: return UNK
            vs = [ai.norm(ai.ev(a, fr, env), env) for a in A]
            out = [None if v == NULL else s_of(v) if s_of(v) is not None else UNK for v in vs]
            return UNK if UNK in out or out[2] is None else ("uri", tuple(out))
        return NotImplemented
    ai = URIAI(g, None, extra, records=recs)
    und = 0
    for b, r in list(pairs()) + [((None, "ba", "/b", None, None), (None, None, "r", None, None)), ((None, None, "b", None, None), ("rs", None, "r", None, None))]:
        cur[:] = [b, r]
        res = run(c, g, ai, f, {})
        if res is None: und += 1; continue
        want = resolve(b, r)
        text = "base %s, reference %s" % (compose(*b), compose(*r) or "empty")
        c.ob("resolve_reference", text)
        w = c.db.where(f)
        def say(where, msg, k): c.viol("resolve_reference", where, "%s (%s): %s" % (f["q"], text, msg), key=k, path=ai.path(res[2]), g=g)
        if res[0] == "bad": say(g.at_line(res[1]["bad"][0]) if res[1]["bad"][0] is not None else w, res[1]["bad"][1], "bounds"); continue
        if b[0] is None:
            if res[0] == "ret": say(w, "accepts a base that is not absolute", "base")
            continue
        if res[0] == "endless": say(w, "does not come to an end", "endless"); continue
        if res[0] == "term": say(w, "fails an assertion", "assertion"); continue
        if res[0] == "throw":
            if valid(*want): say(w, "is refused", "refused")
            continue
        v = res[1].get(("RET", g.rootfr.id))
        if not (isinstance(v, tuple) and v and v[0] == "uri"): und += 1; continue
        if not valid(*want) and v[1] != want: continue
        for i, nm in enumerate(NAMES):
            if v[1][i] != want[i]: say(w, "%s is %s instead of %s" % (nm, "absent" if v[1][i] is None else repr(v[1][i]), "absent" if want[i] is None else repr(want[i])), nm); break
    if und: c.note("resolve_reference: %d pairs not decided" % und)
