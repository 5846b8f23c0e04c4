"""C21: archive I/O errors are reported and resources released."""
from strval import *
from c18 import exprs_of, strip_cr
RULE = """
Abstract interpretation of every member of the archive class (calls inlined), each library call failing in turn: once a libzip
call has returned its failure value, or a stream could not be opened, no path returns normally (find_entry answers 'no such entry' exactly when
libzip says so); when an output stream's buffer cannot be written - at once, or only when it is flushed - no path returns normally, so a stream
that was written to is flushed or closed and its state tested afterwards; what was read is written with the count that was read before the
next read and reading goes on until the end; with no archive open nothing but open, is_open and discard goes on; an archive handle or entry
handle is released exactly once, by its last owner, on every path, moving included; an empty entry name is never indexed.
"""
ASSUME = ["assertions are enabled, as in the build used here", "libzip reports failures as documented"]
ARCH = "cosim::utility::zip::archive"
FAIL = {"zip_open": NULL, "zip_open_from_source": NULL, "zip_fdopen": NULL, "zip_fopen_index": NULL, "zip_fopen": NULL, "zip_fopen_index_encrypted": NULL,
        "zip_fread": -1, "zip_get_name": NULL, "zip_file_get_name": NULL, "zip_name_locate": -1, "zip_stat_index": -1, "zip_stat": -1}
CLOSE = {"zip_discard": "zip", "zip_close": "zip", "zip_fclose": "zip_file"}
OPEN = {"zip_open": "zip", "zip_fopen_index": "zip_file", "zip_fopen": "zip_file", "zip_fopen_index_encrypted": "zip_file"}
OFS = re.compile(r"^std::basic_(ofstream|fstream)<")
OSTR = re.compile(r"^std::(basic_ostream|basic_ofstream|basic_fstream|basic_ios|ios_base|basic_iostream)\b")
STREAMT = re.compile(r"basic_(ofstream|ostream|fstream|iostream|ios)<")
NOENT = 9

def check(c):
    fs = sorted((f for f in c.db.F.values() if f.get("cls") == ARCH and f.get("body") is not None), key=lambda f: (f["q"], len(f["p"])))
    for q in ("open", "discard", "find_entry", "entry_name", "extract_all", "extract_file_to"): c.impls(ARCH + "::" + q)
    if not fs: return
    FILES.clear()
    FILES.update(x["n"] for r in c.db.R.values() for x in r.get("fields") or [] if re.match(r"^(struct )?zip_file \*$", x["t"]))
    r = c.db.R[ARCH]
    hs = [f["n"] for f in r["fields"] if re.match(r"^(struct )?zip \*$|^std::unique_ptr<zip[,>]", f["t"])]
    G = {}
    for f in fs: G[f["id"]] = c.graph(f, track_all=True)
    for f in fs:
        g = G[f["id"]]
        failures(c, f, g)
        streams(c, f, g)
        if any(called(n) == "zip_fread" for n in g.live()): copying(c, f, g)
        empty(c, f, g)
        if hs and f["n"] not in ("archive", "~archive", "operator=", "open", "discard", "is_open"): closed(c, f, g, hs[0])
        if hs: owners(c, f, g, hs[0])
    c.need("failure reported", 8); c.need("owners", 6)

def called(n): return n.e.get("fn") if n.k == "call" else None
def names(e, fr, ai, env): return NotImplemented
FILES = set()
def zs_cell(t):
    if t[0] == "f" and t[2] in FILES: return ("file",)
    return None
def start(f, g, name):
    env = {v.term: ("path", "/T") for p in f["p"] if "filesystem::path" in p["t"] for v in [g.rootfr.lookup(p["d"])] if v is not None}
    env[("zsname",)] = ("str", name)
    return env
NOEDGE = lambda n, l, m: l not in ("exc", "term") or n.k == "throw"

# ---------------------------------------------------------------- failures
def failures(c, f, g):
    kinds = sorted({called(n) for n in g.live() if called(n) in FAIL})
    if any(ofs_open(n) for n in g.live()): kinds.append("open")
    for k in kinds:
        for code in ((5, NOENT) if k == "zip_name_locate" else (5,)):
            c.queries += 1
            c.ob("failure reported", "%s: %s%s" % (f["q"], k, ", no such entry" if code == NOENT else ""))
            def extra(ai, e, fr, env, k=k, code=code):
                fn = e.get("fn") or ""
                if fn == k: return FAIL[k] if k != "zip_fread" or env.get("calls", 1) < 2 else 0
                if fn in ("zip_get_num_entries", "zip_get_num_files"): return 1
                if fn in ("zip_get_name", "zip_file_get_name"): return ("str", "d/f.txt")
                if fn in ("zip_error_code_zip", "zip_error_code_system"): return code
                if fn == "zip_get_error" or fn == "zip_file_get_error": return ("tok", "err")
                if e["k"] == "call" and OSTR.match(fn) and env.get("failed") and k == "open":
                    nm = last(fn)
                    if nm in ("is_open", "good") or nm.startswith("operator bool"): return False
                    if nm == "fail" or e.get("op") == "!": return True
                if fn.startswith("std::filesystem::"):
                    return True if last(fn) in ("exists", "is_directory") else NotImplemented
                return NotImplemented
            def eff(ai, n, env, k=k, code=code):
                if n.k == "call":
                    if called(n) == k or k == "open" and ofs_open(n):
                        env = dict(env); env["failed"] = n
                        if k == "zip_fread": env["calls"] = min(env.get("calls", 0) + 1, 2)
                        return env
                    if called(n) in ("zip_error_get", "zip_file_error_get") and len(n.e.get("a") or []) > 1:
                        a = n.e["a"][1]
                        while a["k"] in ("icast", "cast"): a = a["e"]
                        if a["k"] == "un" and a["op"] == "&":
                            key = ai.key(g.T(a["e"], n.fr))
                            if key is not None: env = dict(env); env[key] = code; return env
                return None
            def assume(ai, n, lab, env):
                # assertions about what is not known hold
                m = [m for l, m in n.succ if l == lab]
                if m and called(m[0]) == "__assert_fail" and truth(ai.ev(n.e, n.fr, env)) is None: return None
                return env
            ai = SAI(g, zs_cell, extra, eff, assume)
            res = ai.run(start(f, g, "d/f.txt"), edge=NOEDGE, watch=lambda n: called(n) == "__assert_fail")
            if ai.exceeded: c.note("%s: too many states when %s fails" % (f["q"], k)); continue
            for n, env, key in res:
                if n is not g.exit and env.get("failed") and not env.get(("unk",)):
                    c.viol("failure reported", g.at_line(env["failed"]), "%s goes on until an assertion fails when %s failed" % (f["q"], k if k != "open" else "opening the output file"), key="%s|%s|%d" % (f["n"], k, code), path=ai.path(key), g=g)
                    res = []; break
            ret = [(env, key) for n, env, key in res if n is g.exit]
            bad = None
            for env, key in ret:
                if not env.get("failed") or env.get(("unk",)): continue
                v = env.get(("RET", g.rootfr.id))
                if k == "zip_name_locate":
                    if v in (NPOS, -1) and code == NOENT: continue
                    if v is None: c.note("%s: returned value not known when the entry is not found" % f["q"]); continue
                bad = (env, key); break
            if bad:
                env, key = bad
                c.viol("failure reported", g.at_line(env["failed"]), "%s returns normally although %s failed%s" % (f["q"], k if k != "open" else "opening the output file", "" if k != "zip_name_locate" else (" for another reason than a missing entry" if code != NOENT else ", without saying that there is no such entry")),
                       key="%s|%s|%d" % (f["n"], k, code), path=ai.path(key), g=g)
            elif k == "zip_name_locate" and code == NOENT and not any(env.get("failed") for env, _ in ret) and any(env.get("failed") for n, env in ((n, dict(fe)) for n, fe in ai.seen)):
                c.viol("failure reported", c.db.where(f), "%s does not return when there is no such entry" % f["q"], key="%s|noent" % f["n"])

def ofs_open(n):
    if n.k != "call": return False
    fn, e = n.e.get("fn") or "", n.e
    A = [a for a in e.get("a") or [] if a["k"] != "defarg"]
    return bool(OFS.match(fn)) and bool(A) and (e["k"] == "ctor" or last(fn) == "open")

# ----------------------------------------------------------------- streams
def stream_write(n):
    if n.k != "call": return False
    fn, e = n.e.get("fn") or "", n.e
    if fn.startswith("std::basic_ostream<") and last(fn) in ("write", "put", "operator<<"): return True
    return fn == "std::operator<<" and (e.get("a") or [{}])[0].get("t") is not None and bool(STREAMT.search(e["a"][0]["t"]))
def streams(c, f, g):
    ws = [n for n in g.live() if stream_write(n)]
    if not ws or not any(ofs_open(n) for n in g.live()): return
    for when in ("now", "flush"):
        c.queries += 1
        c.ob("stream errors", "%s: write fails %s" % (f["q"], "at once" if when == "now" else "when the buffer is written"))
        def extra(ai, e, fr, env, when=when):
            fn = e.get("fn") or ""
            if fn in ("zip_get_num_entries", "zip_get_num_files"): return 1
            if fn in ("zip_get_name", "zip_file_get_name"): return ("str", "d/f.txt")
            if fn.startswith("std::filesystem::") and last(fn) in ("exists", "is_directory"): return True
            if e["k"] == "call" and (OSTR.match(fn) or fn.startswith("std::basic_filebuf") or fn.startswith("std::basic_streambuf")):
                nm, st = last(fn), env.get("s")
                failed = st == "failed"
                if nm == "is_open": return True
                if nm == "good" or nm.startswith("operator bool"): return not failed
                if nm in ("fail", "bad") or e.get("op") == "!": return failed
                if nm in ("close", "pubsync", "rdstate", "sync", "eof", "tellp", "exceptions") : return UNK if nm != "exceptions" else NotImplemented
                if nm in ("flush", "write", "put") and e.get("obj") is not None: return ai.ev(e["obj"], fr, env)
            if isinstance(e.get("t"), str) and e["k"] == "call" and e.get("conv") and STREAMT.search((e.get("obj") or {}).get("t") or ""): return env.get("s") != "failed"
            return NotImplemented
        def eff(ai, n, env, when=when):
            if n.k != "call": return None
            fn = n.e.get("fn") or ""
            if stream_write(n):
                env = dict(env)
                env["s"] = "failed" if when == "now" else "pending"
                env["w"] = n
                return env
            if OSTR.match(fn) and last(fn) in ("flush", "close", "seekp") and env.get("s") == "pending":
                env = dict(env); env["s"] = "failed"; return env
            if OSTR.match(fn) and last(fn) == "exceptions" and n.e.get("a"):
                env = dict(env); env["thr"] = True; return env
            return None
        ai = SAI(g, zs_cell, extra, eff)
        res = ai.run(start(f, g, "d/f.txt"), edge=NOEDGE, stop=lambda n, env: env.get("thr") and env.get("s") == "failed")
        if ai.exceeded: c.note("%s: too many states when a write fails" % f["q"]); continue
        for n, env, key in res:
            if n is g.exit and env.get("s") in ("failed", "pending") and not env.get(("unk",)):
                why = "is never flushed and tested" if env["s"] == "pending" else "has failed"
                c.viol("stream errors", g.at_line(env["w"]), "%s returns normally although the output stream it wrote to %s" % (f["q"], why), key="%s|%s" % (f["n"], when), path=ai.path(key), g=g)
                break

# ----------------------------------------------------------------- copying
def copying(c, f, g):
    c.queries += 1
    c.ob("copying", f["q"])
    sizes = any(n.k == "call" and called(n) in ("zip_stat_index", "zip_stat") for n in g.live())
    SEQ = [101, 7, 0]
    def extra(ai, e, fr, env):
        fn = e.get("fn") or ""
        if fn == "zip_fread": return SEQ[min(env.get("reads", 0), 2)] if "reads" not in env else SEQ[min(env["reads"] - 1, 2)]
        if fn in ("zip_get_num_entries", "zip_get_num_files"): return 1
        if fn in ("zip_get_name", "zip_file_get_name"): return ("str", "d/f.txt")
        if fn in ("zip_fopen_index", "zip_fopen"): return ("tok", "file")
        if fn.startswith("std::filesystem::") and last(fn) in ("exists", "is_directory"): return True
        if e["k"] == "call" and OSTR.match(fn):
            nm = last(fn)
            if nm in ("is_open", "good") or nm.startswith("operator bool"): return True
            if nm in ("fail", "bad") or e.get("op") == "!": return False
        if e["k"] == "call" and last(fn) in ("size", "length", "capacity") and "vector<" in fn: return 65536
        return NotImplemented
    def eff(ai, n, env):
        if n.k != "call": return None
        if called(n) == "zip_fread":
            env = dict(env)
            if env.get("unwritten"): env["bad"] = (n, "reads on without having written what was read before")
            env["reads"] = min(env.get("reads", 0) + 1, 3)
            k = SEQ[env["reads"] - 1]
            if k: env["unwritten"] = k
            return env
        if stream_write(n):
            A = n.e.get("a") or []
            if last(n.e.get("fn") or "") != "write" or len(A) < 2: env = dict(env); env[("unk",)] = True; return env
            k = ai.ev(A[1], n.fr, env)
            env = dict(env)
            if k is None or k == UNK: env.pop("unwritten", None); env[("unk",)] = True
            elif not env.get("unwritten"):
                if k: env["bad"] = (n, "writes what it has not read")
            elif k != env["unwritten"]: env["bad"] = (n, "writes %s than was read" % ("more" if k > env["unwritten"] else "less"))
            else: env.pop("unwritten")
            return env
        return None
    ai = SAI(g, zs_cell, extra, eff)
    res = ai.run(start(f, g, "d/f.txt"), edge=NOEDGE, watch=lambda n: True, stop=lambda n, env: "bad" in env)
    if ai.exceeded: c.note("%s: too many states" % f["q"]); return
    for n, env, key in res:
        if env.get(("unk",)): continue
        if "bad" in env:
            c.viol("copying", g.at_line(env["bad"][0]), "%s %s" % (f["q"], env["bad"][1]), key="%s|%s" % (f["n"], env["bad"][1].split()[0]), path=ai.path(key), g=g); return
        if n is g.exit and env.get("reads"):
            if env.get("unwritten"):
                c.viol("copying", c.db.where(f), "%s returns without having written all it has read" % f["q"], key="%s|unwritten" % f["n"], path=ai.path(key), g=g); return
            if env["reads"] < 3 and not sizes:
                c.viol("copying", c.db.where(f), "%s may stop before the end of the entry" % f["q"], key="%s|short" % f["n"], path=ai.path(key), g=g); return

# ------------------------------------------------------------- empty names
def empty(c, f, g):
    if not any(called(n) in ("zip_get_name", "zip_stat_index", "zip_stat") for n in g.live()): return
    c.queries += 1
    c.ob("empty name", f["q"])
    def extra(ai, e, fr, env):
        fn = e.get("fn") or ""
        if fn in ("zip_get_num_entries", "zip_get_num_files"): return 1
        if fn in ("zip_get_name", "zip_file_get_name"): return ("str", "")
        if fn.startswith("std::filesystem::") and last(fn) in ("exists", "is_directory"): return True
        return NotImplemented
    ai = SAI(g, zs_cell, extra)
    res = ai.run(start(f, g, ""), edge=NOEDGE, watch=lambda n: n.k in ("branch", "call", "decl", "write", "ret"))
    for n, env, key in res:
        if env.get(("unk",)): continue
        e = n.e if n.e is not None else n.d.get("init") or n.d.get("val")
        if not isinstance(e, dict): continue
        for x in plain(e):
            b = None
            if x["k"] == "sub":
                kids = [x["a"], x["b"]]
                v, i = (ai.ev(y, n.fr, env) if isinstance(y, dict) else None for y in kids)
                if s_of(v) == "" and isinstance(i, int) and i not in (0, False): b = "reads before the start of the name of an entry"
            elif x["k"] == "call" and x.get("obj") is not None and (last(x.get("fn") or "") in ("back", "front", "pop_back") or x.get("op") == "[]" and "basic_string" in (x.get("fn") or "")):
                v = ai.ev(x["obj"], n.fr, env)
                i = ai.ev(x["a"][0], n.fr, env) if x.get("a") else None
                if s_of(v) == "" and v[0] == "str" and (x.get("op") != "[]" or isinstance(i, int) and i != 0): b = "takes a character from the name of an entry"
            if b:
                c.viol("empty name", g.at_line(n), "%s %s when that is empty" % (f["q"], b), key=f["n"] + "|empty", path=ai.path(key), g=g); return
def plain(e):
    """Subexpressions that are evaluated whenever e is."""
    st = [e]
    while st:
        x = st.pop()
        if isinstance(x, list): st += x; continue
        if not isinstance(x, dict): continue
        if "k" in x:
            yield x
            if x["k"] == "lambda": continue
            if x["k"] == "bin" and x["op"] in ("&&", "||"): st.append(x["a"]); continue
            if x["k"] == "cond": st.append(x["c"]); continue
        st += [v for v in x.values() if isinstance(v, (dict, list))]

# ------------------------------------------------------------------ closed
def closed(c, f, g, h):
    c.queries += 1
    c.ob("closed archive", f["q"])
    def cell(t): return ("h",) if t[0] == "f" and t[1] == ("this",) and t[2] == h else zs_cell(t)
    ai = SAI(g, cell, None)
    res = ai.run({("h",): NULL}, edge=NOEDGE, watch=lambda n: called(n) is not None and called(n).startswith("zip_"))
    for n, env, key in res:
        if n is g.exit or n.k == "call":
            c.viol("closed archive", g.at_line(n) if n.k == "call" else c.db.where(f), "%s %s although no archive is open" % (f["q"], "calls %s" % called(n) if n.k == "call" else "returns normally"), key=f["n"] + "|closed", path=ai.path(key), g=g)
            return

# ------------------------------------------------------------------ owners
def owners(c, f, g, h):
    special = f["n"] in ("archive", "~archive", "operator=", "open", "discard")
    other = None
    if f["p"] and re.match(r"^(const )?" + ARCH + r" ?&", f["p"][0]["t"]): other = g.rootfr.lookup(f["p"][0]["d"])
    def cell(t):
        if t[0] == "f" and t[2] == h:
            if t[1] == ("this",): return ("h", "this")
            if other is not None and (bare(t[1]) == bare(other.term) or t[1][0] == "p" and t[1][1] == 0): return ("h", "other")
        return zs_cell(t)
    starts = [("open", ("tok", "own")), ("closed", NULL)]
    if f["n"] == "archive": starts = [("new", None)]
    elif f["n"] == "open": starts = [("closed", NULL), ("open", ("tok", "own"))]
    elif not special: starts = [("open", ("tok", "own"))]
    if not special and not any(called(n) in OPEN or called(n) in CLOSE for n in g.live()): return
    for sname, sv in starts:
        for ov in ([("tok", "oth"), NULL] if other is not None else [None]):
            c.queries += 1
            c.ob("owners", "%s, %s%s" % (f["q"], sname, "" if ov is None else ", from %s" % ("an open archive" if ov != NULL else "a closed one")))
            def extra(ai, e, fr, env):
                fn = e.get("fn") or ""
                if fn in OPEN: return ("tok", "new", OPEN[fn]) if env.get("opened") != "failed" else NULL
                if fn in ("zip_get_num_entries", "zip_get_num_files"): return 2
                if fn in ("zip_get_name", "zip_file_get_name"): return ("str", "d/f.txt")
                if fn.startswith("std::filesystem::") and last(fn) in ("exists", "is_directory"): return True
                return NotImplemented
            def eff(ai, n, env):
                if n.k != "call": return None
                fn = called(n) or ""
                if fn in OPEN:
                    env = dict(env)
                    if ("tok", "new", OPEN[fn]) in env["live"]: env["bad"] = (n, "opens another %s without having closed the last one" % ("entry" if OPEN[fn] == "zip_file" else "archive"))
                    env["live"] = env["live"] | {("tok", "new", OPEN[fn])}
                    return env
                if fn in CLOSE and n.e.get("a"):
                    v = ai.ev(n.e["a"][0], n.fr, env)
                    env = dict(env)
                    if v is None or v == UNK: env[("unk",)] = True
                    elif v == NULL: env["bad"] = (n, "closes a handle that is null")
                    elif v not in env["live"]: env["bad"] = (n, "closes a handle that has been closed already")
                    else: env["live"] = env["live"] - {v}
                    return env
                return None
            env0 = {**start(f, g, "d/f.txt"), "live": frozenset(v for v in (sv, ov) if v not in (None, NULL))}
            if sv is not None: env0[("h", "this")] = sv
            if ov is not None: env0[("h", "other")] = ov
            ai = SAI(g, cell, extra, eff)
            res = ai.run(env0, watch=lambda n: n is g.xexit, edge=lambda n, l, m: l != "term", stop=lambda n, env: "bad" in env)
            if ai.exceeded: c.note("%s: too many states" % f["q"]); continue
            def say(n, env, key, msg): c.viol("owners", g.at_line(n) if n is not None and n.fr is not None else c.db.where(f), "%s (%s): %s" % (f["q"], sname, msg), key="%s|%s" % (f["n"], msg), path=ai.path(key), g=g)
            hit = False
            for (n, fe) in list(ai.seen):
                env = dict(fe)
                if "bad" in env and not env.get(("unk",)): say(env["bad"][0], env, (n, fe), env["bad"][1]); hit = True; break
            if hit: continue
            for n, env, key in res:
                if env.get(("unk",)): continue
                gone = f["n"] == "~archive" or n is g.xexit and f["n"] == "archive"
                cells = [k for k in (("h", "this"), ("h", "other")) if k in env and not (k[1] == "this" and gone)]
                held = [env[k] for k in cells]
                if any(k not in env for k in (("h", "other"),) if ov is not None) or ("h", "this") not in env and not gone and special:
                    if n is g.exit and f["n"] == "archive" and ("h", "this") not in env and not any(x.k == "write" and cell(g.place(x)) == ("h", "this") for x in g.live()):
                        say(None, env, key, "leaves the handle uninitialised"); break
                    c.note("%s: what the handle holds afterwards is not known" % f["q"]); continue
                leak = [t for t in env["live"] if t not in held]
                dang = [t for t in held if t != NULL and t not in env["live"]]
                dup = [t for t in held if t != NULL and held.count(t) > 1]
                kind = lambda t: "an entry handle" if len(t) > 2 and t[2] == "zip_file" else "an archive handle"
                how = "an exception" if n is g.xexit else "it"
                if leak: say(None, env, key, "%s leaves %s open that nothing refers to any more" % (how, kind(leak[0]))); break
                if dang: say(None, env, key, "%s leaves a handle in place that has been closed" % how); break
                if dup: say(None, env, key, "two objects own the same handle"); break
                if n is g.exit and f["n"] == "operator=" and ov is not None and env[("h", "this")] != ov or n is g.exit and f["n"] == "archive" and other is not None and env[("h", "this")] != ov:
                    say(None, env, key, "does not take over the handle"); break
                if n is g.exit and f["n"] == "discard" and env[("h", "this")] != NULL: say(None, env, key, "the archive is still open"); break
                if n is g.exit and f["n"] == "open" and env[("h", "this")] == NULL: say(None, env, key, "returns normally with no archive open"); break
