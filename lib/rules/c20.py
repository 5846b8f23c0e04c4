"""C20: archive extraction never writes outside the target directory."""
from strval import *
RULE = """
Constant propagation of strings and paths through every public member of the archive class that takes a directory (calls inlined),
once for each class of entry names that could leave the directory: absolute, starting with "..", with ".." components that climb out
in the middle or at the end, as a file and as a directory entry, each alone and after a harmless entry.  The target directory is a known path, what
libzip calls the entry is the name.  At every call that creates or opens something for writing, the path handed over is below
the target directory after each of its components.  Where a test of the name is not understood nothing is concluded.
"""
ASSUME = ["POSIX path semantics, as built here", "the target directory contains no symbolic links leading elsewhere"]
ARCH = "cosim::utility::zip::archive"
WRITE = re.compile(r"^(std::filesystem::(create_director(y|ies)|rename|copy|copy_file|create_symlink|create_hard_link|create_directory_symlink|resize_file|remove|remove_all)|fopen|fopen64|open|open64|creat|mkdir|std::fopen)$")
SECOND = re.compile(r"filesystem::(rename|copy|copy_file|create_symlink|create_hard_link|create_directory_symlink)$")
OFS = re.compile(r"^std::basic_(ofstream|fstream|filebuf)<")
T = "/T"
GOOD = "d/f.txt"
NAMES = [("absolute", "/x/f.txt"), ("absolute directory", "/x/"), ("leading '..'", "../f.txt"), ("leading '..' directory", "../"), ("climbing '..'", "d/../../f.txt"),
         ("climbing '..' directory", "d/../../x/"), ("trailing '..'", "d/../../T2/../.."), ("'.' and '..'", "./../f.txt"), ("deep '..'", "a/b/../../../f.txt"), ("doubled slash", "..//f.txt")]

def written(n):
    """The argument of a call that creates or opens something to write to."""
    e = n.e
    if n.k != "call": return None
    fn = e.get("fn") or ""
    A = [a for a in e.get("a") or [] if a["k"] != "defarg"]
    if WRITE.match(fn) and A: return A[1] if SECOND.search(fn) and len(A) > 1 else A[0]
    if OFS.match(fn) and A and (e["k"] == "ctor" or last(fn) == "open"): return A[0]
    return None

def check(c):
    done = 0
    for f in sorted(c.db.F.values(), key=lambda f: f["q"]):
        if f.get("cls") != ARCH or f.get("body") is None or not any("filesystem::path" in p["t"] for p in f["p"]): continue
        g = c.graph(f)
        sites = [n for n in g.live() if written(n) is not None]
        if not sites: continue
        done += 1
        one(c, f, g, sites)
    for q in (ARCH + "::extract_all", ARCH + "::extract_file_to"): c.impls(q)
    c.need("written below the target", 10)

def one(c, f, g, sites):
    reached = set()
    seen_viol = set()
    for what, name in [("harmless", GOOD), ("harmless directory", "d/"), ("top level", "f.txt")] + NAMES:
        for names in ([name],) if name == GOOD else ([name], [GOOD, name]):
            c.queries += 1
            ai = interp(g, names)
            env0 = {v.term: ("path", T) for p in f["p"] if "filesystem::path" in p["t"] for v in [g.rootfr.lookup(p["d"])] if v is not None}
            env0[("zsname",)] = ("str", name)
            res = ai.run(env0, watch=lambda n: written(n) is not None, edge=lambda n, l, m: l not in ("exc", "term"))
            if ai.exceeded: c.note("%s: too many states for '%s'" % (f["q"], name)); continue
            for n, env, key in res:
                a = written(n)
                if a is None: continue
                v = ai.ev(a, n.fr, env)
                reached.add(n)
                if what.startswith("harmless") or what == "top level": continue
                c.ob("written below the target", "%s line %s: %s" % (f["q"], n.l, name))
                s = s_of(v)
                if s is None or v == UNK: c.note("%s line %s: path for an entry called '%s' not known" % (f["q"], n.l, name)); continue
                if inside(s, T) or OFS.match(n.e.get("fn") or "") and filename(s) in ("", ".", ".."): continue     # a directory cannot be opened for writing
                if env.get(("unk",)): c.note("%s line %s: tests of the entry name are not understood" % (f["q"], n.l)); continue
                if (n.l, what) in seen_viol: continue
                seen_viol.add((n.l, what))
                c.viol("written below the target", g.at_line(n), "%s: an entry called '%s' (%s) makes it write to %s" % (f["q"], name, what, s.replace(T, "<target>", 1)),
                       key="%s|%s|%s" % (f["n"], last(n.e.get("fn") or ""), what), path=ai.path(key), g=g)
    for n in sites:
        if n not in reached: c.note("%s line %s: not reached for ordinary entries" % (f["q"], n.l))
        else: c.ob("written below the target", "%s line %s" % (f["q"], n.l))

def interp(g, names):
    def cell(t):
        return None
    def extra(ai, e, fr, env):
        fn = e.get("fn") or ""
        if fn == "zip_get_name" or fn == "zip_file_get_name":
            i = ai.ev(e["a"][1], fr, env)
            return ("str", names[i] if isinstance(i, int) and i < len(names) else names[-1])
        if fn in ("std::filesystem::exists", "std::filesystem::is_directory"): return True if ai.ev(e["a"][0], fr, env) == ("path", T) else None
        if fn in ("zip_get_num_entries", "zip_get_num_files"): return len(names)
        return NotImplemented
    return SAI(g, cell, extra)
