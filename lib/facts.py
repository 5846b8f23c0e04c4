"""Runs the clang-based extractor over every translation unit of /repo/src
(including the ones the default build leaves out) and merges the result into
one program database.  Nothing of /repo is executed."""
import hashlib, json, os, re, subprocess, sys, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
EXTRACT = os.path.join(BUILD, "extract")

class AnalysisError(Exception):
    """The analysis could not be carried out (never a verdict)."""

def build_tool(force=False):
    src = os.path.join(VERIF, "tool", "extract.cpp")
    os.makedirs(BUILD, exist_ok=True)
    stamp = os.path.join(BUILD, "extract.sha")
    want = hashlib.sha256(open(src, "rb").read()).hexdigest()
    if not force and os.path.exists(EXTRACT) and os.path.exists(stamp) and open(stamp).read() == want:
        return
    import glob
    llvm = sorted(glob.glob("/usr/lib/llvm-18/lib/libLLVM-18.so") + glob.glob("/usr/lib/x86_64-linux-gnu/libLLVM-18.so*") + glob.glob("/usr/lib/x86_64-linux-gnu/libLLVM.so.18*"))
    ccpp = sorted(glob.glob("/usr/lib/llvm-18/lib/libclang-cpp.so.18*") + glob.glob("/usr/lib/x86_64-linux-gnu/libclang-cpp.so.18*"))
    if not llvm or not ccpp:
        raise AnalysisError("clang 18 development libraries not found")
    tmp = EXTRACT + ".%d" % os.getpid()
    cmd = ["/usr/bin/clang++-18" if os.path.exists("/usr/bin/clang++-18") else "clang++",
           "-std=c++17", "-O1", "-fno-rtti", "-w", "-I/usr/lib/llvm-18/include", src, "-o", tmp, ccpp[0], llvm[0]]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise AnalysisError("building the extractor failed:\n" + r.stdout[-4000:])
    os.replace(tmp, EXTRACT)
    open(stamp, "w").write(want)

def units(repo):
    out = []
    for d, _, fs in os.walk(os.path.join(repo, "src")):
        for f in fs:
            if f.endswith(".cpp"):
                out.append(os.path.join(d, f))
    return sorted(out)

# units whose code is only compiled on another platform
SKIP = {"src/cosim/fmi/windows.cpp"}

def flags(repo, gen):
    return ["-std=c++17", "-w", "-ferror-limit=5", "-I" + os.path.join(repo, "include"), "-I" + os.path.join(repo, "src"),
            "-I" + gen, "-I" + os.path.join(VERIF, "stubs"),
            "-DBOOST_ALL_DYN_LINK=1", "-DBOOST_ALL_NO_LIB", "-DHAS_PROXYFMU=1"]

def tree_hash(repo):
    h = hashlib.sha256()
    h.update(open(os.path.join(VERIF, "tool", "extract.cpp"), "rb").read())
    for root in [os.path.join(repo, "src"), os.path.join(repo, "include"), os.path.join(repo, "data", "xsd"), os.path.join(VERIF, "stubs")]:
        for d, ds, fs in os.walk(root):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode() + b"\0")
                h.update(open(p, "rb").read())
    h.update(repo.encode())
    return h.hexdigest()

def rename_repo(repo, s):
    return s

def load(repo=None, use_cache=True):
    repo = os.path.abspath(repo or REPO)
    build_tool()
    cache = os.path.join(BUILD, "facts-" + tree_hash(repo)[:32] + ".json")
    if use_cache and os.path.exists(cache):
        try: return DB(json.load(open(cache)), repo)
        except (OSError, ValueError): pass
    work = tempfile.mkdtemp(prefix="cosimfacts.")
    try:
        gen = os.path.join(work, "gen")
        os.makedirs(gen)
        xsd = os.path.join(repo, "data", "xsd", "OspSystemStructure.xsd")
        with open(os.path.join(gen, "osp_system_structure_schema.hpp"), "w") as f:
            f.write("const char* osp_xsd=R\"(" + (open(xsd).read() if os.path.exists(xsd) else "") + ")\";")
        tus = [u for u in units(repo) if os.path.relpath(u, repo) not in SKIP]
        # a unit that includes every header which no .cpp includes directly
        hdr = os.path.join(work, "all_headers.cpp")
        with open(hdr, "w") as f:
            for base in ("include", "src"):
                for d, _, fs in sorted(os.walk(os.path.join(repo, base))):
                    for x in sorted(fs):
                        if x.endswith(".hpp") and x != "windows.hpp":
                            f.write('#include "%s"\n' % os.path.relpath(os.path.join(d, x), os.path.join(repo, base)))
        jobs = [(u, os.path.join(work, "u%d.json" % i)) for i, u in enumerate(tus + [hdr])]
        roots = os.path.join(repo, "src") + "/:" + os.path.join(repo, "include") + "/"

        gone = {}
        def unit_key(u):
            """Hash of everything of the repository the unit can include."""
            seen, st = set(), [u]
            h = hashlib.sha256(tool)
            while st:
                p = st.pop()
                if p in seen: continue
                seen.add(p)
                for inc in includes(p):
                    for base in (os.path.dirname(p), os.path.join(repo, "include"), os.path.join(repo, "src"), gen, os.path.join(VERIF, "stubs")):
                        q = os.path.normpath(os.path.join(base, inc))
                        if os.path.isfile(q): st.append(q)
            for p in sorted(seen):
                h.update((p.replace(repo + "/", "@R@/").replace(work + "/", "@W@/")).encode() + b"\0" + open(p, "rb").read() + b"\0")
            return h.hexdigest()[:32]
        tool = open(os.path.join(VERIF, "tool", "extract.cpp"), "rb").read() + " ".join(flags("", "")).encode()
        incs = {}
        def includes(p):
            if p not in incs:
                incs[p] = re.findall(r'^[ \t]*#[ \t]*include[ \t]*[<"]([^>"]+)[>"]', open(p, errors="replace").read(), re.M)
            return incs[p]
        def one(j):
            u, o = j
            key = os.path.join(BUILD, "unit-" + unit_key(u) + ".json")
            t = None
            if use_cache and os.path.exists(key):
                try: t = open(key).read()
                except OSError: pass
            if t is not None:
                open(o, "w").write(t.replace("@R@/", repo + "/").replace("@W@/", work + "/"))
                try: os.utime(key)
                except OSError: pass
                return u, o, 0, ""
            x = extract_one(u, o)
            if use_cache and x[2] == 0 and os.path.exists(o):
                t = open(o).read().replace(repo + "/", "@R@/").replace(work + "/", "@W@/")
                tmp = key + ".%d" % os.getpid()
                open(tmp, "w").write(t)
                os.replace(tmp, key)
            return x
        def extract_one(u, o):
            r = subprocess.run([EXTRACT, o, roots, u, "--"] + flags(repo, gen), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=work)
            return u, o, r.returncode, r.stdout
        with ThreadPoolExecutor(max_workers=min(8, os.cpu_count() or 4)) as ex:
            res = list(ex.map(one, jobs))
        bad = [(u, out) for u, o, rc, out in res if rc != 0 or not os.path.exists(o)]
        # Units that the default build leaves out are parsed against
        # declaration-only stand-ins; a parse error there is local to them.
        soft = [x for x in bad if os.path.exists(os.path.join(work, "u%d.json" % [j[0] for j in jobs].index(x[0])))
                and (os.sep + "fmi" + os.sep in x[0] or os.sep + "proxy" + os.sep in x[0])]
        bad = [x for x in bad if x not in soft]
        if bad:
            raise AnalysisError("could not parse:\n" + "\n".join("%s:\n%s" % (u, out[-1500:]) for u, out in bad))
        merged = {"functions": {}, "records": {}, "enums": {}, "globals": {}, "units": [os.path.relpath(u, repo) for u in tus],
                  "broken": [os.path.relpath(x[0], repo) for x in soft]}
        for u, o, rc, out in res:
            d = json.load(open(o))
            for k in ("records", "enums", "globals"):
                for n, v in d[k].items():
                    if n not in merged[k] or (k == "globals" and v and v.get("init") is not None and (merged[k][n] or {}).get("init") is None):
                        merged[k][n] = v
            for n, v in d["functions"].items():
                # anonymous-namespace / lambda ids carry the file, so equal ids mean the same function
                if n in merged["functions"]:
                    if merged["functions"][n].get("dependent") and not v.get("dependent"):
                        merged["functions"][n] = v
                    continue
                v["id"] = n
                v["tu"] = os.path.relpath(u, repo)
                merged["functions"][n] = v
        if use_cache:
            tmp = cache + ".%d" % os.getpid()
            json.dump(merged, open(tmp, "w"))
            os.replace(tmp, cache)
            # keep only a few cached databases
            def age(f):
                try: return os.path.getmtime(f)
                except OSError: return 0
            olds = sorted((os.path.join(BUILD, f) for f in os.listdir(BUILD) if f.startswith("facts-") and f.endswith(".json")), key=age)
            for p in olds[:-40]:
                try: os.unlink(p)
                except OSError: pass
            olds = sorted((os.path.join(BUILD, f) for f in os.listdir(BUILD) if f.startswith("unit-") and f.endswith(".json")), key=age)
            for p in olds[:-1200]:
                try: os.unlink(p)
                except OSError: pass
        return DB(merged, repo)
    finally:
        shutil.rmtree(work, ignore_errors=True)

class DB:
    def __init__(self, d, repo):
        self.repo = repo
        self.F = d["functions"]
        self.R = d["records"]
        self.E = d["enums"]
        self.G = d["globals"]
        self.units = d["units"]
        self.broken = d.get("broken", [])
        for k, f in self.F.items():
            f["id"] = k
        self.byq = {}
        for f in self.F.values():
            self.byq.setdefault(f["q"], []).append(f)
        self._sub = None

    def rel(self, f):
        return os.path.relpath(f["f"], self.repo)

    def where(self, f, line=None):
        return "%s:%d" % (os.path.relpath(f["f"], self.repo), line or f["l"])

    def fn(self, q, n=None, must=True, pred=None):
        """Functions with qualified name q (and, optionally, n parameters)."""
        r = [f for f in self.byq.get(q, []) if (n is None or len(f["p"]) == n) and f.get("body") is not None and not f.get("dependent") and (pred is None or pred(f))]
        if not r and must:
            raise AnalysisError("anchor vanished: no definition of %s%s" % (q, "" if n is None else "/%d" % n))
        return r

    def one(self, q, n=None, pred=None):
        r = self.fn(q, n, True, pred)
        if len(r) != 1:
            raise AnalysisError("anchor ambiguous: %s has %d definitions" % (q, len(r)))
        return r[0]

    def rec(self, q, must=True):
        r = self.R.get(q)
        if r is None and must:
            raise AnalysisError("anchor vanished: class %s" % q)
        return r

    def subclasses(self, q):
        """All (transitive) classes derived from q, including itself if known."""
        out = set([q])
        ch = True
        while ch:
            ch = False
            for n, r in self.R.items():
                if n in out: continue
                if any(b.get("q") in out for b in r["bases"]):
                    out.add(n)
                    ch = True
        return out

    def overriders(self, fid):
        """Ids of in-repo functions that (transitively) override fid."""
        if not hasattr(self, "_ov"):
            self._ov = {}
            for f in self.F.values():
                for b in f.get("ov") or []:
                    self._ov.setdefault(b, set()).add(f["id"])
            for r in self.R.values():
                for m in r.get("methods") or []:
                    for b in m.get("ov") or []:
                        self._ov.setdefault(b, set()).add(m["id"])
        out, st = set(), [fid]
        while st:
            for x in self._ov.get(st.pop(), ()):
                if x not in out:
                    out.add(x)
                    st.append(x)
        return out

    def roots(self, fid):
        """Ids of the topmost functions that fid overrides."""
        if not hasattr(self, "_up"):
            self._up, self._mq = {}, {}
            for r in self.R.values():
                for m in r.get("methods") or []:
                    self._up.setdefault(m["id"], set()).update(m.get("ov") or [])
                    self._mq[m["id"]] = m["q"]
            for f in self.F.values():
                self._up.setdefault(f["id"], set()).update(f.get("ov") or [])
                self._mq.setdefault(f["id"], f["q"])
        cur = [fid]
        seen = set()
        tops = set()
        while cur:
            x = cur.pop()
            if x in seen: continue
            seen.add(x)
            ups = self._up.get(x) or ()
            if ups: cur += list(ups)
            else: tops.add(x)
        return tops

    def rootname(self, e):
        """Qualified name of the function a call denotes, at the top of its
        override hierarchy (so that calls through any static type agree)."""
        fid = e.get("id")
        if not fid or not e.get("virt"): return e.get("fn")
        c = self._rn.get(fid) if hasattr(self, "_rn") else None
        if c is None:
            if not hasattr(self, "_rn"): self._rn = {}
            tops = sorted(self._mq.get(x, "") for x in self.roots(fid)) if self.roots(fid) is not None else []
            tops = [t for t in tops if t]
            c = self._rn[fid] = tops[0] if tops else e.get("fn")
        return c

    def enumerators(self, q):
        e = self.E.get(q)
        if not e: return set()
        vs = e.get("v") or e.get("values") or e.get("enumerators") or e.get("e") or []
        out = set()
        for x in vs:
            if isinstance(x, str): out.add(x if "::" in x else q + "::" + x)
            else: out.add(x.get("q") or q + "::" + x["n"])
        return out

    def atomic_fields(self):
        if not hasattr(self, "_af"):
            self._af = set()
            for r in self.R.values():
                for f in r["fields"]:
                    if f["t"].startswith("std::atomic") or f["t"].startswith("std::__atomic") or f["t"].startswith("volatile"): self._af.add(f["n"])
        return self._af

    def is_a(self, cls, base):
        seen = set()
        st = [cls]
        while st:
            c = st.pop()
            if c == base: return True
            if c in seen: continue
            seen.add(c)
            r = self.R.get(c)
            if r:
                st += [b.get("q") or b["t"] for b in r["bases"]]
            elif c in STD_BASE:
                st.append(STD_BASE[c])
        return False

STD_BASE = {
    "std::runtime_error": "std::exception", "std::logic_error": "std::exception", "std::bad_alloc": "std::exception",
    "std::out_of_range": "std::logic_error", "std::invalid_argument": "std::logic_error", "std::length_error": "std::logic_error",
    "std::domain_error": "std::logic_error", "std::range_error": "std::runtime_error", "std::overflow_error": "std::runtime_error",
    "std::system_error": "std::runtime_error", "std::bad_optional_access": "std::exception", "std::bad_variant_access": "std::exception",
    "std::ios_base::failure": "std::system_error", "std::filesystem::filesystem_error": "std::system_error",
    "std::filesystem::__cxx11::filesystem_error": "std::system_error",
    "boost::bad_lexical_cast": "std::exception", "std::bad_cast": "std::exception",
}
