"""Constant propagation for strings and paths: ("str", s), ("path", s), iterators ("it", container value, index)."""
from slvsim import *
from absint import AI, NULL, UNK, truth
STR = re.compile(r"basic_string(_view)?<|^std::string(_view)?$")
NPOS = 18446744073709551615
def isstr(v): return isinstance(v, tuple) and v and v[0] in ("str", "path", "it")
def s_of(v): return v[1] if isinstance(v, tuple) and v and v[0] in ("str", "path") else None

def parts(s):
    """The elements one gets by iterating over std::filesystem::path(s)."""
    out = []
    if s.startswith("/"): out.append("/")
    rest = s.lstrip("/")
    if rest:
        out += [x for x in rest.split("/") if x]
        if rest.endswith("/"): out.append("")
    return out
def join(a, b):
    if b.startswith("/"): return b
    if a and not a.endswith("/"): a += "/"
    return a + b
def filename(s): return s.rsplit("/", 1)[-1]
def parent(s):
    i = s.rfind("/")
    if i < 0: return ""
    r = s[:i].rstrip("/")
    return r or "/"
def normal(s):
    if not s: return s
    root = s.startswith("/")
    out, ps = [], parts(s)
    ps = ps[1:] if root else ps
    for x in ps:
        if x == ".": last_ = ""; continue
        if x == "..":
            if out and out[-1] != "..": out.pop(); continue
            if root: continue
        if x: out.append(x)
    tr = ps and ps[-1] in ("", ".", "..") and out and out[-1] != ".."
    r = ("/" if root else "") + "/".join(out) + ("/" if tr else "")
    return r or "."
def stem(s):
    f = filename(s)
    if f in (".", ".."): return f
    i = f.rfind(".")
    return f if i <= 0 else f[:i]
def inside(s, base):
    """Does path s, which starts with the directory base, stay below it after every component?"""
    if s != base and not s.startswith(base + "/"): return False
    d = 0
    for x in parts(s[len(base):]):
        if x in ("/", ".", ""): continue
        d += -1 if x == ".." else 1
        if d < 0: return False
    return True

def evstr(ai, e, fr, env):
    """Meaning of a call or constructor on known strings and paths; NotImplemented if it is none."""
    fn = e.get("fn") or ""
    A = [a for a in e.get("a") or [] if a["k"] != "defarg"]
    ev = lambda x: ai.ev(x, fr, env)
    if e["k"] in ("ctor", "new", "init"):
        t = e.get("t") or ""
        ispath = t.replace("const ", "").endswith("filesystem::path") or fn.endswith("path::path")
        if not ispath and not STR.search(t): return NotImplemented
        vs = [ev(a) for a in A]
        if vs and UNK in vs: return UNK
        if len(vs) == 2 and not ispath and all(isinstance(v, tuple) and v and v[0] == "it" for v in vs) and vs[0][1] == vs[1][1] and vs[0][1][0] == "str": return ("str", vs[0][1][1][vs[0][2]:vs[1][2]])
        s = s_of(vs[0]) if vs else ""
        if s is None: return UNK if any(isstr(v) for v in vs) else NotImplemented
        if len(vs) == 2 and not ispath and isinstance(vs[1], int) and "char" in (A[0].get("t") or ""): s = s[:vs[1]]
        elif len(vs) == 3 and isinstance(vs[1], int) and isinstance(vs[2], int): s = s[vs[1]:vs[1] + vs[2]]
        elif len(vs) > 1 and not ispath and any(v is not None for v in vs[1:]): return UNK
        return ("path" if ispath else "str", s)
    if e["k"] != "call": return NotImplemented
    op, nm = e.get("op"), fn.split("::")[-1]
    ops = ([e["obj"]] if e.get("obj") is not None else []) + A
    if id(e) in fr.inl: return NotImplemented
    vs = [ev(a) for a in ops]
    if not any(isstr(v) or v == UNK for v in vs): return NotImplemented
    if UNK in vs: return UNK
    if e.get("obj") is not None and re.search(r"optional<|_ptr<", e["obj"].get("t") or ""):
        if op in ("*", "->") and len(vs) == 1 or nm == "value" and len(vs) == 1: return vs[0]
        if nm in ("operator bool", "has_value"): return True
    r = evop(e, op, nm, fn, vs)
    return UNK if r is None else r

def evop(e, op, nm, fn, vs):
    v0 = vs[0]
    s0 = s_of(v0)
    s1 = s_of(vs[1]) if len(vs) > 1 else None
    ch = lambda v: chr(v) if isinstance(v, int) and not isinstance(v, bool) and 0 <= v < 256 else None
    S = lambda v: s_of(v) if s_of(v) is not None else ch(v)
    if op in ("==", "!=", "<", ">", "<=", ">=") and len(vs) == 2:
        if v0 and v0[0] == "it" and vs[1] is not None and vs[1][0] == "it" and v0[1] == vs[1][1]:
            return {"==": v0[2] == vs[1][2], "!=": v0[2] != vs[1][2], "<": v0[2] < vs[1][2], ">": v0[2] > vs[1][2]}.get(op)
        if s0 is None or s1 is None: return None
        # paths compare by their elements
        a, b = (parts(s0), parts(s1)) if "path" in (v0[0], vs[1][0]) else (s0, s1)
        if op in ("==", "!="): return (a == b) == (op == "==")
        return None
    if op == "+" and len(vs) == 2:
        if v0 and v0[0] == "it" and isinstance(vs[1], int): return ("it", v0[1], v0[2] + vs[1])
        a, b = S(v0), S(vs[1])
        return None if a is None or b is None else ("str", a + b)
    if op == "/" and s0 is not None and s1 is not None: return ("path", join(s0, s1))
    if op == "*" and v0[0] == "it":
        seq = parts(s_of(v0[1])) if v0[1][0] == "path" else s_of(v0[1])
        if not 0 <= v0[2] < len(seq): return None
        return ("path", seq[v0[2]]) if v0[1][0] == "path" else ord(seq[v0[2]])
    if op == "[]" and s0 is not None and isinstance(vs[1], int): return ord(s0[vs[1]]) if 0 <= vs[1] < len(s0) else (0 if vs[1] == len(s0) else None)
    if op in ("++", "--") and v0[0] == "it": return v0     # carried out by effect()
    if nm in ("move", "forward", "as_const"): return v0
    if e.get("obj") is None:
        if nm in ("begin", "cbegin"): return ("it", v0, 0)
        if nm in ("end", "cend"): return ("it", v0, len(parts(s0)) if v0[0] == "path" else len(s0))
        if nm in ("next", "prev") and v0[0] == "it": return ("it", v0[1], v0[2] + (vs[1] if len(vs) > 1 and isinstance(vs[1], int) else 1) * (1 if nm == "next" else -1))
        if nm == "find" and len(vs) == 3 and v0[0] == "it" and vs[1] and vs[1][0] == "it":
            seq = parts(s_of(v0[1])) if v0[1][0] == "path" else list(s_of(v0[1]))
            x = S(vs[2])
            if x is None: return None
            for i in range(v0[2], vs[1][2]):
                if seq[i] == x: return ("it", v0[1], i)
            return vs[1]
        if nm == "strcmp": return None if s0 is None or s1 is None else (s0 > s1) - (s0 < s1)
        if nm == "strlen": return None if s0 is None else len(s0)
        if nm == "strstr": return None if s0 is None or s1 is None else (("str", s0[s0.find(s1):]) if s1 in s0 else NULL)
        if nm == "exists" or nm == "is_directory": return None
        return None
    if s0 is None: return None
    if v0[0] == "path":
        r = {"has_root_path": s0.startswith("/"), "has_root_directory": s0.startswith("/"), "is_absolute": s0.startswith("/"),
             "is_relative": not s0.startswith("/"), "has_root_name": False, "empty": not s0, "has_filename": bool(filename(s0)),
             "has_parent_path": bool(parent(s0)), "has_relative_path": bool(s0.lstrip("/")), "has_stem": bool(stem(s0))}.get(nm)
        if r is not None: return r
        r = {"filename": lambda: filename(s0), "parent_path": lambda: parent(s0), "relative_path": lambda: s0.lstrip("/"),
             "lexically_normal": lambda: normal(s0), "root_path": lambda: "/" if s0.startswith("/") else "", "root_directory": lambda: "/" if s0.startswith("/") else "",
             "root_name": lambda: "", "stem": lambda: stem(s0), "extension": lambda: filename(s0)[len(stem(s0)):], "make_preferred": lambda: s0}.get(nm)
        if r is not None: return ("path", r())
        if nm in ("string", "native", "generic_string", "u8string", "generic_u8string", "c_str") or e.get("conv"): return ("str", s0)
        if nm == "begin": return ("it", v0, 0)
        if nm == "end": return ("it", v0, len(parts(s0)))
        if nm == "compare" and s1 is not None: return (parts(s0) > parts(s1)) - (parts(s0) < parts(s1))
        return None
    if nm in ("c_str", "data", "str") or e.get("conv"): return ("str", s0)
    if nm == "empty": return not s0
    if nm in ("size", "length"): return len(s0)
    if nm == "front": return ord(s0[0]) if s0 else None
    if nm == "back": return ord(s0[-1]) if s0 else None
    if nm == "at" and isinstance(vs[1], int): return ord(s0[vs[1]]) if 0 <= vs[1] < len(s0) else None
    if nm in ("begin", "cbegin"): return ("it", v0, 0)
    if nm in ("end", "cend"): return ("it", v0, len(s0))
    if nm in ("find", "rfind") and len(vs) in (2, 3):
        x, pos = S(vs[1]), vs[2] if len(vs) == 3 else (0 if nm == "find" else NPOS)
        if x is None or not isinstance(pos, int): return None
        if nm == "find": i = s0.find(x, pos)
        else: i = s0.rfind(x, 0, pos + len(x))
        return NPOS if i < 0 else i
    if nm in ("find_first_of", "find_last_of", "find_first_not_of", "find_last_not_of") and len(vs) == 2:
        x = S(vs[1])
        if x is None: return None
        ix = [i for i, ch_ in enumerate(s0) if (ch_ in x) != ("_not_" in nm)]
        return NPOS if not ix else (ix[0] if "first" in nm else ix[-1])
    if nm == "substr":
        p = vs[1] if len(vs) > 1 else 0
        n = vs[2] if len(vs) > 2 else NPOS
        if not isinstance(p, int) or not isinstance(n, int) or p > len(s0): return None
        return ("str", s0[p:p + n])
    if nm == "compare":
        if len(vs) == 2 and s1 is not None: return (s0 > s1) - (s0 < s1)
        if len(vs) == 4 and isinstance(vs[1], int) and isinstance(vs[2], int) and s_of(vs[3]) is not None and vs[1] <= len(s0):
            x = s0[vs[1]:vs[1] + vs[2]]; y = s_of(vs[3])
            return (x > y) - (x < y)
        return None
    if nm in ("starts_with", "ends_with"):
        x = S(vs[1])
        return None if x is None else (s0.startswith(x) if nm[0] == "s" else s0.endswith(x))
    return None

def loop(ai, n, lab, env):
    """Range-for over a known path or string."""
    lp = n.d.get("loop")
    if lp is not None and lp.algo is not None: return algo(ai, n, lp, lab, env)
    if lp is None or lp.cont_expr is None: return env
    v = ai.norm(ai.ev(lp.cont_expr[0], lp.cont_expr[1], env), env)
    if s_of(v) is None: return env
    seq = parts(v[1]) if v[0] == "path" else v[1]
    i = env.get(("loop", n.id), 0)
    if (lab == "T") != (i < len(seq)): return None
    env = dict(env)
    if lab != "T": env.pop(("loop", n.id), None); return env
    env[("loop", n.id)] = i + 1
    for x in ai.loopvars.get(n, ()): env[x] = ("path", seq[i]) if v[0] == "path" else ord(seq[i])
    return env

RESULT = {"std::all_of": True, "std::none_of": True, "std::any_of": False}
def algo(ai, n, lp, lab, env):
    """An algorithm with a predicate or function over [first, last) of a known string or path."""
    e = lp.stmt
    A = e.get("a") or []
    a, b = (ai.norm(ai.ev(x, n.fr, env), env) for x in A[:2]) if len(A) > 2 else (None, None)
    if lp.frame is None or not all(isinstance(x, tuple) and x and x[0] == "it" for x in (a, b)) or a[1] != b[1]: return env
    seq = parts(a[1][1]) if a[1][0] == "path" else a[1][1]
    i = env.get(("loop", n.id), a[2])
    if (lab == "T") != (i < b[2]): return None
    env = dict(env)
    if lab != "T":
        env.pop(("loop", n.id), None)
        if lp.algo in RESULT: env[("ALG", id(e))] = RESULT[lp.algo]
        elif lp.algo in ("std::find_if", "std::find_if_not"): env[("ALG", id(e))] = b
        return env
    env[("loop", n.id)] = i + 1
    ps = lp.frame.fn["p"]
    if ps:
        v = lp.frame.vars.get(ps[-1]["d"])
        if v is not None: env[v.term] = ("path", seq[i]) if a[1][0] == "path" else ord(seq[i])
    return env
def algo_hit(ai, n, lab, env):
    """The predicate of an algorithm has decided."""
    h = n.d.get("predof")
    if h is None: return env
    lp = h.d["loop"]
    if lab != ai.g.PREDS[lp.algo]: return env
    env = dict(env)
    i = env.pop(("loop", h.id), None)
    e = lp.stmt
    if lp.algo in RESULT: env[("ALG", id(e))] = not RESULT[lp.algo]
    elif i is not None:
        a = ai.norm(ai.ev((e.get("a") or [None])[0], n.fr, env), env)
        if isinstance(a, tuple) and a[0] == "it": env[("ALG", id(e))] = ("it", a[1], i - 1)
    return env

def effect(ai, n, env):
    """Iterator and string updates."""
    if n.k == "decl" and n.d["var"].term in ai.allloopvars and n.d["var"].term not in env:
        # the variable of a range-for: its value comes from the loop
        return None
    if n.k != "call" or n.fr is None: return None
    e = n.e
    op, nm = e.get("op"), (e.get("fn") or "").split("::")[-1]
    ops = ([e["obj"]] if e.get("obj") is not None else []) + [a for a in e.get("a") or [] if a["k"] != "defarg"]
    if not ops: return None
    mod = op in ("++", "--", "+=", "/=", "-=") or nm in ("append", "push_back", "assign", "concat", "erase", "insert", "replace", "clear", "pop_back", "remove_filename", "replace_filename", "advance", "swap", "resize")
    if not mod: return None
    key = ai.lkey(ops[0], n.fr, env)
    if key is None or key not in env: return None
    v = env[key]
    if not isstr(v): return None
    env = dict(env)
    a = ai.norm(ai.ev(ops[1], n.fr, env), env) if len(ops) > 1 else None
    r = UNK
    if op in ("++", "--") and v[0] == "it": r = ("it", v[1], v[2] + (1 if op == "++" else -1))
    elif nm == "advance" and v[0] == "it" and isinstance(a, int): r = ("it", v[1], v[2] + a)
    elif op == "/=" and s_of(a) is not None: r = ("path", join(v[1], s_of(a)))
    elif (op == "+=" or nm in ("append", "push_back", "concat")) and len(ops) == 2:
        x = s_of(a) if s_of(a) is not None else (chr(a) if isinstance(a, int) else None)
        if x is not None: r = ("path", join(v[1], x)) if v[0] == "path" and nm == "append" else (v[0], v[1] + x)
    elif nm == "append" and v[0] == "str" and len(ops) in (3, 4):
        A = [ai.norm(ai.ev(x, n.fr, env), env) for x in ops[1:]]
        if s_of(A[0]) is not None and all(isinstance(x, int) for x in A[1:]):
            r = ("str", v[1] + (A[0][1][A[1]:A[1] + A[2]] if len(A) == 3 else A[0][1][A[1]:] if "char" not in (ops[1].get("t") or "") or "basic_string" in ops[1]["t"] else A[0][1][:A[1]]))
        elif isinstance(A[0], int) and isinstance(A[1], int) and len(A) == 2: r = ("str", v[1] + chr(A[1]) * A[0])
    elif nm == "erase" and v[0] == "str":
        A = [ai.ev(x, n.fr, env) for x in ops[1:]]
        if all(isinstance(x, int) for x in A) and (not A or A[0] <= len(v[1])):
            p, k = (A + [0, NPOS][len(A):])[:2]
            r = ("str", v[1][:p] + v[1][min(len(v[1]), p + k):])
    elif nm == "assign" and v[0] == "str" and len(ops) == 2 and s_of(ai.norm(a, env)) is not None: r = ("str", s_of(ai.norm(a, env)))
    elif nm == "insert" and v[0] == "str" and len(ops) == 3:
        b = ai.norm(ai.ev(ops[2], n.fr, env), env)
        if isinstance(a, int) and s_of(b) is not None and a <= len(v[1]): r = ("str", v[1][:a] + s_of(b) + v[1][a:])
    elif nm == "clear": r = (v[0], "")
    elif nm == "pop_back" and v[1]: r = (v[0], v[1][:-1])
    env[key] = r
    return env

class SAI(AI):
    """AI with string semantics; extra(ai, e, fr, env) comes first."""
    def __init__(self, g, cell=None, extra=None, eff=None, assume=None, limit=60000):
        def call(ai, e, fr, env):
            if ("ALG", id(e)) in env: return env[("ALG", id(e))]
            if extra is not None:
                r = extra(ai, e, fr, env)
                if r is not NotImplemented: return r
            return evstr(ai, e, fr, env)
        def ef(ai, n, env):
            r = effect(ai, n, env)
            if eff is not None:
                r2 = eff(ai, n, env if r is None else r)
                if r2 is not None: r = r2
            return r
        def asm(ai, n, lab, env):
            if lab in ("T", "F") and ("unk",) not in env and ai.ev(n.e, n.fr, env) == UNK:
                env = dict(env); env[("unk",)] = True
            env = algo_hit(ai, n, lab, env)
            return assume(ai, n, lab, env) if assume is not None else env
        super().__init__(g, cell, call, ef, asm, limit, loop)
        self.loopvars = {}
        for n in g.live():
            if n.k == "loop" and n.d.get("loop") is not None:
                for fr in [n.fr]:
                    for v in fr.vars.values():
                        if any(d[1] == "elem" and d[2] is n.d["loop"] for d in v.defs): self.loopvars.setdefault(n, set()).add(v.term)
        self.allloopvars = set().union(*self.loopvars.values()) if self.loopvars else set()
    def norm(self, v, env): return v
    def compound(self, op, old, d, env):
        d = self.norm(d, env)
        if op == "+=" and isstr(old) and old[0] == "str":
            x = s_of(d) if s_of(d) is not None else chr(d) if isinstance(d, int) and not isinstance(d, bool) and 0 <= d < 256 else None
            return UNK if x is None else ("str", old[1] + x)
        return super().compound(op, old, d, env)
    @staticmethod
    def char(b, i):
        if s_of(b) is None or not isinstance(i, int): return None
        return ord(b[1][i]) if 0 <= i < len(b[1]) else (0 if i == len(b[1]) else None)
    mem = {"zip_stat::name": ("zsname",)}
    def ev(self, e, fr, env, depth=0):
        if isinstance(e, dict) and e["k"] == "str" and isinstance(e.get("v"), str): return ("str", e["v"])
        if isinstance(e, dict) and e["k"] in ("ref", "mem") and (e.get("n") == "npos" or str(e.get("q", "")).endswith("::npos")): return NPOS
        if isinstance(e, dict) and e["k"] == "mem" and e.get("q") in self.mem: return env.get(self.mem[e["q"]])
        if isinstance(e, dict) and e["k"] == "sub":
            r = self.char(self.ev(e["a"], fr, env, depth + 1), self.ev(e["b"], fr, env, depth + 1))
            if r is not None: return r
        return super().ev(e, fr, env, depth)
