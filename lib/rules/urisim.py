"""Constant propagation for code that takes views of strings: a view is (buffer, generation of its contents, offset, length)."""
from strval import *
def strtype(t): return re.search(r"(^|[^_])basic_string<|^(const )?std::string\b", t or "") is not None and "optional" not in (t or "") and "basic_string_view" not in (t or "")

class URIAI(SAI):
    """env[key] = ("str", s) for string objects, ("gen", key) counts their modifications, ("cap", key) is their capacity.
    BAD: reasons why a read was outside of the text or of a string that is gone, by node."""
    def __init__(self, g, cell=None, extra=None, eff=None, assume=None, limit=8000, records=None):
        self.records = records or {}
        self.mixed = None
        self.more = extra
        def ef(ai, n, env):
            r = self.checked(n, env)
            if r is not None and "bad" in r: return r
            for f in (effect, eff):
                if f is None: continue
                r2 = f(ai, n, env if r is None else r)
                if r2 is not None: r = r2
            return r
        super().__init__(g, cell, self.evx, None, assume, limit)
        self.effect = ef
    # ---------------------------------------------------------------- values
    def view(self, v, env):
        """(contents, problem) of a view."""
        key, gen, off, ln = v[1:]
        cur = env.get(key)
        if s_of(cur) is None: return None, None
        if env.get(("gen", key), 0) != gen: return None, "reads a string that has been replaced"
        if off + ln > len(cur[1]): return None, "reads beyond the end of a string"
        return cur[1][off:off + ln], None
    def norm(self, v, env):
        if isinstance(v, tuple) and v and v[0] == "view":
            s, _ = self.view(v, env)
            return ("str", s) if s is not None else UNK
        return v
    def coerce(self, r, t, env):
        return self.norm(r, env) if strtype(t) else r
    def skey(self, e, fr, env):
        """The string object an expression denotes."""
        while isinstance(e, dict) and e["k"] in ("icast", "cast", "defarg"): e = e["e"]
        if not isinstance(e, dict) or not strtype(e.get("t")): return None
        k = self.lkey(e, fr, env)
        return k if k is not None and k in env and s_of(env[k]) is not None else None
    def evx(self, ai, e, fr, env):
        if self.more is not None:
            r = self.more(ai, e, fr, env)
            if r is not NotImplemented: return r
        fn, k = e.get("fn") or "", e["k"]
        A = [a for a in e.get("a") or [] if a["k"] != "defarg"]
        ev = lambda x: self.ev(x, fr, env)
        t = (e.get("t") or "").replace("const ", "")
        if k in ("ctor", "init") and t in self.records and id(e) not in fr.inl or k == "init" and t in self.records:
            fs = self.records[t]["fields"]
            if len(A) == 1 and (A[0].get("t") or "").replace("const ", "") == t: return ev(A[0])
            return ("rec",) + tuple((f["n"], ev(A[i]) if i < len(A) else (self.ev(f["init"], fr, env) if f.get("init") else None)) for i, f in enumerate(fs))
        if k == "ctor" and t in self.records and not A:
            return ("rec",) + tuple((f["n"], self.ev(f["init"], fr, env) if f.get("init") else None) for f in self.records[t]["fields"])
        if k == "ctor" and ("optional<" in t) and not A: return NULL
        if k in ("ctor", "init") and "basic_string_view" in t and "optional" not in t:
            vs = [ev(a) for a in A]
            if not A: return ("str", "")
            if len(A) == 1 and strtype(A[0].get("t")):
                key = self.skey(A[0], fr, env)
                if key is not None: return ("view", key, env.get(("gen", key), 0), 0, len(env[key][1]))
            if isinstance(vs[0], tuple) and vs[0][0] == "view" and len(vs) == 1: return vs[0]
            if isinstance(vs[0], tuple) and vs[0][0] == "ptr" and len(vs) == 2 and isinstance(vs[1], int): return ("view",) + vs[0][1:] + (vs[1],)
            if any(isinstance(v, tuple) and v and v[0] in ("view", "ptr") for v in vs): return UNK
            return NotImplemented
        if k in ("ctor", "init") and strtype(t):
            vs = [ev(a) for a in A]
            if any(isinstance(v, tuple) and v and v[0] in ("view", "ptr") for v in vs):
                vs = [self.norm(v, env) for v in vs]
                if s_of(vs[0]) is None: return UNK
                if len(vs) == 1 or not any(isinstance(v, int) for v in vs[1:]): return ("str", vs[0][1])
                if len(vs) == 3 and all(isinstance(v, int) for v in vs[1:]): return ("str", vs[0][1][vs[1]:vs[1] + vs[2]])
                return UNK
            return NotImplemented
        if k != "call" or id(e) in fr.inl: return NotImplemented
        op, nm = e.get("op"), last(fn)
        o = e.get("obj")
        if o is not None and e.get("conv") and "basic_string_view" in fn.split("operator ")[-1]:
            key = self.skey(o, fr, env)
            if key is not None: return ("view", key, env.get(("gen", key), 0), 0, len(env[key][1]))
            return ev(o)
        if o is not None and nm in ("data", "c_str") and strtype(o.get("t")):
            key = self.skey(o, fr, env)
            if key is not None: return ("ptr", key, env.get(("gen", key), 0), 0)
        if o is not None and nm == "capacity":
            key = self.skey(o, fr, env)
            if key is not None: return max(env.get(("cap", key), 15), len(env[key][1]))
        if o is not None and nm == "value_or" and A:
            v = ev(o)
            return ev(A[0]) if v == NULL else v
        if o is not None and nm == "value" and not A: return ev(o)
        ops = ([o] if o is not None else []) + A
        vs = [ev(x) for x in ops]
        if fn in ("std::isalpha", "isalpha", "std::isalnum", "isalnum", "std::isdigit", "isdigit", "std::isxdigit", "isxdigit", "std::tolower", "tolower", "std::toupper", "toupper") and isinstance(vs[0], int):
            # the C locale
            c_ = vs[0] & 0xff
            d, a = 48 <= c_ <= 57, 65 <= c_ <= 90 or 97 <= c_ <= 122
            n2 = last(fn)
            if n2 == "tolower": return c_ + 32 if 65 <= c_ <= 90 else c_
            if n2 == "toupper": return c_ - 32 if 97 <= c_ <= 122 else c_
            return int({"isalpha": a, "isalnum": a or d, "isdigit": d, "isxdigit": d or 65 <= c_ <= 70 or 97 <= c_ <= 102}[n2])
        if fn in ("std::max", "std::min") and len(vs) == 2 and all(isinstance(v, int) for v in vs): return (max if fn[5:] == "max" else min)(vs)
        if not any(isinstance(v, tuple) and v and v[0] in ("view", "ptr") for v in vs): return NotImplemented
        if fn in ("std::move", "std::forward", "std::as_const"): return vs[0]
        v0 = vs[0]
        if o is not None and v0 and v0[0] == "view":
            if nm in ("size", "length"): return v0[4]
            if nm == "empty": return v0[4] == 0
            if nm in ("data",): return ("ptr",) + v0[1:4]
            if nm == "substr":
                p, n = (vs[1:] + [0, NPOS][len(vs) - 1:])[:2]
                if not isinstance(p, int) or not isinstance(n, int) or p > v0[4]: return UNK
                return ("view", v0[1], v0[2], v0[3] + p, min(n, v0[4] - p))
            if op in ("*", "->") and not A or nm in ("operator bool", "has_value"): return NotImplemented
        if op == "=" : return vs[-1]
        r = [self.norm(v, env) for v in vs]
        if UNK in r: return UNK
        if not any(isstr(v) for v in r): return UNK
        x = evop(e, op, nm, fn, r)
        return UNK if x is None else x
    def binop(self, op, a, b):
        p = lambda v: isinstance(v, tuple) and v and v[0] == "ptr"
        if p(a) and p(b):
            if a[1:3] != b[1:3]: self.mixed = "compares or subtracts pointers into %s" % ("different strings" if a[1] != b[1] else "a string that has been reallocated"); return UNK
            if op == "-": return a[3] - b[3]
            if op in ("==", "!=", "<", ">", "<=", ">="): return {"==": a[3] == b[3], "!=": a[3] != b[3], "<": a[3] < b[3], ">": a[3] > b[3], "<=": a[3] <= b[3], ">=": a[3] >= b[3]}[op]
        if p(a) and isinstance(b, int) and op in ("+", "-"): return a[:3] + (a[3] + (b if op == "+" else -b),)
        if p(b) and isinstance(a, int) and op == "+": return b[:3] + (b[3] + a,)
        if isinstance(a, int) and isinstance(b, int) and op in ("<<", ">>", "|", "&", "^", "%", "/"):
            if op in ("%", "/") and not b: return UNK
            return {"<<": a << b, ">>": a >> b, "|": a | b, "&": a & b, "^": a ^ b, "%": a % b if b else 0, "/": a // b if b else 0}[op]
        return super().binop(op, a, b)
    def ev(self, e, fr, env, depth=0):
        if isinstance(e, dict) and e["k"] in ("ref", "mem") and (e.get("q") or "").endswith("std::nullopt") : return NULL
        if isinstance(e, dict) and e["k"] == "mem" and not e.get("arrow"):
            b = self.ev(e["b"], fr, env, depth + 1)
            if isinstance(b, tuple) and b and b[0] == "rec":
                return dict(b[1:]).get(e["n"])
        if isinstance(e, dict) and e["k"] == "bin" and e["op"] == "-" :
            r = super().ev(e, fr, env, depth)
            return wrap2(r, e.get("t"))
        if isinstance(e, dict) and e["k"] in ("icast", "cast") and (e.get("t") or "").replace("const ", "") in ("char", "signed char"):
            r = super().ev(e, fr, env, depth)
            return ((r & 0xff)) if isinstance(r, int) and not isinstance(r, bool) else r
        return super().ev(e, fr, env, depth)
    # --------------------------------------------------------------- effects
    def checked(self, n, env):
        """Bounds of what the node reads, and updates of views and strings."""
        if n.fr is None: return None
        if n.k == "write":
            pe = n.d.get("place")
            key = None
            if isinstance(pe, dict) and strtype(pe.get("t")):
                key = self.raw(pe, n.fr) if pe.get("k") == "mem" else None
                if key is None: key = self.key(self.g.place(n))
            if key is not None and s_of(env.get(key)) is not None:
                L = len(env[key][1])
                if n.d.get("op") == "+=":
                    if L > env.get(("cap", key), 15): env = dict(env); env[("gen", key)] = env.get(("gen", key), 0) + 1; env[("cap", key)] = 2 * L
                    return env
                if n.d.get("op") == "=":
                    env = dict(env); env[("gen", key)] = env.get(("gen", key), 0) + 1
                    return env
            return None
        if n.k != "call": return None
        e, fr = n.e, n.fr
        fn, op = e.get("fn") or "", e.get("op")
        nm = last(fn)
        o = e.get("obj")
        A = [a for a in e.get("a") or [] if a["k"] != "defarg"]
        bad = None
        vs = [self.ev(x, fr, env) for x in ([o] if o is not None else []) + A]
        for v in vs:
            if isinstance(v, tuple) and v and v[0] == "view" and nm not in ("size", "length", "empty", "data", "substr", "remove_prefix", "remove_suffix", "operator*", "operator bool", "has_value", "optional", "value", "move", "operator->", "operator=", "swap"):
                if "basic_string_view" in nm: continue
                _, p = self.view(v, env)
                if p: bad = p
        if o is not None and vs[0] is not None:
            v0 = vs[0]
            t = o.get("t") or ""
            isview = "basic_string_view" in t and "optional" not in t
            L = v0[4] if isinstance(v0, tuple) and v0 and v0[0] == "view" else len(v0[1]) if isinstance(v0, tuple) and v0 and v0[0] == "str" and (strtype(t) or isview) else None
            if L is not None:
                i = vs[1] if len(vs) > 1 else None
                if op == "[]" and isinstance(i, int) and not isinstance(i, bool) and (i >= L + (0 if isview else 1) or i < 0): bad = "reads character %d of a text of %d characters" % (i, L) if i < NPOS // 2 else "reads a character far outside of the text"
                if nm in ("front", "back", "pop_back") and L == 0: bad = "%s() of an empty text" % nm
                if nm in ("remove_prefix", "remove_suffix") and isinstance(i, int) and (i > L or i < 0): bad = "%s(%d) of a text of %d characters" % (nm, i, L)
                if nm in ("substr", "erase", "at", "insert", "replace") and isinstance(i, int) and i > L: bad = "%s() from position %d of a text of %d characters" % (nm, i, L)
                if nm == "at" and i == L: bad = "at(%d) of a text of %d characters" % (i, L)
        if bad is not None:
            env = dict(env); env["bad"] = (n, bad)
            return env
        if o is not None and nm in ("remove_prefix", "remove_suffix"):
            key = self.lkey(o, fr, env)
            v, k = vs[0], vs[1] if len(vs) > 1 else None
            if key is not None and isinstance(v, tuple):
                env = dict(env)
                if isinstance(k, int) and v[0] == "view": env[key] = ("view", v[1], v[2], v[3] + (k if nm == "remove_prefix" else 0), v[4] - k)
                elif isinstance(k, int) and v[0] == "str": env[key] = ("str", v[1][k:] if nm == "remove_prefix" else v[1][:len(v[1]) - k])
                else: env[key] = UNK
                return env
            return None
        if o is not None and strtype(o.get("t")) and nm in ("reserve", "clear", "erase", "pop_back", "append", "push_back", "insert", "assign", "resize", "replace", "swap"):
            key = self.skey(o, fr, env)
            if key is not None:
                env = dict(env)
                if nm == "reserve":
                    if isinstance(vs[1], int): env[("cap", key)] = max(vs[1], env.get(("cap", key), 15))
                    return env
                r = effect(self, n, env)
                grown = nm in ("append", "push_back") and r is not None and s_of(r.get(key)) is not None and len(r[key][1]) <= env.get(("cap", key), 15)
                if not grown: env[("gen", key)] = env.get(("gen", key), 0) + 1
                return env
        return None

def wrap2(r, t):
    """Differences of unsigned numbers."""
    if isinstance(r, int) and not isinstance(r, bool) and r < 0 and (t or "").replace("const ", "") in ("unsigned long", "std::size_t", "size_t"): return r + (1 << 64)
    return r
