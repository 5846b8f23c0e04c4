"""C08: set - act - read back, modifiers."""
from slvsim import *
import slvhist
RULE = """
The functions of a class that drives a slave are followed with structured values (vectors, maps, modifiers as uninterpreted functions, the slave's
operations as recorded calls), from construction through every history of set, modifier, expose, setup, iteration, start and step operations on one and
two variables of each type and on variables of all types together, until no new combination of the object's state and the oracle's arises.  The oracle
knows each input's last value, whether it was set since the last transmission, and its modifier.  In every transmitting operation each such input is given to
the slave, before it acts, with its last value or, if it has a modifier, with the modifier applied once to that value and the operation's step length; nothing that
was not exposed is sent; every exposed output is read after the slave has acted; get_T then gives what was read, or the modifier applied once to it.
Where some outcome cannot be decided, the data flow is judged instead: every path of do_iteration, start_simulation and do_step hands
the pending references and values of each type to the slave before it acts and reads back afterwards; every input modifier is applied to the
value transmitted; pending containers are reset after the transmission, on every path, and not before; set_T records reference, value and position.
"""
ASSUME = ["containers treat the values they hold alike (two values of each type, and two variables of a type, stand for any)", "the slave's operations succeed"]
PH = {"do_iteration": None, "start_simulation": SLV + "start_simulation", "do_step": SLV + "do_step"}

def check(c):
    for cls in drivers(c):
        if slvhist.histories(c, c.db, cls): continue
        # something was not decided: what can be said about the data flow
        R = roles(c, cls)
        inv = invariants(c, R)
        for op, act in PH.items():
            f, g = R.phase[op]
            c.covers_fn = f
            phase(c, R, op, act, f, g, inv)
        f, g = R.phase["setup"]
        readback(c, R, "setup", SLV + "setup", f, g, inv)
        for t in TYPES:
            setter(c, R, t)
            expose_get(c, R, t)
        others(c, R)
    c.need("histories", 1)

def invariants(c, R):
    """bool fields that are false whenever a phase function starts."""
    out = {}
    cand = set()
    for op, (f, g) in R.phase.items():
        for n in g.live():
            if n.k == "branch":
                a = bare(g.atom(n)[0])
                a = a[1] if a[0] == "truthy" else a
                if a[0] == "f" and pimpl_this(a) is False and root_field(a) == a or a[0] == "f": cand.add(a)
    for a in cand:
        ok = False
        # initial value
        ini = None
        for q, r in c.db.R.items():
            for fl in r.get("fields", []):
                if fl["n"] == a[2] and fl["t"] == "bool" and fl.get("init") is not None: ini = fl["init"]
        if ini is None or "false" not in str(ini).lower() and "False" not in str(ini): continue
        ok = True
        for op, (f, g) in R.phase.items():
            if any(n.k == "write" and bare(g.place(n)) == a for n in g.live()):
                st = [(g.entry, None)]
                for m, facts, p in c.path(g, [g.entry], lambda m: m is g.exit, collect=True, facts={raw_atom(g, a): False} if raw_atom(g, a) else None):
                    if known(facts, a) is not False: ok = False
        for t in TYPES:
            for f, g in (R.sets[t], R.gets[t], R.inm[t], R.outm[t]):
                if any(n.k == "write" and bare(g.place(n)) == a and bare(g.value(n)) != ("bool", False) for n in g.live()): ok = False
        if ok: out[a] = False
    return out
def known(facts, a):
    for k, v in facts.items():
        b = bare(k)
        if b == a or b == ("truthy", a): return v
    return None
def raw_atom(g, a):
    for n in g.live():
        if n.k == "branch":
            x = g.atom(n)[0]
            if bare(x) == a or bare(x) == ("truthy", a): return x
    return None
def entry_facts(g, inv):
    f = {}
    for a, v in inv.items():
        x = raw_atom(g, a)
        if x is not None: f[x] = v
    return f or None

def step_len(g, f, op, t):
    """Is t the length of the step of phase op?"""
    if op == "do_step": return is_param(t, pname(f, 1))
    return is_zero(t)
def is_zero(t):
    return isinstance(t, tuple) and (t[0] == "call" and t[1].endswith("duration::zero") or t[0] == "call" and t[1].split("<")[0].endswith("duration") and t[1].endswith("::zero") or t == ("int", "0")
        or t[0] == "new" and t[2] and len(t[2]) == 1 and t[2][0][1] == ("int", "0") or t[0] == "new" and not t[2] and "duration" in t[1])

def phase(c, R, op, act, f, g, inv):
    B = Bg(g)
    live = g.live()
    q = f["q"]
    facts = entry_facts(g, inv)
    acts = [n for n in live if n.k == "call" and g.root(n) == act] if act else [n for n in live if n.k == "call" and g.root(n) in GETV.values()]
    if not acts: return c.viol("act", c.db.where(f), "%s does not make the slave act" % q, key=q + "|act")
    for t in TYPES:
        tx = [n for n in live if n.k == "call" and g.root(n) == SETV[t]]
        c.ob("transmissions", "%s %s (%d sites)" % (q, t, len(tx)))
        refs, vals = R.ref.get(t, set()), R.val.get(t, set())
        if not refs: c.viol("set", c.db.where(f), "no %s values are ever sent to the slave" % t, key="set|" + t); continue
        skip = lambda n, lab: any(says_empty(g, n, lab, x) for x in refs | vals)
        p = pathish(c, g, [g.entry], lambda n: n in acts, lambda n: n in tx, skip, facts)
        if p: c.viol("set", g.at_line(p[-1]), "%s lets the slave act before the pending %s values have been sent" % (q, t), key=q + "|set|" + t, path=p, g=g); continue
        for n in tx:
            p = pathish(c, g, g.normal(n), lambda m: m in tx and m is not n or m is n)
            if p: c.viol("set", g.at_line(n), "%s sends the %s values twice" % (q, t), key=q + "|twice|" + t, path=p, g=g); break
        for n in tx:
            ra, va = [B(x) for x in g.args(n)]
            pair(c, R, g, f, q, t, n, ra, va)
            inputs(c, R, op, f, g, t, n, ra, va, facts)
            cleared(c, R, op, f, g, t, n, tx, ra, va)
    readback(c, R, op, act, f, g, inv)

def pair(c, R, g, f, q, t, n, ra, va):
    """References and values that belong together: set_T appends both."""
    sf, sg = R.sets[t]
    SB = Bg(sg)
    ra_, va_ = [m for m in sg.live() if appends(sg, m, ra)], [m for m in sg.live() if appends(sg, m, va)]
    if not ra_ or not va_:
        other = [x for x in TYPES if x != t and any(appends(R.sets[x][1], m, k) for m in R.sets[x][1].live() for k in (ra, va))]
        if other: c.viol("set", g.at_line(n), "the %s values sent to the slave are those recorded by set_%s" % (t, other[0]), key=q + "|mix|" + t)
        elif not any(writes_into(sg, m, va) for m in sg.live()): c.viol("set", g.at_line(n), "set_%s does not put values where %s takes them from (%s)" % (t, q, show_term(va)), key=q + "|src|" + t)

def writes_into(g, n, cont):
    return any(mentions(bare(g.deep(p)), lambda x: x == cont) for p in writes_of(g, n))

def is_apply(t):
    return isinstance(t, tuple) and t[0] == "call" and (t[1] or "").endswith("operator()") or isinstance(t, tuple) and t[0] == "call" and "()" in str(t[1])

def inputs(c, R, op, f, g, t, tx, ra, va, facts):
    B = Bg(g)
    q = f["q"]
    M = set(p[1] for p in R.M[t])
    c.ob("input modifiers run", "%s %s" % (q, t))
    if not M:
        c.viol("input modifiers", c.db.where(R.inm[t][0]), "set_%s_input_modifier does not store the modifier" % t, key="inmod|%s|store" % t); return
    applied = []
    for n in g.live():
        if n.k == "call" and n.e.get("obj") is not None and n.e.get("op") == "()" or n.k == "call" and last(n.e.get("fn")) == "operator()":
            o = B(g.obj(n)) if n.e.get("obj") is not None else None
            if o is not None and any(mentions(o, lambda x: x == m) for m in M): applied.append(n)
    if not applied:
        c.viol("input modifiers", g.at_line(tx), "%s sends %s values without running the input modifiers" % (q, t), key=q + "|inmod|" + t); return
    for n in applied:
        a = [B(x) for x in g.args(n)]
        if len(a) > 1 and not step_len(g, f, op, a[1]):
            c.viol("input modifiers", g.at_line(n), "the %s input modifiers are given %s as the step length in %s" % (t, show_term(a[1]), op), key=q + "|inmod|dt|" + t)
    wr = [n for n in g.live() if n.k == "write" and B(g.place(n))[0] == "at" and B(g.place(n))[1] == va and modcall(g, g.value(n), M)]
    if not wr:
        c.viol("input modifiers", g.at_line(applied[0]), "%s: what the %s input modifiers return is not what is sent" % (q, t), key=q + "|inmod|result|" + t); return
    ev = lambda x, lp: x in wr and (lp is None or c.elem_of(g.place(x), lp) or c.elem_of(g.value(x), lp))
    c.each("input modifiers", g, "every %s input modifier is applied" % t, lambda x: B(x) in M, ev, dst=lambda n: n is tx, dstname="the values are sent", facts=facts)
    for n in wr:
        p = pathish(c, g, g.normal(tx), lambda m: m is n)
        if p and not pathish(c, g, [g.entry], lambda m: m is n, lambda m: m is tx): c.viol("input modifiers", g.at_line(n), "%s applies the %s input modifiers after the values have been sent" % (q, t), key=q + "|inmod|late|" + t, path=p, g=g)
        # what the modifier is applied to, and the position of the result
        place = B(g.place(n))
        arg = modcall(g, g.value(n), M)[3] if len(modcall(g, g.value(n), M)) > 3 else None
        if arg is not None and arg != place and arg[0] == "at" and arg[1] == va:
            c.viol("input modifiers", g.at_line(n), "the %s input modifier is applied to %s and the result stored in %s" % (t, show_term(arg), show_term(place)), key=q + "|inmod|where|" + t)
        modelem = [m for m in M if True][0]
        keyed = lambda x: x[0] == "f" and x[2] == "first" and x[1][0] == "elem" and x[1][1] in M
        if not mentions(place, keyed): continue
        lp = next((l for l in g.loops if l.head in g.live() and n in g.body(l) and B(g.container(l) or ("?",)) in M), None)
        if lp is None: continue
        idx = place[2]
        rapp = [m for m in g.live() if m in g.body(lp) and appends(g, m, ra)]
        vapp = [m for m in g.live() if m in g.body(lp) and appends(g, m, va)]
        if not rapp and not vapp:
            # nothing is appended: then there must be a pending value already
            continue
        skip = lambda m, lab: says_negative(g, m, lab, idx) is False
        for what, ns in (("reference", rapp), ("value", vapp)):
            p = pathish(c, g, c.loop_starts(lp), lambda m: m is n, lambda m: m in ns, skip, facts)
            if p: c.viol("input modifiers", g.at_line(n), "%s: the %s of a modified %s variable that was not set is not sent" % (q, what, t), key=q + "|inmod|pending|%s|%s" % (what, t), path=p, g=g)
        for m in rapp:
            if not mentions(B(g.args(m)[0]), keyed): c.viol("input modifiers", g.at_line(m), "the reference sent along is %s" % show_term(B(g.args(m)[0])), key=q + "|inmod|ref|" + t)
        for m in vapp:
            if not g.args(m) or not mentions(B(g.args(m)[0]), keyed): c.viol("input modifiers", g.at_line(m), "the value sent along is %s" % (show_term(B(g.args(m)[0])) if g.args(m) else "a default value"), key=q + "|inmod|val|" + t)

def modcall(g, v, M):
    B = Bg(g)
    if v is None: return None
    for x in sub_terms(B(v)):
        if isinstance(x, tuple) and x and x[0] == "call" and len(x) > 2 and isinstance(x[2], tuple) and any(mentions(x[2], lambda y: y == m) for m in M): return x
    return None

CLEAR = ("clear",)
def clears(g, n, cont):
    B = Bg(g)
    if n.k == "call" and n.e.get("obj") is not None and B(g.obj(n)) == cont:
        nm = last(n.e.get("fn"))
        if nm == "clear": return True
        if nm == "resize" and B(g.args(n)[0]) == ("int", "0"): return True
        if nm == "erase" and len(n.e.get("a") or []) == 2: return True
        if nm == "swap": return True
    if n.k == "write" and B(g.place(n)) == cont: return True
    if n.k == "call" and last(n.e.get("fn")) in ("operator=", "exchange", "swap") and any(B(p) == cont for p in g.muts(n)): return True
    return False

def index_places(c, R, t, ra, va):
    """Places (with a hole for the reference) in which set_T records the position of a pending value."""
    f, g = R.sets[t]
    B = Bg(g)
    out = set()
    for n in g.live():
        for p, v in stores(g, n):
            if v in (("size", ra), ("size", va)) or mentions(v, lambda x: x in (("size", ra), ("size", va))): out.add(hole(p, pname(f, 0)))
            if p[0] == "at" and p[1] == va and isinstance(p[2], tuple) and p[2][0] == "f" and mentions(hole(p[2], pname(f, 0)), lambda x: x == HOLE): out.add(hole(p[2], pname(f, 0)))
    return out
def fill(t, x): return subst(t, HOLE, x)

def cleared(c, R, op, f, g, t, tx, txs, ra, va):
    B = Bg(g)
    q = f["q"]
    c.ob("pending values reset", "%s %s" % (q, t))
    skip = lambda n, lab: any(says_empty(g, n, lab, x) for x in (ra, va))
    cl = {}
    for what, cont in (("references", ra), ("values", va)):
        cl[what] = [n for n in g.live() if clears(g, n, cont)]
        p = pathish(c, g, g.normal(tx), lambda n: n is g.exit, lambda n: n in cl[what], skip)
        if p: c.viol("reset", g.at_line(tx), "%s returns without clearing the pending %s %s that were sent" % (q, t, what), key=q + "|keep|%s|%s" % (what, t), path=p, g=g)
        p = pathish(c, g, [g.entry], lambda n: n in cl[what], lambda n: n in txs)
        if p: c.viol("reset", g.at_line(p[-1]), "%s clears the pending %s %s before they have been sent" % (q, t, what), key=q + "|drop|%s|%s" % (what, t), path=p, g=g)
    idx = index_places(c, R, t, ra, va)
    if not idx: c.note("no recorded position for pending %s values" % t); return
    for pl in idx:
        want = fill(pl, ("elem", ra))
        def resets(n, lp):
            if n.k != "write": return False
            p, v = B(g.place(n)), B(g.value(n)) if g.value(n) is not None else None
            if v not in (("int", "-1"), ("-", ("int", "1"))): return False
            return p == want or lp is None and p[0] == "f" and pl[0] == "f" and p[2] == pl[2] and t_same(p, pl) or p[0] == "f" and pl[0] == "f" and p[2] == pl[2] and mentions(p, lambda x: x[0] == "elem" and x[1] == container_of(pl))
        if pl[0] == "at":     # a separate map of positions: clearing it will do
            cm = [n for n in g.live() if clears(g, n, pl[1])]
            if cm:
                p = pathish(c, g, g.normal(tx), lambda n: n is g.exit, lambda n: n in cm, skip)
                if p: c.viol("reset", g.at_line(tx), "%s keeps the recorded positions of %s values that were sent" % (q, t), key=q + "|idx|" + t, path=p, g=g)
                continue
        c.each("reset", g, "the recorded position of every %s value sent is reset" % t, lambda x: B(x) in (ra, container_of(pl)), resets,
               start=g.normal(tx), dst=lambda n: n in cl["references"] or n is g.exit, dstname="the references are cleared")
def container_of(pl):
    while pl[0] == "f": pl = pl[1]
    return pl[1] if pl[0] == "at" else None
def t_same(p, pl):
    return container_of(pl) is not None and mentions(p, lambda x: x == container_of(pl))

def readback(c, R, op, act, f, g, inv):
    B = Bg(g)
    q = f["q"]
    live = g.live()
    facts = entry_facts(g, inv)
    acts = [n for n in live if n.k == "call" and g.root(n) == act] if act else None
    starts = [s for n in acts for s in g.normal(n)] if act else [g.entry]
    for t in TYPES:
        rx = [n for n in live if n.k == "call" and g.root(n) == GETV[t]]
        c.ob("read-backs", "%s %s (%d sites)" % (q, t, len(rx)))
        rr = R.rref.get(t, set())
        skip = lambda n, lab: any(says_empty(g, n, lab, x) for x in rr)
        p = pathish(c, g, starts, lambda n: n is g.exit, lambda n: n in rx, skip, facts)
        if p: c.viol("get", g.at_line(p[0]), "%s returns without having read the exposed %s variables" % (q, t), key=q + "|get|" + t, path=p, g=g); continue
        outs = set()
        for w in R.W[t]:
            if w[0] == "at": outs.add(w[1])
        M2 = set(p[1] for p in R.M2[t])
        c.ob("output modifiers run", "%s %s" % (q, t))
        if not M2: c.viol("output modifiers", c.db.where(R.outm[t][0]), "set_%s_output_modifier does not store the modifier" % t, key="outmod|%s|store" % t); continue
        if not outs: c.note("get_%s does not return an element of a container" % t); continue
        for n in rx:
            ra, va = [B(x) for x in g.args(n)]
            W = outs
            wr = [m for m in live if m.k == "write" and B(g.place(m))[0] == "at" and B(g.place(m))[1] in W]
            whole = [m for m in live if m.k == "write" and B(g.place(m)) in W or m.k == "call" and any(B(x) in W for x in g.muts(m))]
            if not wr:
                c.viol("output modifiers", g.at_line(n), "%s does not update the %s values that get_%s returns" % (q, t, t), key=q + "|outmod|none|" + t); continue
            srcs = {va} | copies(g, va, n)
            conts = W | srcs | M2 | rr
            ev = lambda x, lp: x in wr and (lp is None or c.elem_of(g.place(x), lp))
            c.each("output modifiers", g, "every %s value read is passed on" % t, lambda x: B(x) in conts, ev, start=g.normal(n))
            for m in wr:
                p = pathish(c, g, g.normal(m), lambda x: x in rx)
                if p: c.viol("output modifiers", g.at_line(m), "%s passes the %s values on before they have been read" % (q, t), key=q + "|outmod|early|" + t, path=p, g=g); break
                v = B(g.value(m))
                i = B(g.place(m))[2]
                mc = modcall(g, g.value(m), M2)
                vals = [v]
                if mc:
                    if not mentions(mc[2], lambda x: x[0] == "at" and x[1] in M2 and same_index(x[2], i) or x[0] == "elem" and x[1] in M2): c.viol("output modifiers", g.at_line(m), "the %s output modifier %s is applied to element %s" % (t, show_term(mc[2]), show_term(i)), key=q + "|outmod|which|" + t)
                    if len(mc) > 4 and not step_len(g, f, op, mc[4]): c.viol("output modifiers", g.at_line(m), "the %s output modifiers are given %s as the step length in %s" % (t, show_term(mc[4]), op), key=q + "|outmod|dt|" + t)
                    src = mc[3] if len(mc) > 3 else None
                else:
                    src = v
                    if src[0] == "cond": src = None
                    # only where there is no modifier
                    for lp in [l for l in g.loops if m in g.body(l)]:
                        def nomod(x, lab):
                            a, tv = says(g, x, lab)
                            if a is None: return False
                            b = a[1] if a[0] == "truthy" else a
                            return tv is False and mentions(b, lambda y: y[0] in ("at", "elem") and y[1] in M2)
                        p = pathish(c, g, c.loop_starts(lp), lambda x: x is m, lambda x: x is lp.head, nomod)
                        over = [w for w in wr if w is not m and modcall(g, g.value(w), M2)]
                        if p and over:
                            p = pathish(c, g, g.normal(m), lambda x: x is lp.head, lambda x: x in over, nomod)
                        if p: c.viol("output modifiers", g.at_line(m), "%s passes a %s value on unmodified although there is a modifier" % (q, t), key=q + "|outmod|plain|" + t, path=p, g=g)
                if src is not None:
                    b = [x for x in sub_terms(src) if isinstance(x, tuple) and x and x[0] in ("at", "elem") and x[1] in srcs]
                    ok = [x for x in b if x[0] == "elem" or same_index(x[2], i)]
                    if not ok: c.viol("output modifiers", g.at_line(m), "%s: the %s value passed on is %s, not the one read from the slave" % (q, t, show_term(src)), key=q + "|outmod|src|" + t)
                    elif all(x[1] != va for x in ok):
                        cp = [x for x in live if copy_of(g, x) and copy_of(g, x) == (va, ok[0][1])]
                        cp += [l.head for l in g.loops for x in list(cp) if x in g.body(l) and not l.partial and not c.path(g, c.loop_starts(l), lambda y: y is l.head, avoid=lambda y: y is x)]
                        p = pathish(c, g, g.normal(n), lambda x: x is m, lambda x: x in cp)
                        if p: c.viol("output modifiers", g.at_line(m), "%s: the %s values read are not copied before the modifiers are run" % (q, t), key=q + "|outmod|copy|" + t, path=p, g=g)
            if not any(modcall(g, g.value(m), M2) for m in wr): c.viol("output modifiers", g.at_line(n), "%s does not run the %s output modifiers" % (q, t), key=q + "|outmod|norun|" + t)

def same_index(a, b): return a == b or a[0] == "idx" and b[0] == "idx"

def copy_of(g, n):
    """(source container, target container) when node n copies one whole container to another."""
    B = Bg(g)
    if n.k == "write" and n.d["op"] == "=" and g.value(n) is not None:
        p, v = B(g.place(n)), B(g.value(n))
        if p[0] == "f" and v[0] == "f": return (v, p)
        if p[0] == "at" and v[0] in ("at", "elem"): return (v[1], p[1])
    if n.k == "call":
        fn = n.e.get("fn") or ""
        if fn in ("std::copy", "std::move", "std::copy_n", "std::ranges::copy") and len(n.e.get("a") or []) == 3:
            a = [B(x) for x in g.args(n)]
            s = strip_begin(a[0]); d = strip_begin(a[2])
            if fn == "std::copy_n":
                if mentions(a[1], lambda x: x[0] == "size"): return (s, d)
                return None
            end = a[1]
            if end == ("end", s) or end == ("+", s, ("size", s)) or end == ("+", ("begin", s), ("size", s)): return (s, d)
        if n.e.get("obj") is not None and last(fn) == "assign" and len(n.e.get("a") or []) == 2:
            a = [B(x) for x in g.args(n)]
            if strip_begin(a[0]) == strip_begin(a[1]): return (strip_begin(a[0]), B(g.obj(n)))
        if n.e.get("obj") is not None and last(fn) == "operator=":
            a = [B(x) for x in g.args(n)]
            if a and a[0][0] == "f": return (a[0], B(g.obj(n)))
    return None
def strip_begin(t): return t[1] if t[0] in ("begin", "end", "data") else t
def copies(g, va, rx):
    return set(x[1] for n in g.live() for x in [copy_of(g, n)] if x and x[0] == va)

def setter(c, R, t):
    f, g = R.sets[t]
    B = Bg(g)
    q, rn, vn = f["q"], pname(f, 0), pname(f, 1)
    isv = lambda x: is_param(x, vn) or mentions(x, lambda y: is_param(y, vn)) and x[0] in ("new", "call")
    for ra in R.ref.get(t, ()):
        for va in R.val.get(t, ()):
            c.ob("values recorded by set", "%s -> %s" % (q, show_term(va)))
            rap = [n for n in g.live() if appends(g, n, ra)]
            vap = [n for n in g.live() if appends(g, n, va)]
            inplace = [n for n in g.live() if n.k == "write" and B(g.place(n))[0] == "at" and B(g.place(n))[1] == va]
            if not vap and not inplace: continue      # reported with the transmissions
            for n in rap:
                if not is_param(B(g.args(n)[0]), rn): c.viol("record", g.at_line(n), "%s records reference %s" % (q, show_term(B(g.args(n)[0]))), key=q + "|ref")
            for n in vap:
                if not isv(B(g.args(n)[0])): c.viol("record", g.at_line(n), "%s records value %s" % (q, show_term(B(g.args(n)[0]))), key=q + "|val")
            for n in inplace:
                if not isv(B(g.value(n))): c.viol("record", g.at_line(n), "%s records value %s" % (q, show_term(B(g.value(n)))), key=q + "|val")
            p = pathish(c, g, [g.entry], lambda n: n is g.exit, lambda n: n in vap or n in inplace)
            if p: c.viol("record", c.db.where(f), "%s can return without recording the value to send" % q, key=q + "|lost", path=p, g=g)
            appendrules(c, R, t, f, g, ra, va, q, rap, vap, inplace, rn)
    # the modifier setter keeps the same book
    f, g = R.inm[t]
    q, rn, mn = f["q"], pname(f, 0), pname(f, 1)
    B = Bg(g)
    for ra in R.ref.get(t, ()):
        for va in R.val.get(t, ()):
            rap = [n for n in g.live() if appends(g, n, ra)]
            vap = [n for n in g.live() if appends(g, n, va)]
            appendrules(c, R, t, f, g, ra, va, q, rap, vap, [], rn)
    for (src, pls, what) in ((R.inm, R.M, "input"), (R.outm, R.M2, "output")):
        f, g = src[t]
        q, rn, mn = f["q"], pname(f, 0), pname(f, 1)
        B = Bg(g)
        conts = set(p[1] for p in pls[t])
        c.ob("modifiers stored", q)
        st = [n for n in g.live() for p, v in stores(g, n) if p[0] == "at" and p[1] in conts and is_param(v, mn)]
        er = [n for n in g.live() if n.k == "call" and n.e.get("obj") is not None and B(g.obj(n)) in conts and last(n.e.get("fn")) == "erase"]
        for n in g.live():
            for p, v in stores(g, n):
                if p[0] == "at" and p[1] in conts and is_param(v, mn) and not mentions(p[2], lambda x: is_param(x, rn)): c.viol("modifiers", g.at_line(n), "%s stores the modifier under %s" % (q, show_term(p[2])), key=q + "|under")
        def setnull(n, lab):
            a, v = says(g, n, lab)
            if a is None: return None
            b = a[1] if a[0] == "truthy" else a
            return v if is_param(b, mn) else None
        p = pathish(c, g, [g.entry], lambda n: n is g.exit, lambda n: n in st, lambda n, lab: setnull(n, lab) is False)
        if p: c.viol("modifiers", c.db.where(f), "%s can return without storing the modifier" % q, key=q + "|notstored", path=p, g=g)
        p = pathish(c, g, [g.entry], lambda n: n is g.exit, lambda n: n in st or n in er, lambda n, lab: setnull(n, lab) is True)
        if p: c.viol("modifiers", c.db.where(f), "%s can return without removing the earlier modifier" % q, key=q + "|notremoved", path=p, g=g)
        for n in er:
            if n.e.get("a") and not is_param(B(g.args(n)[0]), rn) and not mentions(B(g.args(n)[0]), lambda x: is_param(x, rn)): c.viol("modifiers", g.at_line(n), "%s removes the modifier of %s" % (q, show_term(B(g.args(n)[0]))), key=q + "|removes")
            for s in st:
                p = pathish(c, g, g.normal(s), lambda m: m is n, skip=lambda x, lab: setnull(x, lab) is False)
                if p: c.viol("modifiers", g.at_line(n), "%s removes the modifier it has just stored" % q, key=q + "|undo", path=p, g=g)

def appendrules(c, R, t, f, g, ra, va, q, rap, vap, inplace, rn):
    """A reference and a value are appended together, at the position that is recorded, and only when there is none yet."""
    B = Bg(g)
    idx = index_places(c, R, t, ra, va)
    par = next((("p", i, rn) for i in (0,)), None)
    for xs, ys, a, b in ((rap, vap, "reference", "value"), (vap, rap, "value", "reference")):
        for n in xs:
            p = pathish(c, g, g.normal(n), lambda m: m is g.exit, lambda m: m in ys) if pathish(c, g, [g.entry], lambda m: m is n, lambda m: m in ys) else None
            if p: c.viol("record", g.at_line(n), "%s appends a %s without a %s" % (q, a, b), key=q + "|alone|" + a, path=p, g=g)
            for m in xs:
                p = pathish(c, g, g.normal(n), lambda x: x is m)
                if p: c.viol("record", g.at_line(n), "%s appends a %s twice" % (q, a), key=q + "|double|" + a, path=p, g=g)
    for pl in idx:
        here = [(n, v) for n in g.live() for p, v in stores(g, n) if hole(p, rn) == pl]
        want = [s for s in (("size", ra), ("size", va))]
        for n, v in here:
            if v in want:
                cont = v[1]
                late = [m for m in (rap if cont == ra else vap) if pathish(c, g, g.normal(m), lambda x: x is n)]
                if late and set_after(g, n, late): c.viol("record", g.at_line(n), "%s records the position after the append" % q, key=q + "|pos")
            elif v[0] == "-" and v[1] in want and v[2] == ("int", "1"):
                cont = v[1][1]
                p = pathish(c, g, [g.entry], lambda x: x is n, lambda x: x in (rap if cont == ra else vap))
                if p: c.viol("record", g.at_line(n), "%s records the wrong position" % q, key=q + "|pos", path=p, g=g)
            elif mentions(v, lambda x: x in want): c.viol("record", g.at_line(n), "%s records position %s" % (q, show_term(v)), key=q + "|pos")
        place = [p for n in g.live() for p, v in stores(g, n) if hole(p, rn) == pl]
        if not here and inplace: place = [i for i in (B(g.place(n))[2] for n in inplace) if hole(i, rn) == pl]
        if place:
            for n in vap:
                before = pathish(c, g, [g.entry], lambda m: m is n, lambda m: m in [h for h, _ in here])
                after = pathish(c, g, g.normal(n), lambda m: m is g.exit, lambda m: m in [h for h, _ in here])
                if before and after: c.viol("record", g.at_line(n), "%s appends a value without recording its position" % q, key=q + "|nopos", path=after, g=g)
                fresh = lambda m, lab: says_negative(g, m, lab, place[0]) is True
                p = pathish(c, g, [g.entry], lambda m: m is n, None, lambda m, lab: fresh(m, lab) or not_has(g, m, lab, pl))
                if p and not any(m.k == "branch" and says_negative(g, m, "T", place[0]) is not None for m in g.live()) and pl[0] == "at": p = None
                if p: c.viol("record", g.at_line(n), "%s appends a value for a variable that has a pending one" % q, key=q + "|again", path=p, g=g)
        for n in inplace:
            i = B(g.place(n))[2]
            if hole(i, rn) != pl and len(idx) == 1: c.viol("record", g.at_line(n), "%s overwrites the pending value at %s" % (q, show_term(i)), key=q + "|where")
            p = pathish(c, g, [g.entry], lambda m: m is n, lambda m: m in vap, lambda m, lab: says_negative(g, m, lab, i) is False)
            if p and any(m.k == "branch" and says_negative(g, m, "T", i) is not None for m in g.live()): c.viol("record", g.at_line(n), "%s overwrites a pending value where there is none" % q, key=q + "|none", path=p, g=g)
def not_has(g, n, lab, pl):
    a, v = says(g, n, lab)
    return a is not None and a[0] == "has" and pl[0] == "at" and a[1] == pl[1] and v is False
def set_after(g, n, late):
    """Is the size in the value of write n read after the append?  (not when it was kept in a local before)"""
    v = n.d.get("val")
    t = g.T(v, n.fr) if v is not None else None
    return t is None or t[0] != "v"

def expose_get(c, R, t):
    f, g = None, None
    outm, og = R.outm[t]
    conts = set()
    for w in R.W[t]:
        if w[0] == "at": conts.add(w[1])
    conts |= set(p[1] for p in R.M2[t] if p[2][0] not in ("p",) and not (p[2][0] == "p")) if any(p[2][0] == "at" for p in R.M2[t]) else set()
    refs = R.rref.get(t, set())
    idx = set(w[2][1] for w in R.W[t] if w[0] == "at" and w[2][0] == "at")
    for ef in [impl_of(c, EXPOSE_GET, R.cls)]:
        g = c.graph(ef, track_all=True)
        B = Bg(g)
        q = ef["q"]
        for i in idx:
            st = [(n, p, v) for n in g.live() for p, v in stores(g, n) if p[0] == "at" and p[1] == i]
            c.ob("positions of exposed variables", "%s %s" % (q, t))
            if not st:
                c.viol("expose", c.db.where(ef), "%s does not record where the %s variable is" % (q, t), key=q + "|idx|" + t); continue
            for n, p, v in st:
                if not is_param(p[2], pname(ef, 1)): c.viol("expose", g.at_line(n), "%s records the position of %s" % (q, show_term(p[2])), key=q + "|key|" + t)
                for cont in conts | refs:
                    ap = [m for m in g.live() if appends(g, m, cont) or m.k == "call" and n.e is not None and last(m.e.get("fn")) == "resize" and m.e.get("obj") is not None and B(g.obj(m)) == cont]
                    b = pathish(c, g, [g.entry], lambda m: m is n, lambda m: m in ap)
                    a = pathish(c, g, g.normal(n), lambda m: m is g.exit, lambda m: m in ap)
                    if a and b: c.viol("expose", g.at_line(n), "%s does not make room for a %s variable in %s" % (q, t, show_term(cont)), key=q + "|room|%s|%s" % (t, cont[-1]), path=a, g=g)
                    for m in ap:
                        if pathish(c, g, g.normal(m), lambda x: x in ap): c.viol("expose", g.at_line(m), "%s makes room twice in %s" % (q, show_term(cont)), key=q + "|twice|%s|%s" % (t, cont[-1]))
                    if cont in refs:
                        for m in ap:
                            if n.k and m.e.get("a") and last(m.e.get("fn")) != "resize" and not is_param(B(g.args(m)[0]), pname(ef, 1)): c.viol("expose", g.at_line(m), "%s registers %s for reading" % (q, show_term(B(g.args(m)[0]))), key=q + "|reg|" + t)
                sz = [x for x in sub_terms(v) if isinstance(x, tuple) and x and x[0] == "size" and x[1] in conts | refs]
                if sz:
                    ap = [m for m in g.live() if appends(g, m, sz[0][1])]
                    ismin = v == ("-", sz[0], ("int", "1"))
                    after = not pathish(c, g, [g.entry], lambda x: x is n, lambda x: x in ap)
                    before = not any(pathish(c, g, g.normal(m), lambda x: x is n) for m in ap)
                    local = not set_after(g, n, ap)
                    if ismin and not after or v == sz[0] and not before and not local or not ismin and v != sz[0]:
                        c.viol("expose", g.at_line(n), "%s records position %s for the %s variable" % (q, show_term(v), t), key=q + "|pos|" + t)

def others(c, R):
    """Nothing else drops what is pending."""
    ph = set(f["q"] for f, _ in R.phase.values())
    for f in entry_points(c.db, R.cls):
        if f["q"] in ph or f.get("ck") or f["n"].startswith("~") or f["n"] == "operator=": continue
        g = c.graph(f, track_all=True)
        c.ob("other entry points", f["q"])
        for t in TYPES:
            for cont in R.ref.get(t, set()) | R.val.get(t, set()):
                for n in g.live():
                    if clears(g, n, cont): c.viol("reset", g.at_line(n), "%s drops pending %s values" % (f["q"], t), key=f["q"] + "|drop|" + t)
