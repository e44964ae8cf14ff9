"""Interprocedural order-of-events analysis: a product of the control-flow graph with a finite automaton.

run(m, f, bind, q, step, branch) propagates automaton states along every path of f and, where step() says
so, through the functions it calls.  step(cx, ins, q) returns
    None              not an event
    INTO              analyse the called function's body here
    [q, ...]          the possible next states ([] = this path ends)
branch(cx, cmp_ins, truth, q) returns the state on that edge (None = edge not taken).
"""
import loops
from ir import OBJ
INTO = object()

class Cx:
    """one activation of a function: parameters bound to terms"""
    def __init__(s, m, f, bind, depth=0, local=None):
        s.m = m; s.f = f; s.bind = bind; s.depth = depth; s.local = local or {}
    def term(s, o, d=0):
        m, f = s.m, s.f
        k = o[0]
        if k == "i": return ("i", o[1])
        if k == "n": return ("n",)
        if k == "ge":
            t = s.term(o[1], d + 1); return off(t, o[2])
        if k in ("g", "f", "u"): return (k, o[1])
        if k != "v": return o
        if o[1] in s.local: return s.local[o[1]]
        if o[1] in s.bind: return s.bind[o[1]]
        x = f.defs.get(o[1])
        if x is None: return ("p", f.name, o[1])
        if d > 25: return ("deep", f.name, x.id)
        T = lambda y: s.term(y, d + 1)
        op = x.op
        if op in ("bitcast", "freeze", "zext", "sext", "trunc", "addrspacecast", "ptrtoint", "inttoptr"): return T(x.ops[0])
        if op == "getelementptr":
            if x.get("off") is not None: return off(T(x.ops[0]), x.get("off"))
            return ("gep", f.name, x.id, T(x.ops[0]))
        if op == "alloca": return ("alloca", f.name, x.id)
        if op == "load":
            a = T(x.ops[0])
            if a[0] == "g" and a[1].startswith("sal_k_"): return a
            if a[0] == "alloca":
                ss = [u for u, k in f.uses().get(a[2], ())] if a[1] == f.name else []
                if ss and all(u.op in ("load", "store") and not (u.op == "store" and u.ops[0] == ("v", a[2])) or (u.cname or "").startswith("llvm.lifetime") for u in ss):
                    st = [u for u in ss if u.op == "store"]
                    if len(st) == 1: return T(st[0].ops[0])
            g = m.gname(x.ops[0]) if a[0] in ("g", "off") else None
            if g: return ("ld", g, f.name, x.id)
            return ("mem", a, f.name, x.id)
        if op == "call":
            c = x.cname
            if c == "sal_cons_car": return ("car", T(x.ops[0]))
            if c == "sal_cons_cdr": return ("cdr", T(x.ops[0]))
            if c in ("scm_make_cons", "scm_make_immutable_cons"): return ("cons", T(x.ops[0]), T(x.ops[1]))
            return ("call", c, f.name, x.id)
        if op == "phi":
            vs = {T(y) for y in x.ops if y != ("v", x.id)} if d < 12 and not any(f.dominates(x.blk.id, b) for b in x.get("in")) else ()
            if len(vs) == 1: return vs.pop()
            return ("phi", f.name, x.id)
        if op == "select":
            a, b = T(x.ops[1]), T(x.ops[2])
            if a == b: return a
        return (op, f.name, x.id)

def off(t, n):
    if not n: return t
    if t[0] == "off": return off(t[1], t[2] + n)
    return ("off", t, n)

def strip(t):
    """forget which load of a variable a term refers to"""
    if not isinstance(t, tuple): return t
    if t and t[0] == "ld": return ("ld", t[1])
    if t and t[0] == "mem": return ("mem", strip(t[1]))
    return tuple(strip(x) for x in t)

def run(m, f, bind, q, step, branch=None, depth=0, ends=None):
    """-> set of (state at return, returned term)"""
    out = set()
    start = (0, None, q, ())
    seen = set(); st = [start]
    while st:
        b, prev, q, env = st.pop()
        if (b, prev, q, env) in seen: continue
        seen.add((b, prev, q, env))
        if len(seen) > 20000: raise RuntimeError("walk: too many states in " + f.name)
        blk = f.blocks[b]
        loc = dict(env)
        # what the joins select on this path
        if prev is not None:
            head = any(f.dominates(b, p) for p in blk.preds)
            cx = Cx(m, f, bind, depth, loc); new = {}
            for ph in blk.phis:
                for y, p in zip(ph.ops, ph.get("in")):
                    if p == prev:
                        if ph.ty == "i1": new[ph.id] = ("b", y)
                        elif not head: new[ph.id] = cx.term(y)
                        else: new[ph.id] = ("phi", f.name, ph.id)
            loc.update(new)
        work = [(0, q, tuple(sorted(loc.items(), key=lambda kv: kv[0])))]
        while work:
            k, q, env2 = work.pop()
            loc = dict(env2); dead = False
            for i in blk.ins[k:]:
                k += 1
                if i.op == "phi": continue
                cx = Cx(m, f, bind, depth, loc)
                r = step(cx, i, q)
                if r is None: pass
                elif r is INTO:
                    g = m.fns.get(i.cname)
                    if g is None or g.decl or depth > 8: continue
                    b2 = {a[0]: cx.term(o) for a, o in zip(g.args, i.ops)}
                    for q2, ret in run(m, g, b2, q, step, branch, depth + 1, ends):
                        l2 = dict(loc)
                        if ret is not None: l2[i.id] = ret
                        work.append((k, q2, tuple(sorted(l2.items(), key=lambda kv: kv[0]))))
                    dead = True; break
                else:
                    r = list(r)
                    if not r: dead = True; break
                    for q2 in r[1:]: work.append((k, q2, tuple(sorted(loc.items(), key=lambda kv: kv[0]))))
                    q = r[0]
                if i.op == "call" and (i.get("nr") or (i.cname in m.fns and m.fns[i.cname].noreturn)): dead = True; break
            if dead: continue
            t = blk.term; env3 = tuple(sorted(loc.items(), key=lambda kv: kv[0]))
            cx = Cx(m, f, bind, depth, loc)
            if t.op == "ret":
                ret = cx.term(t.ops[0]) if t.ops else None
                if depth == 0 and ends: ends(cx, t, q, ret)
                out.add((q, ret)); continue
            if t.op == "br" and len(t.raw["succ"]) == 2:
                for truth, s in ((True, t.raw["succ"][0]), (False, t.raw["succ"][1])):
                    for q2 in edge(cx, t.ops[0], truth, q, branch): st.append((s, b, q2, keep(f, s, env3)))
                continue
            for s in blk.succs: st.append((s, b, q, keep(f, s, env3)))
    return out

def keep(f, s, env):
    """only what was decided in dominating blocks stays meaningful"""
    r = []
    for k, v in env:
        d = f.defs.get(k)
        if d is not None and f.dominates(d.blk.id, s) and v[0] != "b": r.append((k, v))
    return tuple(r)

def edge(cx, o, truth, q, branch):
    f = cx.f
    while True:
        if o[0] == "i":
            return [q] if bool(o[1] & 1) == truth else []
        if o[0] != "v": return [q]
        l = cx.local.get(o[1])
        if l is not None and l[0] == "b": o = l[1]; cx = Cx(cx.m, cx.f, cx.bind, cx.depth, {k: v for k, v in cx.local.items() if k != o[1]}); continue
        x = f.defs.get(o[1])
        if x is None: return [q]
        if x.op == "xor" and ("i", -1, 1) in x.ops or x.op == "xor" and any(y[0] == "i" and y[1] in (1, -1) for y in x.ops):
            o = [y for y in x.ops if y[0] != "i"][0]; truth = not truth; continue
        if x.op == "freeze": o = x.ops[0]; continue
        if x.op == "icmp":
            # (p != 0) of a boolean
            z = [y for y in x.ops if y[0] == "i" and y[1] == 0]
            if z and x.get("pred") in ("eq", "ne"):
                y = [w for w in x.ops if w not in z]
                d = f.defs.get(y[0][1]) if y and y[0][0] == "v" else None
                if d is not None and d.op == "zext" and d.get("in") is None and f.defs.get(d.ops[0][1] if d.ops[0][0] == "v" else -1) is not None and f.defs[d.ops[0][1]].op in ("icmp", "phi", "xor") and f.defs[d.ops[0][1]].ty == "i1":
                    if x.get("pred") == "eq": truth = not truth
                    o = d.ops[0]; continue
            if x.get("pred") in ("eq", "ne"):
                a, b = cx.term(x.ops[0]), cx.term(x.ops[1])
                if a[0] == "i" and b[0] == "i":
                    w = (1 << 64) - 1
                    return [q] if ((a[1] & w == b[1] & w) == (x.get("pred") == "eq")) == truth else []
            if branch is None: return [q]
            r = branch(cx, x, truth, q)
            return [] if r is None else [r]
        return [q]

def cmp(cx, x):
    """(equal-when-true?, term, term) for an equality comparison"""
    if x.get("pred") not in ("eq", "ne"): return None
    return (x.get("pred") == "eq", cx.term(x.ops[0]), cx.term(x.ops[1]))
