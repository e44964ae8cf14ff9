"""Natural loops and linear forms over the IR: which index or pointer range a loop covers."""
def lin(f, o, mod=None, depth=0, seen=None):
    """linear form {term: coefficient} (byte units for pointers); key None is the constant"""
    mod = mod or f.mod
    def add(a, b, k=1):
        r = dict(a)
        for t, c in b.items():
            r[t] = r.get(t, 0) + k * c
            if not r[t]: del r[t]
        return r
    k = o[0]
    if k == "i": return {None: o[1]} if o[1] else {}
    if k == "n": return {}
    if k == "ge": return add(lin(f, o[1], mod), {None: o[2]} if o[2] else {})
    if k in ("g", "f"): return {("&", o[1]): 1}
    if k != "v": return {o: 1}
    d = f.defs.get(o[1])
    if d is None or depth > 20: return {("v", o[1]): 1}
    R = lambda x: lin(f, x, mod, depth + 1, seen)
    op = d.op
    if op in ("bitcast", "inttoptr", "ptrtoint", "freeze", "zext", "sext", "addrspacecast"): return R(d.ops[0])
    if op == "add": return add(R(d.ops[0]), R(d.ops[1]))
    if op == "sub": return add(R(d.ops[0]), R(d.ops[1]), -1)
    if op in ("mul", "shl"):
        a, b = R(d.ops[0]), R(d.ops[1])
        for x, y in ((a, b), (b, a)):
            if set(y) <= {None}:
                c = y.get(None, 0); c = 1 << c if op == "shl" and y is b else c
                if op == "shl" and y is not b: continue
                return {t: v * c for t, v in x.items() if v * c}
        return {("v", d.id): 1}
    if op == "getelementptr":
        if d.get("off") is not None: return add(R(d.ops[0]), {None: d.get("off")} if d.get("off") else {})
        if len(d.ops) == 2:
            ix = R(d.ops[1]); return add(R(d.ops[0]), {t: v * d.get("esz") for t, v in ix.items()})
        return {("v", d.id): 1}
    if op == "load":
        g = mod.gname(d.ops[0])
        if g: return {("ld", g): 1}
        return {("v", d.id): 1}
    if op == "phi":
        # loads of one global merged by redundancy elimination
        gs = set(); st = [d]; vis = set()
        while st:
            x = st.pop()
            if x.id in vis: continue
            vis.add(x.id)
            if x.op == "phi":
                for y in x.ops:
                    z = f.defs.get(y[1]) if y[0] == "v" else None
                    if z is None: gs.add(None)
                    else: st.append(z)
            elif x.op == "load": gs.add(mod.gname(x.ops[0]))
            else: gs.add(None)
        if len(gs) == 1 and None not in gs: return {("ld", gs.pop()): 1}
        return {("v", d.id): 1}
    return {("v", d.id): 1}

def sub(a, b):
    r = dict(a)
    for t, c in b.items():
        r[t] = r.get(t, 0) - c
        if not r[t]: del r[t]
    return r

class Loop:
    pass

def loops(f):
    """natural loops with header, body, exits and induction variables"""
    out = []
    heads = {}
    for b in f.blocks:
        for t in b.succs:
            if f.dominates(t, b.id) and b.id in f.dominators(): heads.setdefault(t, []).append(b.id)
    for h, latches in heads.items():
        L = Loop(); L.head = h; L.latches = latches; L.fn = f
        body = {h}; st = list(latches)
        while st:
            x = st.pop()
            if x in body: continue
            body.add(x); st += f.blocks[x].preds
        L.body = body
        L.exits = [(b, t) for b in body for t in f.blocks[b].succs if t not in body and not stuck(f, t)]
        L.ind = []
        for ph in f.blocks[h].phis:
            ini = [o for o, p in zip(ph.ops, ph.raw["in"]) if p not in body]; nx = [o for o, p in zip(ph.ops, ph.raw["in"]) if p in body]
            if len({repr(x) for x in ini}) != 1: continue
            steps = set()
            for o in nx:
                d = sub(lin(f, o), {("v", ph.id): 1})
                steps.add(d.get(None, 0) if set(d) <= {None} else None)
            if len(steps) == 1 and None not in steps and 0 not in steps: L.ind.append((ph, lin(f, ini[0]), steps.pop()))
        L.cond = None; L.rotated = False
        t = f.blocks[h].term
        if not any(x not in body and not stuck(f, x) for x in f.blocks[h].succs) and len(latches) == 1 and f.blocks[latches[0]].term.op == "br" and len(f.blocks[latches[0]].term.raw["succ"]) == 2:
            t = f.blocks[latches[0]].term; L.rotated = True      # tested at the bottom
        if t.op == "br" and len(t.raw["succ"]) == 2:
            c = f.defs.get(t.ops[0][1]) if t.ops[0][0] == "v" else None
            inn = [x in body for x in t.raw["succ"]]
            if c is not None and c.op == "icmp" and inn[0] != inn[1]:
                L.cond = (c.get("pred"), lin(f, c.ops[0]), lin(f, c.ops[1]), inn[0])
        out.append(L)
    return out

def stuck(f, b):
    """control never leaves from here (an abort)"""
    seen = set(); st = [b]
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x)
        blk = f.blocks[x]
        if any(i.op == "call" and (i.get("nr") or (i.cname in f.mod.fns and f.mod.fns[i.cname].noreturn)) for i in blk.ins): continue
        if blk.term.op == "unreachable": continue
        if blk.term.op == "ret": return False
        st += blk.succs
    return True

NEG = {"ult": "uge", "uge": "ult", "ugt": "ule", "ule": "ugt", "slt": "sge", "sge": "slt", "sgt": "sle", "sle": "sgt", "eq": "ne", "ne": "eq"}
SWP = {"ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule", "slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle", "eq": "eq", "ne": "ne"}

def covers(L, unit=None):
    """the ranges [lo, hi) an induction variable visits before the loop's header test ends it:
    [(phi, lo, hi, step)], hi exclusive for steps up; for steps down [lo, hi] with lo inclusive bottom"""
    out = []
    if L.cond is None: return out
    p, a, b, cont = L.cond
    if not cont: p = NEG[p]
    for ph, ini, step in L.ind:
        v = ("v", ph.id)
        for x, y, q in ((a, b, p), (b, a, SWP[p])):
            if x.get(v) != 1 or v in y: continue
            # (phi + r) q y
            rest = dict(x); del rest[v]
            if L.rotated: rest = sub(rest, {None: step})          # the test sees the next value
            bound = sub(y, rest)
            if step > 0 and q in ("ult", "slt", "ne"): out.append((ph, ini, bound, step))
            elif step > 0 and q in ("ule", "sle"):
                h = dict(bound); h[None] = h.get(None, 0) + step
                if not h[None]: del h[None]
                out.append((ph, ini, h, step))
            elif step < 0 and q in ("uge", "sge"): # visits ini, ini+step, ... down to >= bound
                top = sub(ini, {None: step}); out.append((ph, bound, top, -step))
            elif step < 0 and q in ("ugt", "sgt", "ne"):
                top = sub(ini, {None: step}); lo = sub(bound, {None: step}); out.append((ph, lo, top, -step))
    return out
