"""C05: marking reaches every component, sweeping releases each dead object once."""
import bits, loops
from bits import const, sym, cval, isconst, State, Interp
from core import Part, Broken, need_fn
from rules.c07 import Rep
import ir

OBJCOMP = {"cons": ["cons_car", "cons_cdr"], "closure": ["closure_exp", "closure_env"], "symbol": ["symbol_vcell"], "vpacket": ["vpacket_values", "valuecons_car", "valuecons_cdr"],
  "hmacro": ["hmacro_rules"], "farsym": ["farsym_sym"], "subpat": ["subpat_obj"]}
OWNED = {"symbol": "symbol_name", "string": "string_str", "vector": "vector_vec"}

def drop(s, b): return b if s.fatty else (0,) + tuple(b[1:])

def fn(m, n):
    return need_fn(m, n)

def objhead(f, a=0):
    """phi that carries parameter a around the marking loop, and its block"""
    for b in f.blocks:
        for ph in b.phis:
            if ("v", f.args[a][0]) in ph.ops and any(f.dominates(b.id, p) for p in ph.raw["in"]): return ph, b.id
    return None, 0

def run(cfg):
    P = Part("collector", cfg); s = Rep(cfg); m = s.mod
    if not s.init(): P.check(False, "reclaim", "what a reclaimed cell becomes depends on what it held"); return P
    made = [x for x in s.make(s.kinds()) if x[3] is not None]
    heap = [x for x in made if any(b == ("P", 63) for b in x[3])]
    P.counts["heap kinds"] = len(heap)
    marking(P, s, m, made, heap)
    sweeping(P, s, m, heap)
    roots(P, s, m)
    conservative(P, s, m, heap)
    rejected(P, s, m, heap, made)
    extension(P, s, m)
    stack_range(P, s, m)
    allocation(P, s, m)
    P.need("heap kinds", 12)
    return P

def marking(P, s, m, made, heap):
    f = fn(m, "mark_obj")
    ph, h = objhead(f)
    if ph is not None:
        # nothing happens before the loop
        for b in f.blocks:
            if b.id != h and not f.dominates(h, b.id):
                P.check(not any(i.op in ("call", "store") for i in b.ins), "mark_obj:entry", "mark_obj: has effects before its loop")
    def hook(it, g, i, nm, args, st):
        if nm == "mark_obj":
            e = ("mark", args[0], st.mem, i.id)
            if e not in st.ev: st = st.copy(); st.ev = st.ev + (e,)
            return [(None, st)]
        return None
    it = Interp(m, s.align, s.size * 8, hook, ()); it.ginit = s.it.ginit
    def go(word, mem):
        it.n = 0
        st = s.state(mem)
        if ph is not None:
            st.env[(f.name, ph.id)] = word
            return it.run(f, [word], st, start=h, stop={h})
        return it.run(f, [word], st)
    for lab, kind, fnm, word, mem, comps, mut in made:
        key = "mark:" + lab.replace(" ", "-")
        onheap = any(b == ("P", 63) for b in word)
        words = [word] if s.fatty else [word, (1,) + tuple(word[1:])]
        for wd in words:
            rs = go(wd, mem)
            P.count("marking paths", len(rs))
            P.check(bool(rs), key + ":none", "mark_obj: no way through for a %s" % lab)
            for k, v, st in rs:
                calls = [e for e in st.ev if e[0] == "mark"]
                got = {drop(s, st.res(e[1])) for e in calls}
                if k != "ret" and ph is not None: got.add(drop(s, st.res(v[ph.id])))
                if not onheap:
                    P.check(not got and st.mem == mem, key + ":immediate", "mark_obj: follows or changes an immediate %s" % lab); continue
                v = s.val("w_cell_markedp", [s.P], st.mem)
                P.check(v == const(1, 32), key + ":self", "mark_obj: a reachable %s is not marked on some path" % lab)
                for e in calls:
                    v = s.val("w_cell_markedp", [s.P], e[2])
                    P.check(v == const(1, 32), key + ":order", "mark_obj: a %s is marked only after its components are followed (endless on a cycle)" % lab)
                for c in OBJCOMP.get(kind, ()):
                    if c not in comps: continue
                    want = drop(s, st.res(comps[c]))
                    ok = want in got
                    if not ok and not s.fatty:
                        im = s.val("w_immp", [want], mem); ok = im == const(1, 32)
                    P.count("component obligations")
                    P.check(ok, "%s:%s" % (key, c), "mark_obj: %s of a reachable %s is not marked on some path: what only it refers to is freed while in use" % (c, lab))
                if kind == "vector": vector_loop(P, s, m, f, st, comps, key)
            # (an already marked object is not followed again)
            if onheap:
                mk = s.call("w_mark", [word], mem)
                if mk:
                    for k, v, st in go(wd, mk[1].mem):
                        P.check(k == "ret" and not any(e[0] == "mark" for e in st.ev) and st.mem == mk[1].mem, key + ":again", "mark_obj: an already marked %s is followed again (endless on a cycle)" % lab)
    if not s.fatty:
        for c in ("null", "true", "false", "eof", "unbound", "undef", "invalid"):
            w = s.val("w_const_" + c, [], s.freemem)
            for k, v, st in go(w, s.freemem):
                P.check(k == "ret" and not st.ev, "mark:const:" + c, "mark_obj: follows the constant %s" % c)

def vector_loop(P, s, m, f, st, comps, key):
    P.count("vector marking paths")
    if not st.ev and not any(e[0] == "mark" for e in st.ev): pass
    good = False; why = "no call marks its elements"
    for L in loops.loops(f):
        cov = {ph.id: (lo, hi, stp) for ph, lo, hi, stp in loops.covers(L)}
        for b in L.body:
            for i in f.blocks[b].ins:
                if i.op != "call" or i.cname != "mark_obj": continue
                # innermost loop only
                if any(L2 is not L and b in L2.body and L2.body < L.body for L2 in loops.loops(f)): continue
                o = i.ops[0]; d = f.defs.get(o[1]) if o[0] == "v" else None
                if d is None or d.op != "load": continue
                a = loops.lin(f, d.ops[0])
                for pid, (lo, hi, stp) in cov.items():
                    t = ("v", pid)
                    if t not in a: continue
                    unit = a[t]; base = loops.sub(a, {t: unit})
                    # addresses visited: base + unit*lo .. base + unit*hi
                    first = add(base, lo, unit); last = add(base, hi, unit)
                    bb = resolve(s, f, st, first); ln = loops.sub(last, first)
                    okb = bb is not None and bb == drop(s, st.res(comps["vector_vec"])) or bb == st.res(comps["vector_vec"])
                    okn = False
                    if len(ln) == 1:
                        (t2, c2), = ln.items()
                        okn = c2 == 8 and t2 is not None and resolve(s, f, st, {t2: 1}) == st.res(comps["vector_len"])
                    oks = abs(unit * stp) == 8
                    every = all(f.dominates(b, l) for l in L.latches) and len(L.exits) == 1
                    if okb and okn and oks and every: good = True
                    else: why = ("starts elsewhere than at the first element" if not okb else "does not run to the length of the vector" if not okn else
                                 "skips elements" if not oks else "can leave early or skip an element")
    visited = any(e[0] == "mark" for e in st.ev)
    # a path that leaves before the first element is the one for an empty vector
    P.check(good, key + ":elements", "mark_obj: the elements of a reachable vector are not all marked: the loop %s" % why)

def add(a, b, k):
    r = dict(a)
    for t, c in b.items():
        r[t] = r.get(t, 0) + k * c
        if not r[t]: del r[t]
    return r
def resolve(s, f, st, l):
    """bits of a linear form that is one term"""
    if len(l) != 1: return None
    (t, c), = l.items()
    if c != 1 or t is None or t[0] != "v": return None
    return deep(s, f, st, ("v", t[1]))

def deep(s, f, st, o, depth=0):
    """value of an operand in a state, evaluating loads and address arithmetic not on the path itself"""
    if o[0] != "v": return s.it.val(st, f, o)
    v = st.env.get((f.name, o[1]))
    if v is not None: return st.res(v)
    d = f.defs.get(o[1])
    if d is None or depth > 8 or d.op in ("phi", "call", "select"): return None
    st2 = st.copy()
    for x in d.ops:
        if x[0] == "v":
            b = deep(s, f, st, x, depth + 1)
            if b is None: return None
            st2.env[(f.name, x[1])] = b
    return s.it.load(st2, f, d) if d.op == "load" else st2.res(s.it.ev(st2, f, d))

def sweeping(P, s, m, heap):
    f = fn(m, "gc_sweep")
    cl = cell_loop(P, s, m, f, "gc_sweep")
    if cl is None: return
    L, cph, special = cl
    # the free list variable: the loop phi that ends in the global l_freelist
    it = Interp(m, s.align, s.size * 8, release_hook, ("free_cell",)); it.ginit = s.it.ginit; it.special = special
    fl = None
    stores = [i for i in f.instrs() if i.op == "store" and m.gname(i.ops[1]) == "l_freelist"]
    FL = s.objw("F")
    inbody = [i for i in stores if i.blk.id in L.body]
    if inbody: mode = "global"
    else:
        mode = "phi"
        P.check(len(stores) == 1, "gc_sweep:freelist", "gc_sweep: the free list is stored %d times" % len(stores))
        if stores:
            seen = set(); st = [stores[0].ops[0]]
            while st:
                o = st.pop()
                if o[0] != "v" or o[1] in seen: continue
                seen.add(o[1]); d = f.defs.get(o[1])
                if d is None: continue
                if d.op == "phi":
                    if d.id == cph.id: continue
                    if d.blk.id == L.head: fl = d
                    st += list(d.ops)
        if fl is None: P.check(False, "gc_sweep:freelist", "gc_sweep: the reclaimed cells do not end up on the free list"); return
        ini = [o for o, p in zip(fl.ops, fl.raw["in"]) if p not in L.body]
        # what the list starts with: the list before the sweep (through the outer loop)
        P.check(origin_ok(f, m, fl), "gc_sweep:freelist-start", "gc_sweep: the new free list does not continue the old one: free cells are lost")
    gaddr = None
    def go(mem):
        it.n = 0; st = s.state(mem)
        for ph in f.blocks[L.head].phis: st.env[(f.name, ph.id)] = sym("h%d" % ph.id, bits.width(ph.ty))
        st.env[(f.name, cph.id)] = s.P
        if fl is not None: st.env[(f.name, fl.id)] = FL
        else:
            for i in stores: st.gmem[it.val(st, f, i.ops[1])] = FL
        out = []
        for b in starts(f, L):
            for k, v, st2 in it.run(f, [], st, start=b, stop={L.head} | {x for _, x in L.exits}):
                if L.rotated and k != "ret" and k[1] != L.head: v = latch_values(it, f, L, st2)
                if fl is not None: nf = v.get(fl.id) if k != "ret" and (k[1] == L.head or L.rotated) else None
                else: nf = st2.gmem.get(it.val(st2, f, stores[0].ops[1]))
                st2.env["next"] = tuple(sorted(v.items())) if isinstance(v, dict) else ()
                out.append((k, nf, st2))
        return out
    counters = {x.id for x in back_phis(f, [b.term.ops[0] for b in f.blocks if b.term.op == "ret" and b.term.ops]) if x.blk.id == L.head and x.id != cph.id}
    for lab, kind, fnm, word, mem, comps, mut in heap + [("free cell", "freecell", "", s.freeword, s.freemem, {}, None)]:
        key = "sweep:" + lab.replace(" ", "-")
        marked = s.call("w_mark", [word], mem)
        if marked:
            rs = go(marked[1].mem); P.count("sweep paths", len(rs))
            P.check(bool(rs), key + ":marked", "gc_sweep: does not get past a marked %s" % lab)
            for k, nf, st in rs:
                P.check(st.mem == mem, key + ":unmark", "gc_sweep: a %s that is in use is not left exactly as it was, without the mark" % lab)
                P.check(not rel(st), key + ":inuse", "gc_sweep: releases the storage of a %s that is in use" % lab)
                P.check(nf == FL, key + ":list", "gc_sweep: puts a %s that is in use on the free list" % lab)
                counted(P, counters, st, key, lab)
        rs = go(mem); P.count("sweep paths", len(rs))
        P.check(bool(rs), key + ":dead", "gc_sweep: does not get past an unmarked %s" % lab)
        for k, nf, st in rs:
            ev = rel(st)
            if kind == "freecell":
                P.check(not ev, key + ":released", "gc_sweep: releases storage of a cell that is already free")
                counted(P, counters, st, key, lab)
                P.check(nf == FL and st.mem == mem, key + ":relinked", "gc_sweep: a cell already on the free list is entered again")
                continue
            released(P, s, key, lab, kind, word, comps, st, ev, "gc_sweep")
            P.check(s.val("w_cell_freecellp", [s.P], st.mem) == const(1, 32) and s.val("w_cell_markedp", [s.P], st.mem) is not None, key + ":reclaim", "gc_sweep: the cell of a dead %s is not reclaimed" % lab)
            P.check(nf == s.freeword, key + ":list", "gc_sweep: the cell of a dead %s does not become the head of the free list" % lab)
            P.check(s.val("w_freecell_next", [s.freeword], st.mem) == FL, key + ":link", "gc_sweep: the rest of the free list is lost when a dead %s is reclaimed" % lab)
    # finalization
    f2 = fn(m, "finalize_heap")
    cl = cell_loop(P, s, m, f2, "finalize_heap")
    if cl:
        L2, cp2, special = cl; it.special = special
        for lab, kind, fnm, word, mem, comps, mut in heap + [("free cell", "freecell", "", s.freeword, s.freemem, {}, None)]:
            it.n = 0; st = s.state(mem)
            for ph in f2.blocks[L2.head].phis: st.env[(f2.name, ph.id)] = sym("h%d" % ph.id, bits.width(ph.ty))
            st.env[(f2.name, cp2.id)] = s.P
            for b in starts(f2, L2):
                for k, v, st2 in it.run(f2, [], st, start=b, stop={L2.head} | {x for _, x in L2.exits}):
                    P.count("finalization paths")
                    released(P, s, "finalize:" + lab.replace(" ", "-"), lab, kind, word, comps, st2, rel(st2), "finalize_heap")

def starts(f, L):
    return [L.head] if L.rotated else [b for b in f.blocks[L.head].succs if b in L.body]

def latch_values(it, f, L, st):
    out = {}
    for ph in f.blocks[L.head].phis:
        for o, p in zip(ph.ops, ph.raw["in"]):
            if p == L.latches[0]: out[ph.id] = it.val(st, f, o, bits.width(ph.ty))
    return out

def back_phis(f, ops):
    seen = {}; st = list(ops)
    while st:
        o = st.pop()
        if o[0] != "v" or o[1] in seen: continue
        d = f.defs.get(o[1])
        if d is None: continue
        seen[o[1]] = d
        if d.op in ("phi", "add", "sub", "zext", "sext", "trunc", "select"): st += list(d.ops)
    return [d for d in seen.values() if d.op == "phi"]

def counted(P, counters, st, key, lab):
    """a cell that was not reclaimed does not count as collected: otherwise the collector believes there
    are free cells when there are none"""
    for i, v in st.env.get("next", ()):
        if i in counters:
            P.check(tuple(v) == sym("h%d" % i, len(v)), key + ":count", "gc_sweep: a %s that is not reclaimed is counted as collected: the heap is not extended when it is full" % lab)

def origin_ok(f, m, fl):
    seen = set(); st = list(fl.ops); ok = False
    while st:
        o = st.pop()
        if o[0] != "v": 
            if o[0] in ("i", "n"): return False
            continue
        if o[1] in seen: continue
        seen.add(o[1]); d = f.defs.get(o[1])
        if d is not None and d.op == "load" and m.gname(d.ops[0]) == "l_freelist": ok = True
        if d is not None and d.op == "phi": st += list(d.ops)
    return ok

def release_hook(it, f, i, nm, args, st):
    if nm in ("free", "scm_port_close", "scm_destruct_continuation"):
        st = st.copy(); st.ev = st.ev + (("rel", nm, args[0], i.id),); return [(sym("r%d" % i.id, 64), st)]
    if nm is None or nm == "*":
        st = st.copy(); st.ev = st.ev + (("rel", "*", args[0] if args else None, i.id),); return [(sym("r%d" % i.id, 64), st)]
    return None
def rel(st): return [e for e in st.ev if e[0] == "rel"]

def released(P, s, key, lab, kind, word, comps, st, ev, where):
    P.count("release obligations")
    if kind in OWNED:
        c = OWNED[kind]; want = st.res(comps[c])
        P.check(len(ev) == 1 and ev[0][1] == "free" and st.res(ev[0][2]) == want, key + ":release",
                "%s: the storage a dead %s owns is %s" % (where, lab, "not released" if not ev else "released %d times" % len(ev) if len(ev) > 1 else "not what is released"))
    elif kind == "port":
        imp = st.res(comps["port_impl"])
        zero = isconst(imp) and cval(imp) == 0
        known_nz = not zero
        if not ev:
            # only a port that is already closed may be skipped
            nz = path_says_null(st, imp)
            P.check(nz, key + ":close", "%s: a dead port is not closed" % where)
        else:
            a = st.res(ev[0][2])
            P.check(len(ev) == 1 and (ev[0][1] == "scm_port_close" and a == word or ev[0][1] == "*" and a == imp), key + ":close", "%s: a dead port is not closed exactly once" % where)
            P.check(not path_says_null(st, imp), key + ":closed", "%s: a port that is already closed is closed again" % where)
    elif kind == "cont":
        P.check(len(ev) == 1 and ev[0][1] == "scm_destruct_continuation" and st.res(ev[0][2]) == word, key + ":destruct", "%s: a dead continuation is not destructed exactly once" % where)
    else:
        P.check(not ev, key + ":release", "%s: releases storage that a %s does not own" % (where, lab))

def path_says_null(st, imp):
    for b, v in st.asg.items():
        d = st.conds.get(b)
        if d and d[0] == "cmp" and d[1] in ("eq", "ne"):
            x, y = st.res(d[2]), st.res(d[3])
            for p, q in ((x, y), (y, x)):
                if isconst(q) and cval(q) == 0 and len(p) == 64 and (p == imp or (isconst(imp) and cval(imp) == 0)):
                    if (d[1] == "eq") == bool(v): return True
    return isconst(imp) and cval(imp) == 0

def cell_ranges(s, f):
    """loops that visit as many consecutive cells as a heap has: (loop, the variable that counts, the linear form
    of the first cell's address, the addresses in the body that are the visited cell where the variable is not)"""
    full = {("ld", "l_heap_size"): s.size}
    for L in loops.loops(f):
        body = [i for b in L.body for i in f.blocks[b].ins if i.op == "getelementptr"]
        for ph, lo, hi, stp in loops.covers(L):
            d = loops.sub(hi, lo); cands = []
            if d == full and stp == s.size: cands.append((ph, lo))
            elif d == {("ld", "l_heap_size"): 1} and stp == 1:
                # indexed: the cell is at base + index * size
                special = {}; base = None
                for i in body:
                    a = loops.lin(f, ("v", i.id))
                    if a.get(("v", ph.id)) != s.size: continue
                    rest = add(a, {("v", ph.id): s.size}, -1); rest = add(rest, lo, s.size)
                    if len(rest) == 1 and list(rest.values()) == [1]: special[(f.name, i.id)] = s.P; base = rest
                if special: yield L, ph, base, special; continue
                # counted apart: another variable steps over the cells, once for each count
                for c, ini, k in L.ind:
                    if c.id == ph.id: continue
                    if k == s.size: cands.append((c, ini))
                    elif k == -s.size: cands.append((c, add(add(ini, full, -1), {None: s.size})))
            for c, lo in cands:
                sh = lo.get(None, 0); base = {t: v for t, v in lo.items() if t is not None}; special = {}
                if sh:
                    # the cell is the neighbour of what the variable holds
                    for i in body:
                        if loops.lin(f, ("v", i.id)) == {("v", c.id): 1, None: -sh}: special[(f.name, i.id)] = s.P
                    if not special: continue
                yield L, c, base, special

def cell_loop(P, s, m, f, name):
    """the loop over every cell of a heap, nested in a loop over every heap"""
    LS = loops.loops(f)
    for L, ph, lo, special in cell_ranges(s, f):
        P.check(len(L.exits) == 1, name + ":cells", "%s: can stop before the last cell of a heap" % name)
        # the heap is l_heaps[i]
        base = None
        if len(lo) == 1:
            (t, c), = lo.items()
            if t and t[0] == "v": base = f.defs.get(t[1])
        ok = False
        if base is not None and base.op == "load":
            a = loops.lin(f, base.ops[0])
            for L2 in LS:
                if L2.head == L.head or not (L.body < L2.body): continue
                for p2, lo2, hi2, st2 in loops.covers(L2):
                    n = loops.sub(hi2, lo2); u = 8 // st2 if st2 in (1, 8) else 0
                    first = add(add(a, {("v", p2.id): u}, -1), lo2, u)
                    if u and a.get(("v", p2.id)) == u and first == {("ld", "l_heaps"): 1} and n == {("ld", "l_n_heaps"): st2} and len(L2.exits) == 1 and all(f.dominates(L.head, x) for x in L2.latches): ok = True
        P.check(ok, name + ":heaps", "%s: does not visit every heap" % name)
        P.count("cell loops")
        return L, ph, special
    P.check(False, name + ":cells", "%s: does not visit every cell of a heap" % name)
    return None

def reach_call(f, name, avoid=()):
    return [i for i in f.calls() if i.cname == name]

def always(f, names, before=None):
    """every path from entry to a return (or to the instruction `before`) passes a call of one of names"""
    hit = {}
    for i in f.calls():
        if i.cname in names: hit.setdefault(i.blk.id, []).append(i.idx)
    seen = set(); st = [0]
    while st:
        b = st.pop()
        if b in seen: continue
        seen.add(b); blk = f.blocks[b]
        if before is not None and before.blk.id == b:
            if not any(x < before.idx for x in hit.get(b, ())): return False
            continue
        if b in hit: continue
        if blk.term.op == "ret" and before is None: return False
        st += [x for x in blk.succs if not loops.stuck(f, x)]
    return True

def roots(P, s, m):
    gms = fn(m, "gc_mark_and_sweep")
    for f in m.defined():
        for i in f.calls():
            if i.cname == "gc_sweep":
                P.count("sweep calls")
                P.check(always(f, ("gc_mark", "gc_mark_global_vars") if f.name != "gc_mark_and_sweep" else ("gc_mark",), i), f.name + ":mark-first", "%s: in %s: the heap is swept without the roots having been marked" % (i.loc(), f.name))
    f = fn(m, "gc_mark")
    P.check(always(f, ("GCROOTS_mark",)), "gc_mark:stack", "gc_mark: the stack and registers are not marked on every path")
    P.check(always(f, ("gc_mark_global_vars",)), "gc_mark:globals", "gc_mark: the protected variables are not marked on every path")
    f = fn(m, "gc_mark_global_vars")
    P.check(always(f, ("gc_mark_protected_var",)), "gc_mark_global_vars:protected", "gc_mark_global_vars: the protected variables are not marked on every path")
    ok = False
    for i in f.calls():
        if i.cname == "gc_mark_definite_locations_n":
            if loops.lin(f, i.ops[0]) == {("ld", "scm_symbol_hash"): 1} and loops.lin(f, i.ops[1]) == {("ld", "scm_symbol_hash_size"): 1}: ok = True
    P.check(ok, "gc_mark_global_vars:symbols", "gc_mark_global_vars: the symbol table is not marked over its whole length")
    # the block-wise markers cover their whole argument
    for nm, guard in (("gc_mark_definite_locations_n", False), ("gc_mark_locations_n", True)):
        f = fn(m, nm); ok = False
        for L in loops.loops(f):
            for ph, lo, hi, stp in loops.covers(L):
                a0, a1 = ("v", f.args[0][0]), ("v", f.args[1][0])
                if lo == {a0: 1} and loops.sub(hi, lo) == {a1: 8} and stp == 8 or (not lo and hi == {a1: 1} and stp == 1):
                    ok = marks_each(f, L, ph, {a0: 1} if not lo else None, ("within_heapp",) if guard else ())
        P.count("marking ranges")
        P.check(ok, nm, "%s: does not mark every word of its range%s" % (nm, " that refers into a heap" if guard else ""))
    f = fn(m, "gc_mark_protected_var"); ok = False
    for L in loops.loops(f):
        for ph, lo, hi, stp in loops.covers(L):
            if lo == {("ld", "l_protected_vars"): 1} and loops.sub(hi, lo) == {("ld", "l_protected_vars_size"): 8} and stp == 8: ok = marks_each(f, L, ph, None, (), 2)
            if not lo and hi == {("ld", "l_protected_vars_size"): 1} and stp == 1: ok = marks_each(f, L, ph, {("ld", "l_protected_vars"): 1}, (), 2)
    P.count("marking ranges")
    P.check(ok, "gc_mark_protected_var", "gc_mark_protected_var: does not mark every protected variable, or follows a vacant entry")
    # gc_mark_locations hands the whole range on
    f = fn(m, "gc_mark_locations")
    for g in m.defined():
        for i in g.calls():
            if i.cname == "GCROOTS_init":
                P.check(("f", "gc_mark_locations") in i.ops, "GCROOTS_init", "%s: the stack scanner is not given gc_mark_locations" % i.loc())
    P.check(bool(reach_call(f, "gc_mark_locations_n")), "gc_mark_locations", "gc_mark_locations: does not scan conservatively")
    for i in f.calls():
        if i.cname in ("gc_mark_locations_n", "gc_mark_definite_locations_n"):
            P.count("stack ranges")
    # protecting: the variable given is stored into a slot inside the counted range
    f = fn(m, "scm_gc_protect")
    st = [i for i in f.instrs() if i.op == "store" and i.ops[0] == ("v", f.args[0][0])]
    P.check(bool(st) and all(any(x is st[0].blk.id or f.dominates(st[0].blk.id, b.id) or b.id == st[0].blk.id for x in (0,)) for b in f.blocks if b.term.op == "ret"), "scm_gc_protect", "scm_gc_protect: the variable is not recorded on every path")
    f = fn(m, "scm_gc_protect_with_init")
    P.check(always(f, ("scm_gc_protect",)) and any(i.op == "store" and i.ops[0] == ("v", f.args[1][0]) and i.ops[1] == ("v", f.args[0][0]) for i in f.instrs()), "scm_gc_protect_with_init", "scm_gc_protect_with_init: does not initialize and protect the variable")

def extension(P, s, m):
    """after a collection that freed too little, a heap is added on every path"""
    f = fn(m, "gc_mark_and_sweep")
    sw = [i for i in f.calls() if i.cname == "gc_sweep"]
    if not sw: P.check(False, "gc_mark_and_sweep:sweep", "gc_mark_and_sweep: does not sweep"); return
    r = {("v", sw[0].id): 1}
    # paths from the sweep to a return avoiding add_heap must know that cells were freed
    hit = {i.blk.id for i in f.calls() if i.cname == "add_heap" and (i.blk.id != sw[0].blk.id or i.idx > sw[0].idx)}
    seen = set(); st = [(sw[0].blk.id, False)]; ok = True
    while st:
        b, known = st.pop()
        if (b, known) in seen or (b in hit): continue
        seen.add((b, known)); blk = f.blocks[b]
        if blk.term.op == "ret": ok = ok and known; continue
        t = blk.term; su = t.raw.get("succ") or []
        if t.op == "br" and len(su) == 2:
            c = f.defs.get(t.ops[0][1]) if t.ops[0][0] == "v" else None
            for x, truth in ((su[0], True), (su[1], False)):
                k2 = known
                if c is not None and c.op == "icmp":
                    p = c.get("pred"); p = p if truth else loops.NEG[p]
                    a, bb = loops.lin(f, c.ops[0]), loops.lin(f, c.ops[1])
                    for u, w, q in ((a, bb, p), (bb, a, loops.SWP[p])):
                        if u == r and w == {("ld", "l_heap_alloc_threshold"): 1} and q in ("uge", "ugt"): k2 = True
                        if u == r and set(w) <= {None} and (q == "ugt" or q == "uge" and w or q == "ne" and not w): k2 = True
                st.append((x, k2))
        else: st += [(x, known) for x in blk.succs if not loops.stuck(f, x)]
    P.check(ok, "gc_mark_and_sweep:extend", "gc_mark_and_sweep: can return without a single free cell: no heap is added although too few cells were reclaimed")

def paths(f, target, limit=200):
    """acyclic paths from the entry to a block: lists of (block, next)"""
    out = []
    def go(b, path, seen):
        if len(out) > limit: return
        if b == target: out.append(path + [b]); return
        for x in f.blocks[b].succs:
            if x not in seen: go(x, path + [b], seen | {x})
    go(0, [], {0})
    return out

def plin(f, o, path, depth=0):
    """linear form of an operand on a path: phis are resolved by the predecessor on the path"""
    if o[0] == "v":
        d = f.defs.get(o[1])
        if d is not None and depth < 30:
            if d.op == "phi":
                if d.blk.id in path:
                    k = path.index(d.blk.id)
                    if k > 0:
                        for x, p in zip(d.ops, d.raw["in"]):
                            if p == path[k - 1]: return plin(f, x, path[:k], depth + 1)
                return {("v", d.id): 1}
            R = lambda x: plin(f, x, path, depth + 1)
            if d.op in ("bitcast", "inttoptr", "ptrtoint", "freeze", "zext", "sext"): return R(d.ops[0])
            if d.op == "add": return add(R(d.ops[0]), R(d.ops[1]), 1)
            if d.op == "sub": return add(R(d.ops[0]), R(d.ops[1]), -1)
            if d.op in ("sdiv", "ashr", "udiv", "lshr") and d.ops[1][0] == "i":
                k = d.ops[1][1]; k = 1 << k if d.op in ("ashr", "lshr") else k
                a = R(d.ops[0])
                return {t: (c // k if c % k == 0 else c / k) for t, c in a.items()}
            if d.op == "getelementptr":
                if d.get("off") is not None: return add(R(d.ops[0]), {None: d.get("off")} if d.get("off") else {}, 1)
                if len(d.ops) == 2: return add(R(d.ops[0]), R(d.ops[1]), d.get("esz"))
    return loops.lin(f, o)

def stack_range(P, s, m):
    """gc_mark_locations hands on at least the words between its two addresses, whichever is higher"""
    f = fn(m, "gc_mark_locations")
    a0, a1 = ("v", f.args[0][0]), ("v", f.args[1][0])
    n = 0
    for i in f.calls():
        if i.cname not in ("gc_mark_locations_n", "gc_mark_definite_locations_n"): continue
        for path in paths(f, i.blk.id):
            if any(loops.stuck(f, b) for b in path): continue
            up = None                                 # start <= end known on the path?
            for b, nx in zip(path, path[1:]):
                t = f.blocks[b].term
                if t.op != "br" or len(t.raw["succ"]) != 2 or t.ops[0][0] != "v": continue
                c = f.defs.get(t.ops[0][1])
                if c is None or c.op != "icmp": continue
                p = c.get("pred"); p = p if t.raw["succ"][0] == nx else loops.NEG[p]
                a, bb = plin(f, c.ops[0], path), plin(f, c.ops[1], path)
                for u, w, q in ((a, bb, p), (bb, a, loops.SWP[p])):
                    if u == {a0: 1} and w == {a1: 1}:
                        if q in ("ult", "ule"): up = True
                        if q in ("ugt", "uge"): up = False
            b = plin(f, i.ops[0], path); e = add(b, plin(f, i.ops[1], path), 8)
            n += 1
            if up is None: ok = False
            elif up: ok = b == {a0: 1} and e == {a1: 1}
            else:
                lo = loops.sub(b, {a1: 1}); hi = loops.sub(e, {a0: 1})
                ok = set(lo) <= {None} and set(hi) <= {None} and lo.get(None, 0) <= 0 and hi.get(None, 0) >= 0
            P.check(ok, "gc_mark_locations:range", "gc_mark_locations: does not scan every word between the two ends it was given when %s" % ("the first is the lower one" if up else "the first is the higher one"))
    P.check(n >= 2, "gc_mark_locations:none", "gc_mark_locations: does not scan")
    P.counts["stack range paths"] = n

def rejected(P, s, m, heap, made):
    """what is accepted as a reference is one: aligned, inside a heap, and tagged like the cell it refers to"""
    f = fn(m, "within_heapp")
    it = Interp(m, s.align, s.size * 8, None, ()); it.ginit = s.it.ginit
    W = sym("W", 64); low = s.size.bit_length() - 1
    n = 0
    for k, v, st in it.run(f, [W], s.state(sym("M", s.size * 8))):
        if k != "ret": continue
        v = st.res(v)
        if isconst(v) and cval(v) == 0: continue
        n += 1
        ptrs = set()
        for (fnm, i), b in st.env.items():
            if fnm == f.name and len(b) == 64 and st.res(b)[low:] == st.res(W)[low:] and all(x == 0 for x in st.res(b)[:low]): ptrs.add(("v", i))
        for a in f.args:
            if all(x == 0 for x in st.res(W)[:low]): ptrs.add(("v", a[0]))
        P.check(bool(ptrs), "within_heapp:aligned", "within_heapp: accepts a stack word that does not refer to the start of a cell")
        facts = []
        for b, t in st.asg.items():
            if not (isinstance(b[0], str) and b[0].startswith(f.name + ".")): continue
            i = f.defs.get(int(b[0].rsplit(".", 1)[1]))
            if i is None or i.op != "icmp": continue
            p = i.get("pred"); p = p if t else loops.NEG[p]
            a, bb = loops.lin(f, i.ops[0]), loops.lin(f, i.ops[1])
            facts += [(a, p, bb), (bb, loops.SWP[p], a)]
        P1 = [{x: 1} for x in ptrs]
        lows = [tuple(a) for a, p, bb in facts if p in ("ule", "ult") and bb in P1 and len(a) == 1]
        highs = [tuple(x for x in a if x != ("ld", "l_heap_size")) for a, p, bb in facts if p == "ugt" and bb in P1 and a.get(("ld", "l_heap_size")) == s.size]
        P.check(any(h in lows for h in highs), "within_heapp:inside", "within_heapp: accepts a stack word that does not refer into a heap")
    P.check(n > 0, "within_heapp:never", "within_heapp: accepts nothing")
    if s.fatty: return
    for lab, kind, fnm, word, mem, comps, mut in heap:
        for lab2, kind2, fnm2, word2, mem2, comps2, mut2 in heap + [("free cell", "freecell", "", s.freeword, s.freemem, {}, None)]:
            if word2[:3] == word[:3] or {kind, kind2} <= {"cons", "closure"}: continue    # pairs and closures have one layout
            it.n = 0
            bad = False
            for k, v, st in it.run(f, [word], s.state(mem2)):
                if k == "ret" and not (isconst(st.res(v)) and cval(st.res(v)) == 0): bad = True
            P.count("mismatched stack words")
            P.check(not bad, "within_heapp:tag:%s:%s" % (lab.replace(" ", "-"), lab2.replace(" ", "-")), "within_heapp: accepts a word tagged as a %s that refers to a cell holding a %s" % (lab, lab2))

def marks_each(f, L, ph, base, guards, deref=1):
    """in every iteration the word at the induction address (deref times) is given to mark_obj unless
    a guard call or a null test says otherwise"""
    if len(L.exits) != 1: return False
    calls = [i for b in L.body for i in f.blocks[b].ins if i.op == "call" and i.cname == "mark_obj"]
    def addr_ok(o, n):
        d = f.defs.get(o[1]) if o[0] == "v" else None
        if d is None or d.op != "load": return False
        if n == 1:
            a = loops.lin(f, d.ops[0])
            return a == ({("v", ph.id): 1} if base is None else add({("v", ph.id): 8}, base, 1))
        return addr_ok(d.ops[0], n - 1)
    good = {c.blk.id for c in calls if addr_ok(c.ops[0], deref)}
    if not good: return False
    if deref == 2:
        # an entry may be vacant: it is followed only when it is not
        seen = set(); st = [x for x in f.blocks[L.head].succs if x in L.body]
        while st:
            b = st.pop()
            if b in seen or b == L.head: continue
            seen.add(b)
            if b in good: return False
            t = f.blocks[b].term; su = t.raw.get("succ") or []
            c = f.defs.get(t.ops[0][1]) if t.op == "br" and len(su) == 2 and t.ops[0][0] == "v" else None
            for k, x in enumerate(f.blocks[b].succs if len(su) != 2 else su):
                if c is not None and c.op == "icmp" and any(addr_ok(p, 1) and (q[0] == "n" or q[0] == "i" and q[1] == 0) for p, q in ((c.ops[0], c.ops[1]), (c.ops[1], c.ops[0]))):
                    if (c.get("pred") == "ne") == (k == 0): continue
                if x in L.body: st.append(x)
    # walk one iteration avoiding the marking blocks: only guarded skips may reach the latch
    seen = set(); st = [(x, False) for x in f.blocks[L.head].succs if x in L.body]
    while st:
        b, skip = st.pop()
        if (b, skip) in seen: continue
        seen.add((b, skip))
        if b in good: continue
        if b == L.head:
            if not skip: return False
            continue
        t = f.blocks[b].term
        su = t.raw.get("succ") or []
        if t.op == "br" and len(su) == 2:
            c = f.defs.get(t.ops[0][1]) if t.ops[0][0] == "v" else None
            for x, truth in ((su[0], True), (su[1], False)):
                ok = False
                if c is not None and c.op == "icmp":
                    for p, q in ((c.ops[0], c.ops[1]), (c.ops[1], c.ops[0])):
                        zero = q[0] == "n" or q[0] == "i" and q[1] == 0
                        d = f.defs.get(p[1]) if p[0] == "v" else None
                        if zero and d is not None:
                            isz = (c.get("pred") == "eq") == truth
                            if d.op == "call" and d.cname in guards and addr_ok(d.ops[0], 1): ok = ok or isz
                            if deref == 2 and addr_ok(p, 1): ok = ok or isz
                if x in L.body: st.append((x, skip or ok))
        else:
            st += [(x, skip) for x in f.blocks[b].succs if x in L.body]
    return True

def conservative(P, s, m, heap):
    """a word that refers to a live cell inside a heap is never rejected"""
    f = fn(m, "within_heapp")
    it = Interp(m, s.align, s.size * 8, None, ()); it.ginit = s.it.ginit
    bound = {}
    for i in f.instrs():
        if i.op == "load":
            g = m.gname(i.ops[0])
            if g in ("l_heaps_lowest", "l_heaps_highest"): bound.setdefault(g, set()).add(i.id)
    for lab, kind, fnm, word, mem, comps, mut in heap:
        it.n = 0
        for k, v, st in it.run(f, [word], s.state(mem)):
            if k != "ret": continue
            P.count("stack word paths")
            v = st.res(v)
            if isconst(v) and cval(v) != 0: continue
            ok = False
            # rejected: the path must have seen the cell outside the enclosure or outside every heap
            for b, t in st.asg.items():
                d = st.conds.get(b)
                if not d or d[0] != "cmp": continue
                p, x, y = d[1], st.res(d[2]), st.res(d[3])
                if not t: p = loops.NEG[p]
                for u, w, q in ((x, y, p), (y, x, loops.SWP[p])):
                    if u == s.P or tuple(u) == tuple(s.P):
                        nm = gname_of(f, m, st, w, it)
                        if nm == "l_heaps_lowest" and q == "ult": ok = True
                        if nm == "l_heaps_highest" and q in ("uge",): ok = True
            if not ok: ok = loop_exhausted(f, m, st, s)
            P.check(ok, "within_heapp:" + lab.replace(" ", "-"), "within_heapp: a stack word that refers to a %s inside a heap can be rejected: the object is freed while in use" % lab)

def gname_of(f, m, st, w, it):
    for i in f.instrs():
        if i.op == "load" and st.env.get((f.name, i.id)) is not None and st.res(st.env[(f.name, i.id)]) == w:
            g = m.gname(i.ops[0])
            if g: return g
    return None

def loop_exhausted(f, m, st, s):
    """the path left the loop over all heaps through its end"""
    for L in loops.loops(f):
        for ph, lo, hi, stp in loops.covers(L):
            if not lo and hi == {("ld", "l_n_heaps"): 1} and stp == 1:
                c = f.defs.get(f.blocks[L.head].term.ops[0][1])
                if c is None: continue
                b = st.env.get((f.name, c.id))
                if b and st.asg.get(b[0], b[0]) == int(not L.cond[3]):
                    # leaving any other way must be to an accept; skipping a heap needs the cell outside it
                    return skips_ok(f, m, L, ph)
    return False

def skips_ok(f, m, L, ph):
    """an iteration that continues without accepting has seen the address outside that heap"""
    # heap = l_heaps[i]
    hp = None
    for b in L.body:
        for i in f.blocks[b].ins:
            if i.op == "load" and loops.lin(f, i.ops[0]) == {("ld", "l_heaps"): 1, ("v", ph.id): 8}: hp = i
    if hp is None: return False
    heap = {("v", hp.id): 1}
    seen = set(); st = [(x, False) for x in f.blocks[L.head].succs if x in L.body]
    while st:
        b, skip = st.pop()
        if (b, skip) in seen: continue
        seen.add((b, skip))
        if b == L.head:
            if not skip: return False
            continue
        t = f.blocks[b].term; su = t.raw.get("succ") or []
        if t.op == "br" and len(su) == 2:
            c = f.defs.get(t.ops[0][1]) if t.ops[0][0] == "v" else None
            for x, truth in ((su[0], True), (su[1], False)):
                ok = False
                if c is not None and c.op == "icmp":
                    p = c.get("pred"); p = p if truth else loops.NEG[p]
                    a, bb = loops.lin(f, c.ops[0]), loops.lin(f, c.ops[1])
                    for u, w, q in ((a, bb, p), (bb, a, loops.SWP[p])):
                        # u: heap bound, w: address
                        if u == heap and not w and q == "eq": ok = True          # no heap there
                        if u == heap and w and q == "ugt": ok = True             # heap above the address
                        d = loops.sub(u, heap)
                        if set(d) == {("ld", "l_heap_size")} and q == "ule": ok = True
                if x in L.body: st.append((x, skip or ok))
        else: st += [(x, skip) for x in f.blocks[b].succs if x in L.body]
    return True

def allocation(P, s, m):
    f = fn(m, "scm_alloc_cell")
    N = s.objw("N")
    ld = [i for i in f.instrs() if i.op == "load" and m.gname(i.ops[0]) == "l_freelist"]
    if not ld: P.check(False, "scm_alloc_cell", "scm_alloc_cell: does not take cells from the free list"); return
    null = s.val("w_const_null", [], s.freemem)
    for start in ("list", "empty"):
        def hook(it, g, i, nm, args, st):
            if nm == "gc_mark_and_sweep":
                st = st.copy(); st.gmem[addr] = s.freeword; st.ev = st.ev + (("gc",),); return [(None, st)]
            return None
        it = Interp(m, s.align, s.size * 8, hook, ()); it.ginit = s.it.ginit
        st = s.state(s.freemem); addr = it.val(st, f, ld[0].ops[0])
        st.gmem[addr] = s.freeword if start == "list" else null
        rs = [r for r in it.run(f, [], st) if r[0] == "ret"]
        P.count("allocation paths", len(rs))
        P.check(bool(rs), "scm_alloc_cell:" + start, "scm_alloc_cell: never returns")
        for k, v, st2 in rs:
            P.check(st2.res(v) == s.freeword, "scm_alloc_cell:" + start, "scm_alloc_cell: does not return the head of the free list")
            P.check(st2.gmem.get(addr) is not None and st2.res(st2.gmem[addr]) == N, "scm_alloc_cell:next", "scm_alloc_cell: the cell handed out stays on the free list, or the rest of the list is lost")
            P.check((("gc",) in st2.ev) == (start == "empty"), "scm_alloc_cell:gc", "scm_alloc_cell: collects exactly when the free list is empty")
    # a new heap: every cell linked, the enclosure widened, the heap recorded
    f = fn(m, "add_heap")
    done = False
    for L, ph, lo, special in cell_ranges(s, f):
            if len(L.exits) == 1 and len(lo) == 1:
                (t, c), = lo.items()
                d = f.defs.get(t[1]) if t and t[0] == "v" else None
                if d is None or d.op != "call": continue
                done = True
                # one iteration reclaims the cell onto the list
                nxt = [p for p in f.blocks[L.head].phis if p.id != ph.id and bits.width(p.ty) == 64]
                it = Interp(m, s.align, s.size * 8, None, ()); it.ginit = s.it.ginit; it.special = special
                st = s.state(sym("M", s.size * 8))
                for p in f.blocks[L.head].phis: st.env[(f.name, p.id)] = sym("h%d" % p.id, bits.width(p.ty))
                st.env[(f.name, ph.id)] = s.P
                for b in [b for b in f.blocks[L.head].succs if b in L.body]:
                    for k, v, st2 in it.run(f, [], st, start=b, stop={L.head}):
                        fw = [p for p in nxt if v.get(p.id) == s.freeword]
                        ok = s.val("w_cell_freecellp", [s.P], st2.mem) == const(1, 32) and bool(fw) and s.val("w_freecell_next", [s.freeword], st2.mem) == sym("h%d" % fw[0].id, 64)
                        P.check(ok, "add_heap:link", "add_heap: a cell of a new heap is not linked into the free list")
                sto = [i for i in f.instrs() if i.op == "store" and m.gname(i.ops[1]) == "l_freelist"]
                P.check(any(i.ops[0][0] == "v" and i.ops[0][1] in {p.id for p in nxt} for i in sto), "add_heap:list", "add_heap: the cells of a new heap do not reach the free list")
                ini = [o for p in nxt for o, q in zip(p.ops, p.raw["in"]) if q not in L.body]
                P.check(any(o[0] == "v" and f.defs.get(o[1]) is not None and f.defs[o[1]].op == "load" and m.gname(f.defs[o[1]].ops[0]) == "l_freelist" for o in ini), "add_heap:list-start", "add_heap: the old free list is lost")
                base = ("v", d.id)
                for g, form, q in (("l_heaps_highest", {base: 1, ("ld", "l_heap_size"): s.size}, "high"), ("l_heaps_lowest", {base: 1}, "low")):
                    ok = False
                    for i in f.instrs():
                        if i.op == "store" and m.gname(i.ops[1]) == g:
                            ok = loops.lin(f, i.ops[0]) == form and widened(f, m, i, g, form, q)
                            if not ok and loops.lin(f, i.ops[0]) != form:
                                dd = f.defs.get(i.ops[0][1]) if i.ops[0][0] == "v" else None
                                ok = dd is not None and dd.op in ("select", "phi") and any(loops.lin(f, o) == form for o in dd.ops)
                    P.check(ok, "add_heap:" + g, "add_heap: %s is not moved to enclose the new heap: stack references into it would be ignored" % g)
                rec = any(i.op == "store" and i.ops[0] == base and set(loops.lin(f, i.ops[1])) >= {("ld", "l_heaps")} for i in f.instrs())
                P.check(rec, "add_heap:record", "add_heap: the new heap is not recorded")
    P.check(done, "add_heap:cells", "add_heap: does not link every cell of a new heap")

def widened(f, m, store, g, form, q):
    """the store happens whenever the bound would otherwise not enclose the heap"""
    # the path around the store requires the bound to be beyond already
    b = store.blk
    if all(f.dominates(b.id, r.id) for r in f.blocks if r.term.op == "ret"): return False      # unconditional: shrinks
    for p in b.preds:
        t = f.blocks[p].term
        if t.op != "br" or len(t.raw["succ"]) != 2: return False
        c = f.defs.get(t.ops[0][1]) if t.ops[0][0] == "v" else None
        if c is None or c.op != "icmp": return False
        pr = c.get("pred") if t.raw["succ"][0] == b.id else loops.NEG[c.get("pred")]
        a, bb = loops.lin(f, c.ops[0]), loops.lin(f, c.ops[1])
        ok = False
        for u, w, r in ((a, bb, pr), (bb, a, loops.SWP[pr])):
            if u == {("ld", g): 1} and w == form and r in (("ult", "ule") if q == "high" else ("ugt", "uge")): ok = True
        if not ok: return False
    return True
