"""C06: objects held by native long-lived state are registered with the collector."""
import ir, loops, envc
from ir import OBJ
from core import Part, Broken, Missing, need_fn
from rules.c05 import always
from typestate import GLOBCONST, MAKERM
PROTECT = ("scm_gc_protect", "scm_gc_protect_with_init")
GATE = "scm_call_with_gc_ready_stack"
# the interface through which a program embeds the interpreter
API = ("main", "scm_initialize", "scm_load", "scm_use", "scm_require_module", "scm_require", "scm_eval_c_string", "scm_set_lib_path", "scm_finalize")
GATED = ("scm_initialize", "scm_load", "scm_use", "scm_require_module", "scm_require", "scm_eval_c_string")
# native tables whose elements the collector marks itself (checked by C05)
ROOTED = {"scm_symbol_hash"}

def bases(f, o, seen=None):
    """what the address o is computed from"""
    seen = set() if seen is None else seen
    out = set(); st = [o]
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x)
        if x[0] == "ge": st.append(x[1]); continue
        if x[0] != "v": out.add(x); continue
        d = f.defs.get(x[1])
        if d is None: out.add(("arg", x[1])); continue
        if d.op in ("getelementptr", "bitcast", "inttoptr", "addrspacecast", "ptrtoint", "and", "or", "freeze"): st.append(d.ops[0])
        elif d.op in ("phi", "select"): st += [y for y in (d.ops[1:] if d.op == "select" else d.ops)]
        elif d.op == "call": out.add(("call", d.cname, d.id))
        elif d.op == "load": out.add(("load", d.id))
        elif d.op == "alloca": out.add(("alloca", d.id))
        else: out.add((d.op, d.id))
    return out

def values(f, o, seen=None):
    """the possible sources of a value: constants, calls, loads, arguments"""
    seen = set() if seen is None else seen
    if o in seen: return set()
    seen.add(o)
    if o[0] == "v":
        d = f.defs.get(o[1])
        if d is not None and d.op in ("phi", "select"):
            r = set()
            for y in (d.ops[1:] if d.op == "select" else d.ops): r |= values(f, y, seen)
            return r
        if d is not None and d.op in ("bitcast", "freeze", "addrspacecast"): return values(f, d.ops[0], seen)
    return {o}

def gaddr(m, o):
    """(variable, byte offset) an address constant denotes"""
    off = 0
    while o and o[0] == "ge": off += o[2]; o = o[1]
    return (o[1], off) if o and o[0] == "g" else None

class Prot:
    """registrations: (variable, offset) -> [(function, call)]"""
    def __init__(s, P, m):
        s.reg = {}; s.ranges = []     # [(var, lo, hi, f, i)]
        s.m = m
        wrap = {n: 0 for n in PROTECT}
        # functions that hand a parameter on to a registering function register it
        ch = True
        while ch:
            ch = False
            for f in m.defined():
                if f.name in wrap or f.name == "scm_gc_protect_with_init": continue
                for i in f.calls():
                    if i.cname in wrap and len(i.ops) > wrap[i.cname]:
                        a = i.ops[wrap[i.cname]]
                        for k, (id_, *_x) in enumerate(f.args):
                            if a == ("v", id_) and always(f, {i.cname}): wrap[f.name] = k; ch = True
                    if f.name in wrap: break
        s.wrap = wrap
        for f in m.defined():
            for i in f.calls():
                if i.cname not in wrap: continue
                a = i.ops[wrap[i.cname]]
                if f.name in wrap and a == ("v", f.args[wrap[f.name]][0]): continue
                g = gaddr(m, a)
                P.count("registrations")
                if g:
                    s.reg.setdefault(g, []).append((f, i)); continue
                if a[0] == "v" and f.defs.get(a[1]) is not None and f.defs[a[1]].op in ("phi", "select"):
                    d = f.defs[a[1]]
                    hit = False
                    for L in loops.loops(f):
                        for ph, lo, hi, step in loops.covers(L):
                            if ph.id != d.id: continue
                            kl = [t for t in lo if isinstance(t, tuple) and t[0] == "&"]; kh = [t for t in hi if isinstance(t, tuple) and t[0] == "&"]
                            if len(kl) == 1 and kl == kh and set(lo) <= {kl[0], None} and set(hi) <= {kl[0], None} and step == 8:
                                s.ranges.append((kl[0][1], lo.get(None, 0), hi.get(None, 0), f, i)); hit = True
                                t = (m.globals.get(kl[0][1]) or {}).get("ty") or ""
                                sz = m.structs.get(t[1:]) or m.structs.get(t)
                                if sz and sz.get("size"): P.check(lo.get(None, 0) >= 0 and hi.get(None, 0) <= sz["size"], f.name + ":range", "%s %s: registers storage beyond the end of the variables" % (f.name, i.loc()))
                    if hit: continue
                    gs = [gaddr(m, y) for y in values(f, a)]
                    if all(gs) :
                        P.check(False, f.name + ":protect", "%s %s: which variable is registered depends on the path" % (f.name, i.loc())); continue
                bs = bases(f, a)
                key = f.name + ":protect"
                if any(b[0] == "alloca" for b in bs):
                    P.check(False, key, "%s %s: registers a local variable, whose storage ends with the function, with the collector" % (f.name, i.loc()))
                else:
                    unreg = any(j.cname == "scm_gc_unprotect" for g2 in m.defined() for j in g2.calls())
                    P.check(unreg, key, "%s %s: registers dynamically allocated storage and nothing ever unregisters" % (f.name, i.loc()))
    def sites(s, g):
        r = list(s.reg.get(g, []))
        for v, lo, hi, f, i in s.ranges:
            if v == g[0] and lo <= g[1] < hi: r.append((f, i))
        return r

def harmless(f, m, o):
    """is every source of o a constant or an interned symbol (kept by the symbol table)?"""
    for v in values(f, o):
        if v[0] in ("g",) and v[1] in GLOBCONST: continue
        if v[0] == "v":
            d = f.defs.get(v[1])
            if d is not None and d.op == "call" and d.cname == "scm_intern": continue
            if d is not None and d.op == "load" and d.ops[0][0] == "g" and d.ops[0][1] in GLOBCONST: continue
        elif v[0] in ("i", "n"): continue
        return False
    return True

def once(f, i):
    """instruction i is on every path of f to a return"""
    seen = set(); st = [0]
    while st:
        b = st.pop()
        if b in seen: continue
        seen.add(b)
        if b == i.blk.id: continue
        if f.blocks[b].term.op == "ret": return False
        st += [x for x in f.blocks[b].succs if not loops.stuck(f, x)]
    return True

def before(f, i, j):
    """i executes before j on every path"""
    if i.blk.id == j.blk.id: return i.idx < j.idx
    if f.dominates(i.blk.id, j.blk.id): return True
    # registering loop: its header comes first
    for L in loops.loops(f):
        if i.blk.id in L.body and j.blk.id not in L.body and f.dominates(L.head, j.blk.id): return True
    return False

def in_loop_head(f, i):
    for L in loops.loops(f):
        if i.blk.id in L.body and once(f, f.blocks[L.head].ins[0]): return True
    return False

def boot(m):
    """functions that only run while the interpreter or a module is being initialised"""
    callers = {}
    taken = set()
    for f in m.defined():
        for i in f.instrs():
            for o in list(i.ops):
                for x in flat(o):
                    if x[0] == "f": taken.add(x[1]) if not (i.op == "call" and i.cname == x[1]) else None
            if i.op == "call" and i.cname: callers.setdefault(i.cname, set()).add(f.name)
    return callers

def flat(o):
    if isinstance(o, tuple):
        if o and o[0] in ("f",): yield o
        for x in o:
            if isinstance(x, tuple): yield from flat(x)

def run(cfg):
    P = Part("c06", cfg)
    m = ir.Module(cfg)
    pr = Prot(P, m)
    # 1. global variables
    stores = {}
    for f in m.defined():
        for i in f.instrs():
            if i.op == "store" and i.get("vty") == OBJ:
                for b in bases(f, i.ops[1]):
                    if b[0] == "g":
                        g = gaddr(m, i.ops[1])
                        stores.setdefault(g or (b[1], None), []).append((f, i))
            elif i.op == "call" and i.cname in ("scm_gc_protect_with_init",): pass
    for g, ss in sorted(stores.items(), key=lambda x: str(x[0])):
        if g[0].startswith("sal_k_"): continue
        nm = m.gname(("ge", ("g", g[0]), g[1]) if g[1] else ("g", g[0])) or g[0]
        P.count("global variables holding objects")
        if all(harmless(f, m, i.ops[0]) for f, i in ss):
            P.check(True, "", ""); P.count("hold only symbols and constants"); continue
        sites = pr.sites(g)
        f, i = [x for x in ss if not harmless(x[0], m, x[1].ops[0])][0]
        if not P.check(bool(sites), nm + ":unregistered", "%s (%s %s): keeps an object the collector is never told about" % (nm, f.name, i.loc())): continue
        P.check(any(once(f2, i2) or in_loop_head(f2, i2) for f2, i2 in sites), nm + ":registered", "%s: %s can return without having registered it" % (nm, sites[0][0].name))
        for f, i in ss:
            here = [s for s in sites if s[0] is f]
            if here and not harmless(f, m, i.ops[0]):
                ok = any(before(f, s[1], i) for s in here) or any(quiet_between(m, f, i, s[1]) for s in here)
                P.check(ok, nm + ":order", "%s (%s %s): the object is stored before the variable is registered" % (nm, f.name, i.loc()))
    # registered with an initial value: must be a valid object; plain protect: variable must have been set
    for g, ss in pr.reg.items():
        for f, i in ss:
            if i.cname == "scm_gc_protect":
                nm = m.gname(("ge", ("g", g[0]), g[1]) if g[1] else ("g", g[0])) or g[0]
                init = any(s[0] is f and before(f, s[1], i) for s in stores.get(g, []))
                P.check(init, nm + ":init", "%s (%s %s): registered with the collector before it holds an object" % (nm, f.name, i.loc()))
    P.need("global variables holding objects", 20); P.need("registrations", 15)
    # never unregistered while in use
    for f in m.defined():
        for i in f.calls():
            if i.cname == "scm_gc_unprotect":
                g = gaddr(m, i.ops[0])
                P.check(not g or f.name.startswith("scm_fin") or not stores.get(g), f.name + ":unprotect", "%s %s: unregisters a variable that is still used" % (f.name, i.loc()))
    # 2. blocks of native memory holding objects
    native_blocks(P, m)
    # 3. entry points
    gates(P, m)
    bookkeeping(P, ir.Module(cfg, "real"))
    return P

ALLOCF = {"scm_malloc", "scm_realloc", "scm_calloc", "scm_malloc_aligned"}
def allocating(m):
    if hasattr(m, "_alloc"): return m._alloc
    # may create objects (and so collect): constructors, and what reaches them without passing an error
    bad = set(MAKERM) - {"sal_make_int", "sal_make_char", "scm_make_int", "scm_make_char"} | {"scm_make_cons", "scm_alloc_cell"}
    if any(n in m.fns for n in ("scm_make_int",)) and m.cfg == "fatty": bad |= {"scm_make_int", "scm_make_char", "sal_make_int", "sal_make_char"}
    ch = True
    while ch:
        ch = False
        for f in m.defined():
            if f.name in bad: continue
            for i in f.calls():
                if loops.stuck(f, i.blk.id): continue
                if i.cname in bad or i.cname is None or i.cname == GATE: bad.add(f.name); ch = True; break
    m._alloc = bad
    return bad

def quiet_between(m, f, a, b):
    """nothing between a and b (same block, a first) can collect"""
    if a.blk.id != b.blk.id or a.idx > b.idx: return False
    al = allocating(m)
    return not any(i.op == "call" and (i.cname is None or i.cname in al) for i in a.blk.ins[a.idx + 1:b.idx])

def native_blocks(P, m):
    al = allocating(m)
    for f in m.defined():
        own = [i for i in f.calls() if (i.cname or "").startswith(("scm_make_vector", "scm_make_immutable_vector")) ]
        for i in f.instrs():
            if i.op != "store" or i.get("vty") != OBJ: continue
            for b in bases(f, i.ops[1]):
                if b[0] != "call" or b[1] not in ALLOCF: continue
                P.count("stores into native memory")
                blk = ("v", b[2])
                owner = [c for c in own if any(x == b for a in c.ops for x in bases(f, a)) and before(f, c, i)]
                if owner: P.check(True, "", ""); continue
                # the stored object must be held by something else: not the fresh result of an allocation
                fresh = [v for v in values(f, i.ops[0]) if v[0] == "v" and f.defs.get(v[1]) is not None and f.defs[v[1]].op == "call" and (f.defs[v[1]].cname is None or f.defs[v[1]].cname in al)]
                P.check(not fresh, f.name + ":block", "%s %s: keeps a new object only in native memory the collector does not look at" % (f.name, i.loc()))
    P.need("stores into native memory", 2)

def gates(P, m):
    al = allocating(m)
    for n in GATED:
        f = need_fn(m, n)
        P.check(always(f, {GATE}), n + ":gate", "%s: can return without having gone through %s" % (n, GATE))
        P.count("entry points")
    mk = set(MAKERM) | {"scm_make_cons"}
    special = {"scm_init_storage": "sets up the heap; what it keeps is registered"}
    for n in API:
        f = m.fns.get(n)
        if f is None or f.decl: raise Missing(n)
        par = {n: None}; q = [n]
        while q:
            x = q.pop(); g = m.fns.get(x)
            if g is None or g.decl: continue
            for i in g.calls():
                if loops.stuck(g, i.blk.id): continue
                c = i.cname
                if c is None or c == GATE or c in special: continue
                P.count("calls followed outside the collector's view")
                if c in mk and c not in ("sal_make_int", "sal_make_char") or c == "scm_alloc_cell":
                    P.check(c in ("scm_make_immutable_string", "scm_make_immutable_string_copying") and feeds_protect(g, i), "%s:outside" % x,
                            "%s %s: creates an object on a stack the collector does not know (reached from %s)" % (x, i.loc(), n)); continue
                if c not in par: par[c] = x; q.append(c)
        P.check(True, "", "")
    # functions run behind the gate are not called from outside it
    inner = set()
    for f in m.defined():
        for i in f.calls():
            if i.cname == GATE:
                for v in values(f, i.ops[0]):
                    if v[0] == "f": inner.add(v[1])
    P.count("functions run behind the gate", len(inner))
    P.need("functions run behind the gate", 5)

def feeds_protect(f, i):
    return any(u.op == "call" and u.cname in PROTECT for u, k in f.uses().get(i.id, ()))

# ---- the list of registered variables (real module)
def gl(f, o):
    d = f.defs.get(o[1]) if o[0] == "v" else None
    return f.mod.gname(d.ops[0]) if d is not None and d.op == "load" else None

def bookkeeping(P, m):
    F = lambda n: need_fn(m, n)
    pi = F("scm_gc_protect_with_init"); v, x = ("v", pi.args[0][0]), ("v", pi.args[1][0])
    st = [i for i in pi.instrs() if i.op == "store" and i.ops[0] == x and i.ops[1] == v]
    P.check(any(once(pi, i) for i in st), "scm_gc_protect_with_init:store", "scm_gc_protect_with_init: the variable does not receive its initial value on every path")
    inl = [i for i in pi.calls() if i.cname == "scm_gc_protect" and i.ops[0] == v]
    P.check(any(once(pi, i) for i in inl) , "scm_gc_protect_with_init:protect", "scm_gc_protect_with_init: does not register the variable on every path")
    f = F("scm_gc_protect"); var = ("v", f.args[0][0])
    puts = [i for i in f.instrs() if i.op == "store" and i.ops[0] == var]
    # every path stores the variable's address into a slot ...
    P.check(bool(puts) and all_paths(f, puts), "scm_gc_protect:store", "scm_gc_protect: some path does not store the variable's address in the list")
    ARR, SZ, EMP = "l_protected_vars", "l_protected_vars_size", "l_n_empty_protected_vars"
    for i in puts:
        for v, blk in sources(f, i.ops[1], i.blk.id):
            P.count("slots chosen")
            d = f.defs.get(v[1]) if v[0] == "v" else None
            if d is not None and d.op == "call" and d.cname == "locate_protected_var":
                # a vacant one: exists only if the count of vacant slots is not zero, and one fewer remains
                ok = d.ops[0] == ("n",) and guarded_nonzero(f, d, EMP)
                P.check(ok, "scm_gc_protect:vacant", "scm_gc_protect %s: takes a vacant slot without knowing that there is one" % d.loc())
                P.check(adjusts(f, d.blk.id, EMP, -1), "scm_gc_protect:count", "scm_gc_protect %s: the count of vacant slots is not reduced by one" % d.loc())
                continue
            l = loops.lin(f, v)
            rc = [c for c in f.calls() if c.cname == "scm_realloc"]
            szl = ("ld", SZ)
            arr = [t for t in l if t is not None and t != szl]
            new = len(arr) == 1 and l[arr[0]] == 1 and l.get(szl, 0) == 8 and l.get(None, 0) == 0
            base_new = new and (any(arr[0] == ("v", c.id) for c in rc) or arr[0] == ("ld", ARR))
            P.check(base_new, "scm_gc_protect:slot", "scm_gc_protect %s: the slot written is not the one just past the list" % i.loc())
            good = [c for c in rc if loops.lin(f, c.ops[1]) in ({szl: 8, None: 8},) and gl(f, c.ops[0]) == ARR]
            P.check(bool(good), "scm_gc_protect:grow", "scm_gc_protect: the list is not enlarged by one element")
            if good:
                P.check(any(s.op == "store" and m.gname(s.ops[1]) == ARR and s.ops[0] == ("v", good[0].id) and f.dominates(good[0].blk.id, s.blk.id) and s.blk.id == good[0].blk.id for s in f.instrs()), "scm_gc_protect:array", "scm_gc_protect: the enlarged list is not kept")
                P.check(adjusts(f, good[0].blk.id, SZ, 1), "scm_gc_protect:size", "scm_gc_protect: the length of the list does not grow by one")
    P.need("slots chosen", 1)
    u = F("scm_gc_unprotect"); var = ("v", u.args[0][0])
    loc = [c for c in u.calls() if c.cname == "locate_protected_var"]
    for i in u.instrs():
        if i.op == "store" and i.get("vty") == "ptr":
            P.check(len(loc) == 1 and loc[0].ops[0] == var and i.ops[1] == ("v", loc[0].id) and i.ops[0] == ("n",) and nonnull_at(u, loc[0].id, i.blk.id), "scm_gc_unprotect:slot", "scm_gc_unprotect %s: writes something else than the found slot of the variable" % i.loc())
            P.check(adjusts(u, i.blk.id, EMP, 1), "scm_gc_unprotect:count", "scm_gc_unprotect %s: the count of vacant slots is not increased by one" % i.loc())
        elif i.op == "store":
            P.check(m.gname(i.ops[1]) == EMP and (not loc or nonnull_at(u, loc[0].id, i.blk.id)), "scm_gc_unprotect:other", "scm_gc_unprotect %s: changes the bookkeeping although nothing was removed" % i.loc())
    g = F("locate_protected_var"); var = ("v", g.args[0][0])
    ok = False
    for L in loops.loops(g):
        for ph, lo, hi, step in loops.covers(L):
            if lo == {("ld", ARR): 1} and hi == {("ld", ARR): 1, ("ld", SZ): 8} and step == 8: ok = True
            if lo == {} and hi == {("ld", SZ): 1} and step == 1: ok = True
    P.check(ok, "locate_protected_var:range", "locate_protected_var: does not look through the whole list")
    P.check(any(v != ("n",) for r in g.instrs() if r.op == "ret" and r.ops for v, b in sources(g, r.ops[0], r.blk.id) if live(g, b)), "locate_protected_var:found", "locate_protected_var: never reports a slot")
    for r in g.instrs():
        if r.op != "ret" or not r.ops: continue
        P.check(matched(g, r.ops[0], r.blk.id, var, set()), "locate_protected_var:match", "locate_protected_var: returns a slot that was not compared with the variable")

def matched(g, v, blk, var, seen):
    """v, arriving from block blk, is null or was found to hold var"""
    if v == ("n",): return True
    if (v, blk) in seen: return True
    seen.add((v, blk))
    for B in g.blocks:
        t = B.term
        if t.op != "br" or len(t.raw["succ"]) != 2: continue
        c = g.defs.get(t.ops[0][1]) if t.ops[0][0] == "v" else None
        if c is None or c.op != "icmp" or c.get("pred") not in ("eq", "ne"): continue
        for x, y in ((0, 1), (1, 0)):
            ld = g.defs.get(c.ops[x][1]) if c.ops[x][0] == "v" else None
            if ld is not None and ld.op == "load" and loops.lin(g, ld.ops[0]) == loops.lin(g, v) and c.ops[y] == var:
                s = t.raw["succ"][0 if c.get("pred") == "eq" else 1]
                if g.dominates(s, blk): return True
                if blk == B.id and len(g.blocks[B.id].succs) == 2: return True if s != t.raw["succ"][1 if c.get("pred") == "eq" else 0] else False
    d = g.defs.get(v[1]) if v[0] == "v" else None
    if d is not None and d.op == "phi" and d.id is not None:
        return all(matched(g, y, b, var, seen) for y, b in zip(d.ops, d.get("in")))
    return False

def sources(f, o, blk, seen=None):
    """[(value, block from which it comes)] through phis"""
    seen = set() if seen is None else seen
    d = f.defs.get(o[1]) if o[0] == "v" else None
    if d is not None and d.op == "phi":
        if d.id in seen: return []
        seen.add(d.id); r = []
        for y, b in zip(d.ops, d.get("in")): r += sources(f, y, b, seen)
        return r
    return [(o, blk)]

def live(f, b):
    """block b can be reached (no branch on a constant leads away from it for good)"""
    seen = set(); st = [0]
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x); t = f.blocks[x].term; ss = f.blocks[x].succs
        if t.op == "br" and len(t.raw["succ"]) == 2 and t.ops[0][0] == "i": ss = [t.raw["succ"][0 if t.ops[0][1] & 1 else 1]]
        st += ss
    return b in seen

def all_paths(f, ins):
    hit = {i.blk.id for i in ins}
    seen = set(); st = [0]
    while st:
        b = st.pop()
        if b in seen or b in hit: continue
        seen.add(b)
        if f.blocks[b].term.op == "ret": return False
        st += [x for x in f.blocks[b].succs if not loops.stuck(f, x)]
    return True

def adjusts(f, blk, g, k):
    """on every path from block blk to the end, the global is set to its value plus k"""
    ss = [s for s in f.instrs() if s.op == "store" and f.mod.gname(s.ops[1]) == g]
    if not ss: return False
    for s in ss:
        if loops.lin(f, s.ops[0]) == {("ld", g): 1, None: k} and (s.blk.id == blk or f.dominates(blk, s.blk.id) or f.dominates(s.blk.id, blk)): return True
    return False

def guarded_nonzero(f, i, g):
    for B in f.blocks:
        t = B.term
        if t.op != "br" or len(t.raw["succ"]) != 2: continue
        c = f.defs.get(t.ops[0][1]) if t.ops[0][0] == "v" else None
        if c is None or c.op != "icmp": continue
        for x, y in ((0, 1), (1, 0)):
            if gl(f, c.ops[x]) == g and c.ops[y][0] == "i" and c.ops[y][1] == 0 and c.get("pred") in ("ne", "eq", "ugt"):
                s = t.raw["succ"][0 if c.get("pred") != "eq" else 1]
                if f.dominates(s, i.blk.id): return True
    return False

def nonnull_at(f, vid, blk):
    for B in f.blocks:
        t = B.term
        if t.op != "br" or len(t.raw["succ"]) != 2: continue
        c = f.defs.get(t.ops[0][1]) if t.ops[0][0] == "v" else None
        if c is None or c.op != "icmp" or c.get("pred") not in ("eq", "ne"): continue
        if ("v", vid) in c.ops and ("n",) in c.ops:
            s = t.raw["succ"][0 if c.get("pred") == "ne" else 1]
            if f.dominates(s, blk): return True
    return False
