"""C16: native memory requests are checked, released once, not used after release, and not lost on normal exits."""
import ir
from ir import OBJ
from core import Part, Broken, need_fn

RAW = {"malloc": None, "calloc": None, "strdup": None, "memalign": None, "aligned_alloc": None, "realloc": 0, "strndup": None}
OWNERS = {"scm_make_string": (0,), "scm_make_immutable_string": (0,), "scm_make_vector": (0,), "scm_make_immutable_vector": (0,), "scm_make_symbol": (0,), "scm_make_port": (0,),
          "sal_string_set_str": (1,), "sal_vector_set_vec": (1,), "sal_symbol_set_name": (1,), "sal_port_set_impl": (1,), "sal_continuation_set_opaque": (1,), "sal_c_pointer_set_value": (1,)}
SAME = {"memcpy", "strcpy", "strcat", "strncpy", "memmove", "memset", "strncat"}              # return their first argument
PURE = {"strlen", "strcmp", "strcpy", "strcat", "strncpy", "strncmp", "memcpy", "memset", "memmove", "memcmp", "strchr", "strrchr", "strpbrk", "strspn", "strcspn", "fopen", "fputs", "snprintf", "sprintf", "getenv", "atoi", "strtol", "isatty", "perror", "scm_port_puts"}
BODY = {"sal_string_str": "string body", "sal_vector_vec": "vector body"}
CAST = ("getelementptr", "bitcast", "addrspacecast", "freeze", "inttoptr", "ptrtoint")

class Mem:
    def __init__(s, m, own=None):
        s.m = m; s.sum = {}; s.busy = set(); s.fresh = {}; s.evals = reach_back(m, {"scm_eval", "scm_call", "scm_apply"})
        # replacing a body: directly, or by running Scheme code when some procedure does so
        reg = {d[2] for d in m.funcdescs()}; s.mut = {}
        for b, st in (("sal_string_str", "sal_string_set_str"), ("sal_vector_vec", "sal_vector_set_vec")):
            r = reach_back(m, {st}); s.mut[b] = r | s.evals if r & reg else r
        s.kind = None; s.stal = {}
        s.addr_taken = taken(m); s.errs = reach_back(m, {"scm_raise_error", "scm_fatal_error", "longjmp", "__sigsetjmp"} | {f.name for f in m.fns.values() if f.noreturn})
    # ---- which functions return a block of their own
    def returns_fresh(s, g):
        n = g.name
        if n in s.fresh: return s.fresh[n]
        s.fresh[n] = False
        if g.decl or g.ret != "ptr": return False
        r = any("ret" in {st for st, why in s.track(g, ("ins", i))[0]} for i in g.calls() if s.is_alloc(i))
        s.fresh[n] = r
        return r
    def is_alloc(s, i):
        n = i.cname
        if n is None: return False
        if n in RAW: return True
        g = s.m.fns.get(n)
        return g is not None and not g.decl and i.ty == "ptr" and s.returns_fresh(g)
    # ---- what a call does to the block passed as argument k: set of 'own' 'freed' 'gone' 'ret' (returned), and whether used after Scheme code ran
    def summary(s, n, k):
        if n == "free": return {("freed", None)}
        if n == "realloc": return {("freed", None)} if k == 0 else {("own", None)}
        if n in OWNERS: return {("gone", None)} if k in OWNERS[n] else {("own", None)}
        g = s.m.fns.get(n)
        if n in PURE or (n and (n.startswith("llvm.") or n.startswith("sal_"))): return {("own", None)}
        if g is None or g.decl: return {("own", None)}
        if (n, k) in s.sum: return s.sum[(n, k)]
        if (n, k) in s.busy or k >= len(g.args): return {("own", None)}
        s.busy.add((n, k))
        r, ev = s.track(g, ("param", k))
        s.busy.discard((n, k))
        s.sum[(n, k)] = {(x, None) for x, w in r} or {("end", None)}
        return s.sum[(n, k)]
    def stale_in(s, n, k):
        """whether the function keeps using the body passed as argument k after running code that may replace it"""
        g = s.m.fns.get(n)
        if g is None or g.decl or k >= len(g.args) or n not in s.mut[s.kind]: return False
        key = (n, k, s.kind)
        if key not in s.stal:
            s.stal[key] = False
            s.stal[key] = any(t == "stale" for kind, x, t in s.track(g, ("param", k), "body")[1])
        return s.stal[key]
    def private(s, f, o):
        """an object made here and known to nobody else"""
        if o[0] != "v": return False
        d = f.defs.get(o[1])
        if d is None: return False
        if d.op == "load":
            a = slot(f, d.ops[0])
            if a is None: return False
            sts = [i for i in f.instrs() if i.op == "store" and slot(f, i.ops[1]) == a]
            return bool(sts) and all(s.private(f, i.ops[0]) for i in sts)
        if d.op != "call" or not (d.cname or "").startswith("scm_make_") or "string" not in d.cname: return False
        same = {d.id}; ok = True
        for i in f.instrs():
            if not any(x == ("v", d.id) for x in i.ops): continue
            if i.op == "store": ok = ok and base(f, i.ops[1]) is not None
            elif i.op == "call": ok = ok and (i.cname or "") in ("sal_string_str", "sal_string_len")
            elif i.op not in ("icmp",): ok = False
        return ok
    def track(s, f, start, seed="own"):
        """({(status at return, None)}, [events]); events: (kind, instruction, text)"""
        m = s.m; ev = []; rets = set(); seen = set(); work = []
        used = uses_in(f)
        if start[0] == "param": work.append((f.blocks[0], 0, None, frozenset({f.args[start[1]][0]}), frozenset(), seed, frozenset()))
        else:
            i = start[1]; work.append((i.blk, i.idx + 1, None, frozenset({i.id}), frozenset(), seed, frozenset()))
        n = 0
        while work:
            b, k, prev, al, sl, st, fx = work.pop(); n += 1
            if n > 20000: raise Broken("the paths of %s are too many to follow" % f.name)
            ends = False
            while True:
                i = b.ins[k]
                if i.op == "phi": k += 1; continue
                if start[0] == "ins" and i is start[1]:
                    if st == "own" and not (al - {i.id}) and not sl: ev.append(("lost", i, "is replaced by a new one without having been released"))
                    ends = True; break
                hit = [j for j, o in enumerate(i.ops) if o[0] == "v" and o[1] in al]
                if any(c[0] == i.id for c in fx): fx = frozenset(c for c in fx if c[0] != i.id)
                if i.id in al and i.op not in CAST and i.op != "select": al = al - {i.id}
                if i.op in CAST:
                    if hit and 0 in hit: al = al | {i.id}
                    else:
                        al = al - {i.id}
                        # address of part of a local variable holding the block
                elif i.op == "select":
                    al = al | {i.id} if any(j > 0 for j in hit) else al - {i.id}
                elif i.op in ("add", "sub", "and", "or"):
                    pass
                elif i.op == "load":
                    a = slot(f, i.ops[0])
                    if a is not None and a in sl: al = al | {i.id}
                    elif hit and st in ("freed", "stale"): ev.append(("use", i, st))
                elif i.op == "store":
                    a = slot(f, i.ops[1])
                    if 0 in hit:
                        if a is not None: sl = sl | {a}
                        else:
                            if st in ("freed", "stale"): ev.append(("use", i, st))
                            elif st == "own": st = "gone"
                    elif a is not None and a in sl: sl = sl - {a}
                    elif 1 in hit and st in ("freed", "stale"): ev.append(("use", i, st))
                elif i.op == "call":
                    r = s.docall(f, i, hit, al, sl, st, ev)
                    if r is None: ends = True; break                    # does not come back
                    if len(r) > 1:
                        for al2, sl2, st2 in r[1:]: work.append((b, k + 1, None, al2, sl2, st2, fx))
                    al, sl, st = r[0]
                elif i.op == "ret":
                    if hit:
                        if st in ("freed",): ev.append(("use", i, st))
                        rets.add(("ret" if st == "own" else st, None))
                    else: rets.add((st, None))
                    ends = True; break
                elif i.op == "unreachable": ends = True; break
                elif i.op in ("br", "switch"):
                    nxt = []
                    if i.op == "br" and len(i.succ) == 2:
                        c = i.ops[0]
                        for t, sb in ((1, i.succ[0]), (0, i.succ[1])):
                            fx2 = s.decide(f, c, t, al, fx)
                            if fx2 is not None: nxt.append((sb, fx2))
                    else: nxt = [(sb, fx) for sb in set(i.succ + [x for v, x in i.raw.get("cases", [])])]
                    for sb, fx2 in nxt:
                        B = f.blocks[sb]; add = set(); rem = set()
                        for p in B.phis:
                            for o, x in zip(p.ops, p.raw["in"]):
                                if x == b.id:
                                    if o[0] == "v" and o[1] in al: add.add(p.id)
                                    else: rem.add(p.id)
                                    fx2 = frozenset(c for c in fx2 if c[0] != p.id)
                                    if o[0] == "i": fx2 = fx2 | {(p.id, o[1])}
                                    elif o[0] == "v":
                                        z = [c[1] for c in fx2 if c[0] == o[1]]
                                        if z: fx2 = fx2 | {(p.id, z[0])}
                        al2 = frozenset((al - rem) | add)
                        fx2 = frozenset(c for c in fx2 if c[0] in used)
                        key = (sb, al2, sl, st, fx2)
                        if key in seen: continue
                        seen.add(key); work.append((B, 0, b.id, al2, sl, st, fx2))
                    ends = True; break
                k += 1
        return rets, ev
    def decide(s, f, c, t, al, fx):
        """facts after the branch, None when the edge cannot be taken"""
        if c[0] == "i": return fx if c[1] & 1 == t else None
        if c[0] != "v": return fx
        for k, v in fx:
            if k == c[1]: return fx if v & 1 == t else None
        d = f.defs.get(c[1])
        if d is not None and d.op == "icmp" and d.raw["pred"] in ("eq", "ne"):
            a, b = d.ops
            for x, y in ((a, b), (b, a)):
                if x[0] == "v" and x[1] in al and y[0] == "n":
                    return fx if (d.raw["pred"] == "ne") == bool(t) else None      # a block is not null
                if x[0] == "v" and y[0] == "i":
                    for k, v in fx:
                        if k == x[1] and isinstance(v, int):
                            eq = v == y[1]
                            return fx if ((d.raw["pred"] == "eq") == eq) == bool(t) else None
        if d is not None and d.op == "xor" and d.ops[1] == ("i", -1, 1): return s.decide(f, d.ops[0], 1 - t, al, fx)
        return fx | {(c[1], t)}
    def docall(s, f, i, hit, al, sl, st, ev):
        """states after the call: [(aliases, slots, status)], None: does not come back"""
        n = i.cname
        if n and n.startswith("llvm.lifetime"): return [(al, sl, st)]
        al = al - {i.id}
        bases = {base(f, o): j for j, o in enumerate(i.ops) if base(f, o) is not None}
        through = [j for b_, j in bases.items() if any(x[0] == b_ for x in sl)]
        if (hit or through) and st in ("freed", "stale"):
            if not (n == "free" and st == "stale") and (hit or st == "stale" or True) and hit: ev.append(("use", i, st if n not in ("free", "realloc") else "freed twice" if st == "freed" else st))
            elif through and st == "stale": ev.append(("use", i, st))
        nr = i.raw.get("nr") or (n in s.m.fns and s.m.fns[n].noreturn)
        if nr: return None
        if n and n.startswith("llvm.memcpy"):
            d, q = base(f, i.ops[0]), base(f, i.ops[1])
            if d is not None and q is not None: sl = sl | {(d, o) for b_, o in sl if b_ == q}
            return [(al, sl, st)]
        if st == "body":
            for j in hit:
                if s.stale_in(n, j): ev.append(("use", i, "stale"))
            if n in s.mut[s.kind]: st = "stale"
        if hit and n in SAME and i.ops[0][0] == "v" and i.ops[0][1] in al: al = al | {i.id}
        if hit and st == "gone" and n == "free": return [(al, sl, "freed")]
        if not hit or st != "own": return [(al, sl, st)]
        out = [(al, sl, st)]
        if n is None: return [(al, sl, "gone")]
        states = {("own", False)}
        for j in hit:
            if i.ops[j][1] not in al: continue
            r = s.summary(n, j); nx = set()
            for x, w in r:
                if x == "end": continue
                for o, t in states: nx.add((x if o == "own" else o, t) if x != "ret" else (o, True))
            states = nx
        if not states: return None
        return [(al | {i.id} if t else al, sl, o if o != "stale" and o != "body" else "own") for o, t in states]

def uses_in(f):
    """values whose outcome is worth remembering: conditions tested more than once, and values given constants on some ways"""
    n = {}
    for i in f.instrs():
        if i.op == "br" and i.ops and i.ops[0][0] == "v": n[i.ops[0][1]] = n.get(i.ops[0][1], 0) + 1
        if i.op in ("xor", "phi", "select"):
            for o in i.ops:
                if o[0] == "v": n[o[1]] = n.get(o[1], 0) + 1
    u = {k for k, c in n.items() if c > 1}
    for i in f.instrs():
        if i.op == "phi" and any(o[0] == "i" for o in i.ops) and tested(f, i.id): u.add(i.id)
    return u
def tested(f, v):
    return any(i.op in ("icmp", "br", "xor") and ("v", v) in i.ops for i in f.instrs())
def base(f, o):
    """local variable an address operand lies in"""
    while o[0] == "v":
        d = f.defs.get(o[1])
        if d is None: return None
        if d.op == "alloca": return d.id
        if d.op in ("getelementptr", "bitcast"): o = d.ops[0]
        else: return None
    return None
def slot(f, o):
    off = 0
    while o[0] == "v":
        d = f.defs.get(o[1])
        if d is None: return None
        if d.op == "alloca": return (d.id, off)
        if d.op == "getelementptr":
            if d.raw.get("off") is None: return None
            off += d.raw["off"]; o = d.ops[0]
        elif d.op == "bitcast": o = d.ops[0]
        else: return None
    return None
def reach_back(m, names):
    """functions from which one of names can be called"""
    cs = {}
    for f in m.defined():
        for i in f.calls():
            if i.cname and not i.raw.get("nr") and not (i.cname in m.fns and m.fns[i.cname].noreturn): cs.setdefault(i.cname, set()).add(f.name)
    r = set(names); w = list(names)
    while w:
        for c in cs.get(w.pop(), ()):
            if c not in r: r.add(c); w.append(c)
    return r
def taken(m):
    """functions whose address is stored somewhere"""
    r = set()
    for g in m.globals.values(): fns(g.get("init"), r)
    for f in m.defined():
        for i in f.instrs():
            for o in i.ops:
                if o[0] == "f": r.add(o[1])
    return r
def fns(v, r):
    if isinstance(v, (list, tuple)):
        if len(v) > 1 and v[0] == "f": r.add(v[1]); return
        for x in v: fns(x, r)

def checked(P, m, f):
    """the result of a request to the C library is tested before use, and without memory the operation does not go on"""
    for i in f.calls():
        if i.cname == "posix_memalign": 
            P.count("requests to the C library"); continue
        if i.cname not in RAW: continue
        P.count("requests to the C library")
        bad = unchecked(f, i)
        P.check(bad is None, f.name + ":unchecked", "%s: in %s: the result of %s %s" % (i.loc(), f.name, i.cname, bad))
def unchecked(f, i):
    """walk from the request: until the null test, only the test itself may touch the result; on its null side nothing returns"""
    seen = set(); work = [(i.blk, i.idx + 1, frozenset({i.id}), False)]
    while work:
        b, k, al, null = work.pop()
        for x in b.ins[k:]:
            if x.op == "phi": continue
            hit = [o for o in x.ops if o[0] == "v" and o[1] in al]
            if x.op in ("bitcast", "freeze") and hit: al = al | {x.id}; continue
            if x.op == "icmp": continue
            if x.op == "ret":
                if null: return "is null and the operation goes on (line %s)" % x.line
                return "is not tested before it is returned" if hit else "is not tested"
            if x.op == "unreachable": break
            if x.op == "call":
                if x.raw.get("nr"): break
                if hit: return "is used before it is tested (line %s)" % x.line
            elif hit: return "is used before it is tested (line %s)" % x.line
            if x.op in ("br", "switch"):
                sides = [(sb, null) for sb in x.succ]
                if x.op == "br" and len(x.succ) == 2 and x.ops[0][0] == "i": sides = [(x.succ[0 if x.ops[0][1] & 1 else 1], null)]
                if x.op == "br" and len(x.succ) == 2 and x.ops[0][0] == "v":
                    d = f.defs.get(x.ops[0][1]); neg = False
                    while d is not None and d.op == "xor" and d.ops[1] == ("i", -1, 1): d = f.defs.get(d.ops[0][1]); neg = not neg
                    if d is not None and d.op == "icmp" and d.raw["pred"] in ("eq", "ne") and any(o[0] == "v" and o[1] in al for o in d.ops) and any(o[0] == "n" for o in d.ops):
                        eq = (d.raw["pred"] == "eq") != neg
                        sides = [(x.succ[0] if eq else x.succ[1], True)]      # the other side has its block
                for sb, nl in sides:
                    B = f.blocks[sb]; al2 = set(al)
                    for p in B.phis:
                        for o, y in zip(p.ops, p.raw["in"]):
                            if y == b.id:
                                if o[0] == "v" and o[1] in al: al2.add(p.id)
                                else: al2.discard(p.id)
                    key = (sb, frozenset(al2), nl)
                    if key not in seen: seen.add(key); work.append((B, 0, frozenset(al2), nl))
                break
    return None

class Released:
    """a block released through the place that holds it: the place is given another value, or ceases to exist, before anything reads it again"""
    def __init__(s, P, M):
        s.P, s.M, s.m = P, M, M.m; s.todo = []; s.seen = set()
    def key(s, f, o, d=0):
        """structural name of an address"""
        off = 0
        while True:
            if o[0] in ("g",): return (o, off)
            if o[0] == "ge": return (o[1], o[2] + off) if len(o) > 2 and isinstance(o[2], int) else (o, off)
            if o[0] != "v": return None
            for k, a in enumerate(f.args):
                if a[0] == o[1]: return (("p", k), off)
            x = f.defs.get(o[1])
            if x is None: return None
            if x.op == "getelementptr" and x.raw.get("off") is not None: off += x.raw["off"]; o = x.ops[0]
            elif x.op in ("bitcast", "freeze"): o = x.ops[0]
            elif x.op == "load" and d < 6:
                k = s.key(f, x.ops[0], d + 1)
                return (("ld", k), off) if k else (("v", x.id), off)
            elif x.op == "alloca": return (("al", x.id), off)
            else: return (("v", x.id), off)
    def place(s, f, o):
        while o[0] == "v" and f.defs.get(o[1]) is not None and f.defs[o[1]].op in ("bitcast", "freeze"): o = f.defs[o[1]].ops[0]
        if o[0] != "v": return None
        d = f.defs.get(o[1])
        if d is None: return None
        if d.op == "load": return s.key(f, d.ops[0])
        if d.op == "call" and d.cname in BODY: return (("obj", d.ops[0], d.cname), 0)
        return None
    def src(s, f, o):
        while f.defs[o[1]].op in ("bitcast", "freeze"): o = f.defs[o[1]].ops[0]
        return o[1]
    def replaced(s, f, ld, i, L):
        """the place was given another value between the reading and the release"""
        for x in f.instrs():
            if x.op == "store" and L[0][0] != "obj" and s.key(f, x.ops[1]) == L and dominates(f, ld, x) and dominates(f, x, i): return True
            if x.op == "call" and x.cname and x is not i and L[0][0] != "obj" and any(o[0] == "v" and s.key(f, o) == (L[0], 0) and "freed" in {y for y, w in s.M.summary(x.cname, j)} for j, o in enumerate(x.ops)) and dominates(f, ld, x) and dominates(f, x, i): return True
        return False
    def run(s):
        m, M, P = s.m, s.M, s.P
        for f in m.defined():
            if f.name.startswith("sal_"): continue
            for i in f.calls():
                if i.cname is None: continue
                for k, o in enumerate(i.ops):
                    if o[0] != "v" or i.raw.get("aty", [""] * 99)[k] != "ptr": continue
                    if "freed" not in {x for x, w in M.summary(i.cname, k)}: continue
                    L = s.place(f, o)
                    if L is not None and not s.replaced(f, f.defs.get(s.src(f, o)), i, L): s.push(f, i, L)
        while s.todo:
            f, i, L = s.todo.pop(); P.count("blocks released in place"); s.one(f, i, L)
    def origins(s, f, o, seen=frozenset()):
        """[(kind, detail)] of a pointer"""
        if o[0] == "n": return []
        if o[0] == "i" and o[1] == 0: return []
        if o[0] != "v": return [("constant", o)]
        if o[1] in seen: return []
        for k, a in enumerate(f.args):
            if a[0] == o[1]: return [("param", k)]
        d = f.defs.get(o[1]); seen = seen | {o[1]}
        if d is None: return [("unknown", None)]
        if d.op in ("phi", "select"):
            r = []
            for x in (d.ops if d.op == "phi" else d.ops[1:]): r += s.origins(f, x, seen)
            return r
        if d.op in ("bitcast", "freeze", "inttoptr", "ptrtoint"): return s.origins(f, d.ops[0], seen)
        if d.op == "getelementptr": return s.origins(f, d.ops[0], seen) if d.raw.get("off") == 0 else [("inside", d)]
        if d.op == "alloca": return [("local", d)]
        if d.op == "call": return [("block", d)] if s.M.is_alloc(d) else [("call", d)]
        return [("load", d)]
    def owners(s):
        """what an object is given to keep is a block nobody else owns; what is released is the start of a native block"""
        m, M, P = s.m, s.M, s.P; work = []; seen = set()
        for f in m.defined():
            if f.name.startswith("sal_"): continue
            for i in f.calls():
                if i.cname in OWNERS and i.cname != "sal_continuation_set_opaque":
                    for k in OWNERS[i.cname]: work.append((f, i, i.ops[k], i))
                elif i.cname:
                    for k, o in enumerate(i.ops):
                        if o[0] in ("v", "g", "ge") and i.raw.get("aty", [""] * 99)[k] == "ptr" and "freed" in {x for x, w in M.summary(i.cname, k)}:
                            P.count("releases")
                            for kind, d in s.origins(f, o):
                                P.check(kind not in ("constant", "local", "inside"), f.name + ":release", "%s: in %s: what %s releases is not the start of a native block (%s)" % (i.loc(), f.name, i.cname, kind))
        while work:
            f, i, o, top = work.pop(); P.count("blocks given to objects")
            for kind, d in s.origins(f, o):
                if kind == "block": continue
                if kind == "call" and d.cname in BODY and top.cname in ("sal_string_set_str", "sal_vector_set_vec") and f.defs.get(d.id) is d and i is top and d.ops[0] == top.ops[0]: continue
                if kind == "param":
                    cs = [(g, c) for g in m.defined() for c in g.calls() if c.cname == f.name]
                    if not cs or f.name in M.addr_taken: P.trusts("callers outside the interpreter hand over a block of their own to %s" % f.name)
                    for g, c in cs:
                        if (g.name, c.id, c.blk.id, c.idx, d) not in seen: seen.add((g.name, c.id, c.blk.id, c.idx, d)); work.append((g, c, c.ops[d], top))
                    continue
                P.check(False, f.name + ":owner", "%s: in %s: the object made by %s is given a block that is not its own (%s)" % (i.loc(), f.name, top.cname, kind))
            P.check(True, f.name + ":owner", "")
    def after(s):
        """no use of the value released, whatever it came from"""
        m, M, P = s.m, s.M, s.P
        for f in m.defined():
            if f.name.startswith("sal_"): continue
            for i in f.calls():
                if i.cname is None: continue
                for k, o in enumerate(i.ops):
                    if o[0] != "v" or i.raw.get("aty", [""] * 99)[k] != "ptr" or "freed" not in {x for x, w in M.summary(i.cname, k)}: continue
                    for kind, d in s.origins(f, o):
                        start = ("param", d) if kind == "param" else ("ins", d) if kind in ("load", "call") else None
                        if start is None: continue
                        P.count("released values followed")
                        for ek, x, t in M.track(f, start)[1]:
                            if ek == "use" and t != "stale": P.check(False, f.name + ":use", "%s: in %s: a block released on the way here is %s" % (x.loc(), f.name, "released again" if t == "freed twice" else "used"))
    def push(s, f, i, L):
        if (f.name, i.id, i.blk.id, i.idx, L) in s.seen: return
        s.seen.add((f.name, i.id, i.blk.id, i.idx, L)); s.todo.append((f, i, L))
    def within(s, L):
        """the places a place lies in: the values whose release ends it"""
        out = set(); k = L
        while k is not None and k[0][0] == "ld": out.add(k[0]); k = k[0][1]
        if k is not None: out.add(k[0])
        return out
    def one(s, f, i, L):
        P, M, m = s.P, s.M, s.m; root = L
        while root[0][0] == "ld": root = root[0][1]
        own = L[0]; seen = set(); work = [(i.blk, i.idx + 1)]; up = False
        def bad(x, what): P.check(False, f.name + ":place", "%s: in %s: a block is released (line %s) but the place holding it %s" % (x.loc(), f.name, i.line, what))
        while work:
            b, k = work.pop(); ended = False
            for x in b.ins[k:]:
                if own == ("v", x.id) or root[0] == ("v", x.id): ended = True; break              # the next time round: another place
                if x.op == "store" and L[0][0] != "obj" and s.key(f, x.ops[1]) == L: ended = True; break
                if x.op == "load" and L[0][0] != "obj" and s.key(f, x.ops[0]) == L: bad(x, "is read again"); ended = True; break
                if x.op == "call":
                    n = x.cname
                    if x.raw.get("nr"): ended = True; break
                    if n and n.startswith("llvm."): continue
                    if L[0][0] == "obj":
                        if n in ("sal_string_set_str", "sal_vector_set_vec") and x.ops[0] == L[0][1]: ended = True; break
                        if n == L[0][2] and x.ops[0] == L[0][1]: bad(x, "is read again"); ended = True; break
                    else:
                        kl = [(j, s.key(f, o)) for j, o in enumerate(x.ops) if o[0] in ("v", "g", "ge") and x.raw.get("aty", [""] * 99)[j] == "ptr"]
                        if any(q is not None and q == (own, 0) and n and "freed" in {y for y, w in M.summary(n, j)} for j, q in kl): ended = True; break
                        if own[0] == "al" and any(q is not None and q[0] == own for j, q in kl):
                            g = m.fns.get(n)
                            if n and g is not None and not g.decl and not any(s.writes_first(g, j, L[1] - q[1]) for j, q in kl if q is not None and q[0] == own): bad(x, "is handed to %s" % n)
                            ended = True; break
                    if n in M.errs and not n.startswith("sal_") and n not in ("scm_realloc", "scm_malloc", "scm_strdup", "scm_calloc", "scm_fatal_error") and own[0] != "al":
                        if n in M.evals: bad(x, "still has it while %s can run a program" % n)
                if x.op == "ret":
                    if own[0] == "al" or root[0][0] == "al": pass
                    elif own[0] == "p": up = True
                    elif f.name in finals(m): pass
                    else: bad(x, "keeps it on return")
                    ended = True; break
            if not ended:
                for sb in (b.ins[-1].succ or []) + [y for v, y in b.ins[-1].raw.get("cases", [])]:
                    if sb not in seen: seen.add(sb); work.append((f.blocks[sb], 0))
        if up:
            k = own[1]; n = 0
            for g in m.defined():
                for c in g.calls():
                    if c.cname == f.name: pass
                    elif c.cname is None and f.name in M.addr_taken and len(c.ops) == len(f.args) and s.may_be(g, c, f): pass
                    else: continue
                    q = s.key(g, c.ops[k]); n += 1
                    if q is not None and k < len(c.ops): s.push(g, c, (q[0], q[1] + L[1]))
    def may_be(s, g, c, f):
        """the indirect call fetches its procedure from a place the address of f is stored in"""
        d = g.defs.get(c.callee[1]) if isinstance(c.callee, tuple) and c.callee[0] == "v" else None
        tags = set(); offs = set()
        for h in s.m.defined():
            for x in h.instrs():
                if x.op == "store" and leads(h, x.ops[0], f.name): tags.add(str(x.raw.get("tbaa")))
        for g2 in s.m.globals.values(): slots(g2.get("init"), f.name, offs)
        if d is None or d.op != "load": return not tags and not offs
        tb = d.raw.get("tbaa") or [None, None]
        return str(d.raw.get("tbaa")) in tags or tb[1] in offs or not tags and not offs
    def writes_first(s, g, j, off):
        """the callee only gives the place a new value"""
        for x in g.instrs():
            if x.op == "load" and s.key(g, x.ops[0]) == (("p", j), off): return False
        return True

def slots(v, n, out):
    """offsets in tables of procedures at which n stands"""
    if isinstance(v, (list, tuple)) and len(v) > 1 and v[0] == "a":
        for k, x in enumerate(v[1]):
            if isinstance(x, (list, tuple)) and len(x) > 1 and x[0] == "f" and x[1] == n: out.add(8 * k)
            else: slots(x, n, out)
def leads(f, o, n, d=0):
    if o[0] == "f": return o[1] == n
    if o[0] != "v" or d > 4: return False
    x = f.defs.get(o[1])
    return x is not None and x.op in ("phi", "select", "bitcast") and any(leads(f, y, n, d + 1) for y in x.ops)
def dominates(f, a, b):
    """every way to b passes a"""
    if a is None: return False
    if a.blk is b.blk: return a.idx < b.idx
    seen = {0} if a.blk.id != 0 else set(); w = [0] if a.blk.id != 0 else []
    while w:
        x = f.blocks[w.pop()]
        if x is b.blk: return False
        for sb in (x.ins[-1].succ or []) + [y for v, y in x.ins[-1].raw.get("cases", [])]:
            if sb not in seen and sb != a.blk.id: seen.add(sb); w.append(sb)
    return True

def fwd(m, names):
    r = set(names); w = list(names)
    while w:
        f = m.fns.get(w.pop())
        if f is None or f.decl: continue
        for i in f.instrs():
            for n in ([i.cname] if i.op == "call" and i.cname else []) + [o[1] for o in i.ops if o[0] == "f"]:
                if n not in r: r.add(n); w.append(n)
    return r
def finals(m):
    """functions only the end of the interpreter runs"""
    if not hasattr(m, "_finals"):
        r = m if m.mode == "real" else ir.Module(m.cfg, "real")
        end = fwd(r, {"scm_finalize"}); cs = {}
        for f in r.defined():
            for i in f.calls():
                if i.cname: cs.setdefault(i.cname, set()).add(f.name)
        at = taken(r); cur = {n for n in end if n == "scm_finalize" or n not in at}
        ch = True
        while ch:
            ch = False
            for n in list(cur):
                if n != "scm_finalize" and not (cs.get(n) and cs[n] <= cur): cur.discard(n); ch = True
        m._finals = cur
    return m._finals

def lbufs(P, m):
    """a local growing buffer is released on every normal return and not used afterwards"""
    for f in m.defined():
        for i in f.calls():
            if i.cname != "scm_lbuf_init" and not (i.cname or "").startswith("scm_lbuf_init"): continue
            b = base(f, i.ops[0])
            if b is None: continue
            P.count("growing buffers")
            seen = set(); work = [(i.blk, i.idx + 1, 1)]
            while work:
                blk, k, live = work.pop(); ended = False
                for x in blk.ins[k:]:
                    if x.op == "ret":
                        P.check(not live, f.name + ":lbuf", "%s: in %s: the growing buffer initialised at line %s is not released on a path that returns" % (x.loc(), f.name, i.line)); ended = True; break
                    if x.op == "call":
                        if x.raw.get("nr"): ended = True; break
                        if x.cname and x.cname.startswith("llvm."): continue
                        if any(base(f, o) == b for o in x.ops):
                            if x.cname == "scm_lbuf_free":
                                P.check(live, f.name + ":lbuf", "%s: in %s: the growing buffer initialised at line %s is released twice" % (x.loc(), f.name, i.line)); live = 0
                            elif x.cname == i.cname: ended = live == 0; 
                            elif not live: P.check(False, f.name + ":lbuf", "%s: in %s: the growing buffer initialised at line %s is used after it was released" % (x.loc(), f.name, i.line))
                    if x.op == "load" and base(f, x.ops[0]) == b and not live: P.check(False, f.name + ":lbuf", "%s: in %s: the growing buffer initialised at line %s is used after it was released" % (x.loc(), f.name, i.line))
                if not ended:
                    for sb in (blk.ins[-1].succ or []) + [y for v, y in blk.ins[-1].raw.get("cases", [])]:
                        if (sb, live) not in seen: seen.add((sb, live)); work.append((f.blocks[sb], 0, live))

def run(cfg):
    P = Part("native memory", cfg); m = ir.Module(cfg); M = Mem(m)
    for f in m.defined():
        if f.name.startswith("sal_"): continue
        checked(P, m, f)
        for i in f.calls():
            if not M.is_alloc(i): continue
            P.count("blocks obtained")
            rets, ev = M.track(f, ("ins", i))
            what = "the block obtained by %s" % i.cname
            for kind, x, t in ev:
                if kind == "lost": P.check(False, f.name + ":lost", "%s: in %s: %s %s" % (i.loc(), f.name, what, t))
                else: P.check(False, f.name + ":use", "%s: in %s: %s (line %s) is %s" % (x.loc(), f.name, what, i.line, "released twice" if t == "freed twice" else "used after it was released"))
            P.check(("own", None) not in rets, f.name + ":leak", "%s: in %s: %s is neither released nor handed over on a path that returns normally" % (i.loc(), f.name, what))
            P.sample("%s: %s in %s: %s" % (i.loc(), i.cname, f.name, sorted({r[0] for r in rets})))
        for i in f.instrs():
            # bodies of objects: not kept across code that may replace them
            if i.op == "call" and i.cname in BODY:
                P.count("pointers into objects"); M.kind = i.cname
                if M.private(f, i.ops[0]): continue
                rets, ev = M.track(f, ("ins", i), "body")
                for kind, x, t in ev:
                    if t == "stale": P.check(False, f.name + ":stale", "%s: in %s: a %s fetched at line %s is used after code that may have replaced it" % (x.loc(), f.name, BODY[i.cname], i.line))
    R = Released(P, M); R.run(); R.owners(); R.after()
    lbufs(P, m)
    return P

def storage(cfg):
    """the storage layer itself"""
    P = Part("native memory of the storage layer", cfg); m = ir.Module(cfg, "real"); M = Mem(m)
    for f in m.defined():
        if "storage" not in (f.file or ""): continue
        checked(P, m, f); P.count("functions of the storage layer")
        for i in f.calls():
            if not M.is_alloc(i): continue
            P.count("blocks obtained")
            rets, ev = M.track(f, ("ins", i))
            what = "the block obtained by %s" % i.cname
            for kind, x, t in ev:
                if kind == "lost": P.check(False, f.name + ":lost", "%s: in %s: %s %s" % (i.loc(), f.name, what, t))
                else: P.check(False, f.name + ":use", "%s: in %s: %s (line %s) is %s" % (x.loc(), f.name, what, i.line, "released twice" if t == "freed twice" else "used after it was released"))
            P.check(("own", None) not in rets, f.name + ":leak", "%s: in %s: %s is neither released nor handed over on a path that returns normally" % (i.loc(), f.name, what))
    P.need("functions of the storage layer", 10); P.need("blocks obtained", 2)
    return P

# ---- blocks the interpreter keeps for itself are released when it ends ----
REQ = {"malloc", "calloc", "realloc", "strdup", "scm_malloc", "scm_calloc", "scm_realloc", "scm_strdup", "scm_malloc_aligned", "scm_align_str"}

def kept(cfg):
    from rules import nul
    P = Part("blocks kept by the interpreter", cfg); m = ir.Module(cfg, "real")
    def glob(f, o, seen=frozenset()):
        """the interpreter's own variable a pointer leads to: ('at', variable) its address, ('in', variable) inside the block it keeps"""
        if o[0] in ("g", "ge"):
            k = nul.Bufs(m, f).addr_key(o)
            return ("at", k) if str(k[1]).startswith("scm_g_") or str(k[1]) in m.globals and not m.globals[str(k[1])].get("const") else None
        if o[0] != "v" or o in seen: return None
        seen = seen | {o}; d = f.defs.get(o[1])
        if d is None: return None
        if d.op in ("getelementptr", "bitcast"): return glob(f, d.ops[0], seen)
        if d.op == "load":
            g = glob(f, d.ops[0], seen)
            return ("in", g[1]) if g and g[0] == "at" else None
        if d.op in ("phi", "select"):
            r = {glob(f, x, seen) for x in (d.ops if d.op == "phi" else d.ops[1:])} - {None}
            return r.pop() if len(r) == 1 else None
        if d.op == "call" and d.cname in REQ: return where.get((f.name, d.id))
        return None
    def origin(f, o, seen):
        if o[0] != "v" or o in seen: return set()
        seen.add(o); d = f.defs.get(o[1])
        if d is None: return set()
        if d.op in ("phi", "select"): return set().union(*[origin(f, x, seen) for x in (d.ops if d.op == "phi" else d.ops[1:])])
        if d.op in ("bitcast", "freeze"): return origin(f, d.ops[0], seen)
        return {d} if d.op == "call" and d.cname in REQ else set()
    where = {}; stores = {}
    for rnd in (0, 1):
        for f in m.defined():
            for i in f.instrs():
                if i.op != "store" or i.raw.get("vty") != "ptr": continue
                g = glob(f, i.ops[1])
                if g is None: continue
                for d in origin(f, i.ops[0], set()):
                    stores.setdefault((f.name, d.id), (d, set()))[1].add(g)
                    if g[0] == "at": where[(f.name, d.id)] = ("in", g[1])
    need_fn(m, "scm_finalize")
    reach, st = set(), ["scm_finalize"]
    while st:
        n = st.pop()
        if n in reach or n not in m.fns or m.fns[n].decl: continue
        reach.add(n)
        for i in m.fns[n].instrs():
            for o in list(i.ops) + ([i.callee] if i.op == "call" and i.callee else []):
                if o[0] == "f": st.append(o[1])
    freed = set()
    for n in reach:
        f = m.fns[n]
        for i in f.calls():
            if i.cname not in ("free", "scm_free"): continue
            d = f.defs.get(i.ops[0][1]) if i.ops[0][0] == "v" else None
            while d is not None and d.op == "bitcast": d = f.defs.get(d.ops[0][1])
            if d is not None and d.op == "load":
                g = glob(f, d.ops[0])
                if g: freed.add(g)
    for (fn, _), (d, gs) in sorted(stores.items(), key=lambda x: x[0]):
        P.count("blocks kept in the interpreter's own variables")
        P.check(gs & freed, "%s:kept" % fn, "%s: in %s: the block kept in %s is not released by anything scm_finalize runs" % (d.loc(), fn, " and ".join(sorted(str(g[1]) for g in gs))))
    P.need("blocks kept in the interpreter's own variables", 4)
    return P

# ---- an operation that can answer with nothing: its answer is tested before it is used ----
def answers(cfg):
    P = Part("answers that may be nothing", cfg); m = ir.Module(cfg, "real")
    owner = set(REQ) | {"posix_memalign", "aligned_alloc", "memalign"}
    none = {"fopen", "fdopen", "freopen", "tmpfile", "getenv"}
    def nothing(f, o, seen):
        if o[0] == "n": return True
        if o[0] != "v" or o in seen: return False
        seen.add(o); d = f.defs.get(o[1])
        if d is None: return False
        if d.op in ("phi", "select"): return any(nothing(f, x, seen) for x in (d.ops if d.op == "phi" else d.ops[1:]))
        return d.op == "call" and d.cname in none
    while True:
        k = len(none)
        for f in m.defined():
            if f.name not in none and f.name not in owner and f.ret == "ptr" and any(nothing(f, i.ops[0], set()) for i in f.instrs() if i.op == "ret" and i.ops): none.add(f.name)
        if len(none) == k: break
    memo = {}
    def derefs(n, k, depth):
        f = m.fns.get(n)
        if f is None or f.decl: return n not in ("free", "realloc", "time", "setlocale")
        if depth > 6: return False
        if (n, k) not in memo:
            memo[(n, k)] = None
            memo[(n, k)] = first(f, f.blocks[0], 0, None, ("v", f.args[k][0]), depth) if k < len(f.args) else True
        return memo[(n, k)]
    def first(f, b0, k0, start, v0, depth):
        """the first use of the value through which memory is reached on a path that has not tested it"""
        seen = set(); work = [(b0, k0, frozenset({v0}))]
        while work:
            b, k, al = work.pop()
            for x in b.ins[k:]:
                if x.op == "phi": continue
                if x is start: break
                hit = [o for o in x.ops if o in al]
                if x.op in ("bitcast", "freeze", "getelementptr") and x.ops[0] in al: al = al | {("v", x.id)}; continue
                if hit and x.op == "load" or x.op == "store" and (x.ops[1] in al or x.ops[0] in al and (depth or x.ops[1][0] in ("g", "ge"))): return x
                if x.op == "call":
                    if x.callee is not None and x.callee in al: return x
                    if hit and x.cname:
                        for n, o in enumerate(x.ops):
                            if o in al and derefs(x.cname, n, depth + 1): return x
                if x.op in ("br", "switch"):
                    sides = list(x.succ) if x.op == "br" else b.succs
                    if x.op == "br" and len(x.succ) == 2 and x.ops[0][0] == "v":
                        d, neg = f.defs.get(x.ops[0][1]), False
                        while d is not None and d.op == "xor": d, neg = f.defs.get(d.ops[0][1]), not neg
                        if d is not None and d.op == "icmp" and d.raw["pred"] in ("eq", "ne") and any(o in al for o in d.ops) and any(o[0] == "n" for o in d.ops):
                            sides = [x.succ[0] if (d.raw["pred"] == "eq") != neg else x.succ[1]]
                    for sb in sides:
                        B = f.blocks[sb]; al2 = set(al)
                        for p in B.phis:
                            for o, y in zip(p.ops, p.raw["in"]):
                                if y == b.id: (al2.add if o in al else al2.discard)(("v", p.id))
                        key = (sb, frozenset(al2))
                        if key not in seen: seen.add(key); work.append((B, 0, frozenset(al2)))
                    break
        return None
    for f in m.defined():
        for c in f.calls():
            if c.cname not in none: continue
            P.count("answers that may be nothing")
            x = first(f, c.blk, c.idx + 1, c, ("v", c.id), 0)
            if x is not None and x.op == "store" and x.ops[0] == ("v", c.id) and c.ops and all(o[0] in ("g", "ge", "i", "c") and (o[0] != "g" or m.globals.get(o[1], {}).get("const")) for o in c.ops):
                P.trusts("what is looked up is a constant of the interpreter"); continue
            if x is not None and x.op == "store" and c.cname == "locate_protected_var":
                P.trusts("the count of free slots in the table of protected variables was tested"); continue    # the count of free slots was tested: one is found
            P.check(x is None, "%s:%s:untested" % (f.name, c.cname), "%s: in %s: %s may answer with nothing, and its answer is used at %s without a test" % (c.loc(), f.name, c.cname, x.loc() if x is not None else ""))
    P.need("answers that may be nothing", 4)
    return P
