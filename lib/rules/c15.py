"""C15: equal names give the same symbol for the whole run."""
import envc, ir
from core import Part, Broken
from rules.c03 import body_of, Fresh, before
from rules.c14 import through_phis

INITS = ("scm_init_symbol", "initialize_symbol_hash")

def tbl_load(f, o, seen=None):
    """o is the address of an entry of the symbol table: the getelementptr, else None"""
    d = f.defs.get(o[1]) if o[0] == "v" else None
    if d is None or d.op != "getelementptr": return None
    b = f.defs.get(d.ops[0][1]) if d.ops[0][0] == "v" else None
    if b is not None and b.op == "load" and f.mod.gname(b.ops[0]) == "scm_symbol_hash": return d
    return None

def same_index(a, b):
    return a is b or (a.ops[1:] == b.ops[1:])

def only_at_boot(m, name, seen=None):
    """every call path to the function comes from the library's initialisation or finalisation"""
    seen = seen or set()
    if name in seen: return True
    seen.add(name)
    if name in ("scm_init_symbol", "scm_fin_symbol", "scm_initialize", "scm_finalize"): return True
    cs = [f.name for f in m.defined() for i in f.calls() if i.cname == name]
    return bool(cs) and all(only_at_boot(m, c, seen) for c in cs)

def run(cfg):
    e = envc.engine(cfg); m = e.mod; P = Part("symbols", cfg); F = Fresh(m, e.registered)
    makers = [(f, i) for f in m.defined() for i in f.calls() if i.cname == "scm_make_symbol"]
    for f in m.defined():
        for i in f.instrs():
            if ("f", "scm_make_symbol") in i.ops: P.bad("%s:maker-escapes" % f.name, "%s: the symbol constructor is passed on as a value" % i.loc())
    for f, i in makers:
        P.count("places that create a symbol")
        entry(P, f, i)
    # the table itself
    for f in m.defined():
        for i in f.instrs():
            if i.op == "store":
                if m.gname(i.ops[1]) in ("scm_symbol_hash", "scm_symbol_hash_size") and i.ops[1][0] in ("g", "ge"):
                    P.count("stores to the table variables")
                    P.check(only_at_boot(m, f.name), "%s:table-replaced" % f.name, "%s: %s replaces the symbol table (or its size) while the interpreter runs" % (i.loc(), f.name))
                g = tbl_load(f, i.ops[1])
                if g is not None:
                    P.count("stores to table entries")
                    if only_at_boot(m, f.name): P.check(True, "", ""); continue
                    d = f.defs.get(i.ops[0][1]) if i.ops[0][0] == "v" else None
                    ok = d is not None and d.op == "call" and d.cname == "scm_make_cons"
                    if ok:
                        old = f.defs.get(d.ops[1][1]) if d.ops[1][0] == "v" else None
                        og = tbl_load(f, old.ops[0]) if old is not None and old.op == "load" else None
                        ok = og is not None and same_index(og, g)
                    P.check(ok, "%s:entry-overwritten" % f.name, "%s: %s stores into the symbol table something other than the old entry with one symbol in front" % (i.loc(), f.name))
                # memory of the table written some other way is covered by the store rules on names below
            elif i.op == "call":
                c = i.cname or ""
                if c in ("free", "scm_realloc", "realloc") and i.ops:
                    d = f.defs.get(i.ops[0][1]) if i.ops[0][0] == "v" else None
                    if d is not None and d.op == "load" and m.gname(d.ops[0]) == "scm_symbol_hash":
                        P.count("releases of the table")
                        P.check(only_at_boot(m, f.name), "%s:table-freed" % f.name, "%s: %s releases the symbol table" % (i.loc(), f.name))
                    if d is not None and d.op == "call" and d.cname == "sal_symbol_name":
                        P.bad("%s:name-freed" % f.name, "%s: %s releases the name of a symbol" % (i.loc(), f.name))
                if c == "sal_symbol_set_name": P.check(False, "%s:renamed" % f.name, "%s: %s changes the name of a symbol" % (i.loc(), f.name))
                elif c in ("sal_cons_set_car", "sal_cons_set_cdr"):
                    P.count("pair updates examined")
                    P.check(not from_table(f, i.ops[0]), "%s:bucket-changed" % f.name, "%s: %s changes a pair of the symbol table" % (i.loc(), f.name))
                elif c == "sal_set":
                    P.count("pair updates examined")
                    P.check(not any(x[0] in ("car", "cdr") and from_table(x[1], x[2]) for x in F.roots(f, i.ops[0])), "%s:bucket-changed" % f.name, "%s: %s changes a pair of the symbol table" % (i.loc(), f.name))
    # names are never written, and their storage is given to no other object
    for f in m.defined():
        for i in f.instrs():
            if i.op == "store" and any(x[0] == "symbol" for x in body_of(f, i.ops[1])):
                P.bad("%s:name-written" % f.name, "%s: %s writes into the name of a symbol" % (i.loc(), f.name))
            if i.op == "call" and i.cname in ("scm_make_string", "scm_make_immutable_string", "sal_string_set_str") and any(
                x[0] == "symbol" for x in body_of(f, i.ops[1 if i.cname == "sal_string_set_str" else 0])):
                P.bad("%s:name-shared" % f.name, "%s: %s makes a string that shares the name of a symbol" % (i.loc(), f.name))
            if i.op == "call" and i.cname == "scm_make_symbol":
                P.check(private_copy(f, i.ops[0]), "%s:name-borrowed" % f.name, "%s: %s gives a symbol a name it does not own a private copy of" % (i.loc(), f.name))
    hash_function(P, m)
    if not P.viol:
        P.need("places that create a symbol"); P.need("stores to table entries"); P.need("stores to the table variables")
    return P

def from_table(f, o, depth=0, seen=None):
    seen = set() if seen is None else seen
    d = f.defs.get(o[1]) if o[0] == "v" else None
    if d is None or d.id in seen: return False
    seen.add(d.id)
    if d.op == "phi": return any(from_table(f, x, depth, seen) for x in d.ops)
    if d.op == "select": return any(from_table(f, x, depth, seen) for x in d.ops[1:])
    if d.op == "load": return tbl_load(f, d.ops[0]) is not None
    if d.op == "call" and d.cname == "sal_cons_cdr": return from_table(f, d.ops[0], depth, seen)
    return False

def private_copy(f, o):
    ds = through_phis(f, o)
    return bool(ds) and all(d.op == "call" and d.cname in ("scm_strdup", "scm_malloc", "scm_realloc", "strdup") for d in ds)

def entry(P, f, mk):
    """f creates a symbol: it is put into the table entry that was searched, and the search was complete"""
    key = f.name
    # the store that enters it
    sts = []
    for i in f.instrs():
        if i.op == "store" and tbl_load(f, i.ops[1]) is not None:
            d = f.defs.get(i.ops[0][1]) if i.ops[0][0] == "v" else None
            if d is not None and d.op == "call" and d.cname == "scm_make_cons" and d.ops[0] == ("v", mk.id): sts.append((i, d))
    P.check(bool(sts) and not escapes_without(f, mk, [i for i, _ in sts]), key + ":not-entered",
            "%s: %s creates a symbol that is not always entered into the symbol table" % (mk.loc(), f.name))
    for i, cons in sts:
        g = tbl_load(f, i.ops[1])
        # the search: a loop over cdr steps from the same entry, comparing each name
        heads = [j for j in f.instrs() if j.op == "load" and tbl_load(f, j.ops[0]) is not None and same_index(tbl_load(f, j.ops[0]), g) and f.dominates(j.blk.id, mk.blk.id)]
        cmps = [j for j in f.calls() if j.cname == "strcmp" and any(name_of(f, x) is not None for x in j.ops)]
        ok = False
        for h in heads:
            for c in cmps:
                sym = name_of(f, c.ops[0]) or name_of(f, c.ops[1])
                other = c.ops[1] if name_of(f, c.ops[0]) else c.ops[0]
                car = f.defs.get(sym[1]) if sym[0] == "v" else None
                for cc in (through_phis(f, sym) if car is None or car.op != "call" else [car]):
                    if cc.op != "call" or cc.cname != "sal_cons_car": continue
                    cur = cc.ops[0]
                    cd = f.defs.get(cur[1]) if cur[0] == "v" else None
                    if cd is None or cd.op != "phi": continue
                    steps = [x for x in through_phis(f, cur) if x is not h]
                    if h not in through_phis(f, cur) or not steps: continue
                    if not all(x.op == "call" and x.cname == "sal_cons_cdr" and x.ops[0] == cur for x in steps): continue
                    # the name searched for is the name entered
                    if not same_name(f, other, mk.ops[0]): continue
                    # found -> returned; the loop is left for creation only when the list has ended
                    if found_returns(f, c, sym) and ends_only_at_end(f, cur, c, mk, cd.blk.id): ok = True
        P.check(ok, key + ":search", "%s: %s creates a symbol without having compared the name with every symbol of the table entry it is then put into" % (mk.loc(), f.name))
        # nothing that may run the evaluator or intern another symbol comes between the search and the entering
        for h in heads:
            mid = [j for j in f.calls() if j.cname in f.mod.fns and not f.mod.fns[j.cname].noreturn and before(f, h, j) and before(f, j, i) and reaches(f.mod, j.cname, {f.name, "scm_eval", "scm_call"})]
            P.check(not mid, key + ":stale-entry", "%s: %s may intern other symbols between reading the table entry and replacing it" % (mid[0].loc() if mid else "", f.name))

def reaches(m, fn, targets, seen=None):
    seen = set() if seen is None else seen
    if fn in targets: return True
    if fn in seen or fn not in m.fns or m.fns[fn].noreturn: return False
    seen.add(fn)
    return any(i.cname and not i.get("nr") and reaches(m, i.cname, targets, seen) for i in m.fns[fn].calls())

def name_of(f, o):
    d = f.defs.get(o[1]) if o[0] == "v" else None
    return d.ops[0] if d is not None and d.op == "call" and d.cname == "sal_symbol_name" else None

def same_name(f, a, b):
    """b is a or a copy of a"""
    if a == b: return True
    for d in through_phis(f, b):
        if d.op == "call" and d.cname in ("scm_strdup", "strdup"):
            if d.ops[0] != a: return False
        else: return False
    return bool(through_phis(f, b))

def found_returns(f, c, sym):
    """the outcome 'equal' of comparison c leads to a return of the symbol compared"""
    for b in f.blocks:
        t = b.term
        if t.op != "br" or len(t.raw["succ"]) != 2: continue
        d = f.defs.get(t.ops[0][1]) if t.ops[0][0] == "v" else None
        if d is None or d.op != "icmp" or d.ops[0] != ("v", c.id) or d.ops[1] != ("i", 0, 32): continue
        eq = t.raw["succ"][0 if d.get("pred") == "eq" else 1]
        # follow unconditional branches to a return
        cur, prev, val = eq, b.id, None
        names = {sym}
        for _ in range(12):
            B = f.blocks[cur]
            for ph in B.phis:
                for x, p in zip(ph.ops, ph.raw["in"]):
                    if p == prev and x in names: names.add(("v", ph.id))
            if B.term.op == "ret": return bool(B.term.ops) and B.term.ops[0] in names
            if len(B.succs) == 1: prev, cur = cur, B.succs[0]; continue
            # a test that the path already decides (flag set on this path)
            nx = decided(f, B, prev)
            if nx is None: return False
            prev, cur = cur, nx
    return False

def decided(f, B, prev):
    t = B.term
    if t.op not in ("br", "switch") or not t.ops: return None
    o = t.ops[0]; d = f.defs.get(o[1]) if o[0] == "v" else None
    def cv(x):
        if x[0] == "i": return x[1]
        if x[0] == "g" and x[1].startswith("sal_k_"): return x[1]
        if x[0] == "v" and any(j.op == "call" and j.cname == "sal_symbol_name" for j, _ in f.uses().get(x[1], [])): return "symbol"
        q = f.defs.get(x[1]) if x[0] == "v" else None
        if q is not None and q.op == "phi" and q.blk is B:
            for y, p in zip(q.ops, q.raw["in"]):
                if p == prev: return cv(y)
        return None
    if t.op == "switch":
        v = cv(o)
        if v is None: return None
        for cvv, x in t.raw["cases"]:
            if cvv == v: return x
        return t.raw["succ"][0]
    v = None
    if d is not None and d.op == "icmp":
        a, b = cv(d.ops[0]), cv(d.ops[1])
        if a is not None and b is not None: v = (a == b) if d.get("pred") == "eq" else (a != b) if d.get("pred") == "ne" else None
    elif d is not None: v = cv(o)
    if v is None: return None
    return t.raw["succ"][0 if v else 1]

def ends_only_at_end(f, cur, c, mk, head):
    """every way from the loop to the creation passes the outcome 'not a pair' of a test of the cursor"""
    tests = {}
    for b in f.blocks:
        t = b.term
        if t.op != "br" or len(t.raw["succ"]) != 2: continue
        d = f.defs.get(t.ops[0][1]) if t.ops[0][0] == "v" else None
        if d is None or d.op != "icmp": continue
        x = f.defs.get(d.ops[0][1]) if d.ops[0][0] == "v" else None
        if x is not None and x.op == "call" and x.cname == "sal_consp" and x.ops[0] == cur and d.ops[1] == ("i", 0, 32):
            tests[b.id] = t.raw["succ"][1 if d.get("pred") == "ne" else 0]
        elif d.get("pred") in ("eq", "ne") and cur in d.ops and ("g", "sal_k_null") in d.ops:
            tests[b.id] = t.raw["succ"][0 if d.get("pred") == "eq" else 1]
    if not tests: return False
    seen = set(); work = [(head, None)]
    while work:
        b, prev = work.pop()
        if (b, prev if len(f.blocks[b].phis) else None) in seen: continue
        seen.add((b, prev if len(f.blocks[b].phis) else None))
        if b == mk.blk.id: return False
        nx = decided(f, f.blocks[b], prev)
        for x in ([nx] if nx is not None else f.blocks[b].succs):
            if b in tests and x == tests[b]: continue
            work.append((x, b))
    return True

def escapes_without(f, mk, stores):
    """a return is reached from mk without passing one of the stores"""
    sb = {}
    for s in stores: sb.setdefault(s.blk.id, []).append(s.idx)
    seen = set(); work = [(mk.blk.id, mk.idx)]
    while work:
        b, st = work.pop()
        if (b, st > 0) in seen: continue
        seen.add((b, st > 0))
        if any(x > st for x in sb.get(b, [])) or (st == 0 and b in sb): continue
        if f.blocks[b].term.op == "ret": return True
        work += [(x, 0) for x in f.blocks[b].succs]
    return False

def hash_function(P, m):
    """functions that compute a table index use nothing but the name and the table size"""
    fns = set()
    for f in m.defined():
        for i in f.instrs():
            if i.op == "getelementptr" and tbl_load(f, ("v", i.id)) is not None:
                for d in slice_(f, i.ops[1]):
                    if d.op == "call" and d.cname in m.fns and not m.fns[d.cname].decl: fns.add(d.cname)
                    elif d.op == "load" and m.gname(d.ops[0]) not in (None, "scm_symbol_hash_size") and d.ops[0][0] in ("g", "ge"):
                        P.bad("%s:index" % f.name, "%s: the table index in %s depends on the variable %s" % (d.loc(), f.name, m.gname(d.ops[0])))
    for fn in sorted(fns):
        f = m.fns[fn]; P.count("index functions")
        for i in f.instrs():
            if i.op == "load" and i.ops[0][0] in ("g", "ge"):
                P.check(m.gname(i.ops[0]) == "scm_symbol_hash_size", fn + ":hash-state", "%s: the hash function %s depends on the variable %s" % (i.loc(), fn, m.gname(i.ops[0])))
            elif i.op == "store" and i.ops[1][0] in ("g", "ge"):
                P.bad(fn + ":hash-state", "%s: the hash function %s keeps state" % (i.loc(), fn))
            elif i.op == "call" and not (i.cname or "").startswith("llvm.") and i.cname not in ("strlen", "abs"):
                P.bad(fn + ":hash-state", "%s: the hash function %s calls %s" % (i.loc(), fn, i.cname))

def slice_(f, o, seen=None):
    seen = {} if seen is None else seen
    d = f.defs.get(o[1]) if o[0] == "v" else None
    if d is None or d.id in seen: return list(seen.values())
    seen[d.id] = d
    if d.op not in ("call", "load"):
        for x in d.ops: slice_(f, x, seen)
    return list(seen.values())
