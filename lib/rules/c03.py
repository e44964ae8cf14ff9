"""C03: in-place modification only of objects known to be mutable, or created by the operation itself."""
import typestate as T, envc
from core import Part
from ir import OBJ

NEWMUT = {n for n in T.MAKERS}
# operand positions through which library functions write
MEMWRITE = {"memcpy": 0, "memmove": 0, "memset": 0, "strcpy": 0, "strncpy": 0, "strcat": 0, "strncat": 0, "sprintf": 0, "snprintf": 0,
            "llvm.memcpy": 0, "llvm.memmove": 0, "llvm.memset": 0, "fread": 0, "fgets": 0, "qsort": 0, "free": 0, "realloc": 0, "scm_realloc": 0, "scm_free": 0}
CONSW = {"sal_cons_set_car", "sal_cons_set_cdr"}
SETTERS = {"sal_string_set_str", "sal_string_set_len", "sal_vector_set_vec", "sal_vector_set_len", "sal_closure_set_exp", "sal_closure_set_env",
           "sal_hmacro_set_rules", "sal_hmacro_set_env", "sal_farsymbol_set_sym", "sal_farsymbol_set_env", "sal_subpat_set_obj", "sal_subpat_set_meta",
           "sal_int_set_value", "sal_char_set_value", "sal_symbol_set_name", "sal_func_set_cfunc", "sal_func_set_typecode", "sal_set_mutable"}
MUTP = {"string": "sal_string_mutablep", "vector": "sal_vector_mutablep", "cons": "sal_cons_mutablep"}
BODY = {"sal_string_str": "string", "sal_vector_vec": "vector", "sal_symbol_name": "symbol"}
# procedures whose documented purpose is to change the pair they are given
DESTRUCTIVE = {"scm_p_set_carx", "scm_p_set_cdrx"}
TRUST = [
  (("scm_p_force",), "the pair representing a promise is updated once with its value"),
  (("scm_update_environment", "scm_add_environment", "scm_replace_environment"), "frames of the interpreter's own environments"),
  (("file:macro.c",), "private data of the macro expander; renamed identifiers are put back in place, which leaves the datum the same"),
  (("scm_listran", "scm_vectran"), "the copying translators of quasiquote build on a queue of their own"),
]

def trust_for(fn, file):
    for fs, why in TRUST:
        if fn in fs or "file:" + (file or "") in fs: return why
    return None

class Fresh:
    def __init__(s, mod, reg):
        s.m = mod; s.reg = reg; s.fr = {}; s.callers = {}; s.q = {}; s.taken = set()
        for f in mod.defined():
            for i in f.calls():
                if i.cname: s.callers.setdefault(i.cname, []).append((f, i))
            for i in f.instrs():
                for o in i.ops:
                    if o[0] == "f": s.taken.add(o[1])
        s.steps = 0
    # --- values
    def fresh(s, f, o, what, seen=frozenset(), depth=0):
        """o is an object made by the operation itself (what: 'obj', or 'spine': a list of such pairs)"""
        if o == ("g", "sal_k_null"): return True
        if o[0] in ("g", "ge", "i", "u", "n"): return o[0] == "u" or (o[0] == "g" and o[1].startswith("sal_k_"))
        if o[0] != "v": return False
        k = (f.name, o[1], what)
        if k in seen: return True
        if k in s.fr: return s.fr[k]
        r = s.fresh_(f, o, what, seen | {k}, depth)
        if depth == 0 or not seen: s.fr[k] = r
        return r
    def fresh_(s, f, o, what, seen, depth):
        if depth > 40: return False
        d = f.defs.get(o[1]); rec = lambda x, w=what: s.fresh(f, x, w, seen, depth + 1)
        if d is None:
            for k, a in enumerate(f.args):
                if a[0] == o[1]: return s.param(f, k, what, seen, depth)
            return False
        if d.op == "phi": return all(rec(x) for x in d.ops)
        if d.op == "select": return rec(d.ops[1]) and rec(d.ops[2])
        if d.op == "load":
            a = f.defs.get(d.ops[0][1]) if d.ops[0][0] == "v" else None
            if a is not None and a.op == "alloca": return s.head(f, a, what, seen, depth, d)
            return False
        if d.op == "call":
            c = d.cname
            if c in T.MAKERS:
                if what == "spine": return c in ("scm_make_cons", "scm_make_immutable_cons") and rec(d.ops[1])
                return True
            if c == "sal_make_valuepacket": return rec(d.ops[0], "obj")
            if c == "sal_cons_cdr": return rec(d.ops[0], "spine")
            if c == "sal_deref": return s.deref(f, d.ops[0], what, seen, depth, d)
            g = s.m.fns.get(c)
            if g is not None and not g.decl and not c.startswith("sal_"):
                rets = [b.term for b in g.blocks if b.term.op == "ret" and b.term.ops]
                if not rets: return True
                return all(s.ret(f, d, g, t.ops[0], what, seen, depth) for t in rets)
        return False
    def ret(s, f, call, g, o, what, seen, depth):
        """returned value o of g, parameters replaced by the operands of the call"""
        if o[0] == "v":
            for k, a in enumerate(g.args):
                if a[0] == o[1]: return s.fresh(f, call.ops[k], what, seen, depth + 1)
            d = g.defs.get(o[1])
            if d is not None and d.op in ("phi", "select"):
                k = (g.name, o[1], what, call.id)
                if k in seen: return True
                return all(s.ret(f, call, g, x, what, seen | {k}, depth + 1) for x in (d.ops if d.op == "phi" else d.ops[1:]))
        return s.fresh(g, o, what, seen, depth + 1)
    def param(s, f, k, what, seen, depth):
        if f.name in s.reg or f.name in s.taken: return False
        cs = s.callers.get(f.name, [])
        if not cs: return False
        return all(k < len(i.ops) and s.fresh(g, i.ops[k], what, seen, depth + 1) for g, i in cs)
    # --- queues
    def ref_roots(s, f, o, seen=None):
        """what a reference may point into: ('off', fn, alloca id) ('cdr'|'car', fn, operand) ('place', fn) ('?', fn)"""
        seen = set() if seen is None else seen
        if o[0] != "v": return {("?", f)}
        if (f.name, o[1]) in seen: return set()
        seen.add((f.name, o[1]))
        d = f.defs.get(o[1])
        if d is None:
            k = next((k for k, a in enumerate(f.args) if a[0] == o[1]), None)
            if k is None or f.name in s.reg or f.name in s.taken or not s.callers.get(f.name): return {("?", f)}
            r = set()
            for g, i in s.callers[f.name]: r |= s.ref_roots(g, i.ops[k], seen) if k < len(i.ops) else {("?", f)}
            return r
        if d.op in ("phi", "select"):
            r = set()
            for x in (d.ops if d.op == "phi" else d.ops[1:]): r |= s.ref_roots(f, x, seen)
            return r
        if d.op == "call" and d.cname == "sal_ref_off_heap":
            a = f.defs.get(d.ops[0][1]) if d.ops[0][0] == "v" else None
            return {("off", f, a.id)} if a is not None and a.op == "alloca" else {("?", f)}
        if d.op == "call" and d.cname in ("sal_ref_cdr", "sal_ref_car"): return {(d.cname[-3:], f, d.ops[0])}
        if d.op == "call" and d.cname in PLACES: return {("place", f)}
        if d.op == "load": return s.cell(f, d.ops[0], seen)
        return {("?", f)}
    def cell(s, f, p, seen):
        """references kept in the pointer-sized place p (a local, or a local of the caller)"""
        if p[0] != "v": return {("?", f)}
        k = ("cell", f.name, p[1])
        if k in seen: return set()
        seen.add(k)
        d = f.defs.get(p[1]); r = set()
        if d is None:
            k = next((k for k, a in enumerate(f.args) if a[0] == p[1]), None)
            if k is None or f.name in s.reg or f.name in s.taken or not s.callers.get(f.name): return {("?", f)}
            for g, i in s.callers[f.name]: r |= s.cell(g, i.ops[k], seen) if k < len(i.ops) else {("?", f)}
        elif d.op != "alloca": return {("?", f)}
        for i, n in f.uses().get(p[1], []):
            if i.op == "store" and n == 1: r |= s.ref_roots(f, i.ops[0], seen)
            elif i.op == "store": return {("?", f)}
            elif i.op == "call" and i.cname in s.m.fns and not s.m.fns[i.cname].decl:
                g = s.m.fns[i.cname]
                if n < len(g.args): r |= s.cell(g, ("v", g.args[n][0]), seen)
            elif i.op == "load" or i.op == "call" and (i.cname or "").startswith("llvm."): pass
            else: return {("?", f)}
        return r
    def head(s, f, a, what, seen, depth, at=None):
        """the list whose head is kept in local a is made by the operation itself (as far as it was built when at is executed)"""
        k = (f.name, "head", a.id, what, at.id if at is not None else None)
        if k in seen: return True
        seen = seen | {k}
        for i, n in f.uses().get(a.id, []):
            if at is not None and at.fn is f and not before(f, i, at): continue
            if i.op == "store" and n == 1:
                if not dead_store(f, a, i) and not s.fresh(f, i.ops[0], what, seen, depth + 1): return False
            elif i.op == "load": pass
            elif i.op == "call" and i.cname == "sal_ref_off_heap":
                if at is None or at.fn is f: pass
            elif i.op == "call" and (i.cname or "").startswith("llvm."): pass
            else: return False
        for g, j in s.sets(f, a):
            if at is not None and at.fn is g and not before(g, j, at): continue
            if not s.fresh(g, j.ops[1], what, seen, depth + 1): return False
        return True
    def sets(s, f, a):
        """every store through a reference of the queue that starts at local a"""
        k = (f.name, a.id)
        if k not in s.q:
            s.q[k] = []
            for g in s.m.defined():
                for j in g.calls():
                    if j.cname == "sal_set" and any(x[0] == "off" and x[1] is f and x[2] == a.id for x in s.roots(g, j.ops[0])): s.q[k].append((g, j))
        return s.q[k]
    def roots(s, f, o):
        k = (f.name, o)
        if not hasattr(s, "rc"): s.rc = {}
        if k not in s.rc: s.rc[k] = s.ref_roots(f, o)
        return s.rc[k]
    def deref(s, f, r, what, seen, depth, at=None):
        """what the reference r yields: everything stored through the references of the same queue"""
        k = (f.name, "deref", r, what)
        if k in seen: return True
        seen = seen | {k}
        for x in s.roots(f, r):
            if x[0] == "off":
                if not s.head(x[1], x[1].defs[x[2]], what, seen, depth + 1, at): return False
            elif x[0] == "cdr":
                if not s.fresh(x[1], x[2], "spine", seen, depth + 1): return False
            else: return False
        return True

PLACES = {"scm_lookup_environment", "lookup_n_frame", "scm_lookup_frame"}    # the place of a variable in the environment
def before(f, i, j):
    """can j be executed after i"""
    if i.blk is j.blk and i.idx < j.idx: return True
    seen = set(); work = list(i.blk.succs)
    while work:
        b = work.pop()
        if b in seen: continue
        seen.add(b)
        if b == j.blk.id: return True
        work += f.blocks[b].succs
    return False
def dead_store(f, a, i):
    """overwritten in the same block before anything can see it"""
    for x in i.blk.ins[i.idx + 1:]:
        if x.op == "store" and x.ops[1] == ("v", a.id): return True
        if ("v", a.id) in x.ops: return False
    return False

def body_of(f, o, depth=0, seen=None):
    """objects whose body the pointer o points into: list of (kind, object operand); ('param', k) for parameters"""
    seen = set() if seen is None else seen
    if o[0] != "v" or o[1] in seen or depth > 20: return []
    seen.add(o[1])
    d = f.defs.get(o[1])
    if d is None:
        for k, a in enumerate(f.args):
            if a[0] == o[1]: return [("param", k)]
        return []
    if d.op == "getelementptr": return body_of(f, d.ops[0], depth + 1, seen)
    if d.op == "phi": return [x for y in d.ops for x in body_of(f, y, depth + 1, seen)]
    if d.op == "select": return [x for y in d.ops[1:] for x in body_of(f, y, depth + 1, seen)]
    if d.op == "call" and d.cname in BODY: return [(BODY[d.cname], d.ops[0])]
    return []

def tested(f, site, kind, o):
    """a mutability test of o whose true outcome dominates the site (control cannot reach it otherwise)"""
    name = MUTP.get(kind)
    for i in f.calls():
        if i.cname != name or i.ops[0] != o: continue
        for b in f.blocks:
            t = b.term
            if t.op != "br" or len(t.raw["succ"]) != 2: continue
            pol = polarity(f, t.ops[0], i.id)
            if pol is None: continue
            good = t.raw["succ"][0 if pol else 1]; other = t.raw["succ"][1 if pol else 0]
            if not reaches_without(f, b.id, good, site.blk.id): return True
    return False

def polarity(f, c, vid):
    d = f.defs.get(c[1]) if c[0] == "v" else None
    if d is None: return None
    if d.op == "icmp" and d.ops[0] == ("v", vid) and d.ops[1][0] == "i" and d.ops[1][1] == 0:
        return {"ne": True, "eq": False}.get(d.get("pred"))
    if d.op == "xor":
        p = polarity(f, d.ops[0], vid); return None if p is None else not p
    return None

def reaches_without(f, b, good, target):
    """can the target be reached from the entry without taking the edge b->good"""
    seen = {0}; work = [0]
    if target == 0: return True
    while work:
        x = work.pop()
        for y in f.blocks[x].succs:
            if x == b and y == good: continue
            if y == target: return True
            if y not in seen: seen.add(y); work.append(y)
    return False

def run(cfg):
    e = envc.engine(cfg); P = Part("mutation", cfg); m = e.mod
    F = Fresh(m, e.registered)
    immcons = cfg == "fatty"
    done_body = set(); bodywork = []
    def obj_ok(f, site, kind, o, seen=frozenset()):
        if kind in MUTP and tested(f, site, kind, o): return True
        if F.fresh(f, o, "obj"): return True
        d = f.defs.get(o[1]) if o[0] == "v" else None
        if d is not None and d.op == "phi":
            return all(obj_ok(f, site, kind, x, seen) for x in d.ops if x != o) if len(seen) < 4 else False
        if d is None and o[0] == "v":
            # parameter of an internal function: each caller
            k = next((k for k, a in enumerate(f.args) if a[0] == o[1]), None)
            if k is None or f.name in e.registered or f.name in F.taken or (f.name, k) in seen: return False
            cs = F.callers.get(f.name, [])
            return bool(cs) and all(obj_ok(g, i, kind, i.ops[k], seen | {(f.name, k)}) for g, i in cs)
        return False
    def write(f, i, kind, o, what):
        P.count("writes")
        if kind == "cons" and f.name in DESTRUCTIVE and not immcons: P.obl += 1; P.ok += 1; return
        ok = obj_ok(f, i, kind, o)
        if not ok:
            why = trust_for(f.name, f.file)
            if why: P.trusts(why); return
        P.check(ok, "%s:%s" % (f.name, what), "%s: %s changes (%s) an object that is neither made by the operation itself nor tested to be mutable" % (i.loc(), f.name, what))
    for f in m.defined():
        if f.name.startswith("sal_"): continue
        if f.name not in e.reached and f.name not in ("scm_p_set_carx",): 
            P.count("functions not reachable from a procedure"); continue
        for i in f.instrs():
            if i.op == "call":
                c = i.cname
                if c in CONSW: write(f, i, "cons", i.ops[0], c)
                elif c in SETTERS:
                    kind = c.split("_")[1]
                    # a closure of a named let gets its own name into scope
                    write(f, i, kind, i.ops[0], c)
                elif c == "sal_set":
                    P.count("writes")
                    bad = None
                    for x in F.roots(f, i.ops[0]):
                        if x[0] == "?": bad = x
                        elif x[0] in ("car", "cdr") and not obj_ok(x[1], i, "cons", x[2]): bad = x
                        elif x[0] == "place": P.count("assignments to variables")
                    why = trust_for(f.name, f.file)
                    if bad is not None and why: P.trusts(why)
                    else: P.check(bad is None, "%s:sal_set" % f.name, "%s: %s stores through a reference into a pair it did not make" % (i.loc(), f.name))
                elif c in MEMWRITE or (c or "").startswith(("llvm.memcpy", "llvm.memmove", "llvm.memset")):
                    for x in body_of(f, i.ops[MEMWRITE.get(c, 0)]):
                        if x[0] == "param": bodywork.append((f, x[1], i))
                        elif x[0] == "symbol": P.check(False, "%s:symbol-name" % f.name, "%s: %s writes into the name of a symbol" % (i.loc(), f.name))
                        else: write(f, i, x[0], x[1], "body")
            elif i.op == "store":
                for x in body_of(f, i.ops[1]):
                    if x[0] == "param": bodywork.append((f, x[1], i))
                    elif x[0] == "symbol": P.check(False, "%s:symbol-name" % f.name, "%s: %s writes into the name of a symbol" % (i.loc(), f.name))
                    else: write(f, i, x[0], x[1], "body")
    # functions that write through a pointer parameter: pointers into object bodies passed to them
    while bodywork:
        f, k, at = bodywork.pop()
        if (f.name, k) in done_body: continue
        done_body.add((f.name, k))
        for g, i in F.callers.get(f.name, []):
            if k >= len(i.ops): continue
            for x in body_of(g, i.ops[k]):
                if x[0] == "param": bodywork.append((g, x[1], i))
                elif x[0] == "symbol": P.check(False, "%s:symbol-name" % g.name, "%s: %s passes the name of a symbol to %s, which writes into it" % (i.loc(), g.name, f.name))
                else: write(g, i, x[0], x[1], "body via " + f.name)
    # bodies are not shared between objects
    for f in m.defined():
        for i in f.calls():
            k = {"scm_make_string": 0, "scm_make_immutable_string": 0, "scm_make_symbol": 0, "scm_make_vector": 0, "scm_make_immutable_vector": 0,
                 "sal_string_set_str": 1, "sal_vector_set_vec": 1, "sal_symbol_set_name": 1}.get(i.cname)
            if k is None: continue
            P.count("bodies given to objects")
            for x in body_of(f, i.ops[k]):
                if x[0] == "param": continue
                if i.cname in ("sal_string_set_str", "sal_vector_set_vec") and x[1] == i.ops[0]: continue
                P.bad("%s:shared-body" % f.name, "%s: %s gives the body of one object to another (%s)" % (i.loc(), f.name, i.cname))
            P.obl += 1; P.ok += 1
    reader(P, e, m, F, cfg)
    P.need("writes", 15); P.need("bodies given to objects", 8)
    return P

def reader(P, e, m, F, cfg):
    """what the reader hands out is constant"""
    seen = set(); work = [n for n in ("scm_read",) if n in m.fns]
    while work:
        n = work.pop()
        if n in seen or n not in m.fns or m.fns[n].decl or n in ("scm_eval", "scm_call", "scm_intern"): continue
        seen.add(n)
        f = m.fns[n]
        if f.noreturn: continue
        for i in f.calls():
            if i.get("nr"): continue
            if i.cname and not (i.cname in m.fns and m.fns[i.cname].noreturn): work.append(i.cname)
    P.count("reader functions", len(seen))
    P.need("reader functions", 8)
    for n in sorted(seen):
        f = m.fns[n]
        for i in f.calls():
            if i.cname in ("scm_make_string", "scm_make_string_copying"):
                P.check(not reaches_result(f, i), "%s:literal-string" % n, "%s: the reader (%s) makes a mutable string as a datum" % (i.loc(), n))
            elif i.cname in ("scm_make_immutable_string", "scm_make_immutable_string_copying"): P.check(True, "", ""); P.count("literal strings")
            elif i.cname in ("scm_make_vector", "scm_p_list2vector", "scm_p_vector", "scm_p_make_vector") and n not in ("scm_p_list2vector", "scm_p_vector"):
                P.count("literal vectors")
                P.check(made_immutable(f, i), "%s:literal-vector" % n, "%s: the reader (%s) returns a vector without having made it immutable" % (i.loc(), n))
            elif i.cname == "scm_make_cons" and cfg == "fatty":
                P.count("literal pairs")
                P.check(not reaches_result(f, i), "%s:literal-pair" % n, "%s: the reader (%s) makes a mutable pair as a part of a datum" % (i.loc(), n))
            elif i.cname == "scm_make_immutable_cons": P.check(True, "", ""); P.count("literal pairs")
    P.need("literal strings"); P.need("literal vectors")

def reaches_result(f, i):
    """the object may become (a part of) what the function returns, or be stored anywhere"""
    for j, k in f.uses().get(i.id, []):
        if j.op == "ret" or j.op == "phi" or j.op == "select": return True
        if j.op == "store" or (j.op == "call" and j.cname in ("sal_set", "scm_make_cons", "scm_make_immutable_cons", "sal_cons_set_car", "sal_cons_set_cdr")): return True
    return False

def made_immutable(f, i):
    """on every path from i to a return, sal_set_immutable(i) is executed"""
    def marks(b, start):
        return any(x.op == "call" and x.cname == "sal_set_immutable" and x.ops[0] == ("v", i.id) for x in f.blocks[b].ins[start:])
    seen = set(); work = [(i.blk.id, i.idx + 1)]
    while work:
        b, st = work.pop()
        if b in seen: continue
        seen.add(b)
        if marks(b, st): continue
        if f.blocks[b].term.op == "ret": return False
        work += [(x, 0) for x in f.blocks[b].succs]
    return True
