"""C04: integer arithmetic stays in the range of fixnums or signals an error.

The integers of one function are followed through three domains: `fits' (the value is a fixnum: found as the largest
set of values that are fixnums whenever the values they are made from are), linear inequalities (bounds.py) where
a sum, difference or negation has to be shown in range from the tests in front of it, and `not zero' for divisors.
A product is in range when a test against the quotient of a range bound stands in front of it.
"""
import os, ir, bounds, memspec, collections
from core import Part, Broken, need_fn
from bounds import add, con, var, scale
from memspec import olin

MAKERS = {"scm_make_int": 0, "sal_make_int": 0}
# documented in the source: no overflow check
UNCHECKED = {"scm_p_multiply": "* performs no overflow check (documented in the source)"}
# functions working on fixnums that are not procedures of their own: parameters and result are fixnums
NUMS = ("gcd", "scm_string2number")
# numbers whose range depends on state kept between calls
UNDECIDED = {"scm_vectran": "index into a vector, kept in the translator's state", "compile_rec": "nesting depth of ellipses (hygienic macros)"}
# results that are fixnums by construction of the storage layer
LENGTHS = ("sal_vector_len", "sal_string_len", "scm_mb_strlen", "scm_mb_bare_c_strlen", "strlen")

def limits(cfg):
    m = open(os.path.join(os.path.dirname(__file__), "..", "..", "configs", cfg, "config.h")).read()
    b = 60 if "#define SCM_USE_STORAGE_COMPACT 1" in m else 64
    return -(1 << b - 1), (1 << b - 1) - 1, b

class Arith(memspec.Spec):
    def __init__(s, m, lo, hi): super().__init__(m); s.lo = lo; s.hi = hi; s.fits = {}
    def rng(s, V): return [add(V, con(-s.lo)), add(con(s.hi), V, -1)]
    def axioms(s, F, t, rows, conds):
        V = var(t)
        if t[0] == "prod":
            x, y = dict(t[1]), dict(t[2])
            for e, d in ((x, y), (y, x)):
                conds.append(([d, scale(d, -1)], F.eq(V, {})))
                conds.append(([e, d], [V])); conds.append(([scale(e, -1), scale(d, -1)], [V]))
                conds.append(([e, scale(d, -1)], [scale(V, -1)]))
                for i in F.f.instrs():
                    if i.op != "sdiv" or i.ops[0][0] != "i" or i.blk.id not in F.reach or F.lin(i.ops[1]) != d: continue
                    C = con(i.ops[0][1]); q = F.lin(("v", i.id)); pos = i.ops[0][1] >= 0
                    # C / d is cut towards zero: its product with d lies between 0 and C
                    for g, cmp in (([add(d, con(-1))], add(q, e, -1) if pos else add(e, q, -1)),
                                   ([add(scale(d, -1), con(-1))], add(e, q, -1) if pos else add(q, e, -1))):
                        conds.append((g + [cmp], [add(C, V, -1) if pos else add(V, C, -1)]))
            return
        super().axioms(F, t, rows, conds)
        if t[0] != "v": return
        if (F.f.name, t[1]) in s.fits: rows += s.rng(V)
        x = F.f.defs.get(t[1])
        if x is None: return
        if x.op == "call":
            if x.cname == "sal_int_value": rows += s.rng(V)
            if x.cname in LENGTHS: rows += [add(con(s.hi >> 1), V, -1), V]
            if x.cname in s.nonneg: rows.append(V)
            if x.cname == "scm_length":         # number of pairs, encoded; or the mark of a circular list
                rows.append(add(con(s.hi >> 2), V, -1)); conds.append(([add(V, con((1 << 63) - 1))], [add(V, con(s.hi >> 2))]))
        if x.op == "xor" and any(y[0] == "i" and y[1] == -1 for y in x.ops):
            rows += F.eq(V, add(con(-1), F.lin([y for y in x.ops if y != ("i", -1, y[2] if len(y) > 2 else 0)][0]), -1))
        if x.op == "srem":
            a = F.lin(x.ops[0]); b = F.lin(x.ops[1])
            conds.append(([a], [V, add(a, V, -1)])); conds.append(([scale(a, -1)], [scale(V, -1), add(V, a, -1)]))
            conds.append(([add(b, con(-1))], [add(add(b, V, -1), con(-1)), add(add(b, V), con(-1))]))
            nb = scale(b, -1)
            conds.append(([add(nb, con(-1))], [add(add(nb, V, -1), con(-1)), add(add(nb, V), con(-1))]))
        if x.op == "sdiv":
            a = F.lin(x.ops[0]); b = F.lin(x.ops[1])
            conds.append(([a, add(b, con(-1))], [V, add(a, V, -1)]))
            conds.append(([scale(a, -1), add(b, con(-1))], [scale(V, -1), add(V, a, -1)]))
            if x.ops[1][0] == "i" and x.ops[1][1] > 1: conds.append(([add(a, con(-1))], [add(add(a, V, -1), con(-1))]))

def base(f, o):
    while o[0] == "v":
        x = f.defs.get(o[1])
        if x is not None and x.op in ("freeze",): o = x.ops[0]
        else: break
    return o

class Fn:
    """one function"""
    def __init__(s, P, m, S, f):
        s.P = P; s.m = m; s.S = S; s.f = f
        F = bounds.Flow.__new__(bounds.Flow); F.spec = S; F.record = lambda x: False
        F.__init__(f, S); s.F = F
        s.pr = {}
    def prove(s, row, b, extra=(), splits=5):
        k = (bounds.key(row), b, tuple(map(bounds.key, extra)))
        if k not in s.pr: s.pr[k] = s.F.prove(row, b, list(extra), splits) or s.bycases(row, b, list(extra), splits)
        return s.pr[k]
    def bycases(s, row, b, extra, splits):
        """distinguish the ways the truth values tested before block b came about"""
        for c in s.F.chain(b):
            ps = s.F.preds[c]
            if len(ps) != 1: continue
            t = s.f.blocks[ps[0]].term
            if t.op != "br" or len(t.raw["succ"]) != 2 or t.raw["succ"][0] == t.raw["succ"][1]: continue
            a = s.alts(t.ops[0], t.raw["succ"][0] == c)
            if 1 < len(a) <= 12 and all(bounds.clash({bounds.key(r): r for r in x}) or s.F.prove(row, b, extra + x, min(splits, 3)) for x in a): return True
        return False
    def alts(s, o, val, depth=0):
        """lists of inequalities, one of which holds when the truth value o is val"""
        if o[0] == "i": return [[]] if bool(o[1] & 1) == val else []
        x = s.f.defs.get(o[1]) if o[0] == "v" else None
        if x is None or depth > 6: return [[]]
        F = s.F; sub = lambda y, v: s.alts(y, v, depth + 1)
        both = lambda p, q: [a + b for a in p for b in q]
        if x.op in ("zext", "sext", "freeze", "trunc"): return sub(x.ops[0], val)
        if x.op == "xor" and x.ty == "i1" or x.op == "icmp" and x.get("oty") == "i1" and x.get("pred") in ("eq", "ne"):
            d = val if x.op == "xor" or x.get("pred") == "ne" else not val
            a, b = x.ops
            return both(sub(a, True), sub(b, not d)) + both(sub(a, False), sub(b, d))
        if x.op in ("and", "or") and x.ty == "i1":
            a, b = x.ops; w = x.op == "and"
            if w == val: return both(sub(a, val), sub(b, val))
            return sub(a, val) + both(sub(a, not val), sub(b, val))
        if x.op == "select":
            c, a, b = x.ops
            return both(sub(c, True), sub(a, val)) + both(sub(c, False), sub(b, val))
        if x.op == "phi" and x.blk.id not in F.heads and x.ty in ("i1", "i8", "i32"):
            out = []
            for y, p in zip(x.ops, x.raw["in"]):
                if p not in F.reach: continue
                fs = list(F.edge(p, x.blk.id).rows.values()) + list(F.facts(p).rows.values())
                t = s.f.blocks[p].term
                if t.op == "br" and len(t.raw["succ"]) == 2 and t.raw["succ"][0] != t.raw["succ"][1]:
                    out += [fs + a + b for a in sub(t.ops[0], t.raw["succ"][0] == x.blk.id) for b in sub(y, val)]
                else: out += [fs + a for a in sub(y, val)]
            return out
        if x.op == "icmp":
            a, b = x.ops; p = x.get("pred")
            if b[0] == "i" and b[1] == 0 and p in ("eq", "ne") and a[0] == "v":
                y = s.f.defs.get(a[1])
                if y is not None and (y.op in ("zext", "sext") and y.get("sty") == "i1" or y.op in ("phi", "select") and y.ty in ("i8", "i32")): return sub(a, val == (p == "ne"))
            if p in ("eq", "ne") and val == (p == "ne") and bounds.W.get(x.get("oty")):
                D = add(F.lin(a), F.lin(b), -1)
                return [[add(D, con(-1))], [add(scale(D, -1), con(-1))]]
            fs = bounds.Facts(); F.cond(o, val, fs)
            return [list(fs.rows.values())]
        return [[]]
    def inrange(s, e, b, lo, hi, extra=()):
        return s.prove(add(e, con(-lo)), b, extra) and s.prove(add(con(hi), e, -1), b, extra)
    # ---- fixnums
    def fix(s, o, b, busy=()):
        """the operand is a fixnum at the end of block b, if the values in S.fits are"""
        f, S = s.f, s.S
        if o[0] == "i": return S.lo <= o[1] <= S.hi
        if o[0] == "u": return True
        if o[0] != "v": return False
        if (f.name, o[1]) in S.fits: return True
        x = f.defs.get(o[1])
        if x is None:
            k = next((k for k, a in enumerate(f.args) if a[0] == o[1]), None)
            return k is not None and f.ptypes[k] in ("int", "scm_bool", "scm_ichar_t")
        if o[1] in busy: return False
        busy += (o[1],)
        if x.op in ("phi", "select"): return False        # (decided by the fixed point)
        if x.op in ("sext", "zext") and bounds.W.get(x.get("sty"), 64) <= 32: return True
        if x.op in ("and", "or", "xor"): return all(s.fix(y, b, busy) for y in x.ops)
        if x.op in ("freeze", "ashr"): return s.fix(x.ops[0], b, busy)
        if x.op == "call":
            return x.cname == "sal_int_value" or x.cname in LENGTHS or x.cname in NUMS and x.ty == "i64"
        if x.op == "srem": return any(s.fix(y, b, busy) for y in x.ops)
        if x.op == "sdiv": return s.fix(x.ops[0], b, busy) and s.notleast(x)
        if x.op == "mul" or x.op == "call" and "mul.with" in (x.cname or ""): return s.product(x, S.lo, S.hi)
        if bounds.W.get(x.ty) != 64: return False
        e = olin(s.F, o)
        return s.inrange(e, x.blk.id, S.lo, S.hi) or b != x.blk.id and s.inrange(e, b, S.lo, S.hi)
    def notleast(s, x):
        """not the least fixnum divided by -1"""
        a, d = s.F.lin(x.ops[0]), s.F.lin(x.ops[1])
        if x.ops[1][0] == "i": return x.ops[1][1] not in (0, -1)
        k = x.blk.id
        return s.prove(add(a, con(-s.S.lo - 1)), k, s.F.eq(d, con(-1)))
    def product(s, x, lo, hi):
        a, d = x.ops
        if any(y[0] == "i" for y in x.ops): return s.inrange(s.F.expr(x), x.blk.id, lo, hi)
        # a test by a predicate known to detect overflow stands in front
        for c in s.guards(x.blk.id):
            if c.cname in s.S.overflow and sorted(map(repr, c.ops[:2])) == sorted(map(repr, x.ops)): return True
        p = sorted([tuple(sorted(s.F.lin(a).items(), key=repr)), tuple(sorted(s.F.lin(d).items(), key=repr))], key=repr)
        return s.inrange({("prod", p[0], p[1]): 1}, x.blk.id, lo, hi)
    def guards(s, b):
        """calls known to have answered false before block b"""
        out = []
        for c in s.F.chain(b):
            ps = s.F.preds[c]
            if len(ps) != 1: continue
            t = s.f.blocks[ps[0]].term
            if t.op != "br" or len(t.raw["succ"]) != 2 or t.raw["succ"][0] == t.raw["succ"][1]: continue
            truth = t.raw["succ"][0] == c; o = t.ops[0]
            for _ in range(8):
                x = s.f.defs.get(o[1]) if o[0] == "v" else None
                if x is None: break
                if x.op == "xor": truth = not truth; o = [y for y in x.ops if y[0] == "v"][0]; continue
                if x.op in ("trunc", "zext"): o = x.ops[0]; continue
                if x.op == "icmp" and x.ops[1][0] == "i" and x.get("pred") in ("eq", "ne") and x.ops[1][1] == 0:
                    if x.get("pred") == "eq": truth = not truth
                    o = x.ops[0]; continue
                if x.op == "call" and not truth: out.append(x)
                break
        return out
    def nonzero(s, o, b, busy=()):
        """the operand is not zero in block b"""
        if o[0] == "i": return o[1] != 0
        if o[0] != "v": return False
        if (o, b) in busy: return True
        x = s.f.defs.get(o[1])
        V = s.F.lin(o)
        # a test on the way here
        for c in s.F.chain(b):
            for p in s.F.preds[c][:1] if len(s.F.preds[c]) == 1 else []:
                if s.tested(p, c, o): return True
        if x is None: return (s.f.name, o[1]) in s.S.nz
        if x.op in ("phi", "select"):
            src = list(zip(x.ops, x.raw["in"])) if x.op == "phi" else [(y, x.blk.id) for y in x.ops[1:]]
            ok = all(p not in s.F.reach or s.nonzero(y, p, busy + ((o, b),)) or x.op == "phi" and s.tested(p, x.blk.id, y) or x.op == "phi" and s.beside(x, p) for y, p in src)
            if ok: return True
        elif x.op == "sub" and x.ops[0] == ("i", 0, 64): return s.nonzero(x.ops[1], b, busy + ((o, b),))
        elif x.op in ("freeze", "sext", "zext"): return s.nonzero(x.ops[0], b, busy)
        elif x.op == "call" and x.cname in s.S.nzfn: return all(s.nonzero(y, x.blk.id, busy) for y in x.ops)
        return s.prove(add(V, con(-1)), b) or s.prove(add(scale(V, -1), con(-1)), b)
    def beside(s, x, p): return False
    def tested(s, p, c, o):
        """the edge p -> c says o is not zero"""
        t = s.f.blocks[p].term
        if t.op == "switch":
            return t.ops[0] == o and any(k[0] == 0 for k in t.raw["cases"]) and c not in [k[1] for k in t.raw["cases"] if k[0] == 0] 
        if t.op != "br" or len(t.raw["succ"]) != 2 or t.raw["succ"][0] == t.raw["succ"][1]: return False
        fs = bounds.Facts(); s.F.cond(t.ops[0], t.raw["succ"][0] == c, fs)
        V = s.F.lin(o)
        rows = list(fs.rows.values())
        if any(bounds.entails_rows(rows, add(scale(V, k), con(-1))) for k in (1, -1)): return True
        return any(len(g) == 1 and bounds.norm(g[0]) == bounds.norm(V) and any(bounds.norm(q) == bounds.norm(add(V, con(-1))) for q in cc) for g, cc in fs.conds.values())

def numeric(m):
    """functions that take integers out of objects or make integer objects"""
    out = set(NUMS) & set(m.fns)
    for f in m.defined():
        if any(c.cname in MAKERS or c.cname == "sal_int_value" or c.cname in NUMS for c in f.calls()): out.add(f.name)
    return out

def depends(f, names=("sal_int_value",) + NUMS):
    """values of f computed from integers of the program"""
    dep = {a[0] for a in f.args} if f.name in NUMS else set()
    ch = True
    while ch:
        ch = False
        for i in f.instrs():
            if i.id in dep or i.id is None: continue
            if i.op == "call": hit = i.cname in names or i.cname in ("strtol", "strtoll", "strtoimax")
            elif i.op in ("add", "sub", "mul", "shl", "sdiv", "srem", "udiv", "urem", "phi", "select", "and", "or", "xor", "ashr", "lshr", "sext", "zext", "trunc", "freeze"):
                hit = any(o[0] == "v" and o[1] in dep for o in i.ops)
            else: hit = False
            if hit: dep.add(i.id); ch = True
    return dep

def overflow_predicates(P, m, S):
    """static functions of two integers answering false only when the product of the two is a fixnum"""
    out = set()
    for f in m.defined():
        if [a[1] for a in f.args] != ["i64", "i64"] or f.ret not in ("i32", "i1", "i8") : continue
        if not any(i.op == "sdiv" and i.ops[0][0] == "i" for i in f.instrs()): continue
        if any(i.op in ("call", "store") for i in f.instrs()): continue
        S.fits.update({(f.name, a[0]): 1 for a in f.args})
        A = Fn(P, m, S, f)
        if A.F.heads: continue
        p = sorted([tuple(sorted(var(("v", a[0])).items(), key=repr)) for a in f.args], key=repr)
        g = {("prod", p[0], p[1]): 1}; ok = True; n = 0
        def leaf(o, b, extra):
            """every way the result can be false implies the product is in range"""
            nonlocal n
            if o[0] == "i" and o[1] & 1: return True
            if o[0] == "v":
                x = f.defs.get(o[1])
                if x.op == "phi": return all(leaf(y, q, extra + list(A.F.edge(q, x.blk.id).rows.values())) for y, q in zip(x.ops, x.raw["in"]))
                if x.op in ("zext", "sext", "trunc", "freeze"): return leaf(x.ops[0], b, extra)
                if x.op == "select":
                    r = True
                    for val, y in ((True, x.ops[1]), (False, x.ops[2])):
                        fs = bounds.Facts(); A.F.cond(x.ops[0], val, fs); r = r and leaf(y, b, extra + list(fs.rows.values()))
                    return r
                fs = bounds.Facts(); A.F.cond(o, False, fs); extra = extra + list(fs.rows.values())
            n += 1
            return A.inrange(g, b, S.lo, S.hi, extra)
        for b in f.blocks:
            t = b.term
            if t.op == "ret" and b.id in A.F.reach: ok = leaf(t.ops[0], b.id, []) and ok
        P.check(ok, "c04:overflow-test:%s" % f.name, "%s can answer that a product does not overflow although it does" % f.name)
        P.count("ways an overflow test answers no", n)
        if ok: out.add(f.name)
    return out

def run(cfg):
    P = Part("C04 integers", cfg)
    m = ir.Module(cfg)
    lo, hi, bits = limits(cfg)
    S = Arith(m, lo, hi); S.overflow = set(); S.nonneg = set(); S.nz = set(); S.nzfn = set()
    S.overflow = overflow_predicates(P, m, S)
    names = numeric(m)
    fns = {}
    for n in sorted(names):
        f = m.fns[n]
        makes = [c for c in f.calls() if c.cname in MAKERS and c.ops[MAKERS[c.cname]][0] != "i"]
        dep = depends(f)
        ar = [i for i in f.instrs() if i.id in dep and (i.op in ("sdiv", "srem") or i.op in ("add", "sub", "mul", "shl") and i.get("nsw") and i.ty == "i64")]
        if makes or n in NUMS or any(i.op in ("sdiv", "srem") for i in ar): fns[n] = (Fn(P, m, S, f), makes, ar)
    # which values are fixnums
    for n, (A, makes, ar) in fns.items():
        dep = depends(A.f)
        for i in A.f.instrs():
            if bounds.W.get(i.ty) == 64 and (i.id in dep or i.op in ("phi", "select")) and i.blk.id in A.F.reach: S.fits[(n, i.id)] = i
        if n in NUMS:
            for a in A.f.args:
                if a[1] == "i64": S.fits[(n, a[0])] = None
    rounds = 0
    while True:
        rounds += 1; drop = []
        for (n, v), i in list(S.fits.items()):
            if i is None or not isinstance(i, ir.Ins): continue
            A = fns[n][0]
            if i.op == "phi": ok = all(p not in A.F.reach or A.fix(y, p) or A.F.prove(add(A.F.lin(y), con(-lo)), p, list(A.F.edge(p, i.blk.id).rows.values()), 4) and A.F.prove(add(con(hi), A.F.lin(y), -1), p, list(A.F.edge(p, i.blk.id).rows.values()), 4)
                                      for y, p in zip(i.ops, i.raw["in"]))
            elif i.op == "select":
                ok = True
                for val, y in ((True, i.ops[1]), (False, i.ops[2])):
                    if A.fix(y, i.blk.id): continue
                    fs = bounds.Facts(); A.F.cond(i.ops[0], val, fs); e = olin(A.F, y)
                    if not A.inrange(e, i.blk.id, lo, hi, list(fs.rows.values())): ok = False
            else:
                S.fits.pop((n, v)); A.F._ax.pop(("v", v), None)
                ok = A.fix(("v", v), i.blk.id)
                S.fits[(n, v)] = i; A.F._ax.pop(("v", v), None)
            if not ok: drop.append((n, v))
        if not drop: break
        for k in drop: S.fits.pop(k)
        for A, _, _ in fns.values(): A.F._ax.clear(); A.pr.clear()
    P.count("values shown to be fixnums", len(S.fits))
    # callers and results of the helpers
    for n in NUMS:
        if n not in fns: continue
        A = fns[n][0]
        for b in A.F.order:
            t = A.f.blocks[b].term
            if t.op == "ret" and t.ops:
                P.check(A.fix(t.ops[0], b), "c04:result:%s" % n, "%s: %s can return a number that is not a fixnum" % (t.loc(), n))
    for f in m.defined():
        for c in f.calls():
            if c.cname in NUMS:
                A = fns[f.name][0] if f.name in fns else Fn(P, m, S, f)
                for k, o in enumerate(c.ops):
                    if m.fns[c.cname].args[k][1] == "i64":
                        P.check(A.fix(o, c.blk.id), "c04:operand:%s:%s" % (f.name, c.cname), "%s: %s is handed a number that may not be a fixnum" % (c.loc(), c.cname))
    # a helper whose result is not zero when its operands are not
    for n in ("gcd",):
        if n not in fns: continue
        A = fns[n][0]
        if all(A.prove(A.F.lin(A.f.blocks[b].term.ops[0]), b) for b in A.F.order if A.f.blocks[b].term.op == "ret"):
            S.nonneg.add(n)
            for B, _, _ in fns.values(): B.F._ax.clear(); B.pr.clear()
        S.nz = {(n, a[0]) for a in A.f.args}
        rets = [b for b in A.F.order if A.f.blocks[b].term.op == "ret"]
        if all(A.nonzero(A.f.blocks[b].term.ops[0], b) for b in rets): S.nzfn.add(n)
        S.nz = set()
    # obligations
    for n, (A, makes, ar) in sorted(fns.items()):
        f = A.f
        if n in S.overflow: continue
        for c in makes:
            if c.blk.id not in A.F.reach: continue
            if n in UNCHECKED: P.trusts(UNCHECKED[n]); continue
            o = c.ops[MAKERS[c.cname]]
            P.count("integer objects made")
            if n in UNDECIDED and not A.fix(o, c.blk.id): P.trusts(UNDECIDED[n]); continue
            P.check(A.fix(o, c.blk.id) or A.inrange(olin(A.F, o), c.blk.id, lo, hi), "c04:made:%s" % n,
                    "%s: an integer object is made of a number not shown to be in the range of fixnums" % c.loc())
        for i in ar:
            if i.blk.id not in A.F.reach: continue
            if i.op in ("sdiv", "srem"):
                P.count("divisions")
                P.check(A.nonzero(i.ops[1], i.blk.id), "c04:zero:%s" % n, "%s: the divisor may be zero" % i.loc())
                a, d = A.F.lin(i.ops[0]), A.F.lin(i.ops[1])
                if i.ops[1][0] == "i": ok = i.ops[1][1] not in (0, -1)
                else: ok = (bits < 64 and A.fix(i.ops[0], i.blk.id)) or A.prove(add(a, con((1 << 63) - 1)), i.blk.id, A.F.eq(d, con(-1)))
                P.check(ok, "c04:least:%s" % n, "%s: the least number may be divided by -1" % i.loc())
            else:
                if n in UNCHECKED and i.op == "mul": P.trusts(UNCHECKED[n]); continue
                P.count("sums, differences and products")
                L, H = -(1 << 63), (1 << 63) - 1
                if i.op == "mul" and not any(y[0] == "i" for y in i.ops): ok = A.product(i, L, H) or A.product(i, lo, hi)
                else:
                    e = A.F.expr(i); ok = e is not None and A.inrange(e, i.blk.id, L, H)
                P.check(ok, "c04:native:%s:%s" % (n, i.op), "%s: native %s of program integers may overflow" % (i.loc(), i.op))
    # an integer narrowed to a smaller native type keeps its value
    for f in m.defined():
        dep = depends(f)
        for i in f.instrs():
            if i.op != "trunc" or i.ops[0][0] != "v" or i.ops[0][1] not in dep or bounds.W.get(i.ty, 64) not in (8, 16, 32): continue
            A = fns[f.name][0] if f.name in fns else Fn(P, m, S, f)
            if i.blk.id not in A.F.reach or i.blk.term.op == "unreachable": continue
            us, st = [], [i.id]; at = set()
            for y in st:
                for x, k in f.uses().get(y, []):
                    if x.op in ("phi", "select"): st += [x.id] if x.id not in st else []
                    else: us.append(x)
                    if y == i.id: at.add(x.raw["in"][k] if x.op == "phi" else x.blk.id)
            if us and all(x.op == "call" and x.cname in ("exit", "_exit") for x in us): P.trusts("the operating system keeps what it likes of an exit status"); continue
            P.count("integers narrowed")
            w = bounds.W[i.ty]; e = A.F.lin(i.ops[0])
            above = not any(f.defs[v].op == "call" and f.defs[v].cname == "scm_string2number" for v in sources(f, i.ops[0]))    # what digits spell is not below zero
            for b in sorted(at):
                if b not in A.F.reach or f.blocks[b].term.op == "unreachable": continue
                P.check(A.prove(add(con((1 << (w - 1)) - 1), e, -1), b) and (not above or A.prove(add(e, con(1 << (w - 1))), b)),
                        "c04:narrow:%s" % f.name, "%s: an integer is narrowed to %d bits and used at a place not shown to be reached only when it fits" % (i.loc(), w))
    parsed(P, m)
    return P

def sources(f, o):
    out, st = set(), [o]
    while st:
        o = st.pop()
        if o[0] != "v" or o[1] in out or o[1] not in f.defs: continue
        out.add(o[1]); d = f.defs[o[1]]
        if d.op in ("phi", "select", "sext", "zext", "trunc", "freeze", "add", "sub"): st += list(d.ops)
    return out

ERANGE = 34
def parsed(P, m):
    """a numeral beyond what the native conversion can deliver is reported: along every path from the conversion on, either
    the error number is known not to be ERANGE, or the delivered number is not the converted one, or an error is stored"""
    n = 0
    for f in m.defined():
        for c in f.calls():
            if c.cname not in ("strtol", "strtoll", "strtoimax", "strtoq"): continue
            n += 1
            errs = [k for k, t in enumerate(f.ptypes) if t and t.replace(" ", "") in ("scm_bool*", "int*")]
            P.check(cleared(f, c), "c04:errno:%s" % f.name, "%s: errno is not cleared before the conversion" % c.loc())
            bad = lost(f, c, {f.args[k][0] for k in errs})
            P.check(not bad, "c04:parsed:%s" % f.name, "%s: a numeral out of the native range is delivered without an error" % (bad or c.loc()))
    P.count("native conversions of numerals", n)
    P.check(n > 0, "c04:parsed", "scm_string2number: no native conversion that reports overflow")

def iserrno(f, o):
    x = f.defs.get(o[1]) if o[0] == "v" else None
    return x is not None and x.op == "call" and x.cname == "__errno_location"

def cleared(f, c):
    """errno = 0 with no other call between it and the conversion"""
    b = c.blk; k = c.idx; seen = set()
    while True:
        for i in reversed(b.ins[:k]):
            if i.op == "store" and iserrno(f, i.ops[1]): return i.ops[0][:2] == ("i", 0)
            if i.op == "call" and i.cname != "__errno_location" and not (i.cname or "").startswith("llvm."): return False
        if len(b.preds) != 1 or b.id in seen: return False
        seen.add(b.id); b = f.blocks[b.preds[0]]; k = len(b.ins)

def lost(f, c, errs):
    work = [(c.blk.id, None, c.idx + 1, {}, frozenset(), None)]; n = 0
    while work:
        b, prev, k, env, facts, err = work.pop(); n += 1
        if n > 4000: raise Broken("c04: too many paths in %s" % f.name)
        blk = f.blocks[b]; env = dict(env)
        def res(o):
            for _ in range(20):
                if o[0] != "v": return o
                if o[1] in env: o = env[o[1]]; continue
                x = f.defs.get(o[1])
                if x is not None and x.op in ("zext", "sext", "freeze", "trunc"):
                    y = res(x.ops[0])
                    if y[0] == "i": return y
                    if x.op in ("freeze",): o = y; continue
                return o
            return o
        if prev is not None:
            new = {}
            for ph in blk.phis:
                for y, p in zip(ph.ops, ph.raw["in"]):
                    if p == prev: new[ph.id] = res(y)
            if any(f.dominates(b, p) for p in blk.preds) and f.dominates(b, prev): continue
            env.update(new)
        for i in blk.ins[k:]:
            if i.op == "store" and i.ops[1][0] == "v" and i.ops[1][1] in errs: err = res(i.ops[0])
            if i.op == "select":
                v = truth(f, i.ops[0], facts, res)
                if v is not None: env[i.id] = res(i.ops[1] if v else i.ops[2])
                else:
                    # either way
                    for val in (True, False):
                        fs = learn(f, i.ops[0], val, facts, res)
                        if fs is None: continue
                        e2 = dict(env); e2[i.id] = res(i.ops[1] if val else i.ops[2])
                        work.append((b, None, i.idx + 1, e2, fs, err))
                    break
        else:
            t = blk.term
            if t.op == "ret":
                v = res(t.ops[0]) if t.ops else None
                x = f.defs.get(v[1]) if v is not None and v[0] == "v" else None
                failed = err is not None and err[0] == "i" and err[1] != 0
                if v is not None and v[0] == "i" and errs and not failed: return t.loc()
                if v is None or v[0] != "i":
                    notrange = any(e in facts for e in (("errno", ERANGE, False),)) or any(z[0] == "errno" and z[2] and z[1] != ERANGE for z in facts)
                    if not notrange and not failed: return t.loc()
            elif t.op == "br" and len(t.raw["succ"]) == 2:
                for val in (True, False):
                    fs = learn(f, t.ops[0], val, facts, res)
                    if fs is not None: work.append((t.raw["succ"][0 if val else 1], b, 0, env, fs, err))
            else:
                for x in blk.succs: work.append((x, b, 0, env, facts, err))
    return None

def truth(f, o, facts, res):
    o = res(o)
    if o[0] == "i": return bool(o[1] & 1)
    for v in (True, False):
        if (o, v) in facts: return v
    return None
def learn(f, o, val, facts, res):
    """facts with the truth value o being val, or None when that cannot be"""
    o = res(o)
    if o[0] == "i": return facts if bool(o[1] & 1) == val else None
    if (o, not val) in facts: return None
    facts = facts | {(o, val)}
    x = f.defs.get(o[1])
    if x is None: return facts
    if x.op == "xor":
        y = [z for z in x.ops if z[0] != "i"]
        return learn(f, y[0], not val, facts, res) if len(y) == 1 else facts
    if x.op in ("and", "or") and (x.op == "and") == val:
        for y in x.ops:
            facts = learn(f, y, val, facts, res)
            if facts is None: return None
        return facts
    if x.op == "icmp" and x.get("pred") in ("eq", "ne"):
        eq = (x.get("pred") == "eq") == val
        a, b = x.ops
        if a[0] == "i": a, b = b, a
        a = res(a)
        if b[0] == "i":
            if a[0] == "i": return facts if (a[1] == b[1]) == eq else None
            y = f.defs.get(a[1])
            if y is not None and y.op == "load" and iserrno(f, y.ops[0]):
                facts = facts | {("errno", b[1], eq)}
            elif y is not None and y.op in ("zext", "sext") and b[1] == 0 or y is not None and y.ty == "i1" and b[1] == 0: return learn(f, y.ops[0] if y.op in ("zext", "sext") else a, not eq, facts, res)
    return facts

def storage(cfg):
    """the range the arithmetic is judged against is the one the storage layer can hold"""
    from rules import c07
    P = Part("C04 range", cfg)
    lo, hi, bits = limits(cfg); R = c07.Rep(cfg)
    mx, mn = R.num("w_int_max"), R.num("w_int_min")
    P.check(mx == hi and mn == lo, "c04:range", "SCM_INT_MAX/SCM_INT_MIN are %d/%d where integers of %d bits are stored" % (mx, mn, bits))
    if not R.init(): raise Broken("c04: a reclaimed cell is not known")
    v = R.sx("I", bits)
    rs = R.calls("w_mk_int", [v], R.freemem)
    P.check(bool(rs), "c04:kept", "scm_make_int: no integer object")
    for w, st in rs:
        P.check(R.val("w_get_int_value", [st.res(w)], st.res(st.mem)) == v, "c04:kept", "scm_make_int: the value read back from an integer object is not the one it was made of")
    P.count("bits of an integer object", bits)
    return P
