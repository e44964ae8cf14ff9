"""C16: no step in the computation of a requested byte count wraps around."""
import ir, memspec, bounds
from bounds import add, con
from core import Part

SIZES = {"malloc": (0,), "calloc": (0, 1), "realloc": (1,), "scm_malloc": (0,), "scm_calloc": (0, 1), "scm_realloc": (1,), "scm_malloc_aligned": (0,),
         "posix_memalign": (2,), "memalign": (1,), "aligned_alloc": (1,), "scm_lbuf_extend": (2,), "scm_lbuf_realloc": (1,), "scm_lbuf_alloc": (1,)}
# operands that count elements this run has already built in memory (at least 8 bytes each), so that no multiple of them
# by the size of a record can leave the 64-bit range
COUNTS = {"scm_vectran": "vector elements spliced in", "compile_rec": "ellipses of a vector pattern", "transcribe_reppat": "nesting levels of ellipses"}

def steps(f, i):
    """arithmetic in the computation of the byte count"""
    out = []; seen = set(); w = [i.ops[k] for k in SIZES[i.cname]]
    while w:
        o = w.pop()
        if o[0] != "v" or o[1] in seen: continue
        seen.add(o[1]); d = f.defs.get(o[1])
        if d is None: continue
        if d.op in ("add", "sub", "mul", "shl"): out.append(d); w += d.ops
        elif d.op in ("phi", "select", "zext", "sext", "trunc", "bitcast", "freeze"): w += d.ops
    return out

def divided(F, f, d):
    """a * b is only computed where a <= C / b was found: then a * b <= C"""
    def strip(o):
        while o[0] == "v" and f.defs.get(o[1]) is not None and f.defs[o[1]].op in ("zext", "sext", "freeze"): o = f.defs[o[1]].ops[0]
        return o
    above = set(F.chain(d.blk.id)) | {d.blk.id}
    for br in f.instrs():
        if br.op != "br" or len(br.succ) != 2 or br.ops[0][0] != "v": continue
        c = f.defs.get(br.ops[0][1])
        if c is None or c.op != "icmp": continue
        (x, y), p = c.ops, c.raw["pred"]
        if p in ("ult", "ule"): x, y, p = y, x, {"ult": "ugt", "ule": "uge"}[p]       # x > y or x >= y
        side = {"ugt": ((x, y), br.succ[1]), "uge": ((y, x), br.succ[0])}.get(p)      # where a <= q holds
        if side is None or br.succ[0] == br.succ[1]: continue
        (a, q), sb = side
        e = f.defs.get(q[1]) if q[0] == "v" else None
        if e is None or e.op != "udiv" or e.ops[0][0] != "i" or e.ops[0][1] == -1: continue
        if {strip(a), strip(e.ops[1])} == {strip(o) for o in d.ops} and sb in above and len(f.blocks[sb].preds) == 1: return True
    return False

def run(cfg):
    P = Part("sizes of native requests", cfg); m = ir.Module(cfg); S = memspec.Spec(m)
    for f in m.defined():
        sites = [i for i in f.calls() if i.cname in SIZES]
        if f.name.startswith("sal_") or not sites: continue
        P.count("requests", len(sites))
        todo = [(i, d) for i in sites for d in steps(f, i)]
        if not todo: continue
        F = bounds.Flow.__new__(bounds.Flow); F.spec = S; F.record = lambda x: False
        F.__init__(f, S)
        goals = []
        for i, d in todo:
            e = F.expr(d)
            if e is not None: goals += F.inrange(e, 64) + [e]
            else: goals += [F.lin(o) for o in d.ops]
        for a in memspec.accesses(F) + memspec.duties(F):
            if isinstance(a, memspec.Row): goals += [memspec.olin_row(F, r) for r in a.rows]; continue
            for r in memspec.roots(F, a.addr):
                E = S.end(F, r)
                if E is not None:
                    A = memspec.olin(F, a.addr)
                    goals += [add(A, F.lin(r), -1), memspec.olin_row(F, add(add(E, A, -1), a.width, -1))]
        F.infer(memspec.candidates(F, goals))
        done = set()
        for i, d in todo:
            if d.id in done: continue
            done.add(d.id); P.count("steps of a byte count")
            if d.blk.id not in F.reach: continue
            e = F.expr(d)
            if e is not None: rows = [F.inrange(e, 64)]
            else:
                a, b = F.lin(d.ops[0]), F.lin(d.ops[1])
                rows = [[x, add(con(S.K), x, -1), y, add(con(1 << 60), y, -1)] for x, y in ((a, b), (b, a))]
            ok = e is None and divided(F, f, d) or any(all(F.prove(r, d.blk.id) for r in R) for R in rows)
            if not ok and f.name in COUNTS: P.count("steps resting on a count of built elements"); P.trusts("a byte count in %s is a multiple of a count of elements in memory (%s)" % (f.name, COUNTS[f.name])); continue
            P.check(ok, "%s:size" % f.name, "%s: in %s: the byte count requested from %s may wrap around" % (d.loc(), f.name, i.cname))
            P.sample("%s: %s in %s does not wrap" % (d.loc(), d.op, f.name))
    P.need("requests", 20); P.need("steps of a byte count", 20)
    return P
