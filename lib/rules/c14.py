"""C14: results of evaluation are rejected where a single ordinary value is required."""
import typestate as T, envc, ival
from typestate import K, M, names
from core import Part
from ir import OBJ

EXCL = M("SYNTAX", "VPACKET", "HMACRO")
# functions whose result is "whatever an expression evaluated to"
SOURCES = {"scm_eval", "scm_call"}
# callee -> operands that make the value part of a data structure or a binding
SINKS = {"scm_make_cons": (0, 1), "scm_make_immutable_cons": (0, 1), "sal_cons_set_car": (1,), "sal_cons_set_cdr": (1,),
         "sal_set": (1,), "sal_symbol_set_vcell": (1,), "scm_extend_environment": (1,), "scm_add_environment": (1,),
         "scm_update_environment": (0,)}
# the copying translators of quasiquote: the object handed over replaces a part of the template
TRANSLATORS = {"scm_listran": (2,), "scm_vectran": (2,)}
TRUST = [
  ("repl_loop", "the interactive loop hands data just read to eval"),
  ("guard_body", "private procedure of srfi-34: the result is packed and unpacked by its own continuation"),
  ("guard_handler_body", "private procedure of srfi-34: the result is packed and unpacked by its own continuation"),
  ("scm_s_srfi9_define_record_type", "results of the record library's own procedures"),
  ("scm_s_match", "debugging aid for macro patterns; its result is only compared"),
  ("scm_p_call_with_values", "the pair of consumer and values is taken apart by the dispatcher, which checks a single value"),
  ("scm_p_force", "a promise hands on exactly what its expression evaluated to; it is checked where it is used"),
]

class Origin:
    def __init__(s, e): s.e = e; s.retmemo = {}; s.demands = {}
    def state_of(s, f, bid): return s.e.states[f.name]
    def avat(s, C, st, o): return s.e.val(C.f, st, o, C.base)
    def dirty(s, C, st, o, seen, depth=0):
        """sources o may come from, unrefined: set of (fn, ins) or ('param', fn, k)"""
        e = s.e; f = C.f
        if o[0] != "v": return set()
        if st is not None and e.val(f, st, o, C.base)[0] & EXCL == 0: return set()
        key = o[1]
        if (f.name, key) in seen: return set()
        seen = seen | {(f.name, key)}
        d = f.defs.get(key)
        if d is None:
            for k, a in enumerate(f.args):
                if a[0] == key: return {("param", f.name, k)}
            return set()
        if d.op == "phi":
            r = set()
            for x, p in zip(d.ops, d.raw["in"]):
                est = C.edge.get((p, d.blk.id))
                if est is None: continue
                r |= s.dirty(C, est, x, seen, depth)
            return r
        if d.op == "select":
            return s.dirty(C, None, d.ops[1], seen, depth) | s.dirty(C, None, d.ops[2], seen, depth)
        if d.op == "call":
            if d.cname in SOURCES: return {("src", f.name, d)}
            if d.cname is None: return set()
            if d.cname in e.funcs and not d.cname.startswith("sal_") and d.cname not in T.MAKERM:
                return s.rets(d.cname, d, f, depth)
        return set()
    def rets(s, fn, site, f, depth):
        """sources reaching the result of an internal function"""
        if fn in s.e.registered or depth > 6: return set()
        if fn in s.retmemo: return s.retmemo[fn]
        s.retmemo[fn] = set()
        g = s.e.states.get(fn)
        if g is None: return set()
        r = set()
        for bid, st in getattr(g, "rets", {}).items():
            t = g.f.blocks[bid].term
            if t.ops: 
                for x in s.dirty(g, st, t.ops[0], set(), depth + 1):
                    if x[0] == "src": r.add(x)
        s.retmemo[fn] = r
        return r

def first_class_only(C, src, v, sink):
    """binding forms shared with the syntax-binding constructs take the permitted kind as a parameter;
    is there a path from src to sink, with ordinary objects permitted, on which v is not restricted?"""
    f = C.f
    ks = [a[0] for k, a in enumerate(f.args) if k + 1 < len(f.dtypes) and "ScmObjType" in str(f.dtypes[k + 1])]
    if not ks: return True
    iv = PermIval(f, ks)
    alias = {v}; seen = set(); work = [src.blk.id]
    while work:
        b = work.pop()
        if b in seen: continue
        seen.add(b)
        if b == sink.blk.id and (b != src.blk.id or sink.idx > src.idx): return True
        for x in f.blocks[b].succs:
            if (b, x) not in iv.edges or x == src.blk.id: continue
            st = C.edge.get((b, x))
            if st is None: continue
            for ph in f.blocks[x].phis:
                if any(o[0] == "v" and o[1] in alias for o, p in zip(ph.ops, ph.raw["in"]) if p == b): alias.add(ph.id)
            m = EXCL
            for k in alias:
                if k in st: m &= st[k][0]
            if m: work.append(x)
    return False

class PermIval(ival.Ival):
    """the parameter holding the permitted kind is 0 (ScmFirstClassObj)"""
    def __init__(s, f, ks): s.ks = set(ks); super().__init__(f, lambda i: None)
    def val(s, env, o):
        if o[0] == "v" and o[1] in s.ks: return (0, 0)
        return super().val(env, o)

def through_phis(f, o, seen=None):
    """defining instructions of o, looking through phis and selects"""
    seen = set() if seen is None else seen
    d = f.defs.get(o[1]) if o[0] == "v" else None
    if d is None or d.id in seen: return []
    seen.add(d.id)
    if d.op == "phi": return [x for p in d.ops for x in through_phis(f, p, seen)]
    if d.op == "select": return [x for p in d.ops[1:] for x in through_phis(f, p, seen)]
    return [d]

def through_table(f, i):
    """call through a function pointer kept in a structure"""
    d = f.defs.get(i.callee[1]) if i.callee and i.callee[0] == "v" else None
    return d is not None and d.op == "load"

def later(e, C, i, v):
    """after the store, v is required to be ordinary before anything else happens to it"""
    f = C.f
    def addr(o, n=0):
        d = f.defs.get(o[1]) if o[0] == "v" else None
        if d is None or n > 6 or d.op not in ("getelementptr", "sext", "zext", "add", "trunc"): return o
        return (d.op,) + tuple(addr(x, n + 1) for x in d.ops)
    here = addr(i.ops[1])
    same = [(v[1], None)] + [(j.id, j.blk) for j in f.instrs() if j.op == "load" and addr(j.ops[0]) == here]
    seen = set(); work = [i.blk.id]
    while work:
        b = work.pop()
        if b in seen: continue
        seen.add(b)
        t = f.blocks[b].term
        if t.op == "ret": return False
        for x in f.blocks[b].ins:
            if x.op == "call" and x.cname is None and (x.blk is not i.blk or x.idx > i.idx): return False
        for x in f.blocks[b].succs:
            st = C.edge.get((b, x))
            if st is None: continue
            for ph in f.blocks[x].phis:
                if any(o in [("v", k) for k, _ in same] for o, p in zip(ph.ops, ph.raw["in"]) if p == b): same.append((ph.id, ph.blk))
            m = EXCL
            for k, blk in same:
                if k in st and (blk is None or blk.id in seen or blk.id == x): m &= st[k][0]
            if m == 0: continue
            if f.dominates(x, i.blk.id): return False     # next iteration
            work.append(x)
    return True

def run(cfg):
    global EXCL
    EXCL = M("SYNTAX", "VPACKET", "HMACRO") if cfg == "hygienic" else M("SYNTAX", "VPACKET")
    e = envc.engine(cfg); P = Part("values", cfg); O = Origin(e)
    pend = []
    # procedures called directly from C
    PROCS = {n for n in e.registered if n.startswith("scm_p_") and n in e.funcs}
    for fn in sorted(e.reached):
        if fn not in e.states: continue
        def cb(C, st, i):
            ops = []
            if i.op == "call":
                if i.cname in SINKS: ops = [i.ops[k] for k in SINKS[i.cname] if k < len(i.ops)]
                elif i.cname is None and through_table(C.f, i):
                    ops = [o for o in i.ops if e.isobj(C.f, o)]
                elif i.cname in PROCS: ops = [o for o in i.ops if e.isobj(C.f, o)]
                elif i.cname in TRANSLATORS: ops = [i.ops[k] for k in TRANSLATORS[i.cname] if k < len(i.ops)]
                elif i.cname in e.funcs and not e.funcs[i.cname].noreturn and not i.get("nr"):
                    pend.append((C, dict(st), i))
            elif i.op == "icmp" and ("g", "sal_k_false") in i.ops:
                # a value that decides a conditional
                ops = [o for o in i.ops if o[0] == "v"]
                if all(x[0] != "src" or x[2].cname != "scm_eval" for o in ops for x in O.dirty(C, st, o, set())): ops = []
            elif i.op == "store" and i.get("vty") == OBJ:
                a = e.memkey(C.f, i.ops[1])
                # spilled locals of the function itself are not data
                if a and a[0] == "al" and a[3] == 0 and not array(C.f, i.ops[1]): return
                # where evaluation and continuations leave their result
                if a and a[0] == "fld" and a[1] in ("ScmEvalState_", "scm_continuation_frame"): return
                if a and a[0] == "al":
                    P.count("places a value is kept")
                    v = i.ops[0]
                    d = O.dirty(C, st, v, set()) if v[0] == "v" else set()
                    for x in d:
                        if x[0] == "param": O.demands[(x[1], x[2])] = 1
                    if any(x[0] == "src" for x in d) and not later(e, C, i, v):
                        P.obl += 1
                        P.bad("%s:local" % C.f.name, "%s: in %s: the result of an evaluation is put into the argument buffer and can reach a call without having been required to be an ordinary value" % (i.loc(), C.f.name))
                    return
                ops = [i.ops[0]]
            for o in ops:
                if not e.isobj(C.f, o): continue
                P.count("places a value is kept")
                judge(P, e, O, C, st, i, o)
        e.walk(fn, cb)
    # values handed to internal functions that keep their parameter
    done = set(); work = sorted(O.demands)
    while work:
        fn, k = work.pop()
        if (fn, k) in done: continue
        done.add((fn, k))
        if fn in e.registered or fn in e.addr_taken: continue    # arguments are checked by the caller (dispatcher)
        for C, st, i in pend:
            if i.cname != fn or k >= len(i.ops): continue
            P.count("values passed on to be kept")
            n = len(O.demands)
            judge(P, e, O, C, st, i, i.ops[k])
            if len(O.demands) != n: work += [d for d in O.demands if d not in done]
    # the dispatcher takes the single value of call-with-values apart itself
    n = 0
    for fn in sorted(e.reached):
        f = e.funcs.get(fn)
        if f is None or fn not in e.states: continue
        ld = {i.id for i in f.instrs() if i.op == "load" and f.mod.gname(i.ops[0]) == "scm_values_applier"}
        if not any(i.op == "icmp" and any(o[0] == "v" and o[1] in ld for o in i.ops) for i in f.instrs()): continue
        n += 1
        def cb(C, st, i):
            if i.op == "call" and i.cname in ("scm_make_cons", "scm_make_immutable_cons"):
                o = i.ops[0]
                if o[0] == "v" and any(d.op == "call" and d.cname == "sal_cons_car" for d in through_phis(C.f, o)):
                    P.check(e.val(C.f, st, o, C.base)[0] & EXCL == 0, fn + ":single-value",
                        "%s: %s passes the single result of a producer on as an argument without having required it to be an ordinary value" % (i.loc(), fn))
        e.walk(fn, cb)
    if n == 0: P.notes.append("no dispatcher comparing with the values applier found")
    # an unbound variable never yields its marker
    for fn in ("scm_symbol_value",):
        if fn in e.retv:
            P.check(e.retv[fn][0] & K["UNBOUND"] == 0, fn + ":unbound", "%s can return the unbound marker as a value" % fn)
    # operands of procedures: what the dispatcher loads
    P.need("places a value is kept", 100)
    return P

def array(f, o):
    d = f.defs.get(o[1]) if o[0] == "v" else None
    return d is not None and d.op == "getelementptr" and len(d.ops) > 1

TRUST_SRC = [
  ("scm_s_do", "scm_eval", "the test of do: a keyword is accepted there as a true value (required by the repository's tests)"),
  ("scm_s_let_vector_start_plus_end", "scm_call", "the checked vector is put, quoted, into a form whose operands the evaluator checks"),
]

def judge(P, e, O, C, st, i, o):
    f = C.f
    av = e.val(f, st, o, C.base)
    if av[0] & EXCL == 0: P.obl += 1; P.ok += 1; return
    for x in O.dirty(C, st, o, set()):
        if x[0] == "param":
            O.demands[(x[1], x[2])] = 1; continue
        m = av[0] & EXCL
        if o[0] == "v" and x[2].fn is f and not first_class_only(C, x[2], x[2].id, i): continue
        why = next((w for fn, w in TRUST if fn == f.name), None) or next((w for fn, c, w in TRUST_SRC if fn == f.name and c == x[2].cname and (fn != "scm_s_do" or i.op == "icmp")), None)
        if why: P.trusts(why); continue
        P.bad("%s:%s" % (f.name, x[2].loc().split(":")[0] + ":" + (i.cname or "store")), "%s: in %s: the result of the evaluation at %s (%s) is kept (%s) without having been required not to be %s" % (
            i.loc(), f.name, x[2].loc(), x[1], i.cname or "stored", names(m)))
        P.obl += 1
        return
    P.obl += 1; P.ok += 1
