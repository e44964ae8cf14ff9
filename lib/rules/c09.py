"""C09: tail calls do not consume native stack: tail sub-expressions are handed back, not evaluated in place."""
import ir, loops, walk
from walk import INTO
from ir import OBJ
from core import Part, Broken, Missing, need_fn
from rules.c06 import sources, values
NESTED = {"scm_eval", "scm_call", "scm_apply"}
FALSE = ("g", "sal_k_false")
# the constructs whose tail sub-form is in tail position (R5RS 3.5 and the extensions documented alike)
TAIL = ["apply", "call-with-values", "if", "cond", "case", "and", "or", "let", "let*", "letrec", "begin", "do",
        "and-let*", "receive", "let-optionals*"]
# documented not to be tail-recursive (doc/spec.txt; comments at the definitions)
EXEMPT = {"scm_call_with_current_continuation": "the native frame is the continuation (documented limitation)",
          "scm_s_srfi34_guard": "the body of guard is not in tail position",
          "guard_handler": "a handler is not called in tail position"}
NEED, ASIS = 1, 0
OPTIONAL = {"and-let*": "srfi-2", "receive": "srfi-8", "let-optionals*": "sscm-ext"}

def state_param(m, f):
    """the parameter through which a tail expression is handed back"""
    for k, a in enumerate(f.args):
        if a[1] == "ptr" and touches(m, f, a[0]): return k
    return None

def touches(m, f, vid, seen=None):
    """is the pointer used as an evaluation state?"""
    seen = seen if seen is not None else set()
    if (f.name, vid) in seen: return False
    seen.add((f.name, vid))
    st = [vid]; done = set()
    while st:
        v = st.pop()
        if v in done: continue
        done.add(v)
        for u, k in f.uses().get(v, ()):
            if u.op in ("load", "store") and (u.get("tbaa") or [""])[0] == "ScmEvalState_": return True
            if u.op in ("getelementptr", "bitcast", "phi"):
                if u.op == "getelementptr" and "ScmEvalState" in str(u.get("sty")): return True
                st.append(u.id)
            if u.op == "call" and u.cname in m.fns and k >= 0 and not m.fns[u.cname].decl and k < len(m.fns[u.cname].args):
                if touches(m, m.fns[u.cname], m.fns[u.cname].args[k][0], seen): return True
    return False

class T9:
    def __init__(s, m):
        s.m = m; s.T = {}
        tail = {d[2] for d in m.funcdescs() if d[3] & 0x40}
        red = {d[2] for d in m.funcdescs() if d[3] & 0x80}
        for f in m.defined():
            if f.ret != OBJ and not f.noreturn: continue
            if f.name in red: continue
            k = state_param(m, f)
            if k is None and f.name in tail and f.args and f.args[-1][1] == "ptr": k = len(f.args) - 1
            if k is not None: s.T[f.name] = k
        # functions that just return what a nested evaluation gave
        s.EVF = set(NESTED)
        ch = True
        while ch:
            ch = False
            for f in m.defined():
                if f.name in s.EVF or f.name in s.T or f.ret != OBJ: continue
                if any(d.cname in s.EVF for d in s.rets(f) if d is not None and d.op == "call"): s.EVF.add(f.name); ch = True
    def rets(s, f):
        for r in f.instrs():
            if r.op == "ret" and r.ops:
                for v, b in sources(f, r.ops[0], r.blk.id):
                    if v[0] == "v": yield f.defs.get(v[1])

def inspected(f, o, blk, target, seen=None):
    """on every way by which the call's result reaches here, it was compared with #f (so it is not the value of the tail form alone)"""
    seen = set() if seen is None else seen
    if o[0] != "v" or (o, blk) in seen: return True
    seen.add((o, blk))
    if any(u.op == "icmp" and FALSE in u.ops and f.dominates(u.blk.id, blk) for u, k in f.uses().get(o[1], ())): return True
    if o == ("v", target): return False
    d = f.defs.get(o[1])
    if d is None: return True
    if d.op == "phi": return all(inspected(f, y, b, target, seen) for y, b in zip(d.ops, d.get("in")))
    if d.op == "select": return all(inspected(f, y, blk, target, seen) for y in d.ops[1:])
    return True

def finishing(m, T, f, d):
    """d evaluates what a call with its own evaluation state left over (the caller wants a value)"""
    for v in values(f, d.ops[0]):
        x = f.defs.get(v[1]) if v[0] == "v" else None
        if x is not None and x.op == "call" and (x.cname in T): return x
    return None

def run(cfg):
    P = Part("c09", cfg)
    m = ir.Module(cfg); t = T9(m)
    reg = {}
    for tab, nm, fn, tc in m.funcdescs(): reg.setdefault(nm, (fn, tc))
    # 1. registered so that they receive the evaluation state
    for nm in TAIL:
        if nm not in reg:
            if nm in OPTIONAL: continue
            raise Broken("%s is not registered" % nm)
        fn, tc = reg[nm]
        P.count("tail constructs")
        P.check(bool(tc & 0x40), nm + ":convention", "%s (%s): registered without the tail-recursive calling convention" % (nm, fn))
    P.need("tail constructs", 10)
    names = {}
    for nm, (fn, tc) in reg.items(): names.setdefault(fn, nm)
    # 2. no tail-aware function returns what a nested evaluation gave
    for n, k in sorted(t.T.items()):
        f = m.fns[n]
        P.count("functions handing back tail expressions")
        for r in f.instrs():
            if r.op != "ret" or not r.ops: continue
            for v, b in sources(f, r.ops[0], r.blk.id):
                d = f.defs.get(v[1]) if v[0] == "v" else None
                if d is None or d.op != "call": continue
                P.count("returned results of calls")
                if d.cname in t.T:
                    # handed on with the same state
                    g = m.fns[d.cname]; own = ("v", f.args[k][0])
                    P.check(d.ops[t.T[d.cname]] == own or n in EXEMPT or macro_use(m, t, f, d), n + ":state",
                            "%s %s: the tail expression %s hands back is evaluated with another state than the caller's" % (names.get(n, n), d.loc(), d.cname)); continue
                if d.cname in t.EVF:
                    if n in EXEMPT: P.trusts(EXEMPT[n]); continue
                    if inspected(f, r.ops[0], r.blk.id, d.id): P.check(True, "", ""); continue
                    x = finishing(m, t.T, f, d)
                    if x is not None and macro_use(m, t, f, x): P.trusts("the expansion of a macro use is computed in place, then evaluated as the tail expression"); continue
                    P.check(False, n + ":nested", "%s %s: returns the result of a nested %s: the native stack grows with every tail call" % (names.get(n, n), d.loc(), d.cname))
    P.need("functions handing back tail expressions", 12)
    # 3. the tail constructs do hand back expressions
    for nm in TAIL:
        if nm not in reg or reg[nm][0] not in m.fns: continue
        f = m.fns[reg[nm][0]]
        if f.name not in t.T: 
            if reg[nm][1] & 0x40: P.check(builds(m, f) or hands_back(m, t, f, set()), nm + ":hands", "%s: never hands back an expression" % nm)
            continue
        P.check(hands_back(m, t, f, set()), nm + ":hands", "%s: never hands back an expression to be evaluated by the caller" % nm)
    # 4. what is handed back is evaluated by the evaluator's loop
    evaluator(P, m, t)
    closures(P, m, t)
    once(P, m, t, names)
    return P

def macro_use(m, t, f, x):
    """the use of a macro written as a closure: called on unevaluated operands, the state set to evaluate afterwards"""
    g = m.fns.get(x.cname)
    if g is None or g.decl or not x.ops: return False
    return any(i.cname and "syntactic" in i.cname.lower() or i.cname in ("scm_p_eq",) for i in f.calls()) or any((i.op == "load" and m.gname(i.ops[0]) == "scm_syntactic_closure_env") for i in f.instrs()) and x.ops[-1] == ("i", ASIS, 32) or x.ops[-1][:2] == ("i", ASIS)

def builds(m, f):
    for r in f.instrs():
        if r.op == "ret" and r.ops:
            for v, b in sources(f, r.ops[0], r.blk.id):
                d = f.defs.get(v[1]) if v[0] == "v" else None
                if d is not None and d.op == "call" and d.cname in ("scm_make_cons", "sal_cons_car"): return True
    return False

def hands_back(m, t, f, seen):
    """can f return something that is still to be evaluated?"""
    if f.name in seen: return False
    seen.add(f.name)
    if f.name not in t.T: return builds(m, f)
    own = ("p", f.name, f.args[t.T[f.name]][0]); out = []
    def step(cx, i, q):
        if i.op == "store":
            a = cx.term(i.ops[1])
            if a[0] == "off" and a[1] == own and a[2] == 8:
                v = cx.term(i.ops[0])
                return ["asis" if v == ("i", ASIS) else "need"]
        if i.op == "call" and any(cx.term(o) == own for o in i.ops): return ["any"]
        return None
    walk.run(m, f, {a[0]: ("p", f.name, a[0]) for a in f.args}, "need", step, None, ends=lambda cx, r, q, ret: out.append((q, r)))
    for q, r in set(out):
        if q == "asis" or not r.ops: continue
        for v, b in sources(f, r.ops[0], r.blk.id):
            if v[0] == "g": continue
            d = f.defs.get(v[1]) if v[0] == "v" else None
            if d is None: return True                              # an operand as it is
            if d.op == "load": return True
            if d.op != "call": continue
            if d.cname is None: return True
            if d.cname in t.T:
                if hands_back(m, t, m.fns[d.cname], seen): return True
            elif d.cname in ("sal_cons_car", "sal_cons_cdr", "scm_make_cons"):
                if q == "need": return True
            elif d.cname in t.EVF: continue
            elif q == "need" and d.cname in m.fns and not m.fns[d.cname].decl: return True
    return False

def evaluator(P, m, t):
    f = need_fn(m, "scm_eval")
    own = [i for i in f.instrs() if i.op == "alloca" and "ScmEvalState" in str(i.get("aty"))]
    calls = [i for i in f.calls() if i.cname in t.T]
    P.check(bool(calls), "scm_eval:call", "scm_eval: never performs a call")
    P.check(not any(i.cname in NESTED for i in f.calls()), "scm_eval:recursion", "scm_eval: evaluates by calling itself")
    for c in calls:
        L = [l for l in loops.loops(f) if c.blk.id in l.body]
        ok = False
        for l in L:
            for ph in f.blocks[l.head].phis:
                if any(v == ("v", c.id) for v in closure_vals(f, ("v", ph.id), l)): ok = True
        P.check(ok, "scm_eval:loop", "scm_eval %s: a handed-back expression is not evaluated by going round the loop" % c.loc())
        # what came back is the result only when it is not to be evaluated
        res = set(); own = []
        def step(cx, i, q):
            if i is c: own.append(cx.term(("v", c.id))); return ["called"]
            return None
        def branch(cx, x, truth, q):
            if not q.startswith("called"): return q
            cm = walk.cmp(cx, x)
            if cm is None: return q
            for a, b in ((cm[1], cm[2]), (cm[2], cm[1])):
                if b[0] == "i" and b[1] in (ASIS, NEED) and is_rettype(cx, a):
                    need = (cm[0] == truth) == (b[1] == NEED)
                    return "called:need" if need else "called:asis"
            return q
        walk.run(m, f, {}, "start", step, branch, ends=lambda cx, r, q, ret: res.add((q, ret)))
        P.check(not any(q in ("called", "called:need") and ret in own for q, ret in res), "scm_eval:need", "scm_eval: can return what a call handed back without evaluating it")
        P.check(any(q == "called:asis" for q, ret in res), "scm_eval:asis", "scm_eval: evaluates once more the value a call returned")
        P.count("evaluator calls")
    P.need("evaluator calls")

def closure_vals(f, o, l, seen=None):
    seen = set() if seen is None else seen
    if o in seen: return
    seen.add(o); yield o
    d = f.defs.get(o[1]) if o[0] == "v" else None
    if d is not None and d.op in ("phi", "select"):
        for y in (d.ops if d.op == "phi" else d.ops[1:]): yield from closure_vals(f, y, l, seen)

def is_rettype(cx, a):
    if a[0] != "mem": return False
    b = a[1]
    return b[0] == "off" and b[2] == 8

def closures(P, m, t):
    """calling a closure: its body's last expression is handed back with the extended environment"""
    n = 0
    for nm, k in t.T.items():
        f = m.fns[nm]
        if not any(i.cname == "sal_closure_exp" for i in f.calls()): continue
        if not any(i.cname == "scm_extend_environment" for i in f.calls()): continue
        n += 1
        own = ("v", f.args[k][0])
        hits = []
        for d in t.rets(f):
            if d is not None and d.op == "call" and d.cname in t.T: hits.append(d)
        P.check(bool(hits), nm + ":body", "%s: the body of a closure is not handed back to the evaluator" % nm)
    P.count("closure calls", n); P.need("closure calls")

def once(P, m, t, names):
    """a value computed by a nested evaluation is handed back as it is, an expression to be evaluated"""
    for n, k in sorted(t.T.items()):
        f = m.fns[n]
        if n in ("call",) or n in EXEMPT or f.decl: continue
        own = ("p", f.name, f.args[k][0])
        objs = {("p", f.name, a[0]) for a in f.args if a[1] == OBJ}
        def rooted(x):
            while x[0] in ("car", "cdr"): x = x[1]
            return x
        def step(cx, i, q):
            if i.op == "store":
                a = cx.term(i.ops[1])
                if a[0] == "off" and a[1] == own and a[2] == 8:
                    v = cx.term(i.ops[0])
                    return ["asis" if v == ("i", ASIS) else "need" if v == ("i", NEED) else "any"]
            if i.op == "call" and any(cx.term(o) == own for o in i.ops): return ["any"]
            return None
        out = []
        try: walk.run(m, f, {a[0]: ("p", f.name, a[0]) for a in f.args}, "given", step, None, ends=lambda cx, r, q, ret: out.append((q, ret, r)))
        except RuntimeError: P.count("too large"); continue
        for q, ret, r in out:
            if ret is None: continue
            P.count("ways to return")
            if ret[0] == "call" and ret[1] in NESTED:
                P.check(q in ("asis", "any"), n + ":twice", "%s: a value already computed is handed back to be evaluated once more" % names.get(n, n))
            elif rooted(ret) in objs and q == "asis" and names.get(n) in TAIL:
                P.check(False, n + ":never", "%s: an unevaluated operand is handed back as if it were a value" % names.get(n, n))
