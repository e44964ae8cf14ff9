"""C10: escapes run exactly the pending dynamic-wind exits; no jump to an ended extent.

Order-of-events automata over every path of the functions that implement dynamic extents and continuations."""
import ir, loops, walk
from walk import Cx, INTO, strip
from ir import OBJ
from core import Part, Broken, Missing, need_fn
RUN = {"scm_call", "scm_eval", "scm_apply", "scm_tailcall"}
EXT, STK = "l_current_dynamic_extent", "l_continuation_stack"
NULL, FALSE = ("g", "sal_k_null"), ("g", "sal_k_false")
SETJ = {"__sigsetjmp", "_setjmp", "setjmp", "sigsetjmp"}
LONGJ = {"siglongjmp", "longjmp", "_longjmp"}

class W:
    """what the implementation looks like: which functions touch the state"""
    def __init__(s, m):
        s.m = m; s.rel = set()
        for f in m.defined():
            for i in f.instrs():
                if i.op == "store" and i.get("vty") == OBJ and m.gname(i.ops[1]) in (EXT, STK): s.rel.add(f.name)
                if i.op == "call" and (i.cname in SETJ or i.cname in LONGJ or i.cname == "sal_continuation_set_opaque"): s.rel.add(f.name)
        if not s.rel: raise Broken("no dynamic extents found")
        s.files = {m.fns[n].file for n in s.rel}
        # a call worth following: it leads, within the implementation, to such an effect or to a call of a procedure
        s.may = set(s.rel)
        ch = True
        while ch:
            ch = False
            for f in m.defined():
                if f.name in s.may or f.file not in s.files: continue
                if any(i.cname in s.may or i.cname in RUN for i in f.calls()): s.may.add(f.name); ch = True
    def into(s, n): return n in s.may

def pushpop(w, cx, i):
    """classify a store to one of the lists: ('push', var, element term) / ('pop', var, load id) / ('other', ...)"""
    if i.op != "store" or i.get("vty") != OBJ: return None
    g = w.m.gname(i.ops[1])
    if g not in (EXT, STK): return None
    t = cx.term(i.ops[0])
    if t[0] == "cons" and t[2][0] == "ld" and t[2][1] == g: return ("push", g, t[1], t[2])
    if t[0] == "cdr" and t[1][0] == "ld" and t[1][1] == g: return ("pop", g, ("car", t[1]), t[1])
    return ("other", g, t, None)

def run(cfg):
    P = Part("c10", cfg)
    m = ir.Module(cfg); w = W(m)
    reg = {d[1]: d[2] for d in m.funcdescs()}
    shape = wind(P, w, reg)
    exits(P, w, shape)
    enter(P, w, shape)
    fr = callcc(P, w)
    escape(P, w, fr)
    unwind(P, w)
    confined(P, w)
    return P

def bad_other(P, cx, i, e, key):
    P.check(False, key, "%s %s: %s is set to something that is neither an extension nor the rest of it" % (cx.f.name, i.loc(), e[1]))

# ---- dynamic-wind
def wind(P, w, reg):
    m = w.m
    n = reg.get("dynamic-wind")
    if not n: raise Broken("dynamic-wind is not registered")
    f = need_fn(m, n)
    par = [("p", f.name, a[0]) for a in f.args]
    if len(par) < 3: raise Broken("dynamic-wind has %d parameters" % len(par))
    before, thunk, after = par[:3]
    key = "dynamic-wind"
    NAMES = {0: "before the before thunk", 1: "after the before thunk", 2: "with the extent entered", 3: "after the thunk", 4: "with the extent left", 5: "after the after thunk"}
    shape = {}; done = []
    def step(cx, i, q):
        e = pushpop(w, cx, i)
        if e:
            if e[1] == STK: return None
            if e[0] == "push":
                b = a = None
                for p, sel in flat(e[2]):
                    if p == before: b = sel
                    if p == after: a = sel
                P.check(q[0] == 1, key + ":push", "%s %s: the extent is entered %s" % (cx.f.name, i.loc(), NAMES[q[0]]))
                if not P.check(b is not None and a is not None, key + ":frame", "%s %s: the recorded extent does not hold the two thunks" % (cx.f.name, i.loc())): return [(2,) + q[1:]]
                shape["before"], shape["after"] = b, a
                P.check(fresh_load(m, e[3], i), key + ":push", "%s %s: extends an outdated list of extents" % (cx.f.name, i.loc()))
                return [(2,) + q[1:]]
            if e[0] == "pop":
                P.check(q[0] == 3, key + ":pop", "%s %s: the extent is left %s" % (cx.f.name, i.loc(), NAMES[q[0]]))
                P.check(fresh_load(m, e[3], i), key + ":pop", "%s %s: the extent left is not the innermost one at that time" % (cx.f.name, i.loc()))
                return [(4,) + q[1:]]
            bad_other(P, cx, i, e, key + ":state"); return [q]
        if i.op == "call" and i.cname in RUN:
            t = cx.term(i.ops[0])
            want = {0: (before, 1), 2: (thunk, 3), 4: (after, 5)}.get(q[0])
            if not P.check(want is not None and t == want[0], key + ":order", "%s %s: %s is called %s" % (cx.f.name, i.loc(), {before: "the before thunk", thunk: "the thunk", after: "the after thunk"}.get(t, "something"), NAMES[q[0]])):
                nx = {before: 1, thunk: 3, after: 5}.get(t, q[0]); return [(nx,) + q[1:]]
            P.check(no_args(cx, i), key + ":args", "%s %s: a thunk is called with arguments" % (cx.f.name, i.loc()))
            return [(want[1], i.id if q[0] == 2 else q[1])]
        if i.op == "call" and w.into(i.cname): return INTO
        return None
    res = walk.run(m, f, {a[0]: p for a, p in zip(f.args, par)}, (0, None), step)
    for q, ret in res:
        P.check(q[0] == 5, key + ":complete", "dynamic-wind can return %s" % NAMES[q[0]])
        P.check(ret is not None and ret[0] == "call" and ret[1] in RUN and ret[3] == q[1], key + ":value", "dynamic-wind does not return the value of the thunk")
    P.count("dynamic-wind ways to return", len(res)); P.need("dynamic-wind ways to return")
    if not shape and not P.viol: raise Broken("dynamic-wind never enters an extent")
    return shape

def flat(t, sel=()):
    """leaves of a cons term with the selectors leading to them"""
    if t[0] == "cons": return flat(t[1], sel + ("car",)) + flat(t[2], sel + ("cdr",))
    return [(t, sel)]
def pick(t, sel):
    for x in sel: t = (x, t)
    return t
def no_args(cx, i):
    return i.cname != "scm_call" or cx.term(i.ops[1]) == NULL

def fresh_load(m, ld, i):
    """no procedure runs between the load and its use i (both in one function)"""
    if ld[2] != i.fn.name: return True           # carried through a parameter: order is the caller's
    d = i.fn.defs[ld[3]]
    if d.blk.id == i.blk.id: seg = d.blk.ins[d.idx + 1:i.idx]
    else:
        # all blocks between
        f = i.fn; fw = reach(f, d.blk.succs, i.blk.id); seg = d.blk.ins[d.idx + 1:] + i.blk.ins[:i.idx]
        for b in fw - {i.blk.id}: seg = seg + f.blocks[b].ins
    return not any(x.op == "call" and (x.cname is None or x.cname in RUN or x.cname in ("scm_call_continuation",)) for x in seg)

def reach(f, starts, stop):
    seen = set(); st = list(starts)
    while st:
        b = st.pop()
        if b in seen: continue
        seen.add(b)
        if b != stop: st += f.blocks[b].succs
    return seen

# ---- leaving extents
def exits(P, w, shape):
    m = w.m
    # functions that leave extents repeatedly
    cands = []
    for f in m.defined():
        if f.name not in w.rel: continue
        for i in f.instrs():
            if i.op == "store" and i.get("vty") == OBJ and m.gname(i.ops[1]) == EXT and any(i.blk.id in L.body for L in loops.loops(f)): cands.append(f.name)
    heads = [f for f in m.defined() if f.file in w.files and any(i.cname in cands for i in f.calls()) or f.name in cands]
    # analyse from the function that is handed the destination: one OBJ parameter, contains or leads to the loop
    f = None
    for g in m.defined():
        if g.name in cands and len(g.args) == 1: f = g
    if f is None:
        loopers = [g for g in m.defined() if g.file in w.files and len(g.args) == 1 and g.args[0][1] == OBJ and loops.loops(g) and leaves(w, g)]
        if not loopers: raise Missing("exit_dynamic_extent")
        f = loopers[0]
    w.exit = f.name
    dest = ("p", f.name, f.args[0][0]); key = "exit"
    # state: (phase, frame term, loads of the list still current, facts)
    def step(cx, i, q):
        ph, fr, cur, facts = q
        if i.op == "load" and m.gname(i.ops[0]) == EXT: return [(ph, fr, cur | {(cx.f.name, i.id)}, frozenset(x for x in facts if x[0] in cur))]
        e = pushpop(w, cx, i)
        if e and e[1] == EXT:
            if e[0] != "pop":
                P.check(False, key + ":state", "%s %s: the list of extents is changed otherwise than by leaving the innermost" % (cx.f.name, i.loc())); return [q]
            known = {x[1] for x in facts}
            P.check((e[3][2], e[3][3]) in cur, key + ":stale", "%s %s: leaves an extent that need not be the innermost any more" % (cx.f.name, i.loc()))
            P.check("notdest" in known, key + ":toofar", "%s %s: leaves an extent without having checked that it is not the destination" % (cx.f.name, i.loc()))
            P.check(ph == 0, key + ":skip", "%s %s: leaves a second extent before the after thunk of the first was run" % (cx.f.name, i.loc()))
            return [(1, e[2], frozenset(), frozenset())]
        if i.op == "call" and i.cname in RUN:
            t = cx.term(i.ops[0]); want = pick(fr, shape.get("after", ())) if fr else None
            P.check(ph == 1 and t == want, key + ":thunk", "%s %s: calls something else than the after thunk of the extent just left" % (cx.f.name, i.loc()))
            P.check(no_args(cx, i), key + ":args", "%s %s: the after thunk is called with arguments" % (cx.f.name, i.loc()))
            P.count("after thunk calls")
            return [(0, None, frozenset(), frozenset())]
        if i.op == "call" and w.into(i.cname): return INTO
        return None
    def branch(cx, x, truth, q):
        c = walk.cmp(cx, x)
        if c is None: return q
        eq = c[0] == truth
        for a, b in ((c[1], c[2]), (c[2], c[1])):
            if a[0] == "ld" and a[1] == EXT:
                k = (a[2], a[3])
                if k not in q[2]: continue
                if b == dest: return q[:3] + (q[3] | {(k, "dest" if eq else "notdest")},)
                if b == NULL: return q[:3] + (q[3] | {(k, "null" if eq else "notnull")},)
        return q
    res = walk.run(m, f, {f.args[0][0]: dest}, (0, None, frozenset(), frozenset()), step, branch)
    for q, ret in res:
        P.check(q[0] == 0, key + ":last", "%s: can end with an extent left whose after thunk was not run" % f.name)
        P.check(any(x[1] in ("dest", "null") for x in q[3]), key + ":until", "%s: can end before the destination is reached" % f.name)
    P.need("after thunk calls")

def leaves(w, g, seen=None):
    m = w.m; seen = seen or set()
    if g.name in seen: return False
    seen.add(g.name)
    for i in g.instrs():
        if i.op == "store" and i.get("vty") == OBJ and m.gname(i.ops[1]) == EXT: return True
    return any(i.cname in w.may and i.cname in m.fns and not m.fns[i.cname].decl and leaves(w, m.fns[i.cname], seen) for i in g.calls())

# ---- entering extents: only before thunks, outermost first
def enter(P, w, shape):
    m = w.m; key = "enter"
    # reached from the jump's landing: found in callcc(); here: the thunks called there
    for f in m.defined():
        if f.file not in w.files or f.name == getattr(w, "exit", None): continue
        if not any(i.cname in SETJ for i in f.calls()): continue
        for i in f.calls():
            g = m.fns.get(i.cname)
            if g is None or g.decl or g.file not in w.files or g.name in (w.exit,): continue
            for j in g.calls():
                if j.cname in RUN:
                    cx = Cx(m, g, {})
                    t = cx.term(j.ops[0]); sel = []
                    while t[0] in ("car", "cdr") : sel.append(t[0]); t = t[1]
                    sel = tuple(reversed(sel))
                    P.count("before thunk calls")
                    k = len(shape.get("before", ()))
                    P.check(bool(k) and sel[-k:] == tuple(shape.get("before")), key + ":thunk", "%s %s: on entering an extent something else than its before thunk is called" % (g.name, j.loc()))
                    P.check(no_args(cx, j), key + ":args", "%s %s: the before thunk is called with arguments" % (g.name, j.loc()))
            if is_enter(w, g.name): walk_in(P, w, g, shape, key)

def sources(f, o, seen=None):
    """what a list variable is initialised or extended with"""
    seen = set() if seen is None else seen
    if o in seen: return set()
    seen.add(o)
    d = f.defs.get(o[1]) if o[0] == "v" else None
    if d is not None and d.op in ("phi", "select"):
        r = set()
        for y in (d.ops if d.op == "phi" else d.ops[1:]): r |= sources(f, y, seen)
        return r
    if d is not None and d.op == "call" and d.cname == "sal_cons_cdr": return sources(f, d.ops[0], seen)
    if d is not None and d.op == "call" and d.cname in ("scm_make_cons", "scm_make_immutable_cons"): return {("cons", d.id)} | sources(f, d.ops[1], seen)
    if o[0] == "u": return set()
    return {o}

def walk_in(P, w, g, shape, key):
    """only extents between the current one and the destination are entered"""
    m = w.m; dest = ("p", g.name, g.args[0][0])
    taken = 0
    for i in g.calls():
        if i.cname != "sal_cons_car": continue
        if any(u.op == "call" and u.cname == "sal_cons_car" and u.ops[0] == ("v", i.id) for u, k in g.uses().get(i.id, ())) or True:
            src = sources(g, i.ops[0])
            if ("v", g.args[0][0]) in src:
                taken += 1
                lv = i.ops[0]
                def isg(o):
                    return o[0] == "v" and (lambda d: d is not None and d.op == "load" and m.gname(d.ops[0]) == EXT)(g.defs.get(o[1]))
                ok = dict(cur=False, null=False)
                for what in ok:
                    # every way to this use passes the edge on which the list differs from the current extents / is not empty
                    def step(cx, x, q):
                        if x is i: hit.append(q); return []
                        return None
                    def branch(cx, x, truth, q):
                        if x.get("pred") not in ("eq", "ne") or lv not in x.ops: return q
                        o = [y for y in x.ops if y != lv]
                        ne = (x.get("pred") == "eq") != truth
                        if o and ne and (isg(o[0]) if what == "cur" else o[0] == NULL): return True
                        return q
                    hit = []
                    walk.run(m, g, {g.args[0][0]: dest}, False, step, branch)
                    ok[what] = bool(hit) and all(hit)
                P.check(ok["cur"], key + ":toofar", "%s %s: takes up an extent without having checked that it is not already entered" % (g.name, i.loc()))
    P.check(taken > 0, key + ":path", "%s: the extents of the destination are not looked at" % g.name)

# ---- creating a continuation
def callcc(P, w):
    m = w.m; key = "call/cc"
    fs = [f for f in m.defined() if any(i.cname in SETJ for i in f.calls())]
    fr = {}
    for f in fs:
        cont = [i for i in f.calls() if i.cname == "scm_make_continuation"]
        P.count("functions saving a context")
        par = {a[0]: ("p", f.name, a[0]) for a in f.args}
        proc = par[f.args[0][0]]
        es = [par[a[0]] for a in f.args if a[1] == "ptr"]
        # state: (saved extent offset, object<->frame, pushed, jumped, env, called, unwound, entered, as_is)
        asis_at_call = []
        Q0 = (None, None, None, None, None, None, False, False, False)
        def step(cx, i, q, f=f):
            sv, op, pu, jm, ev, ca, un, en, ai = q
            if i.op == "store" and i.get("vty") == OBJ:
                a = cx.term(i.ops[1]); v = cx.term(i.ops[0]); base, o = split(a)
                if base[0] == "alloca" and v[0] == "ld" and v[1] == EXT and fresh_load(m, v, i): return [((base, o), op, pu, jm, ev, ca, un, en, ai)]
                e = pushpop(w, cx, i)
                if e and e[1] == STK:
                    if e[0] == "push": return [(sv, op, e[2], jm, ev, ca, un, en, ai)]
                    if e[0] == "pop": return None
                    bad_other(P, cx, i, e, key + ":stack"); return None
                if e:
                    P.check(False, key + ":extent", "%s %s: changes the list of extents while a continuation is made" % (cx.f.name, i.loc())); return None
            if i.op == "store" and es:
                base, o = split(cx.term(i.ops[1]))
                if base in es and o == 8: return [(sv, op, pu, jm, ev, ca, un, en, cx.term(i.ops[0]) == ("i", 0))]
            if i.op != "call": return None
            c = i.cname
            if c == "sal_continuation_set_opaque":
                o, t = cx.term(i.ops[0]), cx.term(i.ops[1])
                if t[0] == "alloca": return [(sv, (o, t), pu, jm, ev, ca, un, en, ai)]
                if t == ("n",) and ca is not None and op and strip(o) == strip(op[0]): return [(sv, op, pu, jm, ev, ca, True, en, ai)]
                return None
            if c in SETJ:
                base, o = split(cx.term(i.ops[0])); fr["env"] = o
                P.check(cx.f is f, key + ":setjmp", "%s %s: the context is saved in a function that returns before the continuation is used" % (cx.f.name, i.loc()))
                return [(sv, op, pu, i.id, base, ca, un, en, ai)]
            if c in RUN:
                if jm is not None and jm != "no":
                    P.check(False, key + ":landing", "%s %s: a procedure is called although control arrived by an escape" % (cx.f.name, i.loc())); return None
                ok = sv is not None and op is not None and pu is not None and jm == "no"
                P.check(sv is not None, key + ":saved", "%s %s: the procedure is called before the current extents are recorded" % (cx.f.name, i.loc()))
                P.check(op is not None and (sv is None or op[1] == sv[0]), key + ":frame", "%s %s: the procedure is called before the continuation refers to its frame" % (cx.f.name, i.loc()))
                P.check(pu is not None and op is not None and pu == op[0], key + ":registered", "%s %s: the procedure is called before the continuation is registered as active" % (cx.f.name, i.loc()))
                P.check(jm == "no" and op is not None and ev == op[1], key + ":context", "%s %s: the procedure is called before the context is saved in the continuation's frame" % (cx.f.name, i.loc()))
                P.check(cx.term(i.ops[0]) == proc, key + ":proc", "%s %s: calls something else than the given procedure" % (cx.f.name, i.loc()))
                a = cx.term(i.ops[1])
                P.check(op is not None and a == ("cons", op[0], NULL), key + ":arg", "%s %s: the procedure does not receive the continuation" % (cx.f.name, i.loc()))
                P.count("calls with a continuation"); asis_at_call.append(ai)
                return [(sv, op, pu, jm, ev, i.id, un, en, ai)]
            g = m.fns.get(c)
            if g is not None and not g.decl and g.file in w.files:
                if is_unwind(w, c):
                    t = cx.term(i.ops[0])
                    return [(sv, op, pu, jm, ev, ca, un or (ca is not None and op is not None and t == op[0]), en, ai)]
                if is_enter(w, c):
                    t = cx.term(i.ops[0])
                    return [(sv, op, pu, jm, ev, ca, un, en or (sv is not None and t[0] == "mem" and split(t[1]) == sv), ai)]
                if w.into(c): return INTO
            return None
        def branch(cx, x, truth, q):
            c = walk.cmp(cx, x)
            if c is None: return q
            for a, b in ((c[1], c[2]), (c[2], c[1])):
                if a[0] == "call" and a[1] in SETJ and b == ("i", 0):
                    return q[:3] + ("no" if c[0] == truth else "yes",) + q[4:]
            return q
        res = walk.run(m, f, par, Q0, step, branch)
        for q, ret in res:
            sv, op, pu, jm, ev, ca, un, en, ai = q
            if jm == "no":
                P.check(un, key + ":expire", "%s: can return with its continuation still marked as active" % f.name)
                P.check(ret is not None and ret[0] == "call" and ret[3] == ca, key + ":value", "%s: does not return what the procedure returned" % f.name)
            elif jm == "yes":
                P.check(en, key + ":reenter", "%s: after an escape the extents of the continuation are not re-entered" % f.name)
                rb = split(ret[1]) if ret and ret[0] == "mem" else (None, None)
                P.check(op is not None and rb[0] == op[1] and sv is not None and rb[1] != sv[1], key + ":delivered", "%s: after an escape something else than the passed value is returned" % f.name)
                fr["ret"] = rb[1]
            else: P.check(False, key + ":returns", "%s: can return without having saved the context" % f.name)
            # (the state outlives the jump: what was set before the call still holds at the landing)
            if es: P.check(ai or jm == "yes" and bool(asis_at_call) and all(asis_at_call), key + ":asis", "%s: the result is handed back to be evaluated once more" % f.name)
            if sv: fr["ext"] = sv[1]
    P.check(P.counts.get("functions saving a context", 0) > 0, key + ":none", "no function saves a context for a continuation")
    if not P.viol: P.need("calls with a continuation")
    return fr

def split(t):
    return (t[1], t[2]) if t[0] == "off" else (t, 0)

def is_unwind(w, n):
    f = w.m.fns.get(n)
    return f is not None and not f.decl and len(f.args) == 1 and f.args[0][1] == OBJ and any(i.cname == "sal_continuation_set_opaque" and i.ops[1] == ("n",) for i in closure_calls(w, f)) and bool(loops.loops(f))
def closure_calls(w, f, seen=None):
    seen = seen if seen is not None else set()
    if f.name in seen: return
    seen.add(f.name)
    for i in f.calls():
        yield i
        g = w.m.fns.get(i.cname)
        if g is not None and not g.decl and g.file in w.files: yield from closure_calls(w, g, seen)
def is_enter(w, n):
    f = w.m.fns.get(n)
    return n != w.exit and f is not None and not f.decl and len(f.args) == 1 and f.args[0][1] == OBJ and any(i.cname in RUN for i in closure_calls(w, f)) and not any(i.cname in LONGJ for i in closure_calls(w, f)) and not is_unwind(w, n)

# ---- calling a continuation
def escape(P, w, fr):
    m = w.m; key = "escape"
    fs = [f for f in m.defined() if any(i.cname in LONGJ for i in f.calls())]
    roots = set()
    for f in fs:
        # the function that decides: has the continuation as parameter
        g = f
        while not any(a[1] == OBJ for a in g.args) or not any(i.cname == "sal_continuation_opaque" for i in g.calls()):
            cs = [h for h in m.defined() if any(i.cname == g.name for i in h.calls())]
            if len(cs) != 1: break
            g = cs[0]
        roots.add(g.name)
    for n in roots:
        f = m.fns[n]; par = {a[0]: ("p", f.name, a[0]) for a in f.args}
        objs = [par[a[0]] for a in f.args if a[1] == OBJ]
        # (frame, valid, unwound id, active, left, stored)
        def step(cx, i, q):
            va, un, ac, le, stq = q
            if i.op == "store" and i.get("vty") == OBJ:
                base, o = split(cx.term(i.ops[1]))
                if base[0] == "call" and base[1] == "sal_continuation_opaque":
                    if o == fr.get("ret") and cx.term(i.ops[0]) in objs[1:]: return [(va, un, ac, le, True)]
                    return None
                e = pushpop(w, cx, i)
                if e: P.check(False, key + ":state", "%s %s: changes the list of extents or continuations by itself" % (cx.f.name, i.loc()))
                return None
            if i.op != "call": return None
            if i.cname in LONGJ:
                base, o = split(cx.term(i.ops[0]))
                P.count("native jumps")
                P.check(base[0] == "call" and base[1] == "sal_continuation_opaque", key + ":frame", "%s %s: jumps to something else than the continuation's frame" % (cx.f.name, i.loc()))
                P.check(o == fr.get("env"), key + ":env", "%s %s: jumps to something else than the saved context" % (cx.f.name, i.loc()))
                P.check(va, key + ":valid", "%s %s: jumps without having checked that the continuation's frame still exists" % (cx.f.name, i.loc()))
                P.check(ac, key + ":active", "%s %s: jumps without having established that the continuation is still active" % (cx.f.name, i.loc()))
                P.check(le, key + ":after", "%s %s: jumps before the extents in between were left" % (cx.f.name, i.loc()))
                P.check(stq, key + ":value", "%s %s: jumps before the value was handed over" % (cx.f.name, i.loc()))
                v = cx.term(i.ops[1]) if len(i.ops) > 1 else None
                P.check(v is not None and v[0] == "i" and v[1] != 0, key + ":code", "%s %s: the jump does not announce itself" % (cx.f.name, i.loc()))
                return []
            c = i.cname
            if is_unwind(w, c):
                return [(va, i.id, ac, le, stq)] if cx.term(i.ops[0]) in objs[:1] else None
            if c == w.exit:
                t = cx.term(i.ops[0])
                b, o = split(t[1]) if t[0] == "mem" else (None, None)
                ok = b is not None and b[0] == "call" and b[1] == "sal_continuation_opaque" and o == fr.get("ext")
                P.check(ok, key + ":dest", "%s %s: extents are left down to something else than those of the continuation" % (cx.f.name, i.loc()))
                P.check(va, key + ":valid", "%s %s: reads the continuation's frame without having checked that it still exists" % (cx.f.name, i.loc()))
                return [(va, un, ac, True, stq)]
            if c in RUN: P.check(False, key + ":calls", "%s %s: runs a procedure on the way out" % (cx.f.name, i.loc())); return None
            g = m.fns.get(c)
            if g is not None and not g.decl and g.file in w.files and (w.into(c)): return INTO
            return None
        def branch(cx, x, truth, q):
            va, un, ac, le, stq = q
            c = walk.cmp(cx, x)
            if c is None: return q
            eq = c[0] == truth
            for a, b in ((c[1], c[2]), (c[2], c[1])):
                if a[0] == "call" and a[1] == "sal_continuation_opaque" and b == ("n",) and not eq: return (True, un, ac, le, stq)
                if a[0] == "call" and un is not None and a[3] == un and b == FALSE and not eq: return (va, un, True, le, stq)
                if a[0] == "call" and a[1] == "sal_continuationp" and b == ("i", 0) and not eq:
                    d = m.fns[a[2]].defs[a[3]]
                    t = Cx(m, m.fns[a[2]], cx.bind if cx.f.name == a[2] else {}).term(d.ops[0])
                    if t[0] == "call" and un is not None and t[3] == un: return (va, un, True, le, stq)
            return q
        res = walk.run(m, f, par, (False, None, False, False, False), step, branch)
        P.check(not res, key + ":returns", "%s: calling a continuation can return" % f.name)
    P.check(P.counts.get("native jumps", 0) > 0 or not roots, key + ":none", "calling a continuation never jumps")
    P.check(bool(fs), key + ":none", "no function jumps to a saved context")
    for f in fs:
        for b in f.blocks:
            if b.term.op == "unreachable": P.check(len(b.ins) > 1 and b.ins[-2].op == "call" and bool(b.ins[-2].get("nr") or b.ins[-2].cname in m.fns and m.fns[b.ins[-2].cname].noreturn), key + ":falls", "%s: a path neither jumps nor signals an error" % f.name)

# ---- expiring continuations
def unwind(P, w):
    m = w.m; key = "expire"
    fs = [f for f in m.defined() if is_unwind(w, f.name)]
    if not fs and not P.viol: raise Missing("continuation_stack_unwind")
    for f in fs:
        dest = ("p", f.name, f.args[0][0])
        P.count("functions expiring continuations")
        # (popped element or None, invalidated?, known: 'dest'/'notdest'/None)
        def step(cx, i, q):
            e = pushpop(w, cx, i)
            if e and e[1] == STK:
                if e[0] != "pop": P.check(False, key + ":state", "%s %s: does more than removing continuations" % (cx.f.name, i.loc())); return None
                P.check(q[0] is None or q[1], key + ":skip", "%s %s: a continuation is removed from the active ones but stays valid" % (cx.f.name, i.loc()))
                P.check(q[2] != "dest", key + ":toofar", "%s %s: goes on past the destination" % (cx.f.name, i.loc()))
                return [(e[2], False, None)]
            if i.op == "call" and i.cname == "sal_continuation_set_opaque":
                if cx.term(i.ops[1]) == ("n",) and q[0] is not None and cx.term(i.ops[0]) in (q[0],): return [(q[0], True, q[2])]
                P.check(False, key + ":other", "%s %s: invalidates something else than the continuation just removed" % (cx.f.name, i.loc())); return None
            if i.op == "call" and w.into(i.cname): return INTO
            return None
        def branch(cx, x, truth, q):
            c = walk.cmp(cx, x)
            if c is None: return q
            eq = c[0] == truth
            for a, b in ((c[1], c[2]), (c[2], c[1])):
                if a == dest and q[0] is not None and b == q[0]: return (q[0], q[1], "dest" if eq else "notdest")
                if b == FALSE and a == FALSE: return q if eq else None
                if b == FALSE and q[0] is not None and a == q[0]: return None if eq else q    # a removed continuation is not #f
                if a[0] == "ld" and a[1] == STK and b == NULL and eq: return (q[0], q[1], q[2] or "empty") if q[0] is None or q[2] != "dest" else q
            return q
        res = walk.run(m, f, {f.args[0][0]: dest}, (None, True, None), step, branch)
        for q, ret in res:
            P.check(q[0] is None or q[1], key + ":last", "%s: can end with a removed continuation still valid" % f.name)
            if ret != FALSE: P.check(q[2] == "dest", key + ":until", "%s: reports success before the destination was found" % f.name)
            P.count("ways to end")
        P.need("ways to end")

# ---- nobody else
def confined(P, w):
    m = w.m
    for f in m.defined():
        for i in f.instrs():
            if i.op == "store" and i.get("vty") == OBJ and m.gname(i.ops[1]) in (EXT, STK):
                P.count("updates of the lists of extents and continuations")
                e = pushpop(w, Cx(m, f, {}), i)
                P.check(e[0] != "other" or e[2][0] == "p", f.name + ":state", "%s %s: %s is set to something that is neither an extension nor the rest of it" % (f.name, i.loc(), e[1]))
                P.check(f.file in w.files and (f.local or True), f.name + ":outside", "%s %s: changes %s" % (f.name, i.loc(), e[1]))
            if i.op == "call" and i.cname == "sal_continuation_set_opaque":
                t = Cx(m, f, {}).term(i.ops[1])
                if t == ("n",): continue
                P.count("frames given to continuations")
                ok = t[0] == "alloca" and any(j.cname in SETJ and split(Cx(m, f, {}).term(j.ops[0]))[0] == t for j in f.calls())
                P.check(ok, f.name + ":frame", "%s %s: a continuation is given a frame that no saved context belongs to" % (f.name, i.loc()))
    P.need("updates of the lists of extents and continuations", 4); P.need("frames given to continuations")
