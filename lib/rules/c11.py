"""C11: signalling an error never returns to the failing operation; handler and guard bookkeeping around errors."""
import ir, walk
from walk import Cx, INTO, strip
from ir import OBJ
from core import Part, Broken, Missing, need_fn
from rules.c12 import reach_back
NULL = ("g", "sal_k_null")
# library functions that do not return; a path that cannot be taken
ENDS = {"exit", "_exit", "abort", "siglongjmp", "longjmp", "_longjmp", "__longjmp_chk", "verif_unreachable"}
# entry points every error goes through (by the name under which programs or the interpreter's own code call them)
ENTRIES = ["scm_error", "scm_error_obj", "scm_error_with_implicit_func", "scm_plain_error", "scm_die", "scm_raise_error", "scm_fatal_error", "scm_call_continuation"]
SCHEME = ["error", "exit", "%%fatal-error"]
HND = "l_current_exception_handlers"
WIND = "scm_dynamic_wind"
RUN = {"scm_call", "scm_eval", "scm_apply", "scm_tailcall", "scm_s_body", "scm_s_cond_internal"}

def ways_back(f, N):
    """instructions at which f can give control back to its caller (return, or the end of a function that promised not to)"""
    out = []; st = [0]; seen = {0}
    while st:
        b = f.blocks[st.pop()]; dead = False; last = None
        for i in b.ins:
            if i.op == "call" and i.cname and (i.cname in ENDS or i.cname in N): dead = True; break
            if i.op == "ret" or i.op == "unreachable": out.append(i)
        if dead: continue
        for s in b.succs:
            if s not in seen: seen.add(s); st.append(s)
    return out

def never(m):
    """functions that never return.  A return would be a finite run; by induction on its length the functions
    called on the way did not return either, so it is enough that each has no way back under that assumption."""
    N = {f.name for f in m.defined()}; ch = True
    while ch:
        ch = False
        for n in sorted(N):
            if ways_back(m.fns[n], N): N.discard(n); ch = True
    return N

def run(cfg):
    P = Part("c11", cfg)
    m = ir.Module(cfg)
    by = {d[1]: d[2] for d in m.funcdescs()}
    N = never(m)
    # ---- A. what promises not to return does not
    want = {f.name for f in m.defined() if f.noreturn}
    want |= {n for n in ENTRIES if n in m.fns and not m.fns[n].decl}
    for s in SCHEME:
        if s not in by: raise Broken("no procedure %s" % s)
        want.add(by[s])
    for n in sorted(want):
        if n in ENDS: continue
        f = m.fns[n]; P.count("error entry points")
        w = ways_back(f, N)
        P.check(not w, n + ":returns", "%s: %s gives control back to the operation that signalled the error" % (w[0].loc() if w else "", n))
        P.sample("%s never returns" % n)
    P.need("error entry points", 12)
    S = Srfi34(P, m, by, N)
    S.all()
    raising(P, m, by, N)
    flags(P, m, N)
    fatal(P, m, N)
    restored(P, m, by)
    dangling(P, m)
    return P

def setter_vars(m):
    """global variable -> C function whose function object it holds / symbol name it holds"""
    fn, sym, seen = {}, {}, {}
    for f in m.defined():
        for i in f.instrs():
            if i.op != "store" or i.get("vty") != OBJ: continue
            g = m.gname(i.ops[1])
            if not g: continue
            seen[g] = seen.get(g, 0) + 1
            d = f.defs.get(i.ops[0][1]) if i.ops[0][0] == "v" else None
            if d is None or d.op != "call": continue
            if d.cname == "scm_make_func" and d.ops[1][0] == "f": fn[g] = d.ops[1][1]
            if d.cname == "scm_intern":
                c = m.cstr(d.ops[0])
                if c: sym[g] = c
    return {g: v for g, v in fn.items() if seen[g] == 1}, {g: v for g, v in sym.items() if seen[g] == 1}

def lst(t):
    """cons term -> list of element terms (None if not a proper list term)"""
    out = []
    while isinstance(t, tuple) and t[0] == "cons": out.append(t[1]); t = t[2]
    return out if t == NULL else None

class Srfi34:
    def __init__(s, P, m, by, N):
        s.P = P; s.m = m; s.by = by; s.N = N
        s.fnvar, s.symvar = setter_vars(m)
        if "raise" not in by or "with-exception-handler" not in by: raise Broken("no exception handling procedures found")
        s.file = need_fn(m, by["raise"]).file
        s.setters = set()
        for f in m.defined():
            for i in f.instrs():
                if i.op == "store" and i.get("vty") == OBJ and m.gname(i.ops[1]) == HND: s.setters.add(f.name)
        s.setters = {n for n in s.setters if not n.startswith("scm_initialize")}

    def walkin(s, f):
        """every installation of handlers from f: (what is installed, thunk run, what is put back, (cx, ins)), with lambda expressions resolved"""
        lam = {}; out = []
        m = s.m
        def res(t, d=0):
            if isinstance(t, tuple) and t[:2] == ("call", "scm_s_lambda"): return lam.get(t, t)
            return t
        def step(cx, i, q):
            if i.op != "call": return None
            if i.cname == "scm_s_lambda":
                k = ("call", "scm_s_lambda", cx.f.name, i.id)
                v = ("lambda", cx.term(i.ops[0]), cx.term(i.ops[1]))
                lam[k] = v if lam.get(k, v) == v else ("unclear",)
                return None
            if i.cname == WIND:
                out.append((res(cx.term(i.ops[0])), res(cx.term(i.ops[1])), res(cx.term(i.ops[2])), cx, i, q))
                return ["wound"]
            g = m.fns.get(i.cname)
            if g is not None and not g.decl and g.file == s.file: return INTO
            return None
        ends = walk.run(m, f, {}, "start", step)
        return out, ends, res

    def installs(s, t):
        """(lambda () (set-handlers X)) -> X"""
        if not isinstance(t, tuple) or t[0] != "lambda" or t[1] != NULL: return None
        body = lst(t[2])
        if not body or len(body) != 1: return None
        c = lst(body[0])
        if not c or len(c) != 2 or c[0][0] != "ld" or s.fnvar.get(c[0][1]) not in s.setters: return None
        return c[1]

    def all(s):
        P, m, by = s.P, s.m, s.by
        # whoever changes the handlers does so with what it was given
        for n in sorted(s.setters):
            f = m.fns[n]
            for i in f.instrs():
                if i.op == "store" and m.gname(i.ops[1]) == HND:
                    P.count("places that change the handlers")
                    P.check(f.args and i.ops[0] == ("v", f.args[0][0]) and all_paths_through(f, i), n + ":set", "%s: %s: the current handlers become something else than what was to be installed" % (i.loc(), n))
        P.check(bool(s.setters), "handlers:set", "nothing sets the current handlers: what with-exception-handler installs has no effect")
        for n in ("with-exception-handler", "raise"):
            f = need_fn(m, by[n])
            ws, ends, res = s.walkin(f)
            P.check(bool(ws), f.name + ":install", "%s: never installs the handlers for what it runs" % f.name)
            P.check(not any(q == "start" for q, r in ends), f.name + ":bypass", "%s: can return without having run the %s under the right handlers" % (f.name, "handler" if n == "raise" else "thunk"))
            for b, t, a, cx, i, q in ws:
                P.count("handler installations")
                x, y = s.installs(b), s.installs(a)
                P.check(x is not None, f.name + ":before", "%s: in %s: what runs before does not install the handlers" % (i.loc(), f.name))
                P.check(y is not None and y[0] == "ld" and y[1] == HND, f.name + ":after", "%s: in %s: what runs after does not put the previous handlers back" % (i.loc(), f.name))
                if x is None: continue
                if n == "raise": s.raised(f, x, t, i)
                else:
                    h, th = (("p", f.name, a_[0]) for a_ in f.args[:2])
                    P.check(x[0] == "cons" and x[1] == h and x[2][0] == "ld" and x[2][1] == HND, f.name + ":nearest", "%s: in %s: the new handler is not put in front of the current ones" % (i.loc(), f.name))
                    P.check(t == th, f.name + ":thunk", "%s: in %s: something else than the thunk is run" % (i.loc(), f.name))
        P.need("handler installations", 2)
        # guard's own continuations: neither the clauses nor the body give control back to where the condition was raised
        g = [v for v in s.fnvar.values() if v in m.fns and m.fns[v].file == s.file and any(i.cname in ("scm_s_body", "scm_s_cond_internal") for i in m.fns[v].calls())]
        for n in sorted(g):
            P.count("parts of guard that leave by a continuation")
            P.check(n in s.N, n + ":leaves", "%s: can return instead of leaving by its continuation" % n)
        P.check(len(g) >= 2, "guard:parts", "guard: the clauses or the body are not evaluated")
        s.reraise(g)

    def raised(s, f, x, t, i):
        P = s.P
        cur = ("ld", HND)
        P.check(strip(x) == ("cdr", cur), f.name + ":rest", "%s: in %s: a handler does not run with the handlers outside it (an error inside it would come back to itself)" % (i.loc(), f.name))
        ok = isinstance(t, tuple) and t[0] == "lambda" and t[1] == NULL
        body = lst(t[2]) if ok else None
        if not P.check(bool(body), f.name + ":thunk", "%s: in %s: cannot tell what is run for the condition" % (i.loc(), f.name)): return
        call = lst(body[0])
        arg = ("p", f.name, f.args[0][0])
        good = call and len(call) == 2 and strip(call[0]) == ("car", cur)
        P.check(good, f.name + ":handler", "%s: in %s: the innermost current handler is not what is called" % (i.loc(), f.name))
        q = lst(call[1]) if call and len(call) == 2 else None
        P.check(bool(q) and len(q) == 2 and q[1] == arg and s.quotes(q[0]), f.name + ":condition", "%s: in %s: the handler does not get the condition that was raised" % (i.loc(), f.name))
        last = lst(body[-1])
        P.check(len(body) > 1 and bool(last) and s.ends_(last[0]), f.name + ":handler-returned", "%s: in %s: when the handler returns, control comes back to where the condition was raised" % (i.loc(), f.name))

    def quotes(s, t):
        return t[0] == "ld" and (s.symvar.get(t[1]) == "quote" or s.fnvar.get(t[1]) and s.fnvar[t[1]] == "raw_quote") or t[0] == "ld" and t[1] == "scm_sym_quote"
    def ends_(s, t):
        if t[0] != "ld": return False
        n = s.symvar.get(t[1])
        if n is not None: return s.by.get(n) in s.N
        return s.fnvar.get(t[1]) in s.N

    def reraise(s, parts):
        """a condition no clause takes is raised again"""
        P, m = s.P, s.m
        n = 0
        for name in parts:
            f = m.fns[name]
            got = []
            def step(cx, i, q):
                if i.op != "call": return None
                if i.cname == "scm_s_lambda":
                    k = ("call", "scm_s_lambda", cx.f.name, i.id)
                    return [(tuple(e for e in q[0] if e[0] != k) + ((k, ("lambda", cx.term(i.ops[0]), cx.term(i.ops[1]))),), q[1], q[2])]
                if i.cname == "scm_s_cond_internal": return [(q[0], True, q[2])]
                if i.cname == "scm_call_continuation":
                    got.append((cx, i, cx.term(i.ops[1]), q)); return []
                g = m.fns.get(i.cname)
                if g is not None and not g.decl and g.file == s.file and g.name != f.name: return INTO
                return None
            def branch(cx, x, truth, q):
                c = walk.cmp(cx, x)
                if c is None: return q
                eq = c[0] == truth
                for a, b in ((c[1], c[2]), (c[2], c[1])):
                    if a[:2] == ("call", "scm_s_cond_internal") and b == ("g", "sal_k_invalid"): return (q[0], q[1], "none" if eq else "some")
                return q
            walk.run(m, f, {}, ((), False, None), step, branch)
            for cx, i, t, q in got:
                n += 1
                if not q[1]: continue
                if q[2] != "none": continue
                P.count("conditions no clause takes")
                v = dict(q[0]).get(t)
                body = lst(v[2]) if v and v[1] == NULL else None
                c = lst(body[0]) if body and len(body) == 1 else None
                good = c and len(c) == 2 and c[0][0] == "ld" and s.symvar.get(c[0][1]) in ("raise", "raise-continuable")
                P.check(bool(good), name + ":reraise", "%s: in %s: a condition no clause takes is not raised again" % (i.loc(), name))
        P.check(P.counts.get("conditions no clause takes", 0) > 0, "guard:reraise", "guard: no path raises a condition again that no clause takes")

def all_paths_through(f, ins):
    """every return of f is preceded by ins"""
    st = [0]; seen = {0}
    while st:
        b = f.blocks[st.pop()]
        if ins in b.ins: continue
        if b.term.op == "ret": return False
        for s in b.succs:
            if s not in seen: seen.add(s); st.append(s)
    return True

def raising(P, m, by, N):
    """an error object goes to the handlers, or ends the interpreter, unchanged"""
    f = need_fn(m, "scm_raise_error")
    obj = ("p", f.name, f.args[0][0])
    to = {by["raise"], by["%%fatal-error"]}
    seen = []
    def step(cx, i, q):
        if i.op == "call" and i.cname in to:
            seen.append((cx, i, cx.term(i.ops[0]))); return [q | {i.cname}]
        return None
    walk.run(m, f, {}, frozenset(), step)
    for cx, i, t in seen:
        P.count("error objects handed on")
        P.check(t == obj, f.name + ":object", "%s: in %s: something else than the error object is passed on" % (i.loc(), f.name))
    P.check(any(i.cname == by["raise"] for _, i, _ in seen), f.name + ":handlers", "%s: errors are never passed to the handlers" % f.name)
    P.need("error objects handed on", 2)

def gstores(m, f, g):
    return [i for i in f.instrs() if i.op == "store" and m.gname(i.ops[1]) == g]

def flags(P, m, N):
    """the flags that stop an error inside error handling from looping"""
    raisers = reach_back(m, ["scm_raise_error"])
    found = 0; flagged = set()
    for f in m.defined():
        if f.name not in N: continue
        gs = {m.gname(i.ops[1]) for i in f.instrs() if i.op == "store" and i.ops[0] == ("i", 1, 32)} - {None}
        gs = {g for g in gs if any(i.op == "load" and m.gname(i.ops[0]) == g for i in f.instrs())}
        for g in sorted(gs):
            found += 1; flagged.add(f.name)
            key = "%s:%s" % (f.name, g)
            around = reach_without(m, f.name)
            def step(cx, i, q):
                if cx.f is f and i.op == "store" and m.gname(i.ops[1]) == g:
                    v = cx.term(i.ops[0]); return [("t" if v[1] else "f") if v[0] == "i" else "?"]
                if cx.f is f and i.op == "call" and i.cname and i.cname in raisers:
                    dead = i.cname in N
                    P.count("calls inside error preparation")
                    if dead and i.cname in around:
                        P.check(q in ("f", "start"), key + ":left-set", "%s: in %s: control goes to a handler with %s still set: the next error would be taken for an error inside this one" % (i.loc(), f.name, g))
                    else:
                        P.check(q == "t", key + ":unguarded", "%s: in %s: an error inside %s would come back here again and again (%s not set)" % (i.loc(), f.name, i.cname, g))
                return None
            def branch(cx, x, truth, q):
                c = walk.cmp(cx, x)
                if c is None: return q
                for a, b in ((c[1], c[2]), (c[2], c[1])):
                    if a[0] == "ld" and a[1] == g and b == ("i", 0) and q == "start":
                        return "start" if (c[0] == truth) else "again"
                return q
            # second entry: with the flag set nothing that can raise is called
            def step2(cx, i, q):
                r = None
                if cx.f is f and q == "again":
                    if i.op == "call" and i.cname in raisers: P.check(False, key + ":again", "%s: in %s: with %s set, %s can raise the next error" % (i.loc(), f.name, g, i.cname))
                    return None
                return step(cx, i, q)
            tested = []
            def br2(cx, x, truth, q):
                r = branch(cx, x, truth, q)
                if r == "again": tested.append(1)
                return r
            walk.run(m, f, {}, "start", step2, br2)
            P.check(bool(tested), key + ":test", "%s: %s is set but not looked at when the function is entered again" % (f.name, g))
    P.count("flags against looping errors", found)
    # what prepares or reports an error by itself needs such a flag
    for f in m.defined():
        if f.name not in N: continue
        does = [i for i in f.calls() if i.cname == "scm_vformat" or i.cname == "scm_p_inspect_error"]
        if not does: continue
        P.count("functions preparing or reporting errors")
        P.check(f.name in flagged, f.name + ":flag", "%s: in %s: an error inside %s would come back here again and again" % (does[0].loc(), f.name, does[0].cname))
    P.need("functions preparing or reporting errors")

def reach_without(m, x):
    """functions from which raise is reachable without going through x"""
    cs = {}
    for f in m.defined():
        if f.name == x: continue
        for i in f.calls():
            if i.cname: cs.setdefault(i.cname, set()).add(f.name)
    out = set(); st = ["scm_p_srfi34_raise"] if "scm_p_srfi34_raise" in m.fns else ["scm_raise_error"]
    while st:
        n = st.pop()
        if n in out or n == x: continue
        out.add(n); st += list(cs.get(n, ()))
    return out

def fatal(P, m, N):
    """the last resort cannot itself signal an error"""
    f = need_fn(m, "scm_fatal_error")
    raisers = reach_back(m, ["scm_raise_error"])
    todo = [f]; seen = set()
    while todo:
        g = todo.pop()
        if g.name in seen: continue
        seen.add(g.name)
        for i in g.calls():
            if i.cname is None:
                P.count("callbacks of the fatal error"); continue
            P.check(i.cname not in raisers, "scm_fatal_error:raises", "%s: in %s: the fatal-error exit can itself signal an error through %s" % (i.loc(), g.name, i.cname))
            h = m.fns.get(i.cname)
            if h is not None and not h.decl: todo.append(h)
    P.count("functions of the fatal-error exit", len(seen))
    # the callback, when there is one, is told
    cb = [i for i in f.calls() if i.cname is None]
    if P.check(bool(cb), "scm_fatal_error:callback", "scm_fatal_error: the callback is never called"):
        var = Cx(m, f, {}).term(cb[0].callee)
        def step(cx, i, q):
            if i in cb: return ["told"]
            if i.op == "call" and i.cname in ENDS:
                P.check(q != "open", "scm_fatal_error:callback", "%s: the interpreter ends without the fatal-error callback having been called" % i.loc()); return []
            return None
        def branch(cx, x, truth, q):
            c = walk.cmp(cx, x)
            if c and q == "open" and strip(c[1]) == strip(var) and c[2] == ("n",): return "none" if c[0] == truth else q
            return q
        walk.run(m, f, {}, "open", step, branch)
    # the error is reported before the interpreter ends
    g = need_fn(m, "scm_p_fatal_error"); obj = ("p", g.name, g.args[0][0])
    flag = [m.gname(i.ops[1]) for i in g.instrs() if i.op == "store" and i.ops[0] == ("i", 1, 32)]
    def step(cx, i, q):
        if i.op == "call" and i.cname == "scm_p_inspect_error" and cx.term(i.ops[0]) == obj: return ["told"]
        if i.op == "call" and i.cname == "scm_fatal_error":
            P.count("ways to the fatal-error exit")
            P.check(q != "open", g.name + ":report", "%s: the interpreter ends without reporting the error" % i.loc()); return []
        return None
    def branch(cx, x, truth, q):
        c = walk.cmp(cx, x)
        if c and c[1][0] == "ld" and c[1][1] in flag and c[2] == ("i", 0) and c[0] != truth: return "again"
        return q
    walk.run(m, g, {}, "open", step, branch)
    P.need("ways to the fatal-error exit")

# ---- state that an operation changes for its own duration
# variable -> (functions whose purpose is to change it for good)
KEPT = {
 "scm_current_char_codec": {"scm_p_set_current_char_codecx", "scm_encoding_init", "scm_interpret_argv", "scm_initialize", "scm_initialize_internal", "main"},
}
CONST = {"l_finalizing": ("i", 0)}

def boundary(m):
    """functions others can call: exported ones and those whose address is taken"""
    taken = set()
    def scan(o):
        if not isinstance(o, (tuple, list)) or not o: return
        if o[0] == "f" and len(o) > 1 and isinstance(o[1], str): taken.add(o[1]); return
        for y in o:
            if isinstance(y, (tuple, list)): scan(y)
    for f in m.defined():
        for i in f.instrs():
            for o in i.ops: scan(o)
    for g in m.globals.values(): scan(g.get("init"))
    return {f.name for f in m.defined() if not f.local or f.name in taken}

def restored(P, m, by):
    bnd = boundary(m)
    for g, ok in sorted(KEPT.items()):
        writers = {f.name for f in m.defined() if gstores(m, f, g)}
        P.count("functions writing " + g, len(writers)); P.need("functions writing " + g)
        # functions through which it may be changed, short of running a program
        may = set(writers); ch = True
        while ch:
            ch = False
            for f in m.defined():
                if f.name in may: continue
                if any(i.cname in may and (i.cname in ok or i.cname not in bnd) for i in f.calls()): may.add(f.name); ch = True
        n = 0
        for name in sorted(may & bnd - ok):
            f = m.fns[name]; n += 1
            def step(cx, i, q):
                if i.op == "load" and m.gname(i.ops[0]) == g:
                    return [(q[0], q[1] | ({(cx.f.name, i.id)} if q[0] else set()))]
                if i.op == "store" and m.gname(i.ops[1]) == g:
                    t = cx.term(i.ops[0])
                    return [(t[0] == "ld" and t[1] == g and (t[2], t[3]) in q[1], q[1])]
                if i.op == "call" and i.cname:
                    if i.cname in ok: return [(False, q[1])]
                    if i.cname in RUN: return [(False, q[1])] if name_runs(m, f, g) else None
                    if i.cname in may and i.cname not in bnd: return INTO
                return None
            for q, ret in walk.run(m, f, {}, (True, frozenset()), step):
                P.check(q[0], name + ":" + g, "%s: can return with %s changed" % (name, g))
                P.count("returns with %s as before" % g)
        P.need("returns with %s as before" % g)
    for g, v in sorted(CONST.items()):
        for f in m.defined():
            ss = gstores(m, f, g)
            if not ss: continue
            def step(cx, i, q):
                if i.op == "store" and m.gname(i.ops[1]) == g:
                    return ["as before" if cx.term(i.ops[0]) == v else "changed"]
                return None
            for q, ret in walk.run(m, f, {}, "as before", step):
                P.count("returns with %s as before" % g)
                P.check(q == "as before", f.name + ":" + g, "%s: can return with %s still set" % (f.name, g))

def name_runs(m, f, g): return True

def dangling(P, m):
    """no variable keeps the address of a local variable after the function returned; a function entered after an error does not follow one"""
    gs = {}
    for f in m.defined():
        cx = Cx(m, f, {})
        for i in f.instrs():
            if i.op == "store" and m.gname(i.ops[1]) and i.ops[0][0] == "v":
                if any(local_addr(f, o) for o in flat(f, i.ops[0])): gs.setdefault(m.gname(i.ops[1]), []).append(f)
    for g, fs in sorted(gs.items()):
        for f in fs:
            def step(cx, i, q):
                if i.op == "store" and m.gname(i.ops[1]) == g and cx.f is f:
                    return [any(local_addr(f, o) for o in flat(f, i.ops[0]))]
                return None
            for q, ret in walk.run(m, f, {}, False, step):
                P.count("returns after lending a local variable")
                P.check(not q, f.name + ":" + g, "%s: returns while %s still refers to its local variable" % (f.name, g))
        # entered afresh (possibly after an error left the variable set): set before it is followed
        bnd = boundary(m)
        readers = {f.name for f in m.defined() if any(i.op == "load" and m.gname(i.ops[0]) == g for i in f.instrs())}
        touch = reach_back(m, readers)
        sets = {f.name for f in m.defined() if any(i.op == "store" and m.gname(i.ops[1]) == g for i in f.instrs())}
        follow = {}; ch = True       # function -> where it can follow the variable as it was on entry
        while ch:
            ch = False
            for name in sorted(touch):
                f = m.fns.get(name)
                if name in follow or f is None or f.decl: continue
                w = first_follow(m, f, g, follow, bnd)
                if w is not None: follow[name] = w; ch = True
        for name in sorted(touch & bnd):
            if name not in m.fns or m.fns[name].decl: continue
            P.count("entries that follow a lent variable")
            P.check(name not in follow, name + ":stale-" + g, "%s: entered after an error, %s still refers to a local variable that no longer exists and is followed (%s)" % (name, g, follow[name].loc() if name in follow else ""))

def first_follow(m, f, g, follow, bnd):
    st = [0]; seen = {0}
    while st:
        b = f.blocks[st.pop()]; stop = False
        for i in b.ins:
            if i.op == "store" and m.gname(i.ops[1]) == g: stop = True; break
            if i.op == "load" and m.gname(i.ops[0]) == g: return i
            if i.op == "call" and i.cname in follow and i.cname not in bnd: return i
        if stop: continue
        for s in b.succs:
            if s not in seen: seen.add(s); st.append(s)
    return None

def flat(f, o, seen=None):
    seen = seen if seen is not None else set()
    d = f.defs.get(o[1]) if o[0] == "v" else None
    if d is None or d.op not in ("phi", "select", "bitcast"): return [o]
    if d.id in seen: return []
    seen.add(d.id)
    out = []
    for y in (d.ops[1:] if d.op == "select" else d.ops): out += flat(f, y, seen)
    return out

def local_addr(f, o):
    while True:
        if o[0] == "ge": o = o[1]; continue
        d = f.defs.get(o[1]) if o[0] == "v" else None
        if d is None: return False
        if d.op == "alloca": return True
        if d.op in ("getelementptr", "bitcast"): o = d.ops[0]; continue
        return False
