"""C19: definitions and bindings stay in their scope.

Every function that works on an evaluation state (or is handed an environment to evaluate in) is walked along all
its paths with an abstract state that knows: which values are the innermost environment of the construct, whether that
environment is known (not) to be the toplevel, whether it is the one recorded in the evaluation state, which nesting
states are possible, and which marker for `toplevel, but definitions forbidden' stands for it.
"""
import ir, walk, collections
from core import Part, Broken, need_fn
from ir import OBJ
NULL, EOF, UNB = ("g", "sal_k_null"), ("g", "sal_k_eof"), ("g", "sal_k_unbound")
OKNEST = frozenset((0, 1))
# functions with an environment parameter instead of (or besides) an evaluation state
ENVPARAM = {"qquote_internal": 1, "scm_s_define_internal": 3, "scm_s_setx": 2, "scm_symbol_value": 1, "scm_eval": 1,
            "define_record_field": 2}
# evaluation of operands of a call, of whole programs, of forms the interpreter made itself
EVALS_FREELY = {
  "call": "operator of a call and the result of a syntactic closure: as a procedure call at the toplevel",
  "call_continuation": "operand of a call", "reduce": "operands of a call", "map_eval": "operands of a call",
  "scm_call": "finishes the tail call of a procedure", "scm_p_eval": "program given to eval",
  "scm_load_internal": "program text", "scm_eval_c_string_internal": "program text", "repl_loop": "program text",
  "guard_handler": "finishes a tail call of the private procedures of guard",
  "guard_body": "finishes the tail call of a body",
  "guard_handler_body": "private variable of guard, then the tail of its clause",
}
# (function, global variable) evaluated as an identifier
EVALS_NAME = {("scm_s_let_vector_start_plus_end", "l_sym_check_type"), ("scm_s_let_vector_start_plus_end", "l_sym_vectorp")}
# places that set variables without being a definition form
SETTERS = {"scm_define_alias": "registration of names by the interpreter", "scm_register_func": "registration of names by the interpreter",
           "scm_s_setx": "assignment (judged separately)", "scm_p_set_symbol_valuex": "SIOD: set-symbol-value! is an assignment by name"}
BODIES = ("call_closure", "scm_s_let_internal", "scm_s_letstar", "scm_s_letrec_internal", "scm_s_srfi8_receive",
          "scm_s_srfi2_and_letstar", "scm_s_let_optionalsstar", "guard_body")
EXTEND = "scm_extend_environment"
MUTATORS = {"scm_replace_environment": 2, "scm_update_environment": 1, "scm_add_environment": 2}
DEFINERS = {"sal_symbol_set_vcell"}

class S:
    """abstract state (immutable through key())"""
    F = ("cur", "old", "eofs", "null", "stored", "nest", "now", "dirty", "gated", "ext", "consts", "seqd", "bodied")
    def __init__(s, **k):
        for f in s.F: setattr(s, f, k.get(f))
    def copy(s): return S(**{f: getattr(s, f) for f in s.F})
    def key(s): return tuple(getattr(s, f) for f in s.F)

def statevars(m):
    """function -> ids of its values that are the address of an evaluation state"""
    r = collections.defaultdict(set)
    for f in m.defined():
        for i in f.instrs():
            if i.op in ("load", "store") and (i.get("tbaa") or [""])[0] == "ScmEvalState_":
                a = base(f, i.ops[-1] if i.op == "store" else i.ops[0])
                if a is not None: r[f.name].add(a)
    ch = True
    while ch:
        ch = False
        for f in m.defined():
            for i in f.calls():
                g = m.fns.get(i.cname)
                if g is None: continue
                for k, o in enumerate(i.ops[:len(g.args)]):
                    if g.args[k][0] in r.get(g.name, ()) and g.args[k][1] == "ptr":
                        a = base(f, o)
                        if a is not None and a not in r[f.name]: r[f.name].add(a); ch = True
    return r

def base(f, o):
    for _ in range(10):
        if o[0] != "v": return None
        d = f.defs.get(o[1])
        if d is None: return o[1]
        if d.op == "alloca": return d.id
        if d.op in ("getelementptr", "bitcast"): o = d.ops[0]; continue
        return None

def fieldoff(f, o):
    n = 0
    while o[0] == "v":
        d = f.defs.get(o[1])
        if d is None or d.op == "alloca": return n
        if d.op == "getelementptr":
            if d.get("off") is None: return None
            n += d.get("off"); o = d.ops[0]; continue
        if d.op == "bitcast": o = d.ops[0]; continue
        return None

class Summary:
    """what a function does to the evaluation state handed to it"""
    def __init__(s, m, sv):
        s.m = m; s.sv = sv; s.memo = {}
    def changes(s, name, what, seen=()):
        """may the function store into the field (0 environment, 12 nesting) of the state it is given?"""
        if (name, what) in s.memo: return s.memo[(name, what)]
        f = s.m.fns.get(name)
        if f is None or f.decl or name in seen: return False
        ps = {a[0] for a in f.args}; r = False
        for i in f.instrs():
            if i.op == "store" and (i.get("tbaa") or [""])[0] == "ScmEvalState_":
                b = base(f, i.ops[-1])
                if b in ps and fieldoff(f, i.ops[-1]) == what: r = True
            if i.op == "call" and not r:
                if any(base(f, o) in ps and base(f, o) in s.sv[name] for o in i.ops):
                    if i.cname is None: r = True
                    elif s.changes(i.cname, what, seen + (name,)): r = True
        if not seen: s.memo[(name, what)] = r
        return r

def run(cfg):
    P = Part("c19", cfg)
    m = ir.Module(cfg)
    need_fn(m, "scm_lookup_frame"); need_fn(m, "scm_lookup_environment"); need_fn(m, "scm_eval"); need_fn(m, "scm_s_setx")
    lookups(P, m); setter(P, m); value(P, m); bodies(P, m)
    scopes(P, m)
    forms(P, m)
    return P

# ------------------------------------------------------------------------------------------------------------------
def kept(m, f, e):
    """the environment guard kept for its body and clauses"""
    d = f.defs.get(e[1]) if e[0] == "v" else None
    return d is not None and d.op == "call" and d.cname == "scm_symbol_value" and walk.strip(walk.Cx(m, f, {}).term(d.ops[0])) == ("ld", "l_sym_lex_env")

class Walker:
    def __init__(s, P, m):
        s.P = P; s.m = m; s.sv = statevars(m); s.sum = Summary(m, s.sv)
        s.gatedret = {}; s.needs = collections.defaultdict(list); s.reports = {}; s.seen = collections.Counter()
    def report(s, ok, key, msg):
        # one obligation per construct; it fails if it fails on one path
        a = s.reports.get(key)
        if a is None or (a[0] and not ok): s.reports[key] = (ok, msg)
    def flush(s):
        for k, (ok, msg) in sorted(s.reports.items()): s.P.check(ok, k, msg)

    def run(s, f):
        m = s.m; sv = s.sv.get(f.name, set()); ep = ENVPARAM.get(f.name)
        params = {a[0] for a in f.args}
        cur = frozenset()
        if ep is not None and ep < len(f.args) and f.args[ep][1] == OBJ: cur = frozenset([f.args[ep][0]])
        st = S(cur=cur, old=frozenset(), eofs=frozenset(), null="?", stored=bool(sv & params), nest=frozenset(range(4)), now=None,
               dirty=False, gated=False, ext=None, consts=(), seqd=False, bodied=False)
        seen = set(); work = [(0, None, st)]; rets = []; start = 0
        while work:
            b, prev, st = work.pop()
            blk = f.blocks[b]; start = 0
            st = st.copy()
            if isinstance(prev, tuple): start = prev[1]
            else: s.phis(f, blk, prev, st)
            al = [c for c in st.consts if isinstance(c[1], tuple)]
            if al:
                # a truth value computed here: decide it now, while what it was computed from holds
                for truth in (True, False):
                    for st2 in s.nonzero(f, ("v", al[0][1][1]), truth, st.copy()):
                        st2.consts = tuple(sorted([c for c in st2.consts if c[0] != al[0][0]] + [(al[0][0], int(truth))], key=str))
                        work.append((b, ("at", start), st2))
                continue
            k = (b, start, st.key())
            if k in seen: continue
            seen.add(k)
            if len(seen) > 30000: raise Broken("c19: too many states in " + f.name)
            dead = False
            for n, i in enumerate(blk.ins):
                if i.op in ("phi",) or n < start: continue
                s.kill(st, i.id)
                if i.op == "select":
                    for truth in (True, False):
                        for st2 in s.cond(f, i.ops[0], truth, st.copy()):
                            s.bind(st2, [(i, i.ops[1] if truth else i.ops[2])]); work.append((b, ("at", n + 1), st2))
                    dead = True; break
                if s.step(f, i, st): dead = True; break
            if dead: continue
            t = blk.term
            if t.op == "ret": rets.append(st); continue
            if t.op == "br" and len(t.raw["succ"]) == 2:
                for truth, x in ((True, t.raw["succ"][0]), (False, t.raw["succ"][1])):
                    for st2 in s.cond(f, t.ops[0], truth, st.copy()): work.append((x, b, st2))
                continue
            if t.op == "switch":
                cs = t.raw["cases"]; dflt = (t.raw.get("succ") or [None])[0]
                for v, x in cs:
                    st2 = st.copy()
                    vv = v[1] if isinstance(v, (list, tuple)) else v
                    if s.isnest(f, t.ops[0], st2):
                        st2.nest = frozenset(n for n in st2.nest if n == vv)
                        if not st2.nest: continue
                    work.append((x, b, st2))
                if dflt is not None:
                    st2 = st.copy()
                    if s.isnest(f, t.ops[0], st2):
                        st2.nest = frozenset(n for n in st2.nest if n not in [(v[1] if isinstance(v, (list, tuple)) else v) for v, x in cs])
                    if st2.nest: work.append((dflt, b, st2))
                continue
            for x in blk.succs: work.append((x, b, st.copy()))
        return rets

    def kill(s, st, id):
        for n in ("cur", "old", "eofs"):
            v = getattr(st, n)
            if id in v: setattr(st, n, v - {id})
        if any(c[0] == id for c in st.consts): st.consts = tuple(c for c in st.consts if c[0] != id)

    def phis(s, f, blk, prev, st):
        if prev is None: return
        vals = []
        for ph in blk.phis:
            for y, p in zip(ph.ops, ph.get("in")):
                if p == prev: vals.append((ph, y)); break
        s.bind(st, vals, f)
    def bind(s, st, vals, f=None):
        mem = {n: getattr(st, n) for n in ("cur", "old", "eofs")}
        consts = dict(st.consts); null = st.null
        upd = []
        for ph, y in vals:
            isold = y[0] == "v" and y[1] in mem["old"]
            iscur = (y[0] == "v" and y[1] in mem["cur"]) or (y == NULL and null == "y")
            iseof = y == EOF or (y[0] == "v" and y[1] in mem["eofs"])
            c = None
            if y[0] == "i": c = y[1]
            elif y[0] == "v" and y[1] in consts: c = consts[y[1]]
            elif y[0] == "v" and f is not None and (ph.ty == "i1" or (f.defs.get(y[1]) is not None and f.defs[y[1]].cname == "scm_toplevel_environmentp")): c = ("al", y[1])
            upd.append((ph.id, iscur, isold, iseof, c))
        for ph, y in vals: s.kill(st, ph.id)
        for id, a, b, e, c in upd:
            if a: st.cur |= {id}
            if b: st.old |= {id}
            if e: st.eofs |= {id}
            if c is not None: st.consts = tuple(sorted([x for x in st.consts if x[0] != id] + [(id, c)], key=str))

    def iscur(s, o, st): return (o[0] == "v" and o[1] in st.cur) or (o == NULL and st.null == "y")
    def iscurany(s, o, st): return s.iscur(o, st) or o == EOF or (o[0] == "v" and o[1] in st.eofs)
    def isold(s, o, st): return o[0] == "v" and o[1] in st.old

    def isnest(s, f, o, st):
        """is o the nesting state on entry?"""
        d = f.defs.get(o[1]) if o[0] == "v" else None
        while d is not None and d.op in ("zext", "sext", "trunc", "freeze"): d = f.defs.get(d.ops[0][1]) if d.ops[0][0] == "v" else None
        return d is not None and d.op == "load" and (d.get("tbaa") or [""]) == ["ScmEvalState_", 12] and base(f, d.ops[0]) in s.sv.get(f.name, ())

    def nestval(s, f, o, n):
        """the value of an expression over the nesting state, for one state"""
        if o[0] == "i": return o[1]
        if o[0] != "v": return None
        d = f.defs.get(o[1])
        if d is None: return None
        if d.op in ("zext", "sext", "trunc", "freeze"): return s.nestval(f, d.ops[0], n)
        if d.op == "load": return n if s.isnest(f, o, None) else None
        if d.op in ("add", "sub", "and", "or", "xor"):
            a, b = s.nestval(f, d.ops[0], n), s.nestval(f, d.ops[1], n)
            if a is None or b is None: return None
            return {"add": a + b, "sub": a - b, "and": a & b, "or": a | b, "xor": a ^ b}[d.op] & 0xffffffff
        return None

    def nonzero(s, f, o, truth, st):
        d = f.defs.get(o[1])
        if d is not None and d.op == "call":
            if d.cname == "scm_toplevel_environmentp" and s.iscur(d.ops[0], st):
                if st.null == ("n" if truth else "y"): return []
                st.null = "y" if truth else "n"
            return [st]
        return s.cond(f, o, truth, st)
    def cond(s, f, o, truth, st, depth=0):
        if o[0] == "i": return [st] if bool(o[1] & 1) == truth else []
        if o[0] != "v" or depth > 20: return [st]
        c = dict(st.consts).get(o[1])
        if c is not None and c != "sym":
            if isinstance(c, tuple): return s.cond(f, ("v", c[1]), truth, st, depth + 1)
            return [st] if bool(c & 1) == truth else []
        d = f.defs.get(o[1])
        if d is None: return [st]
        if d.op == "freeze": return s.cond(f, d.ops[0], truth, st, depth + 1)
        if d.op == "xor" and any(y[0] == "i" and y[1] & 1 for y in d.ops):
            return s.cond(f, [y for y in d.ops if y[0] != "i"][0], not truth, st, depth + 1)
        if d.op != "icmp": return [st]
        pred = d.get("pred")
        a, b = d.ops
        if pred in ("eq", "ne"):
            eq = (pred == "eq") == truth
            for x, y in ((a, b), (b, a)):
                if y == NULL and s.iscur(x, st):
                    if st.null == ("n" if eq else "y"): return []
                    st.null = "y" if eq else "n"; return [st]
                if y == EOF and f.name == "scm_eval" and s.iscur(x, st):
                    # the marker: toplevel, definitions forbidden
                    if eq: st.eofs |= st.cur; st.cur = frozenset(); st.null = "y"
                    return [st]
                if y[0] == "i" and y[1] == 0:
                    e0 = f.defs.get(x[1]) if x[0] == "v" else None
                    if e0 is not None and e0.op == "call" and e0.cname in ("sal_symbolp", "sal_farsymbolp", "scm_identifierp") and e0.ops[0][0] == "v" and not eq:
                        st.consts = tuple(sorted([z for z in st.consts if z[0] != e0.ops[0][1]] + [(e0.ops[0][1], "sym")], key=str)); return [st]
                    e = f.defs.get(x[1]) if x[0] == "v" else None
                    cx = dict(st.consts).get(x[1]) if x[0] == "v" else None
                    if isinstance(cx, int): return [st] if ((cx == 0) == eq) else []
                    if e is not None and e.op == "zext" and f.defs.get(e.ops[0][1] if e.ops[0][0] == "v" else -1) is not None \
                       and (f.defs[e.ops[0][1]].ty == "i1"): return s.cond(f, e.ops[0], not eq, st, depth + 1)
                    if e is not None and e.op == "call" and e.cname == "scm_toplevel_environmentp" and s.iscur(e.ops[0], st):
                        if st.null == ("y" if eq else "n"): return []
                        st.null = "n" if eq else "y"; return [st]
        # tests of the nesting state
        if s.hasnest(f, a) or s.hasnest(f, b):
            if st.dirty:
                if pred in ("eq", "ne"):
                    n = [y[1] for y in (a, b) if y[0] == "i"]
                    if n and ((pred == "eq") == truth): st.now = n[0]
                return [st]
            keep = set()
            for n in st.nest:
                x, y = s.nestval(f, a, n), s.nestval(f, b, n)
                if x is None or y is None: keep.add(n); continue
                x &= 0xffffffff; y &= 0xffffffff
                sx, sy = [v - (1 << 32) if v >> 31 else v for v in (x, y)]
                r = {"eq": x == y, "ne": x != y, "ult": x < y, "ule": x <= y, "ugt": x > y, "uge": x >= y,
                     "slt": sx < sy, "sle": sx <= sy, "sgt": sx > sy, "sge": sx >= sy}[pred]
                if r == truth: keep.add(n)
            if not keep: return []
            st.nest = frozenset(keep)
        return [st]
    def hasnest(s, f, o, d=0):
        if o[0] != "v" or d > 6: return False
        if s.isnest(f, o, None): return True
        x = f.defs.get(o[1])
        return x is not None and x.op in ("add", "sub", "and", "or", "xor", "zext", "sext", "trunc") and any(s.hasnest(f, y, d + 1) for y in x.ops)

    def gate(s, st): return st.gated or (st.null == "y" and st.nest <= OKNEST)

    def step(s, f, i, st):
        """returns True when the path ends here"""
        P, m = s.P, s.m; sv = s.sv.get(f.name, set()); fn = f.name
        if s.gate(st): st.gated = True
        if i.op == "load":
            if (i.get("tbaa") or [""]) == ["ScmEvalState_", 0] and base(f, i.ops[0]) in sv:
                if st.stored: st.cur |= {i.id}
                elif st.ext is not None or st.old: st.old |= {i.id}
            return False
        if i.op == "store":
            if (i.get("tbaa") or [""])[0] != "ScmEvalState_" or base(f, i.ops[-1]) not in sv: return False
            off = fieldoff(f, i.ops[-1]); v = i.ops[0]; b = base(f, i.ops[-1])
            if off == 0: s.storeenv(f, i, v, b, st)
            elif off == 12: s.storenest(f, i, v, b, st)
            return False
        if i.op != "call": return False
        c = i.cname; key = "%s:%s" % (fn, c)
        if i.get("nr") or (c in m.fns and m.fns[c].noreturn): return True
        if c == EXTEND or (c == "scm_make_cons" and fn != EXTEND and s.iscons_env(f, i, st)):
            e = i.ops[2] if c == EXTEND else i.ops[1]
            s.base(f, i, e, st)
            st.old = st.old | st.cur; st.cur = frozenset([i.id]); st.null = "n"; st.stored = False; st.ext = i.id; st.bodied = False
            s.P.count("environments extended"); return False
        if c in MUTATORS:
            e = i.ops[MUTATORS[c]]
            ok = e[0] == "v" and st.ext is not None and s.iscur(e, st)
            own = f.defs.get(st.ext) if st.ext is not None else None
            if ok and own is not None: ok = not loop_without(f, i.blk.id, own.blk.id)
            s.report(ok, key + ":own", "%s: changes the bindings of an environment this construct did not just make" % i.loc())
            st.cur = st.cur | {i.id}
            if not ok: st.null = "n"
            return False
        if c == "scm_eval":
            if fn in EVALS_FREELY: s.P.trusts("%s: %s" % (fn, EVALS_FREELY[fn])); return False
            ex = walk.Cx(m, f, {}).term(i.ops[0])
            if ex[0] == "ld" and (fn, ex[1]) in EVALS_NAME: s.P.trusts("%s evaluates the name of a library procedure" % fn); return False
            e = i.ops[1]
            if i.ops[0][0] == "v" and (i.ops[0][1], "sym") in st.consts and s.iscurany(e, st): s.P.count("variables evaluated"); return False
            if st.gated and fn == "scm_s_begin" and s.iscur(e, st): ok = True   # (begin <form> ...) at the toplevel
            elif s.iscur(e, st): ok = st.null == "n"
            else: ok = st.null == "y" and (e == EOF or (e[0] == "v" and e[1] in st.eofs))
            s.report(ok, "%s:eval:%s" % (fn, s.ordinal(f, i)),
                     "%s: %s evaluates an expression in %s" % (i.loc(), fn, "an environment where a toplevel definition would be accepted"
                        if s.iscur(e, st) else "an environment other than the innermost one of the construct"))
            return False
        if c in ("scm_make_closure", "scm_s_lambda", "enclose") and sv and fn not in ("scm_s_define_macro", "guard_handler_body"):
            e = i.ops[1] if c != "scm_s_lambda" else i.ops[2]
            s.report(s.iscur(e, st), "%s:%s:captures" % (fn, c), "%s: %s makes a closure whose environment is not that of the construct" % (i.loc(), fn))
            return False
        if c in DEFINERS or c in s.needs:
            if c in DEFINERS and fn in SETTERS: s.P.trusts("%s: %s" % (fn, SETTERS[fn])); return False
            s.seen[fn] += 1
            if st.gated: s.report(True, "%s:%s:%s" % (fn, c, s.ordinal(f, i)), "")
            else: s.needs[fn].append(i)
            return False
        if c in s.gatedret and s.gatedret[c] and s.statearg(f, i): st.gated = True
        a = s.statearg(f, i)
        if a is not None and fn == "scm_eval" and c in m.fns and not m.fns[c].decl:
            s.report(st.now in (1, 2) or (st.now == 0 and st.null == "y" and f.args[1][0] in st.cur), "scm_eval:nest:0",
                     "%s: an expression is evaluated as a program form although its environment is not the toplevel, or definitions are forbidden" % i.loc())
        if a is not None:
            own = a in {x[0] for x in f.args}
            if c == "scm_s_begin" and own:
                s.report(st.stored, key + ":env", "%s: hands a tail on to be evaluated in an environment other than the construct's own" % i.loc())
                s.report(st.null == "n" or st.now == 2, key + ":toplevel", "%s: a definition in the tail of this construct would be accepted at the toplevel" % i.loc())
                if fn in BODIES: s.report(False, key + ":body", "%s: a body is evaluated without handling its definitions" % i.loc())
            elif c == "scm_s_body":
                if own: s.report(st.stored, key + ":env", "%s: hands the body on to be evaluated in an environment other than the construct's own" % i.loc())
                st.bodied = True
            elif own and fn not in ("call", "scm_eval", "scm_call", "scm_p_apply") and c in m.fns:
                s.report(st.stored, "%s:%s:env" % (fn, c), "%s: delegates with an environment other than the construct's own" % i.loc())
            if c is None or s.sum.changes(c, 0): st.stored = False
            if c is None or s.sum.changes(c, 12): st.dirty = True; st.now = None
        return False

    def iscons_env(s, f, i, st):
        """state->env = CONS(frame, state->env)"""
        if not s.iscur(i.ops[1], st): return False
        return any(u.op == "store" and (u.get("tbaa") or [""]) == ["ScmEvalState_", 0] for u, k in f.uses().get(i.id, ()))

    def statearg(s, f, i):
        g = s.m.fns.get(i.cname)
        for k, o in enumerate(i.ops):
            if g is not None and not g.decl and (k >= len(g.args) or g.args[k][0] not in s.sv.get(g.name, ())): continue
            b = base(f, o)
            if b is not None and b in s.sv.get(f.name, ()) and fieldoff(f, o) == 0: return b
        return None

    def ordinal(s, f, i):
        n = 0
        for j in f.calls():
            if j.cname == i.cname:
                if j is i: return n
                n += 1
        return n

    def base(s, f, i, e, st):
        ok = (s.iscur(e, st) or s.isold(e, st)) and f.name != "call_closure"
        if not ok and e[0] == "v":
            d = f.defs.get(e[1])
            if d is not None and d.op == "call" and d.cname == "sal_closure_env": ok = f.name == "call_closure"
            ok = ok or kept(s.m, f, e)
        if not ok and e == NULL and not s.sv.get(f.name): ok = True                        # built by an initialiser
        s.report(ok, "%s:extend:%s" % (f.name, s.ordinal(f, i)), "%s: a new scope is put inside something that is not the environment of the construct" % i.loc())

    def storeenv(s, f, i, v, b, st):
        own = b in {x[0] for x in f.args}
        if not own:
            # a state of its own
            if f.name == "scm_eval" and v == NULL and st.null != "y": st.cur = frozenset(); st.null = "y"; st.stored = True
            else: st.stored = s.iscur(v, st)
            if f.name in ("guard_body", "guard_handler_body"):
                s.report((st.stored and st.ext is not None) or kept(s.m, f, v), f.name + ":env", "%s: a part of guard is not evaluated in the environment guard kept for it" % i.loc())
            return
        if s.iscur(v, st): st.stored = True; return
        st.stored = False
        s.report(s.isold(v, st) or (v == NULL and st.null == "y"), "%s:env-store" % f.name, "%s: the evaluation state is given an environment that is not the construct's" % i.loc())

    def storenest(s, f, i, v, b, st):
        own = b in {x[0] for x in f.args}
        c = v[1] if v[0] == "i" else dict(st.consts).get(v[1]) if v[0] == "v" else None
        if not own:
            if f.name == "scm_eval":
                if c == 1:
                    s.report(st.now == 3, "scm_eval:nest:1", "%s: a form handed back by anything but a toplevel begin is taken for a toplevel form" % i.loc())
                st.now = c; st.dirty = True
            return
        if c in (0, 1): s.report(False, "%s:nest:%s" % (f.name, c), "%s: a construct declares its tail to be at the toplevel" % i.loc())
        elif c == 3: s.report(st.gated, "%s:nest:3" % f.name, "%s: the tail is declared to be a toplevel form although this form is not known to be one" % i.loc())
        elif c is None: s.report(False, "%s:nest:?" % f.name, "%s: unknown nesting state stored" % i.loc())
        st.now = c; st.dirty = True

    def definer(s, f, i, st):
        if not st.gated: s.needs[f.name].append(i)
        return True

def loop_without(f, a, b):
    """is there a cycle through block a avoiding block b?"""
    if a == b: return False
    seen = set(); w = [x for x in f.blocks[a].succs]
    while w:
        x = w.pop()
        if x in seen or x == b: continue
        if x == a: return True
        seen.add(x); w += f.blocks[x].succs
    return False

def scopes(P, m):
    W = Walker(P, m)
    interesting = {"scm_eval", EXTEND, "scm_s_begin", "scm_s_body", "sal_symbol_set_vcell"} | set(MUTATORS)
    fs = [f for f in m.defined() if f.name not in (EXTEND,) + tuple(MUTATORS)]
    sel = []
    for f in fs:
        if W.sv.get(f.name) or any(i.cname in interesting for i in f.calls()): sel.append(f)
    # definers first, then whatever calls them without being guarded itself
    done = {}
    for _ in range(6):
        before = (set(W.needs), dict(W.gatedret))
        W.needs_prev = dict(W.needs)
        ns = collections.defaultdict(list)
        for k in W.needs: ns[k] = []
        W.needs = ns; W.reports = {}; W.seen.clear(); P0 = dict(P.counts)
        for f in sel:
            rets = W.run(f)
            W.gatedret[f.name] = bool(rets) and all(r.gated for r in rets) and f.name in W.seen
        cs = {i.cname for g in W.needs for i in ()}
        extra = [f for f in fs if f not in sel and any(i.cname in W.needs and W.needs[i.cname] is not None for i in f.calls())]
        sel += extra
        if (set(W.needs), dict(W.gatedret)) == before and not extra: break
    W.flush()
    reg = {d[2] for d in m.funcdescs()}
    calls = collections.defaultdict(set)
    for f in fs:
        for i in f.calls():
            if i.cname in W.needs: calls[i.cname].add(f.name)
    for g, sites in sorted(W.needs.items()):
        if not sites: continue
        bad = g in reg or not calls[g]
        # an initialiser may define what it likes; so may C programs embedding the interpreter
        if g not in reg and not calls[g] and g not in addrtaken(m): P.trusts("%s: defines on behalf of the embedding program" % g); continue
        for i in sites[:1]:
            P.check(not bad, "%s:define" % g, "%s: %s defines a variable without establishing that it is at the toplevel" % (i.loc(), g))
    for k in ("scm_s_define", "scm_s_begin", "scm_s_body", "scm_s_define_macro"):
        if k not in m.fns: P.check(False, k + ":present", "function not found")
    for b in BODIES:
        f = m.fns.get(b)
        if f is None or f.decl: continue
        n = [i for i in f.calls() if i.cname == "scm_s_body"]
        P.check(bool(n), b + ":body", "%s: the body of this construct is not evaluated as a body (definitions at its head)" % b)
    P.count("functions walked", len(sel))

def addrtaken(m):
    if not hasattr(m, "_c19at"):
        r = set()
        def w(v):
            if isinstance(v, (list, tuple)):
                if len(v) == 2 and v[0] == "f": r.add(v[1])
                for x in v: w(x)
        for g in m.globals.values(): w(g.get("init"))
        for f in m.defined():
            for i in f.instrs():
                for o in i.ops: w(o)
        m._c19at = r
    return m._c19at

# ------------------------------------------------------------------------------------------------------------------
class Lockstep:
    """Paths of a function stepping through parallel lists, values known by their position relative to the iteration.
    value(i, vals) gives (kind, offset); facts are (fact, offset) from tests; at a loop head the positions are counted
    from the first stepping value again, so a loop that keeps in step has finitely many states."""
    def __init__(s, f, value, fact, start, lead, leave, back):
        s.f = f; s.value = value; s.fact = fact; s.lead = lead; s.leave = leave; s.back = back; s.start = start
    def run(s):
        f = s.f; seen = set(); work = [(0, None, dict(s.start), frozenset())]
        while work:
            b, prev, vals, facts = work.pop()
            blk = f.blocks[b]
            if prev is not None:
                new = {}
                for ph in blk.phis:
                    for y, p in zip(ph.ops, ph.get("in")):
                        if p == prev:
                            v = s.get(vals, y)
                            if v is not None: new[ph.id] = v
                if any(f.dominates(b, p) for p in blk.preds):
                    lead = [v for v in new.values() if v[0] == s.lead]
                    if f.dominates(b, prev): s.back(vals, facts, new, blk)
                    n = lead[0][1] if lead else 0
                    # only what is stepped, and what does not move, is known in the loop
                    vals = {k: v for k, v in vals.items() if v[1] is None}
                    new = {k: (v[0], None if v[1] is None else v[1] - n) for k, v in new.items()}
                    facts = frozenset((x, o) for x, o in facts if o is None)
                vals = dict(vals); vals.update(new)
            key = (b, tuple(sorted(vals.items())), facts) if all(isinstance(x, tuple) for x in vals.values()) else None
            if key in seen: continue
            seen.add(key)
            if len(seen) > 3000: raise Broken("c19: the loop of %s does not keep in step" % f.name)
            for i in blk.ins:
                if i.op == "phi": continue
                v = s.value(i, lambda o: s.get(vals, o))
                vals.pop(i.id, None)
                if v is not None: vals[i.id] = v
            t = blk.term
            if t.op == "ret": s.leave(s.get(vals, t.ops[0]), facts, t); continue
            if t.op == "br" and len(t.raw["succ"]) == 2:
                for truth, x in ((True, t.raw["succ"][0]), (False, t.raw["succ"][1])):
                    fs = s.cond(t.ops[0], truth, vals)
                    if fs is None: continue
                    if any((neg(a), o) in facts for a, o in fs): continue
                    if any(a == "end" for a, o in fs): fs = fs + [("ended", None)]
                    work.append((x, b, dict(vals), facts | frozenset(fs)))
                continue
            for x in blk.succs: work.append((x, b, dict(vals), facts))
    def get(s, vals, o):
        if o[0] == "v": return vals.get(o[1])
        if o == ("n",): return ("none", None)
        if o == NULL: return ("null", None)
        return None
    def cond(s, o, truth, vals):
        if o[0] == "i": return [] if bool(o[1] & 1) == truth else None
        d = s.f.defs.get(o[1])
        while d is not None and d.op == "xor": truth = not truth; d = s.f.defs.get([y for y in d.ops if y[0] == "v"][0][1])
        if d is None or d.op != "icmp" or d.get("pred") not in ("eq", "ne"): return []
        eq = (d.get("pred") == "eq") == truth
        a, b = [s.get(vals, x) for x in d.ops]
        for x, y, raw in ((a, b, d.ops[1]), (b, a, d.ops[0])):
            r = s.fact(x, y, raw, eq)
            if r is not None: return [r]
        return []

def neg(x): return x[1:] if x.startswith("!") else "!" + x

def lookups(P, m):
    # one frame: the n-th variable's value is the n-th value; a dotted variable's value is the rest
    f = need_fn(m, "scm_lookup_frame"); var, frame = f.args[0][0], f.args[1][0]
    def value(i, g):
        if i.op != "call" or not i.ops: return None
        a = g(i.ops[0]); c = i.cname
        if a is None: return None
        k, n = a
        if c == "sal_cons_car":
            if k == "frame": return ("F", 0)
            if k == "F": return ("name", n)
            if k == "D": return ("valueof", n)
        if c == "sal_cons_cdr":
            if k == "frame": return ("D", 0)
            if k == "F": return ("F", n + 1)
            if k == "D": return ("D", n + 1)
        if c == "sal_ref_cdr":
            if k == "frame": return ("A", 0)
            if k == "D": return ("A", n + 1)
        if c == "sal_ref_car" and k == "D": return ("slot", n)
        if c == "sal_deref" and k == "A": return ("D", n)
        if c == "sal_consp" and k == "F": return ("isF", n)
        return None
    def fact(x, y, raw, eq):
        if x is None: return None
        if x[0] == "isF" and raw[0] == "i" and raw[1] == 0: return ("!cons" if eq else "cons", x[1])
        if x[0] == "isF" and raw[0] == "i" and raw[1] == 1: return ("cons" if eq else "!cons", x[1])
        if y is not None and y[0] == "var" and x[0] == "name": return ("hit" if eq else "!hit", x[1])
        if y is not None and y[0] == "var" and x[0] == "F": return ("tail" if eq else "!tail", x[1])
        return None
    out = []
    def leave(v, facts, t):
        if v is None: out.append((False, "%s: returns a place that is not known to belong to the variable" % t.loc())); return
        k, n = v
        if k == "slot": out.append((("hit", n) in facts, "%s: returns the place of a value whose variable is not the one looked up" % t.loc()))
        elif k == "A": out.append((("tail", n) in facts and ("!cons", n) in facts, "%s: returns the rest of the values although the variable is not the dotted one" % t.loc()))
        elif k == "none":
            d = [o for x, o in facts if x == "!cons"]
            out.append((any(("!tail", o) in facts for o in d), "%s: gives up before all variables of the frame were compared" % t.loc()))
        else: out.append((False, "%s: returns %s" % (t.loc(), k)))
    def back(vals, facts, new, blk):
        n = [v[1] for v in new.values() if v[0] == "F"]
        out.append((bool(n) and all(x == 1 for x in n) and ("!hit", 0) in facts, "%s: goes on to the next variable without having compared this one" % f.name))
        for v in new.values():
            if v[0] in "AD" and v[1] is not None: out.append((v[1] == (n[0] if n else 1), "%s: variables and values are not stepped through together" % f.name))
    Lockstep(f, value, fact, {var: ("var", None), frame: ("frame", None)}, "F", leave, back).run()
    summarise(P, "scm_lookup_frame", out)
    # the environment: innermost frame first, every frame
    f = need_fn(m, "scm_lookup_environment"); var, env = f.args[0][0], f.args[1][0]
    def value(i, g):
        if i.op != "call" or not i.ops: return None
        a = g(i.ops[0]); c = i.cname
        b = g(i.ops[1]) if len(i.ops) > 1 else None
        if c == "scm_lookup_frame": return ("found", b[1]) if a == ("var", None) and b is not None and b[0] == "frame" else ("wrong", None)
        if c == "lookup_n_frames": return ("far", None) if a == ("farsym", None) and b == ("farenv", None) else ("wrong", None)
        if a is None: return None
        k, n = a
        if c == "sal_cons_car" and k == "E": return ("frame", n)
        if c == "sal_cons_cdr" and k == "E": return ("E", n + 1)
        if c == "sal_farsymbolp" and k == "var": return ("isfar", None)
        if c == "sal_farsymbol_sym" and k == "var": return ("farsym", None)
        if c == "sal_farsymbol_env" and k == "var": return ("farenv", None)
        if c == "sal_nullp" and k == "E": return ("isnull", n)
        if c == "sal_consp" and k == "E": return ("iscons", n)
        return None
    def fact(x, y, raw, eq):
        if x is None: return None
        if x[0] == "E" and y == ("null", None): return ("end" if eq else "!end", x[1])
        if x[0] == "iscons" and raw[0] == "i" and raw[1] == 0: return ("end" if eq else "!end", x[1])
        if x[0] == "found" and y == ("none", None): return ("miss" if eq else "!miss", x[1])
        if x[0] == "isfar" and raw[0] == "i" and raw[1] == 0: return ("!far" if eq else "far", None)
        return None
    out2 = []
    def leave2(v, facts, t):
        if v is None or v[0] == "wrong": out2.append((False, "%s: the result does not come from looking the variable up" % t.loc())); return
        k, n = v
        if k == "found": out2.append((("!miss", n) in facts, "%s: gives up before the outer frames were searched" % t.loc()))
        elif k == "none": out2.append((("ended", None) in facts and ("far", None) not in facts, "%s: gives up before all frames were searched" % t.loc()))
        elif k == "far": out2.append((("ended", None) in facts and ("far", None) in facts, "%s: looks for the original name of an alias before its own bindings" % t.loc()))
        else: out2.append((False, "%s: returns %s" % (t.loc(), k)))
    def back2(vals, facts, new, blk):
        n = [v[1] for v in new.values() if v[0] == "E"]
        if not n: return           # another loop: positions of aliases
        out2.append((n == [1] and ("miss", 0) in facts, "%s: goes on to an outer frame although the variable was not missed in this one" % f.name))
    st = {var: ("var", None), env: ("E", 0)}
    Lockstep(f, value, fact, st, "E", leave2, back2).run()
    summarise(P, "scm_lookup_environment", out2)

def summarise(P, name, out):
    if not out: P.check(False, name + ":shape", "%s: no result found" % name); return
    groups = collections.OrderedDict()
    for ok, msg in out: groups[msg] = groups.get(msg, True) and ok
    for k, (msg, ok) in enumerate(groups.items()): P.check(ok, "%s:%s" % (name, msg.split(": ", 1)[1].replace(" ", "-")), msg)

def facts_walk(m, f, step):
    """walk.run with a set of (term, relation, term) facts from the equality tests passed"""
    def branch(cx, x, truth, q):
        c = walk.cmp(cx, x)
        if c is None: return q
        e, a, b = c; eq = e == truth
        a, b = walk.strip(a), walk.strip(b)
        if ("ne" if eq else "eq", a, b) in q or ("ne" if eq else "eq", b, a) in q: return None
        return q | {("eq" if eq else "ne", a, b)}
    return walk.run(m, f, {}, frozenset(), step, branch)

def holds(q, rel, a, b): return (rel, a, b) in q or (rel, b, a) in q

def bodies(P, m):
    """(begin <form> ...) at the head of a body: all definitions, or no definition at all"""
    f = need_fn(m, "filter_definitions"); fn = f.name
    recs = [i for i in f.calls() if i.cname == fn]
    P.check(bool(recs), fn + ":nested", "%s: definitions inside (begin ...) are not looked for" % fn)
    for r in recs:
        R = ("call", fn, fn, r.id); X = walk.strip(walk.Cx(m, f, {}).term(r.ops[0])); bad = []
        def decided(q): return holds(q, "eq", R, NULL) or holds(q, "eq", R, X)
        def step(cx, i, q):
            if i is r: return [frozenset(t for t in q if len(t) != 3 or R not in t[1:]) | {("rec",)}]
            if i.op == "call" and ("rec",) in q and i.blk.term.op != "unreachable" and not i.get("nr"):
                # on to the next form: only when nothing is left of this one
                if i.cname in ("sal_consp",) and not holds(q, "eq", R, NULL): bad.append(i)
            return None
        for q, ret in facts_walk(m, f, step):
            if ("rec",) in q and not decided(q): bad.append(f.blocks[-1].term)
        P.check(not bad, fn + ":intermixed", "%s: goes on although forms of a (begin ...) were neither taken as definitions nor left to be evaluated" % (bad[0].loc() if bad else fn))
    # what is collected
    for i in f.calls():
        if i.cname == "scm_make_cons":
            t = walk.strip(walk.Cx(m, f, {}).term(("v", i.id)))
            if t[0] == "cons" and t[2][0] == "mem" and t[2][1] == ("p", fn, f.args[1][0]): P.count("definitions collected")
    P.need("definitions collected")

def setter(P, m):
    f = need_fn(m, "scm_s_setx"); fn = f.name
    S_, X, E = [("p", fn, a[0]) for a in f.args[:3]]
    ok = {}
    def put(k, v, msg): ok[k] = (ok.get(k, (True,))[0] and v, msg)
    def step(cx, i, q):
        if i.op != "call": return None
        c = i.cname; T = [walk.strip(cx.term(o)) for o in i.ops]
        if c == "scm_lookup_environment":
            put("lookup", T[:2] == [S_, E], "%s: the variable assigned is not looked up in the environment of the assignment" % i.loc())
        if c in ("sal_set", "sal_cons_set_car", "sal_cons_set_cdr"):
            r = [d for d in f.calls() if d.cname == "scm_lookup_environment"]
            good = c == "sal_set" and any(T[0] == ("call", "scm_lookup_environment", fn, d.id) for d in r) and holds(q, "ne", T[0], ("n",))
            put("local", good and done(q) == 0, "%s: stores into something other than the innermost binding found" % i.loc())
            put("value", evaled(f, T[-1], X), "%s: the value assigned is not that of the expression" % i.loc())
            return [q | {("done",)}]
        if c == "sal_symbol_set_vcell":
            miss = any(t[0] == "eq" and ("n",) in t[1:] and any(isinstance(x, tuple) and x[:2] == ("call", "scm_lookup_environment") for x in t[1:]) for t in q if len(t) == 3)
            bound = any(t[0] == "ne" and UNB in t[1:] and any(vcell(f, x) for x in t[1:]) for t in q if len(t) == 3)
            put("global", T[0] == S_ and miss and done(q) == 0, "%s: assigns the toplevel variable although a local binding may be in scope" % i.loc())
            put("bound", bound, "%s: assigns a toplevel variable that may be unbound" % i.loc())
            put("value", evaled(f, T[-1], X), "%s: the value assigned is not that of the expression" % i.loc())
            return [q | {("done",)}]
        return None
    for q, ret in facts_walk(m, f, step): put("does", done(q) == 1, "%s: returns without having assigned" % fn)
    for k in ("lookup", "local", "global", "bound", "value", "does"):
        v, msg = ok.get(k, (False, "scm_s_setx: part of the assignment is missing (%s)" % k))
        P.check(v, "scm_s_setx:" + k, msg)
def done(q): return int(("done",) in q)
def evaled(f, t, X):
    if t[:2] != ("call", "scm_eval"): return False
    d = f.defs[t[3]]
    return walk.strip(walk.Cx(f.mod, f, {}).term(d.ops[0])) == X
def vcell(f, t):
    if not (isinstance(t, tuple) and t[:2] == ("call", "sal_symbol_vcell")): return False
    d = f.defs[t[3]]; o = walk.Cx(f.mod, f, {}).term(d.ops[0])
    return o == ("p", f.name, f.args[0][0])

def value(P, m):
    f = need_fn(m, "scm_symbol_value"); fn = f.name
    V, E = [("p", fn, a[0]) for a in f.args[:2]]
    ok = {}
    def put(k, v, msg): ok[k] = (ok.get(k, (True,))[0] and v, msg)
    isref = lambda x: isinstance(x, tuple) and x[:2] == ("call", "scm_lookup_environment")
    def step(cx, i, q):
        if i.op != "call": return None
        T = [walk.strip(cx.term(o)) for o in i.ops]
        if i.cname == "scm_lookup_environment": put("lookup", T[:2] == [V, E], "%s: the variable is not looked up in the environment given" % i.loc())
        if i.cname == "sal_deref" and isref(T[0]): put("deref", holds(q, "ne", T[0], ("n",)), "%s: uses a binding that was not found" % i.loc())
        if i.cname == "sal_symbol_vcell":
            miss = any(len(t) == 3 and t[0] == "eq" and ("n",) in t[1:] and any(isref(x) for x in t[1:]) for t in q)
            put("global", miss, "%s: uses the toplevel value although a local binding may be in scope" % i.loc())
        return None
    for q, ret in facts_walk(m, f, step):
        r = walk.strip(ret)
        put("result", r[:2] in (("call", "sal_deref"), ("call", "sal_symbol_vcell")), "%s: the result is not the value of a binding" % fn)
        put("unbound", holds(q, "ne", r, UNB), "%s: an unbound variable is not reported" % fn)
    for k in ("lookup", "deref", "global", "result", "unbound"):
        v, msg = ok.get(k, (False, "scm_symbol_value: %s is missing" % k))
        P.check(v, "scm_symbol_value:" + k, msg)

# ------------------------------------------------------------------------------------------------------------------
def forms(P, m):
    """closures capture the environment of their own construct; forms the interpreter builds and evaluates where the
    program has bindings of its own name their parts by object, not by a symbol the program may have bound"""
    envpos = collections.defaultdict(set)
    envpos["scm_make_closure"].add(1); envpos[EXTEND].add(2); envpos["scm_lookup_environment"].add(1)
    ch = True
    fs = m.defined()
    while ch:
        ch = False
        for f in fs:
            if f.name.startswith("sal_") or f.name in ("scm_make_cons",): continue
            for i in f.calls():
                for k in envpos.get(i.cname, ()):
                    if k < len(i.ops) and i.ops[k][0] == "v":
                        for n, a in enumerate(f.args):
                            if a[0] == i.ops[k][1] and a[1] == OBJ and n not in envpos[f.name]: envpos[f.name].add(n); ch = True
    sv = statevars(m)
    codes = {d[2]: d[3] for d in m.funcdescs()}
    for f in fs:
        for i in f.calls():
            if i.cname not in ("scm_make_closure", "scm_s_lambda", "enclose", "scm_s_delay") or f.name in ("scm_s_define_macro",): continue
            k = max(envpos[i.cname]) if envpos.get(i.cname) else None
            if k is None: continue
            P.count("closures made")
            for t in leaves(m, f, i.ops[k]):
                ok = False
                if t == NULL: ok = bool(sv.get(f.name)) or not codes.get(f.name, 0) & 16       # (not for program text)
                elif t[0] == "p": ok = any(a[0] == t[2] and n in envpos[f.name] for n, a in enumerate(f.args)) and t[1] == f.name
                elif t[0] == "mem" and t[1][0] in ("p", "alloca") and t[1][-1] in sv.get(f.name, ()): ok = True
                elif t[0] == "call" and t[1] in (EXTEND,) + tuple(MUTATORS): ok = True
                elif t[0] == "ld" and t[1] == "scm_syntactic_closure_env": ok = False
                P.check(ok, "%s:%s:env" % (f.name, i.cname), "%s: %s makes a closure whose environment is not that of the construct" % (i.loc(), f.name))
            # names in the form
            if i.cname == "scm_make_closure": continue
            cx = walk.Cx(m, f, {})
            toplevel = all(t == NULL for t in leaves(m, f, i.ops[k]))
            if toplevel: continue
            formals = syms(cx.term(i.ops[0])) if i.cname == "scm_s_lambda" else set()
            body = cx.term(i.ops[1] if i.cname == "scm_s_lambda" else i.ops[0])
            free = {x for x in syms(body) if x not in formals}
            P.check(not free, "%s:%s:names" % (f.name, i.cname), "%s: %s evaluates a form naming %s in an environment where the program may have bound it" % (i.loc(), f.name, ", ".join(sorted(free))))
    # forms handed back to be evaluated in place of a construct
    for f in fs:
        if not sv.get(f.name) or f.ret != OBJ: continue
        for b in f.blocks:
            if b.term.op != "ret" or not b.term.ops: continue
            for t in leaves(m, f, b.term.ops[0]):
                if t[0] != "cons": continue
                P.count("forms handed back")
                free = syms(t)
                P.check(not free, "%s:form" % f.name, "%s hands back a form naming %s, which the program may have bound" % (f.name, ", ".join(sorted(free))))

def leaves(m, f, o, seen=None):
    seen = set() if seen is None else seen
    if o[0] == "v":
        if o[1] in seen: return set()
        seen.add(o[1])
        d = f.defs.get(o[1])
        if d is not None and d.op in ("phi", "select"):
            r = set()
            for y in (d.ops if d.op == "phi" else d.ops[1:]): r |= leaves(m, f, y, seen)
            return r
    return {walk.strip(walk.Cx(m, f, {}).term(o))}

def syms(t):
    """interned symbols that are code in a form: operators, and operands that are variables"""
    r = set()
    if not isinstance(t, tuple): return r
    if t[0] == "cons":
        r |= syms(t[1]); r |= syms(t[2])
    elif t[0] == "ld" and ("_sym_" in t[1]): r.add(t[1])
    return r
