"""Repository facts used by the type-state engine (E1).

Each one is either *checked where the value is produced* (OBLIGATION_FIELDS,
OBLIGATION_ARGS: every store / call must satisfy the role), or a statement about
the calling convention that another check decides (registered argument lists:
scm_p_apply and map_eval produce proper lists, rule R-ARGLIST in c01)."""
import typestate as T
from typestate import K, M, TOP
from ir import OBJ

ENV = (T.NC, "ENV")
LIST = (T.NC, "LIST")
CONS = (K["CONS"], None)
# (struct, member) -> value every store must satisfy, hence every load yields
FIELDS = {
  ("ScmEvalState_", "env"): ENV,
  ("scm_g_static_continuation", "l_current_dynamic_extent"): (T.NC, "PAIRLIST"),
  ("scm_continuation_frame", "dyn_ext"): (T.NC, "PAIRLIST"),
  ("scm_g_static_continuation", "l_continuation_stack"): (T.NC, "CONTLIST"),
  ("scm_g_static_srfi34", "l_current_exception_handlers"): LIST,
  ("scm_g_static_module", "l_features"): (T.NC, "STRLIST"),
  ("scm_g_static_module", "l_provided_modules"): (T.NC, "STRLIST"),
}
ELEMS = {("scm_g_symbol", "scm_symbol_hash"): (T.NC, "SYMLIST")}
CONT = (K["CONT"], None)
# (function, argument index) -> value every caller must pass
PARAMS = {("scm_call_continuation", 0): CONT, ("scm_call", 1): LIST}
# Variables of the frames srfi-34's guard creates for itself: the symbol a local
# variable is named by -> value bound to it (checked where the frame is made).
SYMVALS = {
  ("scm_g_static_srfi34", "l_sym_lex_env"): ENV,
  ("scm_g_static_srfi34", "l_sym_cond_catch"): CONS,
  ("scm_g_static_srfi34", "l_sym_guard_k"): CONT,
}
# callee -> {arg index: value the argument must satisfy}; the matching accessor yields it
ARGS = {
  "scm_make_closure": {0: CONS, 1: ENV},
  "sal_closure_set_exp": {1: CONS},
  "sal_closure_set_env": {1: ENV},
}
YIELDS = {"sal_closure_exp": CONS, "sal_closure_env": ENV}

class Axioms:
    def __init__(s, m):
        s.m = m
        tc = m.enum("ScmFuncTypeCode")
        s.SYN, s.VAR, s.TAIL, s.MASK = (tc[x] for x in ("SCM_FUNCTYPE_SYNTAX", "SCM_FUNCTYPE_VARIADIC", "SCM_FUNCTYPE_TAILREC", "SCM_FUNCTYPE_MAND_MASK"))
        s.ODD = tc["SCM_FUNCTYPE_ODDBALL"]
        s.made = None
        s.fieldkeys = {}
        s.symkeys = {}
        for (st, mem), av in SYMVALS.items():
            d = m.dtypes.get(st)
            for x in (d["mem"] if d else ()):
                if x[0] == mem: s.symkeys[("g", st.replace("scm_g_", "scm_g_instance_"), x[1])] = av
        for (st, mem), av in ELEMS.items():
            d = m.dtypes.get(st)
            for x in (d["mem"] if d else ()):
                if x[0] == mem: s.fieldkeys[("elem", st.replace("scm_g_", "scm_g_instance_"), x[1])] = av
        for (st, mem), av in FIELDS.items():
            d = m.dtypes.get(st)
            if d is None: continue
            for x in d["mem"]:
                if x[0] == mem:
                    s.fieldkeys[("fld", st, x[1])] = av
                    if st.startswith("scm_g_"):
                        s.fieldkeys[("g", st.replace("scm_g_", "scm_g_instance_"), x[1])] = av
    def registered_arg(s, e, f, k, tc):
        """calling convention of registered functions"""
        if tc & s.ODD: return None
        mand = tc & s.MASK
        oa = e.objargs(f)
        if k not in oa: return None
        pos = oa.index(k)
        if pos < mand: return None
        if tc & s.SYN:
            # syntax: mandatory forms, [rest forms], env unless tail-recursive
            if not tc & s.TAIL and pos == len(oa) - 1: return ENV
            return None
        if tc & s.VAR and pos == mand: return LIST
        return None
    def callback_arg(s, e, f, k):
        """functions turned into Scheme functions by scm_make_func(type code, f)"""
        if s.made is None:
            s.made = {}
            for g in e.funcs.values():
                for i in g.calls():
                    if i.cname == "scm_make_func" and i.ops[0][0] == "i" and i.ops[1][0] == "f":
                        s.made.setdefault(i.ops[1][1], set()).add(i.ops[0][1])
        if f.name in s.made:
            r = [s.registered_arg(e, f, k, tc) for tc in s.made[f.name]]
            if None not in r: 
                a = T.AV_BOT
                for x in r: a = T.join(a, x)
                return a
        return None
    def mem(s, e, f, key):
        return s.fieldkeys.get(key)
    def ret(s, e, f, rv): return None
    def accessor(s, e, C, st, i):
        return YIELDS.get(i.cname)
    def symkey(s, e, C, o):
        if o[0] != "v": return None
        d = C.f.defs.get(o[1])
        if d is None or d.op != "load": return None
        return s.symkeys.get(e.acckey(C.f, d))
    def call(s, e, C, st, i):
        if i.cname == "scm_symbol_value":
            av = s.symkey(e, C, i.ops[0])
            if av is not None: return av, st
        if i.cname == "scm_unwrap_keyword":
            av = e.val(C.f, st, i.ops[0], C.base)
            if av[0] & ~(K["SYMBOL"] | K["FARSYM"]) == 0: return (K["SYMBOL"], None), st
            return (av[0] & ~K["FARSYM"] | K["SYMBOL"], None), st
        return None
    def param(s, e, g, k, av): return PARAMS.get((g.name, k))
    def indirect_ret(s, e, f, i): return None
    def refine_call(s, e, C, st, d, truth):
        if d.cname == "scm_valid_environmentp" and truth:
            return e.assume(st, d.ops[0], ENV, C.base)
        return st
    def refine_icmp(s, e, C, st, pred, a, b, truth):
        # scm_length(x) >= 0  <=>  x is a proper list
        f = C.f
        if a[0] == "i" and b[0] != "i":
            a, b = b, a
            pred = {"slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle"}.get(pred, pred)
        if b[0] != "i" or st is None: return st
        d = e.strip(f, a)
        if d is None or d.op != "call" or d.cname not in ("scm_length", "scm_finite_length"): return st
        p, n = pred, b[1]
        if not truth: p = {"eq": "ne", "ne": "eq", "slt": "sge", "sge": "slt", "sgt": "sle", "sle": "sgt"}.get(p)
        lo = None
        if p == "eq" and n >= 0: lo = n
        elif p == "sge" and n >= 0: lo = n
        elif p == "sgt" and n >= -1: lo = n + 1
        if lo is None: return st
        return e.assume(st, d.ops[0], (K["CONS"] if lo else T.NC, "LIST%d" % lo if 0 < lo <= 6 else "LIST"), C.base)
    # ---- extra obligations ------------------------------------------------
    def obligations(s, e):
        res = []
        for fn in sorted(e.reached):
            if fn not in e.states: continue
            f = e.funcs[fn]
            def cb(C, st, i):
                if i.op == "store" and i.get("vty") == OBJ:
                    key = e.acckey(C.f, i)
                    want = s.fieldkeys.get(key)
                    if want is None: return
                    av = e.val(C.f, st, i.ops[0], C.base)
                    res.append((C.f, i, "store to %s" % (key,), want, av, T.satisfies(av, want)))
                elif i.op == "call" and i.cname == "scm_extend_environment":
                    fo, ac = i.ops[0], i.ops[1]
                    while True:
                        x, y = (C.f.defs.get(o[1]) if o[0] == "v" else None for o in (fo, ac))
                        if x is None or x.op != "call" or x.cname != "scm_make_cons": break
                        want = s.symkey(e, C, x.ops[0])
                        if want is not None:
                            if y is None or y.op != "call" or y.cname != "scm_make_cons": av = T.AV_TOP
                            else: av = e.val(C.f, st, y.ops[0], C.base)
                            res.append((C.f, i, "value of a guard frame variable", want, av, T.satisfies(av, want)))
                        if y is None or y.op != "call" or y.cname != "scm_make_cons": break
                        fo, ac = x.ops[1], y.ops[1]
                if i.op == "call" and any((i.cname, k) in PARAMS for k in range(len(i.ops))):
                    for k in range(len(i.ops)):
                        want = PARAMS.get((i.cname, k))
                        if want is None: continue
                        av = e.val(C.f, st, i.ops[k], C.base)
                        res.append((C.f, i, "argument %d of %s" % (k, i.cname), want, av, T.satisfies(av, want)))
                elif i.op == "call" and i.cname in ARGS:
                    for k, want in ARGS[i.cname].items():
                        av = e.val(C.f, st, i.ops[k], C.base)
                        res.append((C.f, i, "argument %d of %s" % (k, i.cname), want, av, T.satisfies(av, want)))
                elif i.op == "call" and i.cname == "scm_gc_protect_with_init":
                    key = e.memkey(C.f, i.ops[0]); want = s.fieldkeys.get(key)
                    if want is None: return
                    av = e.val(C.f, st, i.ops[1], C.base)
                    res.append((C.f, i, "initial value of %s" % (key,), want, av, T.satisfies(av, want)))
            e.walk(fn, cb)
        return res

def make(m):
    return T.Engine(m, Axioms(m))
