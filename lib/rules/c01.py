"""C01: every component access is on an object whose kind is established."""
import typestate as T, axioms, ir
from typestate import K, M, names
from core import Part, Broken

NC = T.NC
SYMK = M("SYMBOL")
# Obligations the type-state engine cannot discharge by itself.
# (function, accessor prefix, operand origin or None, largest kind set accepted or None, reason)
INTERNAL = "structure built and kept by this function's own module only"
TRUST = [
  ("scm_error_internal", "sal_string_str", ("call", "scm_vformat"), M("STRING", "UNDEF"), "scm_vformat() with port #f returns a string (C17 checks the formatter)"),
  ("scm_length", "sal_cons_cdr", ("arg", "slow"), None, "the slow cursor of cycle detection trails the fast one over pairs already visited"),
  ("scm_p_list2vector", "sal_cons_", ("arg", "lst"), (NC, "LIST"), "counted walk over a list whose length was just measured as the count"),
  ("scm_s_define_macro", "sal_symbol_", None, None, "scm_s_define() succeeded with the same operand, which it required to name a symbol"),
  ("write_ss_scan", "sal_cons_cdr", None, None, "a values packet retyped as the list it is before being scanned"),
]
for _f in ("scm_listran", "scm_vectran", "qquote_internal"):
    for _st in ("_list_translator", "_vector_translator", "_sequence_translator"):
        TRUST.append((_f, "sal_", ("fld", _st), None, "quasiquote translator state: " + INTERNAL))
# hygienic macro engine
for _f, _a, _o, _m, _r in (
  ("compile_rec", "sal_cons_car", ("call", "scm_list_tail"), None, "pattern variable levels: " + INTERNAL),
  ("compile_rec", "sal_int_value", ("call", "scm_list_tail"), None, "pattern variable levels: " + INTERNAL),
  ("compile_rec", "sal_cons_car", ("arg", "rest"), None, "the last pair the list walk stopped at"),
  ("expand_hygienic_macro", "sal_cons_c", ("call", "sal_hmacro_rules"), None, "compiled rules: list of pairs built by syntax-rules"),
  ("match_reppat", "sal_subpat_obj", None, None, "match_rec() calls it only on a pattern ending in a repeatable subpattern"),
  ("match_reppat", "sal_vector_", ("arg", "form"), None, "match_rec() calls it with a vector pattern only for a vector form"),
  ("match_reppat", "sal_cons_", None, None, "accumulators consed here"),
  ("merge_subs", "sal_cons_", None, None, "substitution lists built by match_rec(), equally long by construction"),
  ("scm_s_syntax_rules", "sal_cons_car", None, (M("CONS", "INT", "SYMBOL") | T.TOP, None), "compiling the pattern changes only pairs made by the compiler"),
  ("transcribe_rec", "sal_cons_car", ("call", "scm_list_tail"), None, "substitutions made by the matcher follow the pattern's shape"),
  ("lookup_n_frames", "sal_cons_", ("arg", "env"), (NC, "LIST"), "the environment has at least the number of frames counted"),
  ("scm_identifierequalp", "sal_cons_", ("arg", "env"), None, "called with the environment of the macro use, deeper than the definition's"),
  ("scm_unpack_env", "sal_cons_", ("arg", "context"), (NC, "ENV"), "counted walk over an environment whose length was just measured"),
  ("scm_lookup_environment", "sal_cons_", None, None, "environments are built by scm_extend_environment() or validated by scm_p_eval()"),
  ("scm_lookup_frame", "sal_", ("arg", "frame"), None, "frames are built by scm_extend_environment() or validated by scm_p_eval()"),
): TRUST.append((_f, _a, _o, _m, _r))
HYG = {"compile_rec", "expand_hygienic_macro", "match_reppat", "merge_subs", "scm_s_syntax_rules", "transcribe_rec", "lookup_n_frames", "scm_identifierequalp", "scm_unpack_env"}
# the two lookups are trusted only where identifiers may be wrapped (hygienic build)
HYGONLY = HYG | {"scm_lookup_environment", "scm_lookup_frame"}
# (function, axiom obligation prefix, reason)
TRUSTAX = [
  ("guard_handler_body", "argument 0 of scm_call_continuation", "private procedure of srfi-34, called only with the continuation captured by guard"),
  ("set_cur_handlers", "store to ('g', 'scm_g_instance_static_srfi34'", "private procedure of srfi-34, called only with handler lists built there"),
]

def origins(e, f, o, seen=None):
    """where an object operand comes from: components are traced to the containing value"""
    seen = set() if seen is None else seen
    if o[0] != "v": return {o[:1] + o[1:2]}
    if o[1] in seen: return set()
    seen.add(o[1])
    d = f.defs.get(o[1])
    if d is None: return {("arg", f.names.get(o[1]))}
    if d.op == "phi": return set().union(*[origins(e, f, x, seen) for x in d.ops])
    if d.op == "select": return origins(e, f, d.ops[1], seen) | origins(e, f, d.ops[2], seen)
    if d.op == "call" and d.cname in ("sal_cons_car", "sal_cons_cdr", "sal_deref", "sal_ref_car", "sal_ref_cdr", "sal_vector_vec"):
        return origins(e, f, d.ops[0], seen)
    if d.op == "load":
        k = e.acckey(f, d)
        if k and k[0] == "fld": return {("fld", k[1])}
        return {("load",)}
    if d.op == "call": return {("call", d.cname)}
    return {(d.op,)}

def trusted(e, f, i, av, cfg):
    org = None
    for fn, acc, o, mask, why in TRUST:
        if fn != f.name or not i.cname.startswith(acc): continue
        if fn in HYGONLY and cfg != "hygienic": continue
        if mask is not None:
            if isinstance(mask, tuple):
                if not T.satisfies(av, mask): continue
            elif av[0] & ~mask: continue
        if o is not None:
            if org is None: org = origins(e, f, i.ops[0])
            if o not in org: continue
        return why
    return None

from envc import engine

def run(cfg):
    e = engine(cfg); P = Part("kinds", cfg)
    seen = {}
    for f, i, acc, want, av, ok in e.obligations():
        P.count("accesses"); seen.setdefault(f.name, 0); seen[f.name] += 1
        if ok: P.obl += 1; P.ok += 1; continue
        why = trusted(e, f, i, av, cfg)
        if why: P.trusts(why); continue
        P.bad("%s:%s" % (f.name, acc), "%s: in %s: %s needs %s, but the operand (%s) may be %s on this path" % (
            i.loc(), f.name, acc, names(want), f.names.get(i.ops[0][1]) if i.ops[0][0] == "v" else "constant", names(av[0])))
        P.obl += 1
    for f, i, what, want, av, ok in e.ax.obligations(e):
        P.count("facts established at their source")
        if ok: P.obl += 1; P.ok += 1; continue
        why = next((w for fn, p, w in TRUSTAX if fn == f.name and what.startswith(p)), None)
        if why: P.trusts(why); continue
        P.bad("%s:%s" % (f.name, what.split("(")[0].strip()), "%s: in %s: %s must be %s%s, but may be %s%s" % (
            i.loc(), f.name, what, names(want[0]), " (%s)" % want[1] if want[1] else "", names(av[0]), " (%s)" % av[1] if av[1] else ""))
        P.obl += 1
    P.count("functions analysed", len(e.reached)); P.count("functions with accesses", len(seen))
    P.need("accesses", 500); P.need("functions analysed", 400)
    convention(e, P)
    shared_env(e, P)
    for n in ("scm_p_car", "scm_p_vector_ref", "scm_call_continuation"):
        if n in seen: P.sample("%s: %d accesses checked [%s]" % (n, seen[n], cfg))
    return P

def convention(e, P):
    """procedures taking any number of arguments receive proper lists"""
    T_ = e.retv.get("map_eval")
    if T_ is not None:
        P.count("argument list producers")
        P.check(T.satisfies(T_, (NC, "LIST")), "map_eval:result", "map_eval: the evaluated argument list may be improper (%s)" % names(T_[0]))
    for c, regs in e.registered.items():
        if not any(n == "apply" for n, tc, t in regs) or c not in e.states: continue
        f = e.funcs[c]
        def cb(C, st, i):
            if i.op != "call" or i.cname is None or i.cname.startswith("sal_") or i.cname not in e.funcs: return
            if e.funcs[i.cname].noreturn or not any(o[0] == "v" and any(a[0] == o[1] and a[1] == "ptr" for a in f.args) for o in i.ops): return
            P.count("argument list producers")
            # the list itself, or the tail spliced onto a freshly built one
            direct = [o for o in i.ops if e.isobj(f, o) and T.satisfies(e.val(f, st, o, C.base), (NC, "LIST"))]
            spliced = []
            for j in f.calls():
                if j.cname == "sal_set" and e.isobj(f, j.ops[1]):
                    av = e.val(f, st, j.ops[1], C.base)
                    spliced.append(T.satisfies(av, (NC, "LIST")))
            phi_ok = any(T.satisfies(v, (NC, "LIST")) for k, v in st.items() if isinstance(k, int))
            P.check(bool(direct) or phi_ok or (spliced and all(spliced)), c + ":arglist",
                    "%s: in %s: the last argument of apply is passed on as an argument list without having been checked to be a proper list" % (i.loc(), c))
        e.walk(c, cb)

def shared_env(e, P):
    """A program-supplied environment is checked once; if the procedure then evaluates
    in the very object the program still holds, the check can be undone."""
    for c, regs in sorted(e.registered.items()):
        if c not in e.states: continue
        f = e.funcs[c]
        if all(tc & e.syntax_flag for n, tc, t in regs): continue
        args = {a[0] for a in f.args if a[1] == T.OBJ}
        for i in f.calls():
            if i.cname in ("scm_eval",) and len(i.ops) == 2:
                P.count("evaluations on behalf of a procedure")
                o = i.ops[1]
                if o[0] == "v" and o[1] in args:
                    P.bad("%s:scm_eval:shared-environment" % c, "%s: %s evaluates in the environment object its caller still owns (checked once, modifiable later)" % (i.loc(), c))
