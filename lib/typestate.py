"""E1: interprocedural object type-state.

Abstract value of an object = (mask of kinds it may have, shape).  Kinds are
immutable per object, so a fact about an SSA value is never killed.
"""
import sys, collections
from ir import Module, OBJ

KINDS = ["INT","CONS","SYMBOL","CHAR","STRING","PROC","SYNTAX","CLOSURE","VECTOR","PORT","CONT","VPACKET",
         "HMACRO","FARSYM","SUBPAT","CPTR","CFPTR","FREECELL","NULL","TRUE","FALSE","EOF","UNBOUND","UNDEF","INVALID"]
K = {n: 1 << i for i, n in enumerate(KINDS)}
TOP = (1 << len(KINDS)) - 1
def M(*ns):
    r = 0
    for n in ns: r |= K[n]
    return r
CONSTS = M("NULL","TRUE","FALSE","EOF","UNBOUND","UNDEF","INVALID")
FUNC = M("PROC","SYNTAX")
LISTK = M("NULL","CONS")
def names(m):
    if m == TOP: return "anything"
    return "|".join(n for n in KINDS if m & K[n]) or "nothing"

PRED = {"sal_intp": M("INT"), "sal_consp": M("CONS"), "sal_symbolp": M("SYMBOL"), "sal_charp": M("CHAR"),
        "sal_stringp": M("STRING"), "sal_funcp": FUNC, "sal_closurep": M("CLOSURE"), "sal_vectorp": M("VECTOR"),
        "sal_portp": M("PORT"), "sal_continuationp": M("CONT"), "sal_valuepacketp": M("VPACKET"),
        "sal_hmacrop": M("HMACRO"), "sal_farsymbolp": M("FARSYM"), "sal_subpatp": M("SUBPAT"),
        "sal_constantp": CONSTS, "sal_c_pointerp": M("CPTR"), "sal_c_funcpointerp": M("CFPTR"),
        "sal_freecellp": M("FREECELL")}
GLOBCONST = {"sal_k_null": "NULL", "sal_k_invalid": "INVALID", "sal_k_unbound": "UNBOUND", "sal_k_false": "FALSE",
             "sal_k_true": "TRUE", "sal_k_eof": "EOF", "sal_k_undef": "UNDEF"}
TYPEKINDS = {"ScmCons": M("CONS"), "ScmInt": M("INT"), "ScmChar": M("CHAR"), "ScmSymbol": M("SYMBOL"),
  "ScmString": M("STRING"), "ScmFunc": FUNC, "ScmClosure": M("CLOSURE"), "ScmVector": M("VECTOR"),
  "ScmConstant": CONSTS, "ScmContinuation": M("CONT"), "ScmValuePacket": M("VPACKET"), "ScmPort": M("PORT"),
  "ScmFreeCell": M("FREECELL"), "ScmMacro": M("HMACRO"), "ScmFarsymbol": M("FARSYM"), "ScmSubpat": M("SUBPAT"),
  "ScmCFuncPointer": M("CFPTR"), "ScmCPointer": M("CPTR"), "ScmRational": 0, "ScmReal": 0, "ScmComplex": 0}
# accessor -> kinds its first argument must have
REQ = {}
for pre, k in (("sal_int_", "INT"), ("sal_cons_", "CONS"), ("sal_symbol_", "SYMBOL"), ("sal_char_", "CHAR"),
               ("sal_string_", "STRING"), ("sal_closure_", "CLOSURE"), ("sal_vector_", "VECTOR"), ("sal_port_", "PORT"),
               ("sal_continuation_", "CONT"), ("sal_valuepacket_", "VPACKET"), ("sal_valuecons_", "VPACKET"),
               ("sal_hmacro_", "HMACRO"), ("sal_farsymbol_", "FARSYM"), ("sal_subpat_", "SUBPAT"),
               ("sal_c_pointer_", "CPTR"), ("sal_c_funcpointer_", "CFPTR"), ("sal_ref_car", "CONS"), ("sal_ref_cdr", "CONS")):
    REQ[pre] = K[k]
REQ["sal_func_"] = FUNC
REQ["sal_entype"] = M("CONS", "VPACKET")
def required(name):
    if name in PRED or name is None or not name.startswith("sal_"): return None
    for p, m in REQ.items():
        if name.startswith(p): return m
    return None
MAKERS = {"scm_make_cons": "CONS", "scm_make_immutable_cons": "CONS", "scm_make_symbol": "SYMBOL", "scm_make_int": "INT",
  "sal_make_int": "INT", "scm_make_char": "CHAR", "sal_make_char": "CHAR", "scm_make_string": "STRING",
  "scm_make_string_copying": "STRING", "scm_make_immutable_string": "STRING", "scm_make_immutable_string_copying": "STRING",
  "scm_make_func": "FUNC", "scm_make_closure": "CLOSURE", "scm_make_vector": "VECTOR", "scm_make_immutable_vector": "VECTOR",
  "scm_make_port": "PORT", "scm_make_continuation": "CONT", "scm_make_value_packet": "VPACKET",
  "sal_make_valuepacket": "VPACKET", "scm_make_cpointer": "CPTR", "scm_make_cfunc_pointer": "CFPTR",
  "scm_make_hmacro": "HMACRO", "scm_make_farsymbol": "FARSYM", "scm_make_subpat": "SUBPAT"}
MAKERM = {k: (FUNC if v == "FUNC" else K[v]) for k, v in MAKERS.items()}

# Shapes: LIST (proper list) and roles of deep internal structures.
# role -> (kinds, car, cdr); None for a component means "anything".
NC = LISTK
ROLES = {
  "LIST":    (NC, None, (NC, "LIST")),
  "ENV":     (NC, (K["CONS"], "FRAME"), (NC, "ENV")),
  "FRAME":   (K["CONS"], None, (K["CONS"], "ACTUALS")),
  "ACTUALS": (K["CONS"], None, (K["CONS"], "ACTUALS")),
  "PAIRLIST": (NC, (K["CONS"], None), (NC, "PAIRLIST")),
  "CONTLIST": (NC, (K["CONT"], None), (NC, "CONTLIST")),
  "QDIFF":   (NC, (K["CONS"], "QREC"), (NC, "QDIFF")),
  "QREC":    (K["CONS"], (K["INT"], None), None),
  "SYMLIST": (NC, (K["SYMBOL"], None), (NC, "SYMLIST")),
  "STRLIST": (NC, (K["STRING"], None), (NC, "STRLIST")),
  "CHARLIST": (NC, (K["CHAR"], None), (NC, "CHARLIST")),
}
for _n in range(1, 7):      # proper lists of at least n elements
    ROLES["LIST%d" % _n] = (K["CONS"], None, (NC, "LIST") if _n == 1 else (K["CONS"], "LIST%d" % (_n - 1)))
SUBLIST = {"LIST%d" % n for n in range(1, 7)} | {"SYMLIST", "STRLIST", "CHARLIST", "ENV", "PAIRLIST", "CONTLIST", "QDIFF"}
NULLABLE = {r for r, v in ROLES.items() if v[0] & K["NULL"]}
AV_TOP = (TOP, None)
AV_BOT = (0, None)
def sjoin(a, b, ma, mb):
    if ma == 0: return b
    if mb == 0: return a
    if a == b: return a
    # the empty list is a value of every list-like role
    if ma == K["NULL"] and b in NULLABLE: return b
    if mb == K["NULL"] and a in NULLABLE: return a
    # scm_eval() also takes a marker (the eof object) for "no definitions here"
    if a == "ENV" and mb & ~(K["EOF"] | K["NULL"]) == 0: return a
    if b == "ENV" and ma & ~(K["EOF"] | K["NULL"]) == 0: return b
    if (a == "LIST" or a in SUBLIST) and (b == "LIST" or b in SUBLIST): 
        if a[:4] == b[:4] == "LIST" and len(a) == len(b) == 5: return min(a, b)
        return "LIST"
    if mb == K["NULL"] and a in SUBLIST or ma == K["NULL"] and b in SUBLIST: return "LIST"
    return None
def component(av, which):
    """value of the car/cdr of an object with abstract value av"""
    r = ROLES.get(av[1])
    if r is None: return AV_TOP
    x = r[1] if which == "car" else r[2]
    return x if x is not None else AV_TOP
def satisfies(av, want):
    """av is acceptable where `want` is required"""
    if av[0] & ~want[0]: return False
    if want[1] is None or av[0] == 0: return True
    if av[1] == want[1]: return True
    if want[1] == "LIST" and av[1] in SUBLIST: return True
    if want[1] in NULLABLE and av[0] == K["NULL"]: return True
    if want[1] in ("FRAME", "ACTUALS", "QREC"): return True      # any pair: agreement is established by construction
    return False
def consrole(a, b):
    """role of a fresh pair of a and b"""
    if b[0] == K["NULL"]:
        for k, r in (("CONS", "PAIRLIST"), ("CONT", "CONTLIST"), ("SYMBOL", "SYMLIST"), ("STRING", "STRLIST"), ("CHAR", "CHARLIST")):
            if a[0] == K[k]: return r
        return "LIST"
    for r in ("ENV", "PAIRLIST", "CONTLIST", "QDIFF", "SYMLIST", "STRLIST", "CHARLIST", "LIST"):
        k, car, cdr = ROLES[r]
        if b[1] == r and (car is None or satisfies(a, car)) and satisfies(b, cdr): return r
    if b[1] == "LIST" or b[1] in SUBLIST: return "LIST"
    return None
def join(a, b):
    if a is b or a == b: return a
    return (a[0] | b[0], sjoin(a[1], b[1], a[0], b[0]))
RANK = {"LIST": 1}
for _n in range(1, 7): RANK["LIST%d" % _n] = 1 + _n
for _r in ("SYMLIST", "STRLIST", "CHARLIST"): RANK[_r] = 10
def meet(a, b):
    r = a[1]
    if r is None or (b[1] is not None and RANK.get(b[1], 20) > RANK.get(r, 20)): r = b[1]
    return (a[0] & b[0], r)

def typeclosure(m):
    """kinds that share a dynamic type with a kind in m"""
    if m & CONSTS: m |= CONSTS
    if m & FUNC: m |= FUNC
    return m
class FnState: pass
class CK(tuple):
    """state key for a fact about the car/cdr of an object: CK((which, operand))"""
    __slots__ = ()

class Engine:
    def __init__(s, mod, axioms=None):
        s.mod = mod
        s.ax = axioms
        s.funcs = {f.name: f for f in mod.defined()}
        en = {}
        for d in list(mod.dtypes.values()):
            if d["tag"] == "enum" and d["name"] == "ScmObjType":
                en = {m[1]: m[0] for m in d["mem"] if m[0] in TYPEKINDS}
        if len(en) < 15: raise RuntimeError("analysis broken: enum ScmObjType not found")
        s.typeval = {v: TYPEKINDS[n] for v, n in en.items()}
        s.syntax_flag = mod.enum("ScmFuncTypeCode")["SCM_FUNCTYPE_SYNTAX"]
        s.registered = collections.defaultdict(list)
        for t, n, c, tc in mod.funcdescs():
            if c: s.registered[c].append((n, tc, t))
        s.param = {}      # fn -> {arg index: AV}
        s.retv = {}       # fn -> AV
        s.post = {}       # fn -> {arg index: AV}   on normal return
        s.predt = {}      # fn -> {arg index: AV} when integer result is non-zero
        s.predf = {}
        s.memv = {}       # memory key -> AV
        s.reached = set()
        s.callers = collections.defaultdict(set)
        s.memreaders = collections.defaultdict(set)
        s.callsites = collections.defaultdict(list)
        s.work = collections.deque(); s.inwork = set()
        s.addr_taken = s.find_addr_taken()
        s.refescaped = set()
        s.prep = {}
        s.states = {}
        s._mut = None
        s._sig = None
        s.curf = None

    # ---- setup -----------------------------------------------------------
    def find_addr_taken(s):
        at = set()
        def walk(v):
            if not isinstance(v, (list, tuple)) or not v: return
            if v[0] == "f": at.add(v[1]); return
            for x in v[1:]:
                if isinstance(x, (list, tuple)): 
                    if x and isinstance(x[0], (list, tuple)):
                        for y in x: walk(y)
                    else: walk(x)
        for n, g in s.mod.globals.items():
            if g.get("init") and not n.startswith("scm_functable_"): walk(g["init"])
        for f in s.funcs.values():
            for i in f.instrs():
                for o in i.ops: 
                    if o[0] in ("f", "ce"): walk(o)
        return at
    def objargs(s, f): return [k for k, a in enumerate(f.args) if a[1] == OBJ]
    def push(s, fn):
        if fn not in s.inwork: s.inwork.add(fn); s.work.append(fn)
    def join_param(s, fn, k, av):
        d = s.param.setdefault(fn, {})
        o = d.get(k, AV_BOT); n = join(o, av)
        if n != o: d[k] = n; s.push(fn)
    def reach(s, fn):
        if fn not in s.reached:
            s.reached.add(fn); s.param.setdefault(fn, {}); s.push(fn)
    def roots(s):
        for c, l in s.registered.items():
            if c not in s.funcs: continue
            f = s.funcs[c]; s.reach(c)
            oa = s.objargs(f)
            for k in oa:
                av = AV_TOP
                for (n, tc, t) in l:
                    x = s.ax.registered_arg(s, f, k, tc) if s.ax else None
                    if x is not None: av = x
                s.join_param(c, k, av)
        for fn in s.addr_taken:
            if fn in s.funcs:
                s.reach(fn)
                for k in s.objargs(s.funcs[fn]):
                    x = s.ax.callback_arg(s, s.funcs[fn], k) if s.ax else None
                    s.join_param(fn, k, x if x is not None else AV_TOP)
        for fn in ("main", "scm_initialize", "scm_finalize"):
            if fn in s.funcs: s.reach(fn)

    # ---- memory keys ------------------------------------------------------
    def acckey(s, f, i):
        """abstract location accessed by a load or store"""
        k = s.memkey(f, i.ops[0] if i.op == "load" else i.ops[1])
        if k and k[0] == "g": return k
        tb = i.get("tbaa")
        if tb: return ("fld", tb[0], tb[1])
        return k
    def memkey(s, f, v, depth=0):
        """abstract location of a pointer-to-object operand, or None"""
        if depth > 8: return None
        if v[0] == "g": return ("g", v[1], 0)
        if v[0] == "ge":
            b = s.memkey(f, v[1], depth + 1)
            if b and b[0] in ("g",): return (b[0], b[1], b[2] + v[2])
            return None
        if v[0] != "v": return None
        d = f.defs.get(v[1])
        if d is None:
            for k, a in enumerate(f.args):
                if a[0] == v[1]: return ("pp", f.name, k)
            return None
        if d.op == "alloca":
            return ("al", f.name, d.id, 0)
        if d.op == "getelementptr":
            sty = d.get("sty"); off = d.get("off")
            if sty and sty.startswith("%struct.") and off is not None:
                b = s.memkey(f, d.ops[0], depth + 1)
                if b and b[0] == "g": return ("g", b[1], b[2] + off)
                return ("fld", sty[len("%struct."):], off)
            if off is not None:
                b = s.memkey(f, d.ops[0], depth + 1)
                if b and b[0] == "g": return ("g", b[1], b[2] + off)
                if b and b[0] == "al": return ("al", b[1], b[2], b[3] + off)
            else:
                # element of a local object array
                b = s.memkey(f, d.ops[0], depth + 1)
                if b and b[0] == "al": return ("al", b[1], b[2], "*")
                # element of an array a global points to
                if d.ops[0][0] == "v":
                    l = f.defs.get(d.ops[0][1])
                    if l is not None and l.op == "load":
                        b = s.memkey(f, l.ops[0], depth + 1)
                        if b and b[0] == "g": return ("elem", b[1], b[2])
            return None
        if d.op in ("bitcast", "freeze"): return s.memkey(f, d.ops[0], depth + 1)
        return None
    def alloca_info(s, f):
        """classify scalar object allocas: escaping ways"""
        key = f.name
        if key in s.prep: return s.prep[key]
        info = {"refs": set(), "fwd": {}, "escape": set(), "pp": collections.defaultdict(list), "refcalls": set()}
        uses = f.uses()
        for i in f.calls():
            if i.cname == "sal_ref_off_heap":
                k = s.memkey(f, i.ops[0])
                if k and k[0] in ("fld", "g"): s.refescaped.add(k)
                # a reference kept in a local queue object that is handed to callees
                for (u, n) in uses.get(i.id, []):
                    if u.op == "store" and n == 0:
                        q = u.ops[1]
                        for (u2, n2) in uses.get(q[1], []) if q[0] == "v" else []:
                            if u2.op == "call" and u2.cname in s.funcs: info["refcalls"] |= s.callclosure(u2.cname)
        for i in f.instrs():
            if i.op != "alloca": continue
            st = [(i, 0)]
            for (u, k) in uses.get(i.id, []):
                if u.op in ("load",): continue
                if u.op == "store" and k == 1: continue
                if u.op == "getelementptr": continue
                if u.op == "call":
                    cn = u.cname
                    if cn == "sal_ref_off_heap": info["refs"].add(i.id); continue
                    if cn and cn.startswith("llvm."): continue
                    if cn in s.funcs: info["pp"][i.id].append((cn, k)); continue
                    info["escape"].add(i.id)
                elif u.op == "store": info["escape"].add(i.id)
                elif u.op in ("phi", "select"): info["refs"].add(i.id)
        # store-to-load forwarding through references inside a block
        for b in f.blocks:
            last = {}
            for i in b.ins:
                if i.op == "call":
                    cn = i.cname
                    if cn == "sal_set": last = {s.refkey(f, i.ops[0]): i.ops[1]}
                    elif cn == "sal_deref":
                        if s.refkey(f, i.ops[0]) in last: info["fwd"][i.id] = last[s.refkey(f, i.ops[0])]
                    elif cn and (cn in PRED or s.is_ro(cn)): pass
                    else: last = {}
                elif i.op == "store": last = {}
        s.prep[key] = info
        return info
    def refkey(s, f, o):
        d = f.defs.get(o[1]) if o[0] == "v" else None
        if d is not None and d.op == "load": return ("ld", d.ops[0])
        return o
    def callclosure(s, fn):
        seen = {fn}; st = [fn]
        while st:
            for i in s.funcs[st.pop()].calls():
                c = i.cname
                if c in s.funcs and c not in seen and not s.funcs[c].noreturn: seen.add(c); st.append(c)
        return {c for c in seen if any(i.cname == "sal_set" for i in s.funcs[c].calls())}
    def targets(s, f, i):
        """functions an indirect call may reach: address taken, same shape of signature"""
        if s._sig is None:
            s._sig = collections.defaultdict(set)
            for n in set(s.addr_taken) | set(s.registered):
                g = s.funcs.get(n)
                if g is not None: s._sig[(g.ret, tuple(a[1] == OBJ for a in g.args))].add(n)
        return s._sig.get((i.ty or "void", tuple(s.isobjop(f, o) for o in i.ops)), set())
    def isobjop(s, f, o): return s.isobj(f, o) or (o[0] == "u" and o[1] == OBJ)
    def call_mutates(s, f, i):
        """may this call change a pair that already exists?"""
        c = i.cname
        if c in ("sal_cons_set_car", "sal_cons_set_cdr", "sal_set"): return True
        if i.get("nr") or (c in s.mod.fns and s.mod.fns[c].noreturn): return False
        if c is None: return any(s.may_mutate(x) for x in s.targets(f, i))
        return c in s.funcs and s.may_mutate(c)
    def killck(s, st):
        if any(type(k) is CK for k in st): return {k: v for k, v in st.items() if type(k) is not CK}
        return st
    def may_mutate(s, cn):
        """may running cn change a pair that already exists?"""
        if s._mut is None:
            direct = set(); calls = {}
            for f in s.funcs.values():
                cs = set()
                for i in f.calls():
                    c = i.cname
                    if i.get("nr") or (c in s.mod.fns and s.mod.fns[c].noreturn): continue
                    if c is None: cs |= s.targets(f, i)
                    elif c in ("sal_cons_set_car", "sal_cons_set_cdr", "sal_set", "longjmp", "siglongjmp"): direct.add(f.name)
                    elif c in s.funcs: cs.add(c)
                calls[f.name] = cs
            ch = True
            while ch:
                ch = False
                for n, cs in calls.items():
                    if n not in direct and cs & direct: direct.add(n); ch = True
            s._mut = direct
        return cn in s._mut
    def is_ro(s, cn):
        f = s.mod.fns.get(cn)
        return bool(f and (f.ro or f.rn))

    def mem_join(s, key, av):
        if key is None: return
        o = s.memv.get(key, AV_BOT); n = join(o, av)
        if n != o:
            s.memv[key] = n
            for r in s.memreaders.get(key, ()): s.push(r)
    def mem_read(s, f, key, info):
        if key is None: return AV_TOP
        if s.ax:
            x = s.ax.mem(s, f, key)
            if x is not None: return x
        s.memreaders[key].add(f.name)
        if key[0] == "al":
            if key[2] in info["escape"]: return AV_TOP
            av = s.memv.get(("al", key[1], key[2], key[3]), AV_BOT)
            star = s.memv.get(("al", key[1], key[2], "*"), AV_BOT); s.memreaders[("al", key[1], key[2], "*")].add(f.name)
            av = join(av, star)
            if key[3] == "*":
                for k2, v2 in s.memv.items():
                    if k2[0] == "al" and k2[1:3] == key[1:3]: av = join(av, v2)
            if key[2] in info["refs"]:
                rk = ("ref", f.name); s.memreaders[rk].add(f.name)
                av = join(av, s.memv.get(rk, AV_BOT))
                for c in info["refcalls"]:
                    rk = ("ref", c); s.memreaders[rk].add(f.name)
                    av = join(av, s.memv.get(rk, AV_BOT))
            for (cn, k) in info["pp"].get(key[2], ()):
                pk = ("ppst", cn, k); s.memreaders[pk].add(f.name)
                av = join(av, s.memv.get(pk, AV_BOT))
            return av
        if key[0] == "pp":
            # contents of what callers pass
            pk = ("ppin", key[1], key[2]); s.memreaders[pk].add(f.name)
            av = s.memv.get(pk, AV_BOT)
            pk = ("ppst", key[1], key[2]); s.memreaders[pk].add(f.name)
            return join(av, s.memv.get(pk, AV_BOT))
        if key in s.refescaped: return AV_TOP
        return s.memv.get(key, AV_BOT)

    # ---- one function -------------------------------------------------------
    def val(s, f, st, o, base):
        """abstract value of an object operand"""
        t = o[0]
        if t == "v":
            x = st.get(o[1])
            if x is not None: return x
            return base.get(o[1], AV_BOT)
        if t == "g":
            if o[1] in GLOBCONST:
                k = GLOBCONST[o[1]]
                return (K[k], "LIST" if k == "NULL" else None)
            return AV_TOP
        if t == "n": return (K["INVALID"], None)
        if t == "u": return AV_BOT
        return AV_TOP
    def assume(s, st, o, av, base):
        """st with operand o restricted to av; None if impossible"""
        if o[0] != "v":
            cur = s.val(None, st, o, base)
            return st if cur[0] & av[0] else None
        cur = st.get(o[1]) or base.get(o[1], AV_BOT)
        if cur[0] == 0 and o[1] in s.undefphi: return st
        n = meet(cur, av)
        if n[0] == 0: return None
        if n != cur or o[1] not in st or any(type(k) is tuple for k in st):
            st2 = dict(st); st2[o[1]] = n
            d = s.curf.defs.get(o[1]) if s.curf is not None else None
            if d is not None and d.op == "call" and d.cname in ("sal_cons_car", "sal_cons_cdr"):
                ck = CK((d.cname[-3:], d.ops[0]))
                if ck in st2 and st2[ck][1] == o[1]: st2[ck] = (n, o[1])
            for k in st:
                if type(k) is tuple and (k[1] == o or k[2] == o):
                    p = k[2] if k[1] == o else k[1]
                    if p[0] != "v": continue
                    cp = st2.get(p[1]) or base.get(p[1], AV_BOT)
                    st2[p[1]] = (cp[0] & typeclosure(n[0]), cp[1])
                    if st2[p[1]][0] == 0 and cp[0] != 0: return None
            return st2
        return st
    def joinst(s, a, b, base):
        if a is None: return b
        if b is None: return a
        if a is b: return a
        r = {}
        for k, v in a.items():
            w = b.get(k)
            if type(k) is tuple:
                if w is not None: r[k] = v
                continue
            if type(k) is CK:
                if w is not None:
                    r[k] = (join(v[0], w[0]), v[1] if v[1] == w[1] else None)
                continue
            if w is None: w = base.get(k)
            if w is None: r[k] = v; continue      # not yet defined on the other side
            r[k] = join(v, w)
        for k, w in b.items():
            if k not in a and type(k) is not tuple and type(k) is not CK:
                v = base.get(k)
                r[k] = w if v is None else join(v, w)
        return r
    def refine(s, C, st, o, truth, depth=0):
        """state in which integer operand o is (truth ? non-zero : zero)"""
        if st is None: return None
        f, base = C.f, C.base
        if o[0] == "i": return st if bool(o[1]) == truth else None
        if o[0] != "v" or depth > 12: return st
        d = f.defs.get(o[1])
        if d is None: return st
        if d.op in ("zext", "sext", "trunc", "freeze"): return s.refine(C, st, d.ops[0], truth, depth + 1)
        if d.op == "xor" and d.ops[1] == ("i", -1, 1): return s.refine(C, st, d.ops[0], not truth, depth + 1)
        if d.op == "xor" and d.ops[1][0] == "i" and d.ops[1][1] == 1: return s.refine(C, st, d.ops[0], not truth, depth + 1)
        if d.op == "and" and d.ty == "i1":
            if truth: return s.refine(C, s.refine(C, st, d.ops[0], True, depth+1), d.ops[1], True, depth+1)
            return s.joinst(s.refine(C, st, d.ops[0], False, depth+1), s.refine(C, st, d.ops[1], False, depth+1), base)
        if d.op == "or" and d.ty == "i1":
            if not truth: return s.refine(C, s.refine(C, st, d.ops[0], False, depth+1), d.ops[1], False, depth+1)
            return s.joinst(s.refine(C, st, d.ops[0], True, depth+1), s.refine(C, st, d.ops[1], True, depth+1), base)
        if d.op == "select":
            a = s.refine(C, s.refine(C, st, d.ops[0], True, depth+1), d.ops[1], truth, depth+1)
            b = s.refine(C, s.refine(C, st, d.ops[0], False, depth+1), d.ops[2], truth, depth+1)
            return s.joinst(a, b, base)
        if d.op == "phi":
            acc = None; first = True
            for v, p in zip(d.ops, d.raw["in"]):
                e = C.edge.get((p, d.blk.id))
                if e is None: continue
                r = s.refine(C, e, v, truth, depth + 1)
                if r is None: continue
                acc = r if first else s.joinst(acc, r, base); first = False
            if first: return None
            # combine with what is already known here
            out = dict(st)
            for k, v in acc.items():
                if type(k) is tuple or type(k) is CK: continue
                if k in C.phi_of.get(d.blk.id, ()): continue
                dk = f.defs.get(k)
                cur = out.get(k) or base.get(k)
                if k in s.undefphi and (v[0] == 0 or (cur is not None and cur[0] == 0)): continue
                n = meet(cur, v) if cur is not None else v
                if n[0] == 0: return None
                out[k] = n
            # object phis of the same block: re-evaluate along the surviving edges
            for ph in d.blk.phis:
                if ph.ty != OBJ: continue
                av = AV_BOT
                byp = dict(zip(ph.raw["in"], ph.ops))
                for iv, p in zip(d.ops, d.raw["in"]):
                    v = byp[p]
                    e = C.edge.get((p, d.blk.id))
                    if e is None: continue
                    r = s.refine(C, e, iv, truth, depth + 1)
                    if r is None: continue
                    av = join(av, s.val(f, r, v, base))
                cur = out.get(ph.id) or base.get(ph.id, AV_BOT)
                if ph.id in s.undefphi and (av[0] == 0 or cur[0] == 0):
                    out[ph.id] = av
                    continue
                n = meet(cur, av)
                if n[0] == 0: return None
                out[ph.id] = n
            return out
        if d.op == "icmp":
            return s.refine_icmp(C, st, d.get("pred"), d.ops[0], d.ops[1], truth, depth)
        if d.op == "call":
            return s.refine_call(C, st, d, truth)
        if d.op == "and" and d.ops[1][0] == "i":
            # bit test of a function type code
            x = s.strip(f, d.ops[0])
            if x is not None and x.op == "call" and x.cname == "sal_func_typecode" and d.ops[1][1] & s.syntax_flag:
                if d.ops[1][1] == s.syntax_flag:
                    return s.assume(st, x.ops[0], (K["SYNTAX"] if truth else TOP & ~K["SYNTAX"], None), base)
        return st
    def strip(s, f, o):
        while o[0] == "v":
            d = f.defs.get(o[1])
            if d is None: return None
            if d.op in ("zext", "sext", "trunc", "freeze"): o = d.ops[0]; continue
            return d
        return None
    def refine_call(s, C, st, d, truth):
        cn = d.cname; base = C.base
        if cn in PRED:
            m = PRED[cn]
            st = s.assume(st, d.ops[0], (m if truth else TOP & ~m, None), base)
            if cn == "sal_consp" and not truth and st is not None: st = s.walked(C, st, d.ops[0])
            return st
        if cn == "sal_nullvaluesp" and truth:
            return s.assume(st, d.ops[0], (K["VPACKET"], None), base)
        if cn in s.funcs:
            tab = (s.predt if truth else s.predf).get(cn)
            if tab is not None:
                for k, av in tab.items():
                    if av[0] == 0: return None
                    st = s.assume(st, d.ops[k], av, base)
                    if st is None: return None
            if s.ax: st = s.ax.refine_call(s, C, st, d, truth)
        return st
    CMP = {"eq": lambda a, b: a == b, "ne": lambda a, b: a != b, "sgt": lambda a, b: a > b, "sge": lambda a, b: a >= b,
           "slt": lambda a, b: a < b, "sle": lambda a, b: a <= b}
    def refine_icmp(s, C, st, pred, a, b, truth, depth):
        f, base = C.f, C.base
        if pred in ("eq", "ne"):
            eq = (pred == "eq") == truth
            # object identity
            oa, ob = s.isobj(f, a), s.isobj(f, b)
            if oa or ob:
                va, vb = s.val(f, st, a, base), s.val(f, st, b, base)
                if eq:
                    m = (va[0] & vb[0], None)
                    st = s.assume(st, a, m, base)
                    st = s.assume(st, b, m, base) if st is not None else None
                    if st is not None and b == ("g", "sal_k_null"): st = s.walked(C, st, a)
                    return st
                SING = CONSTS
                if b[0] == "g" and b[1] in GLOBCONST: return s.assume(st, a, (TOP & ~vb[0], None), base)
                if a[0] == "g" and a[1] in GLOBCONST: return s.assume(st, b, (TOP & ~va[0], None), base)
                return st
            if eq and a[0] == "v" and b[0] == "v":
                da, db = s.strip(f, a), s.strip(f, b)
                if da is not None and db is not None and da.op == db.op == "call" and da.cname == db.cname == "sal_type":
                    x, y = da.ops[0], db.ops[0]
                    st = dict(st)
                    st[("same", x, y)] = (TOP, None)
                    st = s.assume(st, x, s.val(f, st, x, base), base)
                    return s.assume(st, y, s.val(f, st, y, base), base) if st is not None else None
            if b[0] == "i" or a[0] == "i":
                if a[0] == "i": a, b = b, a
                d = s.strip(f, a)
                if d is not None:
                    if d.op == "call" and d.cname == "sal_type":
                        m = s.typeval.get(b[1], 0)
                        return s.assume(st, d.ops[0], (m if eq else TOP & ~m, None), base)
                    if b[1] == 0:
                        return s.refine(C, st, a, not eq, depth + 1)
                    if d.op == "and" and d.ops[1][0] == "i":
                        x = s.strip(f, d.ops[0])
                        if x is not None and x.op == "call" and x.cname == "sal_func_typecode" and (d.ops[1][1] & s.syntax_flag) and eq:
                            k = K["SYNTAX"] if b[1] & s.syntax_flag else TOP & ~K["SYNTAX"]
                            return s.assume(st, x.ops[0], (k, None), base)
                    if d.op in ("icmp", "phi", "call", "select") and b[1] == 1 and (d.ty == "i1"):
                        return s.refine(C, st, a, eq, depth + 1)
                    if d.op == "phi" and eq and d.ty in ("i32", "i64"):
                        pass
        if s.ax:
            st = s.ax.refine_icmp(s, C, st, pred, a, b, truth)
        return st
    def walked(s, C, st, o):
        """o is the empty list: if o is the cursor of a loop that steps by cdr
        only (and the loop changes no pair), the list it started from is proper;
        if every step also established the kind of the element, so is that."""
        f = C.f
        if o[0] != "v": return st
        d = f.defs.get(o[1])
        if d is None or d.op != "phi" or d.ty != OBJ: return st
        # cycle of phis joined by cdr steps
        cyc = {d.id}; work = [d]; init = set(); steps = []
        while work:
            p = work.pop()
            for v, pb in zip(p.ops, p.raw["in"]):
                x = f.defs.get(v[1]) if v[0] == "v" else None
                if x is not None and x.op == "phi" and x.ty == OBJ:
                    if x.id not in cyc: cyc.add(x.id); work.append(x)
                elif x is not None and x.op == "call" and x.cname == "sal_cons_cdr": steps.append((x, p, pb))
                else: init.add(v)
        curs = cyc
        st0 = set()
        for x, p, pb in list(steps):
            a = x.ops[0]
            if a[0] == "v" and a[1] in curs: continue
            init.add(("v", x.id)); st0.add(x.id)
        steps = [q for q in steps if q[0].id not in st0]
        if len(init) != 1 or not steps: return st
        iv = next(iter(init))
        if iv[0] != "v": return st
        cur = s.val(f, st, o, C.base)
        proper = cur[0] & ~K["NULL"] == 0 or s.islist(s.val(f, st, iv, C.base))
        if not proper: return st
        loopb = s.loopblocks(f, d.blk.id, [q[2] for q in steps])
        for bid in loopb:
            for i in f.blocks[bid].ins:
                if i.op == "call" and s.call_mutates(f, i): return st
        role = "LIST"
        for k, r in (("CHAR", "CHARLIST"), ("STRING", "STRLIST"), ("SYMBOL", "SYMLIST")):
            ok = True
            for x, p, pb in steps:
                # facts about car(cursor) in force when the step's value comes back to the loop head
                e = None
                for (pp, t), est in C.edge.items():
                    pass
                good = False
                for c in f.defs.values():
                    if c.op == "call" and c.cname == "sal_cons_car" and c.ops[0] == x.ops[0]:
                        for h in s.backedges(f, d.blk.id, loopb):
                            est = C.edge.get((h, d.blk.id))
                            if est is None: good = True; continue
                            good = True
                            av = None
                            for z in s.aliases(f, c):
                                zv = est.get(z)
                                if zv is not None and zv[0] & ~K[k] == 0: av = zv
                            if av is None: good = False; break
                        if good: break
                if not good: ok = False; break
            if ok: role = r; break
        return s.assume(st, iv, (LISTK, role), C.base) or st
    def islist(s, av): return av[1] == "LIST" or av[1] in SUBLIST
    def aliases(s, f, c):
        """the value and the phis that only merge it with an uninitialised value"""
        out = [c.id]
        for (u, n) in f.uses().get(c.id, []):
            if u.op == "phi" and u.id in s.undefphi: out.append(u.id)
        return out
    def backedges(s, f, head, loopb):
        return [p for p in f.blocks[head].preds if p in loopb]
    def loopblocks(s, f, head, latches):
        seen = {head}; st = [x for x in latches if x != head]
        st += [p for p in f.blocks[head].preds if f.dominates(head, p)]
        while st:
            b = st.pop()
            if b in seen: continue
            if not f.dominates(head, b): continue
            seen.add(b); st += f.blocks[b].preds
        return seen
    def isobj(s, f, o):
        if o[0] == "v":
            d = f.defs.get(o[1])
            if d is not None: return d.ty == OBJ
            for a in f.args:
                if a[0] == o[1]: return a[1] == OBJ
        if o[0] == "g": return o[1] in GLOBCONST
        return False

    def undef_phis(s, f):
        """object phis that may still be uninitialised (no value assigned yet on some path)"""
        k = ("up", f.name)
        if k in s.prep: return s.prep[k]
        u = set(); ch = True
        phis = [p for b in f.blocks for p in b.phis if p.ty == OBJ]
        while ch:
            ch = False
            for p in phis:
                if p.id not in u and any(o[0] == "u" or (o[0] == "v" and o[1] in u) for o in p.ops):
                    u.add(p.id); ch = True
        s.prep[k] = u
        return u
    def analyze(s, fn, record=None):
        f = s.funcs[fn]; info = s.alloca_info(f)
        C = FnState(); C.f = f; C.edge = {}; C.base = {}; C.phi_of = {}
        base = C.base
        for b in f.blocks: C.phi_of[b.id] = {p.id for p in b.phis}
        s.undefphi = s.undef_phis(f); s.curf = f
        pm = s.param.get(fn, {})
        for k, a in enumerate(f.args):
            if a[1] == OBJ: base[a[0]] = pm.get(k, AV_BOT)
        order = f.rpo(); pos = {b: i for i, b in enumerate(order)}
        rets = []
        phimask = {}
        rounds = 0
        changed = True
        while changed:
            rounds += 1
            if rounds > 200: raise RuntimeError("no convergence in " + fn)
            changed = False
            rets = []
            for bid in order:
                b = f.blocks[bid]
                if bid == order[0]: st = {}
                else:
                    st = None
                    for p in b.preds:
                        e = C.edge.get((p, bid))
                        if e is not None: st = s.joinst(st, e, base) if st is not None else e
                    if st is None: continue
                for ph in b.phis:
                    if ph.ty != OBJ: continue
                    av = base.get(ph.id, AV_BOT)
                    for v, p in zip(ph.ops, ph.raw["in"]):
                        e = C.edge.get((p, bid))
                        if e is None: continue
                        av = join(av, s.val(f, e, v, base))
                    if base.get(ph.id) != av: base[ph.id] = av; changed = True
                    st = s.undefine(st, ph.id)
                s.basechanged = False
                dead = False
                for i in b.ins:
                    if i.ty == OBJ and i.op != "phi": st = s.undefine(st, i.id)
                    if i.op == "call":
                        st = s.do_call(C, st, i, info)
                        if st is None: dead = True; break
                    elif i.op == "load" and i.ty == OBJ:
                        s.setbase(base, i.id, s.mem_read(f, s.acckey(f, i), info))
                    elif i.op == "store" and i.get("vty") == OBJ:
                        key = s.acckey(f, i)
                        av = s.val(f, st, i.ops[0], base)
                        if key is not None:
                            if key[0] == "pp": key = ("ppst", key[1], key[2])
                            s.mem_join(key, av)
                    elif i.op == "select" and i.ty == OBJ:
                        a = s.refine(C, st, i.ops[0], True); c = s.refine(C, st, i.ops[0], False)
                        av = AV_BOT
                        if a is not None: av = join(av, s.val(f, a, i.ops[1], base))
                        if c is not None: av = join(av, s.val(f, c, i.ops[2], base))
                        s.setbase(base, i.id, av)
                    elif i.ty == OBJ and i.op not in ("phi",):
                        if i.op in ("freeze", "bitcast") and s.isobj(f, i.ops[0]): s.setbase(base, i.id, s.val(f, st, i.ops[0], base))
                        else: s.setbase(base, i.id, AV_TOP)
                    elif i.op == "ret":
                        rets.append((bid, st))
                    elif i.op == "unreachable": dead = True
                if s.basechanged: changed = True
                if dead: continue
                for t, e in s.out_edges(C, st, b).items():
                    if e is None: continue
                    o = C.edge.get((bid, t))
                    n = e if o is None else s.joinst(o, e, base)
                    if o is None or n != o:
                        C.edge[(bid, t)] = n; changed = True
        # summaries
        s.states[fn] = C
        rv = AV_BOT; post = {}; pt = {}; pf = {}
        seen = set()
        isint = f.ret in ("i1", "i8", "i32", "i64")
        C.rets = {}
        for bid, st in rets: C.rets[bid] = st     # last one is the fixpoint state
        for bid, st in C.rets.items():
            t = f.blocks[bid].term
            if f.ret == OBJ: rv = join(rv, s.val(f, st, t.ops[0], base))
            for k, a in enumerate(f.args):
                if a[1] != OBJ: continue
                v = s.val(f, st, ("v", a[0]), base)
                post[k] = join(post.get(k, AV_BOT), v)
            if isint and t.ops:
                for truth, tab in ((True, pt), (False, pf)):
                    r = s.refine(C, st, t.ops[0], truth)
                    for k, a in enumerate(f.args):
                        if a[1] != OBJ: continue
                        v = AV_BOT if r is None else s.val(f, r, ("v", a[0]), base)
                        tab[k] = join(tab.get(k, AV_BOT), v)
        # summaries relative to Top parameters are what callers may use
        ch = False
        if s.ax:
            x = s.ax.ret(s, f, rv)
            if x is not None: rv = x
        for tab, new in ((s.retv, rv), ):
            if tab.get(fn) != new: tab[fn] = new; ch = True
        for tab, new in ((s.post, post), (s.predt, pt if isint else None), (s.predf, pf if isint else None)):
            if tab.get(fn) != new: tab[fn] = new; ch = True
        retreach = bool(C.rets)
        if s.returns.get(fn) != retreach: s.returns[fn] = retreach; ch = True
        if ch:
            for c in s.callers.get(fn, ()): s.push(c)
    returns = {}
    def undefine(s, st, id):
        """forget facts about the previous dynamic instance of an SSA value"""
        if id in st or any((type(k) is tuple and (k[1] == ("v", id) or k[2] == ("v", id))) or (type(k) is CK and k[1] == ("v", id)) for k in st):
            return {k: v for k, v in st.items() if k != id and not (type(k) is tuple and (k[1] == ("v", id) or k[2] == ("v", id)))
                    and not (type(k) is CK and k[1] == ("v", id))}
        return st
    def setbase(s, base, id, av):
        o = base.get(id)
        n = av if o is None else join(o, av)
        if n != o: base[id] = n; s.basechanged = True
    def out_edges(s, C, st, b):
        t = b.term; f = C.f
        out = {}
        def add(x, e):
            if x in out and out[x] is not None and e is not None: out[x] = s.joinst(out[x], e, C.base)
            elif x not in out or out[x] is None: out[x] = e
        if t.op == "br":
            if len(t.raw["succ"]) == 1: add(t.raw["succ"][0], st)
            else:
                add(t.raw["succ"][0], s.refine(C, st, t.ops[0], True))
                add(t.raw["succ"][1], s.refine(C, st, t.ops[0], False))
        elif t.op == "switch":
            d = s.strip(f, t.ops[0])
            rest = st
            for v, x in t.raw["cases"]:
                add(x, s.refine_icmp(C, st, "eq", t.ops[0], ("i", v, 32), True, 0))
                if rest is not None: rest = s.refine_icmp(C, rest, "eq", t.ops[0], ("i", v, 32), False, 0)
            add(t.raw["succ"][0], rest)
        return out
    def do_call(s, C, st, i, info):
        f, base = C.f, C.base; cn = i.cname
        fn = f.name
        if i.get("nr") or (cn and cn in s.mod.fns and s.mod.fns[cn].noreturn):
            s.note_call(C, st, i)
            return None
        if cn is None:
            if i.ty == OBJ:
                av = s.ax.indirect_ret(s, f, i) if s.ax else None
                s.setbase(base, i.id, av if av is not None else AV_TOP)
            s.note_call(C, st, i)
            return s.killck(st) if s.call_mutates(f, i) else st
        if cn.startswith("sal_") or cn in MAKERM:
            if i.ty == OBJ:
                av = AV_TOP
                if cn in MAKERM: av = (MAKERM[cn], None)
                elif cn == "sal_deref":
                    if i.id in info["fwd"]: av = s.val(f, st, info["fwd"][i.id], base)
                    else: av = s.deref(C, st, i.ops[0], set())
                elif cn in ("sal_cons_cdr", "sal_cons_car"):
                    av = component(s.val(f, st, i.ops[0], base), cn[-3:])
                if s.ax:
                    x = s.ax.accessor(s, C, st, i)
                    if x is not None: av = x
                if cn in ("scm_make_cons", "scm_make_immutable_cons"):
                    a, x = s.val(f, st, i.ops[0], base), s.val(f, st, i.ops[1], base)
                    av = (K["CONS"], consrole(a, x))
                if cn == "scm_make_func" and i.ops[0][0] == "i":
                    av = (K["SYNTAX"] if i.ops[0][1] & s.syntax_flag else K["PROC"], None)
                if cn in ("sal_cons_cdr", "sal_cons_car"):
                    ck = CK((cn[-3:], i.ops[0]))
                    known = st.get(ck)
                    cur = meet(av, known[0]) if known is not None else av
                    st = dict(st); st[ck] = (cur, i.id); st[i.id] = cur
                s.setbase(base, i.id, av)
            if cn in ("sal_cons_set_car", "sal_cons_set_cdr", "sal_set"): st = s.killck(st)
            if cn == "sal_set": s.mem_join(("ref", fn), s.val(f, st, i.ops[1], base))
            # a completed access implies the kind
            r = required(cn)
            if r is not None:
                st2 = s.assume(st, i.ops[0], (r, None), base)
                # an access that can never be right still is reported; keep going
                if st2 is not None: st = st2
            return st
        s.note_call(C, st, i)
        if s.may_mutate(cn): st = s.killck(st)
        if cn in ("scm_gc_protect_with_init",):
            key = s.memkey(f, i.ops[0])
            s.mem_join(key, s.val(f, st, i.ops[1], base))
            return st
        if s.ax:
            r = s.ax.call(s, C, st, i)
            if r is not None:
                av, st = r
                if i.ty == OBJ: s.setbase(base, i.id, av)
                return st
        g = s.funcs.get(cn)
        if g is None:
            if i.ty == OBJ: s.setbase(base, i.id, AV_TOP)
            return st
        if not s.returns.get(cn, False): 
            if i.ty == OBJ: s.setbase(base, i.id, AV_BOT)
            return None
        if i.ty == OBJ: s.setbase(base, i.id, s.retv.get(cn, AV_BOT))
        for k, av in s.post.get(cn, {}).items():
            if k < len(i.ops) and av[0] != 0:
                st2 = s.assume(st, i.ops[k], av, base)
                if st2 is None: return None
                st = st2
        return st
    def deref(s, C, st, r, seen):
        """contents of the location a reference designates, by the reference's origin"""
        if r[0] != "v" or r[1] in seen: return AV_BOT
        seen.add(r[1])
        d = C.f.defs.get(r[1])
        if d is None: return AV_TOP
        if d.op == "phi" or d.op == "select":
            av = AV_BOT
            for o in (d.ops if d.op == "phi" else d.ops[1:]):
                av = join(av, s.deref(C, st, o, seen))
                if av == AV_TOP: break
            return av
        if d.op == "call" and d.cname in ("sal_ref_car", "sal_ref_cdr"):
            x = s.val(C.f, st, d.ops[0], C.base)
            if x[0] == 0: return AV_BOT
            c = component(x, d.cname[-3:])
            return c if x[1] != "LIST" else AV_TOP
        return AV_TOP
    def note_call(s, C, st, i):
        """propagate arguments"""
        cn = i.cname; f = C.f
        if cn is None or cn not in s.funcs: return
        g = s.funcs[cn]
        s.callers[cn].add(f.name); s.reach(cn)
        for k, a in enumerate(g.args):
            if k >= len(i.ops): break
            if a[1] == OBJ:
                av = s.val(f, st, i.ops[k], C.base)
                if s.ax:
                    x = s.ax.param(s, g, k, av)
                    if x is not None: av = x
                s.join_param(cn, k, av)
            elif a[1] == "ptr":
                key = s.memkey(f, i.ops[k])
                if key and key[0] in ("al", "g", "pp"):
                    info = s.alloca_info(f)
                    s.mem_join(("ppin", cn, k), s.mem_read(f, key, info))
                    if key[0] in ("g", "pp"):
                        pk = ("ppst", cn, k); s.memreaders[pk].add(f.name)
                        k2 = key if key[0] == "g" else ("ppst", key[1], key[2])
                        s.mem_join(k2, s.memv.get(pk, AV_BOT))
    def run(s):
        s.returns = {}
        s.roots()
        n = 0
        while s.work:
            fn = s.work.popleft(); s.inwork.discard(fn)
            s.analyze(fn); n += 1
            if n > 60000: raise RuntimeError("global fixpoint does not converge")
        s.iterations = n
    # ---- obligations -----------------------------------------------------
    def walk(s, fn, cb):
        """replays the fixpoint states of fn through each instruction: cb(C, st, ins)"""
        C = s.states[fn]; f = C.f; info = s.alloca_info(f); base = C.base
        s.undefphi = s.undef_phis(f); s.curf = f
        for bid in f.rpo():
            b = f.blocks[bid]
            if bid == 0: st = {}
            else:
                st = None
                for p in b.preds:
                    e = C.edge.get((p, bid))
                    if e is not None: st = s.joinst(st, e, base) if st is not None else e
                if st is None: continue
                for ph in b.phis: st = s.undefine(st, ph.id)
            for i in b.ins:
                if i.ty == OBJ and i.op != "phi": st = s.undefine(st, i.id)
                cb(C, st, i)
                if i.op == "call":
                    st = s.do_call(C, st, i, info)
                    if st is None: break
                elif i.op == "unreachable": break
    def obligations(s):
        res = []
        for fn in sorted(s.reached):
            if fn not in s.states: continue
            def cb(C, st, i):
                if i.op != "call": return
                r = required(i.cname)
                if r is None: return
                av = s.val(C.f, st, i.ops[0], C.base)
                res.append((C.f, i, i.cname, r, av, av[0] & ~r == 0))
            s.walk(fn, cb)
        return res
