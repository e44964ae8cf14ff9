"""C07: every object word belongs to exactly one kind; components read back what was stored."""
import bits
from bits import const, sym, cval, isconst, State, Interp
from core import Part, Broken
import ir

CONSTS = ("null", "true", "false", "eof", "unbound", "undef", "invalid")
# type codes of enum ScmObjType per kind
TYPES = dict(cons="ScmCons", closure="ScmClosure", int="ScmInt", char="ScmChar", symbol="ScmSymbol", string="ScmString", vector="ScmVector",
  vpacket="ScmValuePacket", func="ScmFunc", port="ScmPort", cont="ScmContinuation", cptr="ScmCPointer", cfptr="ScmCFuncPointer",
  const="ScmConstant", freecell="ScmFreeCell", hmacro="ScmMacro", farsym="ScmFarsymbol", subpat="ScmSubpat")

class Rep:
    """the storage layer of one configuration, in the bit domain"""
    def __init__(s, cfg, mod=None):
        s.cfg = cfg; s.mod = m = mod or ir.Module(cfg, "real")
        s.loose = 0
        for f in ("w_sizeof_cell", "w_reclaim", "w_type", "w_int_max"):
            if f not in m.fns: raise Broken("witness function %s is missing" % f)
        it = Interp(m, 4, 0, None, True)
        s.size = cval(s.one(it.run(m.fns["w_sizeof_cell"], [], State({}, (), {}, (), {})))[0])
        s.align = s.size.bit_length() - 1
        s.fatty = "w_immp" not in m.fns
        s.it = Interp(m, s.align, s.size * 8, s.hook, True)
        s.P = s.it.P
        if s.fatty:
            for c in CONSTS:
                f = m.fns.get("w_const_" + c)
                for i in (f.instrs() if f else ()):
                    if i.op == "load": s.it.ginit[s.it.val(s.state(()), f, i.ops[0])] = sym("&cell:" + c, 64)
        s.free = None
    def one(s, r):
        r = [x for x in r if x[0] == "ret"]
        if not r: return None
        vals = {(x[1], x[2].mem) for x in r}
        if len(vals) == 1: return (r[0][1], r[0][2])
        return None
    def hook(s, it, f, i, nm, args, st):
        if nm == "scm_alloc_cell": return [(s.freeword, st)]
        if nm in ("scm_align_str", "scm_strdup"): return [(args[0], st)]
        if nm == "scm_pack_env": return [(s.sx("E", 48), st)]
        return None
    def sx(s, n, k, w=64):
        """a signed value of k significant bits"""
        return sym(n, k)[:k - 1] + ((n, k - 1),) * (w - k + 1)
    def nn(s, n, mx, w=64):
        k = mx.bit_length(); return sym(n, k) + (0,) * (w - k)
    def state(s, mem, asg=None): return State({}, mem, dict(asg or {}), (), {})
    def call(s, fn, args, mem):
        f = s.mod.fns.get(fn)
        if f is None or f.decl: raise Broken("storage function %s not found" % fn)
        s.it.n = 0
        st = s.state(mem)
        return s.one(s.it.run(f, args, st))
    def calls(s, fn, args, mem):
        f = s.mod.fns.get(fn)
        if f is None or f.decl: raise Broken("storage function %s not found" % fn)
        s.it.n = 0
        return [(v, st) for k, v, st in s.it.run(f, args, s.state(mem)) if k == "ret"]
    def val(s, fn, args, mem):
        r = s.call(fn, args, mem)
        return None if r is None else r[0]
    def num(s, fn):
        v = s.val(fn, [], sym("M", s.size * 8))
        if v is None or not isconst(v): raise Broken(fn + " is not a constant")
        n = cval(v); return n - (1 << len(v)) if v[-1] else n
    def init(s):
        """memory and word of a reclaimed cell"""
        s.freeword = s.P
        r = s.call("w_reclaim", [s.P, s.objw("N")], sym("M", s.size * 8))
        if r is None: return False
        s.freeword, st = r; s.freemem = st.mem
        return True
    def objw(s, n):
        """any object word outside a collection"""
        return (0,) * (1 if not s.fatty else 3) + sym(n, 64)[1 if not s.fatty else 3:]
    def ptr(s, n, al=3): return (0,) * al + sym(n, 64)[al:]
    def kinds(s):
        """kind variants: (label, kind, maker args..., components)"""
        O, PT = s.objw, s.ptr; sl, vl = s.num("w_strlen_max"), s.num("w_veclen_max")
        tcm, pfm = s.num("w_typecode_max"), s.num("w_portflag_max")
        tc = tuple(("T", k) if (tcm >> k) & 1 else 0 for k in range(32)); pf = tuple(("F", k) if (pfm >> k) & 1 else 0 for k in range(32))
        a, b = O("a"), O("b")
        R = []
        R.append(("pair", "cons", "scm_make_cons", [a, b], {"cons_car": a, "cons_cdr": b}, 1))
        if "scm_make_immutable_cons" in s.mod.fns: R.append(("constant pair", "cons", "scm_make_immutable_cons", [a, b], {"cons_car": a, "cons_cdr": b}, 0))
        R.append(("closure", "closure", "scm_make_closure", [a, b], {"closure_exp": a, "closure_env": b}, None))
        nm = PT("S", 3); R.append(("symbol", "symbol", "scm_make_symbol", [nm, a], {"symbol_name": nm, "symbol_vcell": a}, None))
        p1 = PT("S", 1); ln = s.nn("L", sl); lv = s.nn("L", vl)
        R.append(("string", "string", "scm_make_string", [p1, ln], {"string_str": p1, "string_len": ln}, 1))
        R.append(("constant string", "string", "scm_make_immutable_string", [p1, ln], {"string_str": p1, "string_len": ln}, 0))
        R.append(("copied string", "string", "scm_make_string_copying", [p1, ln], {"string_str": p1, "string_len": ln}, 1))
        R.append(("copied constant string", "string", "scm_make_immutable_string_copying", [p1, ln], {"string_str": p1, "string_len": ln}, 0))
        R.append(("vector", "vector", "scm_make_vector", [p1, lv], {"vector_vec": p1, "vector_len": lv}, 1))
        R.append(("constant vector", "vector", "scm_make_immutable_vector", [p1, lv], {"vector_vec": p1, "vector_len": lv}, 0))
        cf = sym("S", 64); R.append(("built-in", "func", "scm_make_func", [tc, cf], {"func_cfunc": cf, "func_typecode": tc}, None))
        R.append(("port", "port", "scm_make_port", [p1, pf], {"port_impl": p1, "port_flag": None}, None))
        R.append(("continuation", "cont", "scm_make_continuation", [], {"cont_opaque": const(0, 64), "cont_tag": const(0, 64)}, None))
        if s.fatty: R.append(("values packet", "vpacket", None, [a, b], {"valuecons_car": a, "valuecons_cdr": b}, None))
        else: R.append(("values packet", "vpacket", "scm_make_value_packet", [a], {"vpacket_values": a}, None))
        R.append(("C pointer", "cptr", "scm_make_cpointer", [cf], {"cptr_value": cf}, None))
        R.append(("C function pointer", "cfptr", "scm_make_cfunc_pointer", [cf], {"cfptr_value": cf}, None))
        if "w_is_hmacro" in s.mod.fns:
            e = s.sx("E", 48)
            R.append(("macro", "hmacro", "scm_make_hmacro", [a, b], {"hmacro_rules": a, "hmacro_env": e}, None))
            R.append(("far symbol", "farsym", "scm_make_farsymbol", [a, e], {"farsym_sym": a, "farsym_env": e}, None))
            R.append(("subpattern", "subpat", "scm_make_subpat", [a, e], {"subpat_obj": a, "subpat_meta": e}, None))
        mx, mn = s.num("w_int_max"), s.num("w_int_min")
        k = mx.bit_length() + 1
        iv = s.sx("I", k); R.append(("integer", "int", "w_mk_int", [iv], {"int_value": iv}, None))
        ch = s.nn("H", 0x7fffffff, 32); R.append(("character", "char", "w_mk_char", [ch], {"char_value": ch}, None))
        return R
    def make(s, R):
        """[(label, kind, word, mem, comps, mutable)]"""
        out = []
        for lab, kind, fn, args, comps, mut in R:
            if fn is None:
                r = s.call("scm_make_cons", args, s.freemem)
                r2 = r and s.call("w_mk_vpacket", [r[0]], r[1].mem)
                r = [(r[0], r2[1])] if r2 else []
            else: r = s.calls(fn, args, s.freemem)
            if not r: out.append((lab, kind, fn, None, None, comps, mut))
            # (one entry per path through the constructor)
            for w, st in r: out.append((lab, kind, fn, st.res(w), st.res(st.mem), {c: v and st.res(v) for c, v in comps.items()}, mut))
        return out

SETTABLE = {"cons": ["cons_car", "cons_cdr"], "closure": ["closure_exp", "closure_env"], "symbol": ["symbol_name", "symbol_vcell"],
 "string": ["string_str", "string_len"], "vector": ["vector_vec", "vector_len"], "port": ["port_impl", "port_flag"],
 "cont": ["cont_opaque", "cont_tag"], "cptr": ["cptr_value"], "cfptr": ["cfptr_value"]}

def run(cfg):
    P = Part("representation", cfg); s = Rep(cfg); m = s.mod
    preds = sorted(n[5:] for n in m.fns if n.startswith("w_is_") and n[5:] in TYPES)
    P.counts["predicates"] = len(preds)
    en = m.enum("ScmObjType")
    mx, mn = s.num("w_int_max"), s.num("w_int_min")
    P.check(mn == -mx - 1 and mx & (mx + 1) == 0 and mx > (1 << 50), "int-range", "the integer range %d..%d is not a full signed range of bits" % (mn, mx))
    for w in ("w_strlen_max", "w_veclen_max"): P.check(s.num(w) >= (1 << 40), w, "the length range ends at %d" % s.num(w))
    P.check(s.size == 1 << s.align, "cellsize", "the size of a cell (%d bytes) is not a power of two" % s.size)
    if not s.init():
        P.check(False, "reclaim", "what a reclaimed cell becomes depends on what it held"); return P
    def is_(kind, word, mem): return s.val("w_is_" + kind, [word], mem)
    def flags(word, mem): return {k: is_(k, word, mem) for k in preds}
    def kind_ok(lab, kind, word, mem, key, what):
        g = flags(word, mem)
        for k, v in g.items():
            want = int(k == kind)
            P.check(v is not None and isconst(v) and cval(v) == want, "%s:%s" % (key, k),
                    "%s: the %s test %s for a %s" % (what, k, "is not decided by its representation" if v is None or not isconst(v) else "gives %d" % cval(v), lab))
        v = s.val("w_is_number", [word], mem)
        P.check(v is not None and isconst(v) and cval(v) == int(kind == "int"), key + ":number", "%s: number? is wrong or undecided for a %s" % (what, lab))
        for c in ("nullc", "falsec", "eofc"):
            v = s.val("w_is_" + c, [word], mem)
            P.check(v is not None and isconst(v) and cval(v) == 0, key + ":" + c, "%s: the %s constant test may accept a %s" % (what, c[:-1], lab))
        v = s.val("w_type", [word], mem)
        P.check(v is not None and isconst(v) and cval(v) == en.get(TYPES[kind]), key + ":type",
                "%s: the type code of a %s is %s, expected %s" % (what, lab, "undecided" if v is None or not isconst(v) else cval(v), TYPES[kind]))
    # free cells
    kind_ok("free cell", "freecell", s.freeword, s.freemem, "freecell", "after reclaiming")
    v = s.val("w_cell_freecellp", [s.P], s.freemem); P.check(v == const(1, 32), "freecell:cell", "a reclaimed cell is not recognised as free by the collector")
    v = s.val("w_freecell_next", [s.freeword], s.freemem); P.check(v == s.objw("N"), "freecell:next", "the next free cell is not read back as stored")
    made = s.make(s.kinds())
    heap = []
    for lab, kind, fn, word, mem, comps, mut in made:
        P.count("kinds")
        key = lab.replace(" ", "-")
        if not P.check(word is not None, key + ":make", "%s: constructing a %s gives no single representation" % (fn, lab)): continue
        onheap = any(x == ("P", 63) for x in word)
        if onheap:
            heap.append((lab, kind, word, mem, comps)); P.count("heap kinds")
            P.check(all(word[i] == ("P", i) for i in range(s.align, 64)), key + ":address", "%s: a %s does not keep the address of its cell" % (fn, lab))
            if not s.fatty:
                u = s.val("w_untag", [word], mem); P.check(u == s.P, key + ":untag", "removing the tag of a %s does not give its cell" % lab)
                v = s.val("w_immp", [word], mem); P.check(v == const(0, 32), key + ":immediate", "a %s is taken for an immediate by the collector" % lab)
                v = s.val("w_tag_consistent", [word, s.P], mem); P.check(v == const(1, 32), key + ":consistent", "a reference to a %s found on the stack is not recognised" % lab)
                P.check(word[0] == 0, key + ":gcbit", "a %s is made with the collector's bit set in its reference" % lab)
        else:
            P.check(not s.fatty, key + ":heap", "a %s is not allocated" % lab)
            if not s.fatty:
                v = s.val("w_immp", [word], mem); P.check(v == const(1, 32), key + ":immediate", "a %s is not recognised as an immediate by the collector" % lab)
                P.check(word[0] == 0, key + ":gcbit", "a %s is made with the collector's bit set" % lab)
        kind_ok(lab, kind, word, mem, key, fn or "values packet")
        if onheap:
            v = s.val("w_cell_freecellp", [s.P], mem); P.check(v == const(0, 32), key + ":free", "a live %s can be taken for a free cell" % lab)
            v = s.val("w_cell_markedp", [s.P], mem); P.check(v == const(0, 32), key + ":mark0", "a new %s may already carry the collector's mark" % lab)
            v = s.val("w_markedp", [word], mem); P.check(v == const(0, 32), key + ":mark0", "a new %s may already carry the collector's mark" % lab)
            r = s.call("w_mark", [word], mem)
            if P.check(r is not None, key + ":mark", "marking a %s is not a single effect" % lab):
                mm = r[1].mem
                v = s.val("w_markedp", [word], mm); P.check(v == const(1, 32), key + ":marked", "a marked %s is not recognised as marked" % lab)
                v = s.val("w_cell_markedp", [s.P], mm); P.check(v == const(1, 32), key + ":cellmarked", "the sweep does not recognise the mark of a %s" % lab)
                v = s.val("w_cell_freecellp", [s.P], mm); P.check(v == const(0, 32), key + ":markedfree", "a marked %s can be taken for a free cell" % lab)
                r2 = s.call("w_cell_unmark", [s.P], mm)
                P.check(r2 is not None and r2[1].mem == mem, key + ":unmark", "unmarking a %s does not restore what it held before marking" % lab)
            r = s.call("w_reclaim", [s.P, s.objw("N")], mem)
            P.check(r is not None and s.val("w_is_freecell", [r[0]], r[1].mem) == const(1, 32), key + ":reclaim", "reclaiming a %s does not make it a free cell" % lab)
        for c, want in comps.items():
            v = s.val("w_get_" + c, [word], mem); P.count("components")
            if want is not None:
                P.check(v is not None and v == want, key + ":get:" + c, "%s: %s does not read back what the %s was made with" % (fn, c, lab))
        if mut is not None:
            g = "w_get_%s_mutablep" % kind
            if g in m.fns:
                v = s.val(g, [word], mem)
                truth = v is not None and isconst(v) and (cval(v) != 0)
                P.check(v is not None and isconst(v) and truth == bool(mut), key + ":mutable", "%s: the mutability of a %s is %s" % (fn, lab, "undecided" if v is None or not isconst(v) else truth))
                for n, tr in (("mutable", 1), ("immutable", 0)):
                    r = s.call("w_set_%s_%s" % (kind, n), [word], mem)
                    if not P.check(r is not None, key + ":set-" + n, "making a %s %s is not a single effect" % (lab, n)): continue
                    m2 = r[1].mem; v = s.val(g, [word], m2)
                    P.check(v is not None and isconst(v) and (cval(v) != 0) == bool(tr), key + ":set-" + n, "a %s made %s does not test as such" % (lab, n))
                    for c, want in comps.items(): P.check(s.val("w_get_" + c, [word], m2) == want, key + ":set-%s:%s" % (n, c), "making a %s %s changes its %s" % (lab, n, c))
                    kind_ok(lab, kind, word, m2, key + ":set-" + n, "after making it " + n)
        for c in SETTABLE.get(kind, ()):
            f = m.fns.get("w_set_" + c)
            if f is None: continue
            old = comps[c]
            if old is None: old = tuple(("F", k) if (s.num("w_portflag_max") >> k) & 1 else 0 for k in range(32))
            if c == "cont_tag": old = s.sx("x", 48)
            if c == "cont_opaque": old = s.ptr("x", 1)
            new = tuple(("v", x[1]) if not isinstance(x, int) else x for x in old)
            r = s.call("w_set_" + c, [word, new], mem); P.count("setters")
            if not P.check(r is not None, key + ":set:" + c, "setting %s of a %s is not a single effect" % (c, lab)): continue
            m2 = r[1].mem
            P.check(s.val("w_get_" + c, [word], m2) == new, key + ":set:" + c, "%s of a %s does not read back what was stored" % (c, lab))
            for c2, w2 in comps.items():
                if c2 != c: P.check(s.val("w_get_" + c2, [word], m2) == s.val("w_get_" + c2, [word], mem), key + ":set:%s:%s" % (c, c2), "setting %s of a %s changes its %s" % (c, lab, c2))
            if mut is not None and "w_get_%s_mutablep" % kind in m.fns:
                P.check(s.val("w_get_%s_mutablep" % kind, [word], m2) == s.val("w_get_%s_mutablep" % kind, [word], mem), key + ":set:%s:mutable" % c, "setting %s of a %s changes whether it is constant" % (c, lab))
            kind_ok(lab, kind, word, m2, key + ":set:" + c, "after setting " + c)
    # references into pairs
    for lab, kind, word, mem, comps in heap:
        if kind != "cons": continue
        for c in ("car", "cdr"):
            P.check(s.val("w_ref_" + c, [word], mem) == comps["cons_" + c], "ref:" + c, "a reference to the %s of a pair does not read it" % c)
            nw = s.objw("v"); r = s.call("w_ref_set_" + c, [word, nw], mem)
            o = "cdr" if c == "car" else "car"
            P.check(r is not None and s.val("w_get_cons_" + c, [word], r[1].mem) == nw and s.val("w_get_cons_" + o, [word], r[1].mem) == comps["cons_" + o],
                    "ref-set:" + c, "storing through a reference to the %s of a pair does not set exactly it" % c)
    # the special constants
    if not s.fatty:
        words = {c: s.val("w_const_" + c, [], s.freemem) for c in CONSTS}
        for c, w in words.items():
            P.count("constants")
            if not P.check(w is not None and isconst(w), "const:" + c, "the constant %s has no fixed representation" % c): continue
            P.check(w[0] == 0 and s.val("w_immp", [w], s.freemem) == const(1, 32), "const:%s:immediate" % c, "the constant %s is not an immediate" % c)
            for k in preds:
                v = is_(k, w, s.freemem)
                P.check(v == const(int(k == "const"), 32), "const:%s:%s" % (c, k), "the %s test is wrong for the constant %s" % (k, c))
            if c != "invalid": P.check(s.val("w_type", [w], s.freemem) == const(en["ScmConstant"], 32), "const:%s:type" % c, "the type code of the constant %s is not ScmConstant" % c)
            for t, n in (("nullc", "null"), ("falsec", "false"), ("eofc", "eof")):
                P.check(s.val("w_is_" + t, [w], s.freemem) == const(int(c == n), 32), "const:%s:is-%s" % (c, n), "the %s test is wrong for the constant %s" % (n, c))
            for c2, w2 in words.items():
                if c2 > c: P.check(w2 != w, "const:%s=%s" % (c, c2), "the constants %s and %s have the same representation" % (c, c2))
    else: fatty_constants(P, s, preds, en)
    P.need("kinds", 13)
    return P

def fatty_constants(P, s, preds, en):
    m = s.mod
    # each constant variable is bound, once, to a cell of its own of constant type
    bind = {}; typed = {}
    for f in m.defined():
        for i in f.instrs():
            if i.op != "store": continue
            g = m.gname(i.ops[1])
            if g and g.startswith("scm_const_"): bind.setdefault(g, []).append((i, i.ops[0]))
            a = i.ops[1]; off = 0
            if i.ops[0][0] == "i" and a[0] in ("g", "ge"): typed.setdefault(repr(a), []).append((i, i.ops[0][1]))
    seen = {}
    for c in CONSTS:
        if c == "invalid": continue
        g = "scm_const_" + c; P.count("constants")
        b = bind.get(g, [])
        if not P.check(len(b) == 1, g, "the variable %s is assigned %d times" % (g, len(b))): continue
        i, o = b[0]
        t = typed.get(repr(o), [])
        P.check(len(t) == 1 and t[0][1] == en["ScmConstant"], g + ":type", "%s: the cell %s is bound to is not given the constant type" % (i.loc(), g))
        P.check(repr(o) not in seen, g + ":same", "%s: %s and %s are bound to the same cell" % (i.loc(), g, seen.get(repr(o))))
        seen[repr(o)] = g
        w = s.val("w_const_" + c, [], s.freemem)
        vs = {x: s.val("w_const_" + x, [], s.freemem) for x in CONSTS}
        P.check(sum(1 for x in vs.values() if x == w) == 1, g + ":distinct", "the constant %s has the representation of another" % c)
    mem = const(en["ScmConstant"], 32) + s.freemem[32:]
    for k in preds:
        v = s.val("w_is_" + k, [s.P], mem)
        P.check(v == const(int(k == "const"), 32), "const:" + k, "the %s test is wrong for the special constants" % k)
