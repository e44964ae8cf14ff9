"""What the bounds analysis knows about this program: contracts of the functions that
receive counted buffers, sizes of objects, meaning of the storage primitives."""
import bounds
from bounds import add, con, var, scale, key, BIG
from core import Broken

VT = "ScmCharCodecVTbl_"
SLOT = {"char_len": 24, "scan_char": 32, "str2int": 40, "int2str": 48}
NOCAP = {"strlen", "strcmp", "memcmp", "memcpy", "memmove", "memset", "free", "strncmp", "strchr", "strtol", "strtoul", "snprintf", "scm_strdup", "fputs", "fputc", "fwrite", "fread", "access", "fopen", "getenv", "atoi", "strerror"}
ALLOC = {"scm_malloc": 0, "scm_realloc": 1, "malloc": 0, "realloc": 1, "scm_malloc_aligned": 0}
FIELD = {}

def init_fields(m, g):
    """(offset -> function name) of an initialised structure"""
    out = {}
    def walk(v, off):
        pass
    return out

def codecs(m):
    """the codec tables and the functions in each slot"""
    out = {}
    for n, g in m.globals.items():
        if g.get("ty") != "%struct." + VT: continue
        ini = g.get("init")
        if not ini: continue
        out[n] = ini
    return out

class Body:
    """members of a contract seen from inside the function"""
    def __init__(s, F): s.F = F
    def arg(s, k): return var(("v", s.F.f.args[k][0]))
    def pre(s, k, off, ty): return var(("init", (("v", s.F.f.args[k][0]), off), ty))
    def glob(s, g, off, ty): return var(("init", (("g", g), off), ty))
    def eq(s, a, b): return s.F.eq(a, b)
    def room(s): return con(K)
class Ret(Body):
    """... at a return"""
    def __init__(s, F, r): s.F = F; s.r = r
    def cell(s, k):
        v = s.F.outmem[s.r.blk.id].get(k)
        return s.F.lin(v) if v else {("?", k): 1}
    def post(s, k, off, ty): return s.cell(((("v", s.F.f.args[k][0]), off), ty))
    def gpost(s, g, off, ty): return s.cell(((("g", g), off), ty))
    @property
    def ret(s): return s.F.lin(s.r.ops[0])
    def field(s, n):
        o = s.r.ops[0]
        for _ in range(20):
            x = s.F.d(o)
            if x is None or x.op != "insertvalue": break
            if x.get("ix") == [n]: return s.F.lin(x.ops[1])
            o = x.ops[0]
        return {("?", s.r.id, n): 1}
class Call:
    """... at a call"""
    def __init__(s, F, i): s.F = F; s.i = i
    def arg(s, k): return s.F.lin(s.i.ops[k])
    def root(s, k, off):
        r = s.F.root_off(s.i.ops[k])
        return (r[0], r[1] + off) if r and r[1] is not None else None
    def pre(s, k, off, ty):
        q = s.root(k, off); v = s.F.before.get(s.i.id, {}).get((q, ty)) if q else None
        return s.F.lin(v) if v else {("?", s.i.id, k, off): 1}
    def post(s, k, off, ty):
        q = s.root(k, off)
        return var(("after", s.i.id, q, ty)) if q else {("?", s.i.id, k, off, "post"): 1}
    def glob(s, g, off, ty):
        v = s.F.before.get(s.i.id, {}).get(((("g", g), off), ty))
        return s.F.lin(v) if v else {("?", s.i.id, g, off): 1}
    def gpost(s, g, off, ty): return s.glob(g, off, ty)      # (only used for functions that write nothing)
    @property
    def ret(s): return var(("v", s.i.id))
    def field(s, n):
        for x, k in s.F.f.uses().get(s.i.id, ()):
            if x.op == "extractvalue" and x.get("ix") == [n]: return s.F.lin(("v", x.id))
        return {("?", s.i.id, n): 1}
    def eq(s, a, b): return s.F.eq(a, b)
    def room(s): return {("room", s.i.id): 1}

P_, I_ = "ptr", "i64"
def sub(a, b): return add(a, b, -1)
K = 5
CODEC = {
    "scan_char": {"bufs": {0: lambda A: A.arg(1)}, "pre": lambda A: [A.arg(1)],
                  "post": lambda A: ([A.field(0), add(con(K - 1), A.field(0), -1), sub(A.arg(1), A.field(0))], [([add(A.arg(1), con(-1))], [add(A.field(0), con(-1))])])},
    "str2int": {"bufs": {0: lambda A: A.arg(1)}, "pre": lambda A: [A.arg(1)]},
    # (a caller must provide room for the character written plus the terminator: never more than K bytes)
    "int2str": {"bufs": {0: lambda A: A.room()},
                "post": lambda A: ([], [([add(A.ret, con(-1))], [add(sub(A.ret, A.arg(0)), con(-1)), sub(add(A.arg(0), add(A.room(), con(-1))), A.ret)])])},
    "char_len": {"post": lambda A: ([A.ret, add(con(K - 1), A.ret, -1)], [])},
}
CON = {
    "scm_mb_strlen": {"bufs": {1: lambda A: A.arg(2)}, "pre": lambda A: [A.arg(2)]},
    "scm_mb_substring": {"bufs": {1: lambda A: A.arg(2)}, "pre": lambda A: [A.arg(2), A.arg(3), A.arg(4)],
        "post": lambda A: ([sub(A.field(0), A.arg(1)), A.field(1), sub(add(A.arg(1), A.arg(2)), add(A.field(0), A.field(1)))],
                           [([A.arg(4)], [sub(scale(A.arg(4), K - 1), A.field(1))])])},
    "format_str_peek": {"bufs": {0: lambda A: A.arg(1)}, "pre": lambda A: [A.arg(1)],
                        "post": lambda A: ([], [([add(A.ret, con(-1))], [add(A.arg(1), con(-1))]), ([scale(A.arg(1), -1)], A.eq(A.ret, {}))])},
    "read_token": {"bufs": {2: lambda A: A.arg(3)}, "pre": lambda A: [add(A.arg(3), con(-1))],
                   "post": lambda A: ([A.ret, add(sub(A.arg(3), A.ret), con(-1))], [])},
    "mbcport_fill_rbuf": {"post": lambda A: ([A.field(0), add(con(K - 1), A.field(0), -1)], [])},
    "ostrport_write": {"bufs": {2: lambda A: A.arg(1)}, "pre": lambda A: [A.arg(1)]},
    "ostrport_append": {"bufs": {2: lambda A: A.arg(1)}, "pre": lambda A: [A.arg(1)]},
    "scm_array2list": {"bufs": {0: lambda A: scale(A.arg(1), 8)}, "pre": lambda A: [A.arg(1)]},
    "scm_lbuf_init": {"bufs": {1: lambda A: A.arg(2)}, "pre": lambda A: [A.arg(2)],
                      "post": lambda A: (A.eq(A.post(0, 0, P_), A.arg(1)) + A.eq(A.post(0, 8, I_), A.arg(2)), [])},
    "scm_lbuf_alloc": {"post": lambda A: (A.eq(A.post(0, 8, I_), A.arg(1)), [])},
    "scm_lbuf_realloc": {"precond": lambda A: [([A.arg(1)], [sub(A.arg(1), A.pre(0, 8, I_))])],
                         "post": lambda A: (A.eq(A.post(0, 8, I_), A.arg(1)), [])},
    "scm_lbuf_extend": {"post": lambda A: ([sub(A.post(0, 8, I_), A.pre(0, 8, I_))], [([A.arg(2)], [sub(A.post(0, 8, I_), A.arg(2))])])},
    "scm_charcodec_read_char": {"pre": lambda A: [add(A.pre(1, 8, I_), con(-1))],
        "post": lambda A: (A.eq(add(A.post(1, 0, P_), A.post(1, 8, I_)), add(A.pre(1, 0, P_), A.pre(1, 8, I_))) + [A.post(1, 8, I_), add(sub(A.pre(1, 8, I_), A.post(1, 8, I_)), con(-1))], [])},
    "scm_make_vector": {"bufs": {0: lambda A: scale(A.arg(1), 8)}, "pre": lambda A: [A.arg(1)]},
    "scm_make_immutable_vector": {"bufs": {0: lambda A: scale(A.arg(1), 8)}, "pre": lambda A: [A.arg(1)]},
    "symbol_name_hash": {"post": lambda A: ([A.ret, add(sub(A.gpost("scm_g_instance_symbol", 16, I_), A.ret), con(-1))], [])},
}
RSIZE = {"mbs": 16, "lbuf": 40, "ostr": 48, "hash": 24}
FRESHREC = {("ScmOutputStrPort_new", "scm_malloc"): "ostr"}
CSTR = {("scm_align_str", 0), ("scm_mb_bare_c_strlen", 1)}
TERM = {("scm_register_funcs", 0): 24}      # parameters that are arrays ended by an all-zero record

class Spec:
    def __init__(s, m):
        s._con = {}
        s.m = m
        s.tabs = codecs(m)
        s.impl = {k: set() for k in SLOT}
        for n, ini in s.tabs.items():
            el = ini[1]
            for k, off in SLOT.items():
                e = el[off // 8]
                if e and e[0] == "f": s.impl[k].add(e[1])
        s.pureset = None
        s.K = 5
    # --- memory effects
    def slot(s, i, f):
        """codec operation an indirect call performs"""
        if not i.callee or i.callee[0] != "v": return None
        x = f.defs.get(i.callee[1])
        if x is None or x.op != "load": return None
        tb = x.get("tbaa")
        if tb and tb[0] == VT:
            for k, off in SLOT.items():
                if tb[1] == off: return k
        return None
    # --- structures holding a pointer to a counted buffer and its size: (address, size) offsets
    # class -> (offset of the address, offset of the size, bytes per counted unit)
    RECORDS = {"lbuf": (0, 8, 1), "mbs": (0, 8, 1), "ostr": (8, 24, 1), "hash": (16, 0, 16), "symtab": (8, 16, 8)}
    CELLS = {"ostr": [(16, "i64")], "lbuf": [], "mbs": [], "hash": [(8, "i64")], "symtab": []}
    RECTYPE = {"ScmOutputStrPort": "ostr", "scm_hash_table": "hash", "ScmLBuf_void_": "lbuf", "ScmLBuf_char_": "lbuf", "ScmMultibyteString": "mbs", "format_string_t": "mbs"}
    def param_record(s, fn, k):
        if fn is None or k >= len(fn.args): return None
        if fn.name.startswith("scm_lbuf_") and k == 0: return "lbuf"
        dt = fn.ptypes[k] or ""
        if dt.endswith(" *"):
            for w in dt[:-2].replace("const ", "").split():
                if w in s.RECTYPE: return s.RECTYPE[w]
        return None
    def record(s, F, r):
        """class of the structure at root r"""
        if r in F.recs: return F.recs[r]
        c = None
        if r[0] == "v":
            x = F.f.defs.get(r[1])
            if x is None:
                for k, (aid, ty, nm) in enumerate(F.f.args):
                    if aid == r[1]: c = s.param_record(F.f, k)
            elif x.op == "alloca":
                t = (x.get("aty") or "").replace("%struct.", "")
                c = s.RECTYPE.get(t)
            elif x.op == "call" and (F.f.name, x.cname) in FRESHREC: c = FRESHREC[(F.f.name, x.cname)]
        elif r[0] == "g" and r[1] == "scm_g_instance_symbol": c = "symtab"
        F.recs[r] = c
        return c
    def keeps_init(s, F, k):
        r = k[0] if isinstance(k[0], tuple) else k
        return s.record(F, r) is not None
    def constant(s, F, k):
        """never changed once the interpreter is initialised"""
        return k[0] == ("g", "scm_g_instance_symbol") and F.f.name != "initialize_symbol_hash"
    def effect(s, F, i):
        """arguments a call writes through; None: it may write anything it can reach"""
        n = i.cname
        if i.get("nr"): return ()
        if n is None:
            k = s.slot(i, F.f)
            if k in ("scan_char", "str2int", "char_len"): return ()
            if k == "int2str": return (0,)
            return None
        if n.startswith("llvm.mem") or n in ("memcpy", "memmove", "memset", "strcpy", "snprintf", "sprintf"): return (0,)
        if n.startswith("llvm."): return ()
        if n in s.impl["int2str"]: return (0,)
        if n.startswith("scm_lbuf_"): return (0,)
        if n == "format_str_peek": return ()
        if n in ALLOC or n in ("free", "scm_strdup"): return ()
        if s.pure(F, i): return ()
        return None
    def bytes_only(s, F, i):
        n = i.cname
        return n is None and s.slot(i, F.f) == "int2str" or n in s.impl["int2str"]
    def nocapture(s, i, k, f, busy):
        n = i.cname
        if n is None: return s.slot(i, f) is not None
        if n in NOCAP: return True
        if n.startswith("scm_lbuf_"): return True
        fn = s.m.fns.get(n)
        if fn is None or fn.decl or k >= len(fn.args): return False
        if (n, k) in busy: return True
        return not bounds.captured(s, fn, fn.args[k][0], busy + ((n, k),))
    def fresh(s, x): return x.cname in ALLOC or x.cname == "scm_strdup"
    def apart(s, F, k, ty, k2, ty2):
        """accesses of different scalar types never touch the same cell (byte accesses may)"""
        if ty != ty2 and ty != "i8" and ty2 != "i8": return True
        for (a, b) in ((k, k2), (k2, k)):
            c = s.record(F, b[0])
            if not c: continue
            # structures of these classes are allocated apart from buffers, tables and argument lists
            if valist_root(F, a[0]) or s.isbuf(F, a[0]): return True
            if a[0][0] == "g" and b[0][0] != "g": return True
            if s.record(F, a[0]) not in (None, c): return True
        return False
    def isbuf(s, F, r, n=0):
        if r in F.bufs or r in F.cstr: return True
        x = F.d(r)
        if x is None or n > 8: return False
        if x.op == "call": return s.fresh(x) or x.cname in ("sal_string_str", "sal_vector_vec", "memcpy", "memmove") or s.slot(x, F.f) == "int2str"
        if x.op == "load":
            k = F.root_off(x.ops[0])
            if k and k[1] is not None:
                c = s.record(F, k[0])
                return bool(c) and s.shape(c)[0] == k[1]
            return False
        if x.op in ("phi", "select"):
            return all(y[0] == "n" or any(True for _ in [0]) and all(t[0] == r or s.isbuf(F, t[0], n + 1) for t in F.targets(y)) for y in (x.ops if x.op == "phi" else x.ops[1:]))
        return False
    def shape(s, c): return s.RECORDS[c]
    def extra_cells(s, F):
        out = []
        rs = set()
        for k, (aid, ty, nm) in enumerate(F.f.args): rs.add(("v", aid))
        for i in F.f.instrs():
            if i.op in ("alloca", "call"): rs.add(("v", i.id))
            for o in i.ops:
                while o[0] == "ge": o = o[1]
                if o[0] == "g": rs.add(o)
        for r in rs:
            c = s.record(F, r)
            if c:
                F.recroots.add(r)
                a, z, u = s.shape(c)
                out += [((r, a), "ptr"), ((r, z), "i64")] + [((r, o), t) for o, t in s.CELLS[c]]
        return out
    def ready(s, F): pass
    def cellof(s, t): return t[2] if t[0] in ("m", "after") else t[1] if t[0] == "init" else t[2][0]
    def sibling(s, F, t, off, ty):
        """the content of another member of the structure at the time cell value t was current"""
        k = s.cellof(t); k2 = (k[0], off)
        if t[0] == "m": return F.inmem.get(t[1], {}).get((k2, ty))
        if t[0] == "after": return ("after", t[1], k2, ty)
        if t[0] == "init": return ("init", k2, ty)
        return ("unk", t[1], (k2, ty))
    def whole(s, F, t):
        """was the structure consistent where this cell value was current?  (at a join that is not a loop head:
        only when it was consistent on every way in)"""
        if t[0] != "m" or t[1] in F.heads: return True
        k = s.cellof(t); c = s.record(F, k[0])
        if not hasattr(F, "_whole"): F._whole = {}
        q = (t[1], k[0])
        if q not in F._whole:
            F._whole[q] = True
            a, z, u = s.shape(c); ok = True
            for p in F.preds[t[1]]:
                mem = F.outmem.get(p, {})
                P = mem.get(((k[0], a), "ptr"))
                if P is None or P[0] not in ("m", "after", "init", "unk") or s.cellof(P) != (k[0], a) or not s.whole(F, P): ok = False; break
                for o, ty in [(z, "i64")] + s.CELLS[c]:
                    if s.sibling(F, P, o, ty) != mem.get(((k[0], o), ty)): ok = False
            F._whole[q] = ok
        return F._whole[q]
    def companion(s, F, t):
        """the size (in bytes) that goes with a buffer address read from a structure"""
        k = s.cellof(t)
        if k[1] is None: return None
        c = s.record(F, k[0])
        if c is None: return None
        a, z, u = s.shape(c)
        if k[1] != a or not s.whole(F, t): return None
        v = s.sibling(F, t, z, "i64")
        return scale(F.lin(v), u) if v else None
    def invariant(s, c, get):
        """(rows, conds) relating the members; get(off, ty) -> linear form"""
        a, z, u = s.shape(c)
        p, n = get(a, "ptr"), get(z, "i64")
        rows = [n]; conds = []
        if c == "ostr":
            cur = get(16, "i64")
            rows += [cur, add(n, cur, -1)]
            conds += [([add(n, con(-1))], [add(add(n, cur, -1), con(-1))])]
        if c == "symtab": rows += [add(n, con(-1)), add(con((1 << 29) - 1), n, -1)]
        return rows, conds
    def readonly_fn(s, name, seen=()):
        fn = s.m.fns.get(name)
        if fn is None: return False
        if fn.decl: return bool(fn.ro or fn.rn) or name in ("strlen", "strcmp", "memcmp")
        if name in seen: return True
        for i in fn.instrs():
            if i.op == "store" and i.ops[1][0] != "u":
                b = i.ops[1]
                while True:
                    if b[0] == "ge": b = b[1]; continue
                    x = fn.defs.get(b[1]) if b[0] == "v" else None
                    if x is not None and x.op in ("getelementptr", "bitcast"): b = x.ops[0]; continue
                    break
                x = fn.defs.get(b[1]) if b[0] == "v" else None
                if x is None or x.op != "alloca": return False
            if i.op == "call":
                if (i.cname or "").startswith("llvm.") and not (i.cname or "").startswith("llvm.mem"): continue
                if i.get("nr"): continue
                if not i.cname or not s.readonly_fn(i.cname, seen + (name,)): return False
        return True
    def pure(s, F, i):
        if i.get("nr"): return True
        n = i.cname
        if n is None:
            k = s.slot(i, F.f)
            if k in ("scan_char", "str2int", "char_len"):
                return all(s.readonly_fn(x) for x in s.impl[k])
            return False
        if n.startswith("llvm.") and not n.startswith("llvm.mem"): return True
        if n in s._ro: return s._ro[n]
        r = s._ro[n] = s.readonly_fn(n)
        return r
    _ro = {}
    # --- contracts: what a function may rely on (bufs: at least this many bytes are readable and
    # writable there; pre) and what it promises (post); each is shown where the function is called or defined
    def contract(s, n):
        if n in s._con: return s._con[n]
        c = CON.get(n)
        if c is None:
            for k, st in s.impl.items():
                if n in st: c = CODEC[k]
        s._con[n] = c
        return c
    def call_contract(s, F, i):
        n = i.cname
        if n is None:
            k = s.slot(i, F.f)
            if k: return CODEC.get(k)
            x = F.d(i.callee) if i.callee else None
            if x is not None and x.op == "load" and x.get("tbaa") == ["ScmBytePortVTbl_", 56]: return {"bufs": {2: lambda A: A.arg(1)}, "pre": lambda A: [A.arg(1)]}
            return None
        return s.contract(n)
    def prepare(s, F):
        n = F.f.name
        F.spec = s; F.recs = {}; F.recroots = set(); F.res = {}
        F.bufs = {}      # base atom -> end row
        F.cstr = set(); F.term = {}
        F.pre = []; F.precond = []
        F.codec = any(i.op == "call" and s.slot(i, F.f) == "scan_char" for i in F.f.instrs())
        c = s.contract(n)
        A = F.A = Body(F)
        if c:
            for k, w in c.get("bufs", {}).items():
                p = ("v", F.f.args[k][0]); F.bufs[p] = add(var(p), w(A))
            if "pre" in c: F.pre = c["pre"](A)
            if "precond" in c: F.precond = c["precond"](A)
        for k, (aid, ty, nm) in enumerate(F.f.args):
            if F.f.ptypes[k] == "const char *" and ("v", aid) not in F.bufs or (n, k) in CSTR: F.cstr.add(("v", aid))
            t = TERM.get((n, k)) or (8 if F.f.ptypes[k] == "char * *" and n != "scm_free_argv" else None)
            if t: F.term[("v", aid)] = t
    def call_lin(s, F, x):
        n = x.cname
        if n in ("memcpy", "memmove"): return F.lin(x.ops[0])
        if n == "sal_vector_len": return {("len", s.objkey(F, x.ops[0])): 1}
        if n == "sal_string_len": return {("slen", s.objkey(F, x.ops[0])): 1}
        return None
    def objkey(s, F, o):
        return key(F.lin(o))
    def end(s, F, root):
        """end address of the object a root value points at"""
        if root in F.bufs: return F.bufs[root]
        if root[0] == "g":
            g = s.m.globals.get(root[1])
            if g and g.get("size"): return add(F.lin(root), con(g["size"]))
            return None
        if root[0] in ("m", "after", "init", "unk"):
            z = s.companion(F, root)
            return add(F.lin(root), z) if z is not None else None
        if root[0] != "v": return None
        x = F.f.defs.get(root[1])
        if x is None:
            c = s.record(F, root)
            if c in RSIZE: return add(F.lin(root), con(RSIZE[c]))
            if root in F.cstr: return add({("N", root): 1}, con(1))
            if root in F.term: return add({("T", root): 1}, con(F.term[root]))
            return None
        V = F.lin(root)
        if x.op == "alloca":
            if x.ops and x.ops[0][0] == "i": return add(V, con(x.get("asz") * max(1, x.ops[0][1])))
            return add(V, con(x.get("asz")))
        if x.op == "call" and x.cname in ALLOC: return add(V, F.lin(x.ops[ALLOC[x.cname]]))
        if x.op == "getelementptr" and member_size(F, x): return add(V, con(member_size(F, x)))
        if x.op == "call" and x.cname == "sal_vector_vec": return add(V, {("len", s.objkey(F, x.ops[0])): 8})
        if s.iscstr(F, root): return add({("N", root): 1}, con(1))
        if x.op == "extractvalue" and x.ops[0][0] == "v":
            c = F.f.defs.get(x.ops[0][1])
        return None
    def iscstr(s, F, root):
        if root in F.cstr: return True
        x = F.f.defs.get(root[1]) if root[0] == "v" else None
        if x is not None and x.op == "load":
            k = F.root_off(x.ops[0])
            if k and k[0] == ("g", "scm_g_instance_static_load"): return True      # the library path
        return x is not None and x.op == "call" and x.cname in ("sal_string_str",)
    # --- sums along a list: ll = number of pairs, fs = total length of the strings in it
    def folds(s, F):
        if not hasattr(F, "_folds"):
            cs = {i.cname for i in F.f.instrs() if i.op == "call"}
            F._folds = ([] if "sal_cons_cdr" not in cs else ["ll"] + (["fs"] if "sal_string_str" in cs else []) + (["cf"] if any(i.op == "call" and s.slot(i, F.f) == "char_len" for i in F.f.instrs()) else []))
        return F._folds
    def fold(s, F, k, o):
        x = F.d(o)
        if x is not None and x.id in F.canon and F.canon[x.id] != o: return s.fold(F, k, F.canon[x.id])
        if x is not None and x.op == "call" and x.cname == "sal_cons_cdr":
            return add(s.fold(F, k, x.ops[0]), s.item(F, k, x.ops[0]), -1)
        return {(k, o): 1}
    def pairtests(s, F):
        if not hasattr(F, "_pairtests"): F._pairtests = [i for i in F.f.instrs() if i.op == "call" and i.cname == "sal_consp" and i.blk.id in F.reach]
        return F._pairtests
    def item(s, F, k, o):
        """what the pair o adds to the sum"""
        return con(1) if k == "ll" else {({"fs": "sl", "cf": "ce"}[k], s.objkey(F, o)): 1}
    def char_of(s, F, o):
        """o = the value of the character in some pair: [(condition, pair)]"""
        x = F.d(o); n = 0
        while x is not None and x.op in ("sext", "zext", "trunc") and n < 4: x = F.d(x.ops[0]); n += 1
        if x is None or x.op != "call" or x.cname != "sal_char_value": return []
        y = F.d(x.ops[0]); out = []
        for p in (y.ops if y is not None and y.op == "phi" else [x.ops[0]]):
            z = F.d(p)
            if z is not None and z.op == "call" and z.cname == "sal_cons_car": out.append((F.eq(F.lin(p), F.lin(x.ops[0])), z.ops[0]))
        return out
    def element_length(s, F, r):
        """r = the text of the string in some pair: the length of that string"""
        x = F.d(r)
        if x is None or x.op != "call" or x.cname != "sal_string_str": return []
        out = []
        y = F.d(x.ops[0])
        for o in (y.ops if y is not None and y.op == "phi" else [x.ops[0]]):
            z = F.d(o)
            if z is not None and z.op == "call" and z.cname == "sal_cons_car":
                out.append((F.eq(F.lin(o), F.lin(x.ops[0])), {("sl", s.objkey(F, z.ops[0])): 1}))
        return out
    def guess(s, F, o): return olin(F, o)
    def axioms(s, F, t, rows, conds):
        V = var(t)
        if t[0] == "pr":
            w, n = var(t[1]), var(t[2])
            conds.append(([w, n], [V]))
            conds.append(([w, add(n, con(-1))], [add(V, w, -1)]))
            if t[2][0] == "v":
                e = olin(F, t[2])
                if e != n: conds.append((F.eq(n, e), F.eq(V, prod(t[1], e))))
            conds.append(([n, scale(n, -1)], F.eq(V, {})))
            for m in F.f.instrs():
                if m.op != "mul" or m.blk.id not in F.reach: continue
                for k in (0, 1):
                    if F.lin(m.ops[k]) != w: continue
                    N = F.lin(m.ops[1 - k]); M = F.lin(("v", m.id))
                    g = [w, N, n] + ([] if m.get("nsw") else [add(con(s.K - 1), w, -1), add(con(1 << 60), N, -1)])
                    conds.append((g + [add(add(N, n, -1), con(-1))], [add(add(M, V, -1), w, -1)]))
                    conds.append((g + [add(N, n, -1)], [add(M, V, -1)]))
                    if N == n: conds.append((g, F.eq(V, M)))
        if t[0] == "room":
            rows += [add(V, con(-1)), add(con(s.K), V, -1)]
            c = F.f.defs[t[1]]; ch = F.lin(c.ops[1])
            for g, pr in s.char_of(F, c.ops[1]):
                e = add({("ce", s.objkey(F, pr)): 1}, con(1))
                for nz in (add(ch, con(-1)), add(con(-1), ch, -1)): conds.append((g + [nz], F.eq(V, e)))
        if t[0] in ("ce",): rows += [V, add(con(s.K - 1), V, -1)]
        if t[0] in ("ll", "fs", "sl", "cf"): rows += [V, add(con(BIG >> (4 if t[0] == "ll" else 0)), V, -1)]
        if t[0] in ("ll", "fs", "cf"):
            # nothing is counted for what is not a pair
            for c in s.pairtests(F):
                if s.fold(F, t[0], c.ops[0]) == V:
                    C = F.lin(("v", c.id)); conds.append(([C, scale(C, -1)], F.eq(V, {})))
        if t[0] in ("len",): rows += [V, add(con(BIG >> 3), V, -1)]
        if t[0] == "slen": rows += [V, add(con(BIG), V, -1)]
        if t[0] in ("m", "after", "init", "unk"):
            k = s.cellof(t); c = s.record(F, k[0])
            if c and k[1] is not None and s.whole(F, t):
                g = lambda off, ty: F.lin(s.sibling(F, t, off, ty) or ("?", t, off))
                rs, cs = s.invariant(c, g); rows += rs; conds += cs
                a, z, u = s.shape(c)
                if k[1] in (a, z): rows.append(sub(sub(con(BIG), g(a, P_)), scale(g(z, I_), u)))
        if t[0] == "after":
            c = F.f.defs.get(t[1]); cc = s.call_contract(F, c)
            if cc and "post" in cc:
                rs, cs = cc["post"](Call(F, c)); rows += rs; conds += cs
        if t[0] == "T": rows += [add(V, F.lin(t[1]), -1), add(con(BIG), V, -1)]
        if t[0] == "N":
            rows += [add(V, F.lin(t[1]), -1), add(con(BIG), V, -1)]
            for g, e in s.element_length(F, t[1]): conds.append((g, F.eq(V, add(F.lin(t[1]), e))))
        if t[0] == "v":
            x = F.f.defs.get(t[1])
            if x is None:
                for r in F.pre:
                    if t in r: rows.append(r)
                for g, c in F.precond: conds.append((g, c))
                for e in F.bufs.values():
                    if t in e: rows.append(add(con(BIG), e, -1))
                if t in F.bufs: rows.append(add(V, con(-1)))
                return
            if x.op == "call": s.call_ax(F, x, V, rows, conds)
            elif x.op == "extractvalue":
                c = F.f.defs.get(x.ops[0][1]) if x.ops[0][0] == "v" else None
                if c is not None and c.op == "call": s.field_ax(F, c, x.get("ix"), V, rows, conds)
            elif x.ty == "i8" and x.op in ("load", "phi") and s.charat(F, x):
                a = s.charat(F, x); q = F.lin(a)
                for b in roots(F, a):
                    if s.iscstr(F, b):
                        N = {("N", b): 1}; B = F.lin(b)
                        g = [add(q, B, -1), add(N, q, -1)]
                        conds.append((g + [add(V, con(-1))], [add(add(N, q, -1), con(-1))]))
                        conds.append((g + [add(con(-1), V, -1)], [add(add(N, q, -1), con(-1))]))
                        conds.append((g + [V, scale(V, -1)], [add(q, N, -1)]))
            if x is not None and x.op == "load" and x.get("tbaa") == ["ScmStorageConf_", 32]: rows += [add(V, con(-1)), add(con((1 << 29) - 1), V, -1)]
        if t[0] == "v":
            x = F.f.defs.get(t[1])
            if x is not None and x.op == "and" and F.f.name == "call" and x.ops[1] == ("i", 15, x.ops[1][-1]):
                # number of mandatory arguments of a registered function (C08: only registered functions have such a type code)
                rows.append(add(con(max(d[3] & 15 for d in F.m.funcdescs())), V, -1))
            if x is not None and x.op == "mul" and x.ops[0][0] != "i" and x.ops[1][0] != "i":
                for k in (0, 1):
                    a, b = F.lin(x.ops[k]), F.lin(x.ops[1 - k])
                    conds.append(([a, add(con(s.K - 1), a, -1), b] + ([] if x.get("nsw") else [add(con(1 << 60), b, -1)]), [V]))
            if x is not None and x.op == "phi" and x.blk.id in F.heads: s.multiple_ax(F, x, V, conds)
            if x is not None and x.op == "call" and x.cname in ALLOC:
                z = F.lin(x.ops[ALLOC[x.cname]])
                # the request was met: its size, read as an unsigned number, fits the address space
                rows += [z, add(con(BIG), z, -1), add(con(BIG), add(V, z), -1)]
                rows.append(add(V, con(-1)))
    def multiple_ax(s, F, x, V, conds):
        """a value that starts at b and moves by w each time, compared with b + w*n: when short of it, it is w or more short"""
        b = w = None
        for y, p in zip(x.ops, x.raw["in"]):
            if p not in F.reach: continue
            e = F.lin(y)
            if p in F.body[x.blk.id]:
                e = add(e, V, -1)
                if w is not None and e != w: return
                w = e
            elif b is not None and b != e: return
            else: b = e
        if not w or b is None or set(w) == {None} or not ok_at(F, w, x.blk.id) or any(t in w for t in V): return
        for m in F.f.instrs():
            if m.op != "mul" or m.blk.id not in F.reach: continue
            for k in (0, 1):
                if F.lin(m.ops[k]) != w: continue
                X = F.lin(m.ops[1 - k]); M = F.lin(("v", m.id))
                g = [w, add(con(s.K - 1), w, -1), X] + ([] if m.get("nsw") else [add(con(1 << 60), X, -1)])
                D = add(add(b, M), V, -1)
                conds.append((g + [add(D, con(-1))], [add(D, w, -1)]))
    def charat(s, F, x, busy=()):
        """the address whose character the value x is"""
        if x.op == "load": return x.ops[0]
        if not hasattr(F, "_charat"): F._charat = {}
        if x.id in F._charat: return F._charat[x.id]
        if x.op != "phi": return None
        for i in F.f.blocks[x.blk.id].phis:
            if i.ty != "ptr": continue
            F._charat[x.id] = ("v", i.id)        # assumed for the values carried around the loop
            at = dict((p, y) for y, p in zip(i.ops, i.raw["in"])); ok = True
            for y, p in zip(x.ops, x.raw["in"]):
                if p not in F.reach: continue
                z = F.d(y)
                a = s.charat(F, z) if z is not None and z.ty == "i8" else None
                if a is None or F.lin(a) != F.lin(at[p]): ok = False; break
            if ok: return ("v", i.id)
        F._charat[x.id] = None
        return None
    def call_ax(s, F, x, V, rows, conds):
        n = x.cname; k = s.slot(x, F.f)
        cc = s.call_contract(F, x)
        if cc and "post" in cc:
            rs, cs = cc["post"](Call(F, x)); rows += rs; conds += cs
        if k is None and n:
            for kk, st in s.impl.items():
                if n in st: k = kk
        if n == "sal_char_value": rows.append(V)         # character objects hold scalar values
        if k == "char_len" and x.cname is None:
            for g, pr in s.char_of(F, x.ops[0]): conds.append((g, F.eq(V, {("ce", s.objkey(F, pr)): 1})))
        if n in ("strspn", "strcspn"):
            q = F.lin(x.ops[0]); rows += [V, add(con(BIG), V, -1)]
            for b in roots(F, x.ops[0]):
                if s.iscstr(F, b):
                    N = {("N", b): 1}; B = F.lin(b)
                    conds.append(([add(q, B, -1), add(N, q, -1)], [add(add(N, q, -1), V, -1)]))
        if n == "strchr" and x.ops[1][0] == "i" and x.ops[1][1] == 0:
            q = F.lin(x.ops[0])
            for b in roots(F, x.ops[0]):
                g = F.d(b)
                if g is not None and g.op == "getelementptr" and member_size(F, g) and q == F.lin(b):
                    rows += [add(V, q, -1), add(add(q, con(member_size(F, g) - 1)), V, -1)]      # (the buffer always holds a terminated string)
                if s.iscstr(F, b):
                    N = {("N", b): 1}; conds.append(([add(q, F.lin(b), -1), add(N, q, -1)], F.eq(V, N)))
        if n == "strlen":
            q = F.lin(x.ops[0])
            rows += [V, add(con(BIG), V, -1)]
            for b in roots(F, x.ops[0]):
                g = F.d(b)
                if g is not None and g.op == "getelementptr" and member_size(F, g) and q == F.lin(b):
                    rows.append(add(con(member_size(F, g) - 1), V, -1))      # (the buffer always holds a terminated string)
                if s.iscstr(F, b):
                    N = {("N", b): 1}; B = F.lin(b)
                    conds.append(([add(q, B, -1), add(N, q, -1)], F.eq(V, add(N, q, -1))))
                for g, e in s.element_length(F, b): conds.append((g + F.eq(q, F.lin(b)), F.eq(V, e)))
        elif n == "sal_consp" and s.folds(F):
            for kk in s.folds(F): conds.append(([V, scale(V, -1)], F.eq(s.fold(F, kk, x.ops[0]), {})))
        elif n == "scm_length" and s.folds(F):
            rows += [add(con(BIG >> 4), V, -1)]
            conds.append(([V], F.eq(V, s.fold(F, "ll", x.ops[0]))))
        elif n in ("scm_mb_strlen", "scm_mb_bare_c_strlen"):
            rows += [V, add(con(BIG), V, -1)]
    def field_ax(s, F, c, ix, V, rows, conds):
        cc = s.call_contract(F, c)
        if cc and "post" in cc:
            rs, cs = cc["post"](Call(F, c))
            rows += rs; conds += cs
    def compare(s, F, x, p, a, b, out):
        # a character compared with the terminator
        for u, v in ((a, b), (b, a)):
            if v[0] != "i" or v[1] != 0 or p not in ("ne",): continue
            y = F.d(u); n = 0
            while y is not None and y.op in ("zext", "sext") and n < 4: y = F.d(y.ops[0]); n += 1
            if y is not None and y.id in F.canon: y = F.d(F.canon[y.id])
            if y is not None and y.op in ("load", "phi") and y.ty == "i8" and s.charat(F, y):
                y = s.charat(F, y); q = F.lin(y)
                for r in roots(F, y):
                    if s.iscstr(F, r):
                        N = {("N", r): 1}; B = F.lin(r)
                        out.cond([add(q, B, -1), add(N, q, -1)], [add(add(N, q, -1), con(-1))])
        for u, v in ((a, b), (b, a)):
            if not (v[0] == "n" or v[0] == "i" and v[1] == 0) or p != "ne": continue
            y = F.d(u); n = 0
            while y is not None and y.op in ("zext", "sext") and n < 4: y = F.d(y.ops[0]); n += 1
            if y is None: continue
            if y.id in F.canon: y = F.d(F.canon[y.id]) or y
            if y.op != "load": continue
            q = F.lin(y.ops[0])
            for r in roots(F, y.ops[0]):
                T = s.terminator(F, r, q)
                if T is None: continue
                t, stride = T; B = F.lin(r)
                out.cond([add(q, B, -1), add(t, q, -1)], [add(add(t, q, -1), con(-stride))])
    def lastrecs(s, F, r):
        """addresses of possible final records of a terminated array"""
        if r in F.term: return [{("T", r): 1}]
        g = s.m.globals.get(r[1]) if r[0] == "g" else None
        ini = g and g.get("init"); t = (g or {}).get("ty") or ""
        if not ini or ini[0] != "a" or not t.startswith("["): return []
        n = len(ini[1]); stride = g["size"] // n
        if stride < 8: return []
        zs = {n - 1} | {k for k, e in enumerate(ini[1]) if zero_at(e, 0, s.m, r)}
        return [add(F.lin(r), con(k * stride)) for k in sorted(zs)[:3]]
    def terminator(s, F, r, q):
        """(address of the member of the array's final zero record that is congruent with q, record size)"""
        if r[0] == "g":
            g = s.m.globals.get(r[1]); ini = g and g.get("init"); t = (g or {}).get("ty") or ""
            if not ini or ini[0] != "a" or not t.startswith("[") or not g.get("const", True): return None
            n = len(ini[1]); stride = g["size"] // n if n else 0
        elif r in F.term: stride = F.term[r]
        else: return None
        if stride < 8: return None
        o = residue(F, q, r, stride)
        if o is None: return None
        if r[0] != "g": return (add({("T", r): 1}, con(o)), stride) if o == 0 else None
        z = next((k for k, e in enumerate(ini[1]) if zero_at(e, o, s.m, r)), None)
        return (add(F.lin(r), con(z * stride + o)), stride) if z is not None else None
    def block_facts(s, F, b, chain, out):
        for r in F.pre: out.add(r)
        for x in chain:
            for i in F.f.blocks[x].ins:
                if i.op == "call" and i.cname in ("sal_cons_cdr", "sal_cons_car"):
                    for k in s.folds(F):
                        e = s.fold(F, k, i.ops[0])
                        out.add(add(e, s.item(F, k, i.ops[0]), -1))
                if i.op == "call" and i.cname in ALLOC:
                    z = F.lin(i.ops[ALLOC[i.cname]])
                    out.add(z); out.add(add(con(BIG), z, -1))

MEMBERS = {"%struct.ScmMultiByteCharPort_": "rbuf"}
def member_size(F, x):
    """size of the array member a getelementptr selects, for structures that contain a buffer"""
    n = (x.get("sty") or "")
    if n not in MEMBERS or x.get("off") is None: return None
    st = F.m.structs.get(n[1:]) or F.m.structs.get(n)
    for t, o in (st or {}).get("el", ()):
        if o == x.get("off") and t.startswith("["): return int(t[1:].split(" ")[0])
    return None
def member(F, x):
    if not hasattr(F, "_members"): F._members = {}
    return F._members.setdefault(key(F.lin(("v", x.id))), ("v", x.id))
def prod(w, e):
    """w * e"""
    r = {}
    for t, c in e.items(): r = add(r, {w: c} if t is None else {("pr", w, t): c})
    return r
def roots(F, o, seen=None):
    """the values an address is computed from"""
    seen = set() if seen is None else seen
    if o[0] == "ge": return roots(F, o[1], seen)
    if o[0] == "m" and o in F.livem:
        # the buffer of a structure keeps its identity as "the structure's buffer"
        if F.spec.companion(F, o) is not None: return {o}
        if o in seen: return set()
        seen.add(o); r = set()
        for y in F.mphi.get(o[1], {}).get(o, {}).values():
            if y is None: return {o}
            r |= roots(F, y, seen)
        return r
    if o[0] != "v": return {o}
    if o[1] in seen: return set()
    seen.add(o[1])
    x = F.f.defs.get(o[1])
    if x is None: return {o}
    if x.id in F.canon and F.canon[x.id] != o: return roots(F, F.canon[x.id], seen)
    if x.op == "getelementptr" and member_size(F, x): return {member(F, x)}
    if x.op == "call" and x.cname == "strchr" and x.ops[1][0] == "i" and x.ops[1][1] == 0: return roots(F, x.ops[0], seen)
    if x.op in ("getelementptr", "bitcast", "freeze", "addrspacecast"): return roots(F, x.ops[0], seen)
    if x.op == "phi":
        r = set()
        for y in x.ops: r |= roots(F, y, seen)
        return r
    if x.op == "select": return roots(F, x.ops[1], seen) | roots(F, x.ops[2], seen)
    if x.op == "extractvalue":
        c = F.f.defs.get(x.ops[0][1]) if x.ops[0][0] == "v" else None
        if c is not None and c.op == "call" and c.cname == "scm_mb_substring" and x.get("ix") == [0]: return roots(F, c.ops[1], seen)
    if x.op == "call" and x.cname in ("memcpy", "memmove"): return roots(F, x.ops[0], seen)
    if x.op == "call" and F.spec.slot(x, F.f) == "int2str": return roots(F, x.ops[0], seen) | {("n",)}
    return {o}

def residue(F, q, root, stride, seen=()):
    """q - root modulo stride, if it is the same in every iteration"""
    d = add(q, F.lin(root), -1) if all(q.get(t) == c for t, c in F.lin(root).items() if t is not None) else None
    if d is not None:
        if any(c % stride for t, c in d.items() if t is not None): return None
        return d.get(None, 0) % stride
    js = [t for t, c in q.items() if t is not None and c % stride]
    if len(js) != 1 or q[js[0]] != 1 or js[0] in seen: return None
    t = js[0]; src = None
    if t[0] == "v" and F.f.defs.get(t[1]) is not None and F.f.defs[t[1]].op == "phi": src = F.f.defs[t[1]].ops
    elif t[0] == "m": src = list(F.mphi.get(t[1], {}).get(t, {}).values())
    if not src: return None
    rs = set()
    for y in src:
        if y is None: return None
        e = F.lin(y)
        if e.get(t) == 1:
            if any(c % stride for u, c in add(e, var(t), -1).items()): return None
            continue
        rs.add(residue(F, e, root, stride, seen + (t,)))
    if len(rs) != 1 or None in rs: return None
    return (rs.pop() + q.get(None, 0)) % stride
def zero_at(e, o, m, r):
    """is the member of initialiser e at byte offset o zero?"""
    if e[0] in ("z", "n"): return True
    if e[0] == "i": return e[1] == 0
    if e[0] == "a":
        ty = m.globals[r[1]].get("ty"); nm = ty[ty.index("x") + 1:-1].strip()
        st = m.structs.get(nm.replace("%", "")) or m.structs.get(nm)
        if not st: return False
        for x, (et, at) in zip(e[1], st["el"]):
            if at == o: return x[0] in ("z", "n") or x[0] == "i" and x[1] == 0
    return False

# ---------------------------------------------------------------- candidates and obligations
def olin(F, o, depth=0):
    """linear form read as if no operation ever wrapped (for guessing only)"""
    def ex(r):
        out = {}
        for t, c in r.items():
            e = None
            if t is not None and t[0] == "v" and depth < 30:
                x = F.f.defs.get(t[1])
                if x is not None:
                    if x.op in ("add", "sub", "mul", "shl"): e = F.expr(x)
                    elif x.op in ("zext", "trunc") and x.ty != "i1" and x.get("sty") != "i1": e = F.lin(x.ops[0])
                    if e == {t: 1}: e = None
            if e is not None: out = add(out, olin_row(F, e, depth + 1), c)
            else: out = add(out, {t: c})
        return out
    return ex(F.lin(o))
def olin_row(F, r, depth=0):
    out = {}
    for t, c in r.items():
        if t is not None and t[0] == "v" and depth < 30: out = add(out, olin(F, ("v", t[1]), depth), c)
        else: out = add(out, {t: c})
    return out

def ok_at(F, r, h):
    """only the phis of h and values defined before the loop"""
    body = F.body[h]
    for t in r:
        if t is None: continue
        if t[0] == "v":
            x = F.f.defs.get(t[1])
            if x is None: continue
            if x.op == "phi" and x.blk.id == h: continue
            if x.blk.id in body: return False
            if not F.dominates(x.blk.id, h): return False
        elif t[0] == "q":
            x = F.f.defs[t[1]]
            if x.blk.id == h: continue
            if x.blk.id in body or not F.dominates(x.blk.id, h): return False
        elif t[0] in ("m", "after", "unk"):
            if t[0] == "m":
                if t[1] == h: continue
                b = t[1]
            else: b = F.f.defs[t[1]].blk.id
            if b in body or not F.dominates(b, h): return False
        elif t[0] in ("ll", "fs"):
            if not ok_at(F, {t[1]: 1}, h): return False
        elif t[0] == "sl": return False
        elif t[0] == "N":
            if not ok_at(F, F.lin(t[1]), h): return False
        elif t[0] == "undef": return False
    return True

def candidates(F, goals):
    out = {h: {} for h in F.heads}
    PH = {h: {a for a, ty, m in F.phis(h)} for h in F.heads}
    def put(h, r):
        if set(r) - {None} and ok_at(F, r, h) and any(t in PH[h] for t in r): out[h][key(r)] = r
    cmps = []
    for i in F.f.instrs():
        if i.blk.id in F.reach and i.op == "icmp" and i.get("oty") != "i1" and not (i.get("oty") or "").startswith("ptr addrspace"):
            cmps.append(add(olin(F, i.ops[0]), olin(F, i.ops[1]), -1))
    for h in F.heads:
        phis = [(a, ty, m) for a, ty, m in F.phis(h) if ty in ("i8", "i32", "i64", "i16", "ptr")]
        for a, ty, m in phis:
            V = var(a)
            put(h, V if ty != "ptr" else add(V, con(-1)))
            put(h, add(con(BIG), V, -1))
            for p, y in m.items():
                if p in F.body[h] or p not in F.reach or y[0] == "u": continue
                I = F.lin(y)
                put(h, add(V, I, -1)); put(h, add(I, V, -1))
            if ty == "ptr":
                for b in roots(F, a):
                    if b == ("n",): continue
                    e = F.spec.end(F, b)
                    if e is not None: put(h, add(e, V, -1)); put(h, add(add(e, V, -1), con(-1)))
                    for T in F.spec.lastrecs(F, b): put(h, add(T, V, -1))
        for i in F.f.blocks[h].phis:
            if i.id not in F.quot: continue
            V = F.lin(("v", i.id))
            for b in roots(F, ("v", i.id)):
                e = F.spec.end(F, b) if b != ("n",) else None
                if e is not None: put(h, add(e, V, -1)); put(h, add(add(e, V, -1), con(-1)))
                if b != ("n",):
                    for T in F.spec.lastrecs(F, b): put(h, add(T, V, -1))
        for e in cmps:
            for k in (1, -1):
                for c in (0, 1, -1): put(h, add(scale(e, k), con(c)))
        mem = {t[2:]: t for t in PH[h] if t[0] == "m"}
        def here(g):
            """what is in memory later, read as what is in memory at the head"""
            r = {}
            for t, c in g.items(): r = add(r, {(mem.get(t[2:], t) if t is not None and t[0] in ("after", "m") else t): c})
            return r
        for g in goals + [q for q in map(here, goals) if q not in goals]:
            put(h, g)
            for c in (1, -1): put(h, add(g, con(c)))
        # counts kept along a list
        fo = [P for P in F.phis(h) if P[0][0] in ("ll", "fs", "cf")]
        for P in fo:
            en = [p for p in F.preds[h] if p not in F.body[h]]
            for Q in phis:
                if Q in fo or Q[1] not in ("i64", "ptr", "i32"): continue
                for p in en:
                    if p not in P[2] or p not in Q[2] or Q[2][p][0] == "u": continue
                    d = add(var(P[0]), F.lin(P[2][p]), -1); e = add(var(Q[0]), F.lin(Q[2][p]), -1)
                    for k in (1, -1, 8) if P[0][0] == "ll" else (1,):
                        r = add(e, d, k); put(h, r); put(h, scale(r, -1))
        # an address that moves by a variable stride beside a counter
        la = [p for p in F.preds[h] if p in F.body[h]]; en = [p for p in F.preds[h] if p not in F.body[h]]
        for P in phis:
            if P[0][0] != "pr": continue
            w, n = P[0][1], P[0][2]
            N = [Q for Q in phis if Q[0] == n]
            for Q in phis:
                if Q is P or any(p not in Q[2] or Q[2][p][0] == "u" for p in la + en): continue
                d = [add(F.lin(Q[2][p]), var(Q[0]), -1) for p in la]; d2 = [add(olin(F, N[0][2][p]), var(n), -1) for p in la] if N else []
                if not d or not d2 or any(x not in ({w: 1}, {w: -1}) or x != d[0] for x in d): continue
                k = d[0][w] * d2[0].get(None, 1)
                for p in en:
                    r = add(add(var(Q[0]), F.lin(Q[2][p]), -1), add(var(P[0]), F.lin(P[2][p]), -1), -k)
                    put(h, r); put(h, scale(r, -1))
        # at most K-1 bytes for each character counted
        for P in phis if F.codec else []:
            for Q in phis:
                if P is Q or Q[1] not in ("i64", "i32") or P[1] not in ("i64", "ptr"): continue
                la = [p for p in F.preds[h] if p in F.body[h]]; en = [p for p in F.preds[h] if p not in F.body[h]]
                if any(p not in P[2] or p not in Q[2] or P[2][p][0] == "u" or Q[2][p][0] == "u" for p in la + en): continue
                d = [add(olin(F, Q[2][p]), var(Q[0]), -1) for p in la]
                if not d or any(x != d[0] for x in d) or set(d[0]) != {None} or abs(d[0][None]) != 1: continue
                for p in en:
                    put(h, add(scale(add(var(Q[0]), F.lin(Q[2][p]), -1), (F.spec.K - 1) * d[0][None]), add(var(P[0]), F.lin(P[2][p]), -1), -1))
        # quantities that move in step
        def delta(P, p): return add(olin(F, P[2][p]), var(P[0]), -1) if p in P[2] and P[2][p][0] != "u" else None
        la = [p for p in F.preds[h] if p in F.body[h]]; en = [p for p in F.preds[h] if p not in F.body[h]]
        for a in range(len(phis)):
            for b in range(a + 1, len(phis)):
                P, Q = phis[a], phis[b]
                if all(p in P[2] and p in Q[2] and P[2][p][0] != "u" and F.lin(P[2][p]) == F.lin(Q[2][p]) for p in F.preds[h]):
                    e = sub(var(P[0]), var(Q[0])); put(h, e); put(h, scale(e, -1)); continue
                rat = None
                for p in la:
                    dp, dq = delta(P, p), delta(Q, p)
                    if dp is None or dq is None or bool(dp) != bool(dq): rat = False; break
                    if not dp: continue
                    t = next(iter(dq)); r = (dp.get(t, 0), dq[t])
                    if scale(dp, r[1]) != scale(dq, r[0]): rat = False; break
                    if rat is not None and rat[0] * r[1] != rat[1] * r[0]: rat = False; break
                    rat = r
                if not rat: continue
                for p in en:
                    if p not in P[2] or p not in Q[2] or P[2][p][0] == "u" or Q[2][p][0] == "u": continue
                    e = add(scale(add(var(P[0]), F.lin(P[2][p]), -1), rat[1]), scale(add(var(Q[0]), F.lin(Q[2][p]), -1), rat[0]), -1)
                    put(h, e); put(h, scale(e, -1))
    return {h: list(v.values()) for h, v in out.items()}

class Access:
    def __init__(s, ins, addr, width, what): s.ins = ins; s.addr = addr; s.width = width; s.what = what
    def where(s): return s.ins.loc()

def counted(F, root):
    """is the object a counted buffer, as opposed to a record?"""
    if root in F.bufs: return True
    if root[0] == "g":
        g = F.m.globals.get(root[1]); return bool(g and (g.get("ty") or "").startswith("["))
    x = F.f.defs.get(root[1]) if root[0] == "v" else None
    if x is None: return root in F.cstr
    if x.op == "alloca": return (x.get("aty") or "").startswith("[")
    if x.op == "call": return x.cname in ALLOC and not F.record(x) or x.cname in ("sal_vector_vec", "sal_string_str")
    return F.spec.end(F, root) is not None

def variable(F, o, seen=None):
    seen = set() if seen is None else seen
    while o[0] == "ge": o = o[1]
    if o[0] != "v" or o[1] in seen: return False
    seen.add(o[1])
    x = F.f.defs.get(o[1])
    if x is None: return False
    if x.op == "getelementptr": return x.get("off") is None or variable(F, x.ops[0], seen)
    if x.op in ("bitcast", "freeze"): return variable(F, x.ops[0], seen)
    if x.op == "phi":
        if x.blk.id in F.heads: return any(y != ("v", x.id) for y in x.ops) and len({repr(F.lin(y)) for y in x.ops}) > 1
        return any(variable(F, y, seen) for y in x.ops)
    if x.op == "select": return variable(F, x.ops[1], seen) or variable(F, x.ops[2], seen)
    return False

def valist(F, o):
    """memory of a va_list"""
    for _ in range(20):
        if o[0] == "ge": o = o[1]; continue
        x = F.d(o)
        if x is None: return False
        if "va_list" in str(x.get("sty")) or "va_list" in str(x.get("aty")): return True
        if x.op in ("getelementptr", "bitcast", "load"): o = x.ops[0]; continue
        if x.op == "phi": return any(valist(F, y) for y in x.ops if y[0] == "v" and y[1] < x.id)
        return False
    return False
def valist_root(F, r):
    """is the object used as a va_list?"""
    if not hasattr(F, "_val"): F._val = {}
    if r not in F._val:
        F._val[r] = valist(F, r) or r[0] == "v" and any(i.op == "getelementptr" and k == 0 and "va_list" in str(i.get("sty")) for i, k in F.f.uses().get(r[1], ()))
    return F._val[r]

def accesses(F):
    out = []
    for b in F.order:
        for i in F.f.blocks[b].ins:
            if i.op == "load": a, w = i.ops[0], F.size_of(i.ty)
            elif i.op == "store": a, w = i.ops[1], F.size_of(i.get("vty"))
            elif i.op == "call" and (i.cname or "").replace("llvm.", "").split(".")[0] in ("memcpy", "memmove", "memset"):
                n = i.cname
                d, sr = F.root_off(i.ops[0]), F.root_off(i.ops[1])
                cd = F.spec.record(F, d[0]) if d else None
                if cd == "symtab" and F.f.name == "scm_init_symbol": cd = None      # cleared before the table exists
                if cd and not (sr and F.spec.record(F, sr[0]) == cd and sr[1] == d[1] == 0): out.append(Row(i, b, [], [con(-1)], "a %s structure is overwritten bytewise" % cd))
                def whole_record(a):      # copy of a structure
                    return i.ops[2][0] == "i" and not any(counted(F, r) for r in roots(F, a)) and not variable(F, a)
                if not whole_record(i.ops[0]): out.append(Access(i, i.ops[0], F.lin(i.ops[2]), "bytes written"))
                if "memset" not in n and not whole_record(i.ops[1]): out.append(Access(i, i.ops[1], F.lin(i.ops[2]), "bytes read"))
                continue
            elif i.op == "call":
                cc = F.spec.call_contract(F, i)
                for k, w in (cc or {}).get("bufs", {}).items():
                    out.append(Access(i, i.ops[k], w(Call(F, i)), "bytes handed to %s" % (i.cname or F.spec.slot(i, F.f))))
                continue
            else: continue
            if a[0] == "u" or valist(F, a) or any(valist_root(F, k[0]) for k in F.targets(a)): continue
            rs = roots(F, a)
            if any(counted(F, r) for r in rs) or variable(F, a): out.append(Access(i, a, con(w), "element"))
    return out

class Row:
    """obligation: rows hold at a block, assuming guards"""
    def __init__(s, ins, blk, guards, rows, what): s.ins = ins; s.blk = blk; s.guards = guards; s.rows = rows; s.what = what
    def where(s): return s.ins.loc() if s.ins is not None else "?"

def duties(F):
    """what the function owes: contracts of the functions it calls, its own promises, structures kept consistent"""
    out = []; S = F.spec
    for b in F.order:
        for i in F.f.blocks[b].ins:
            if i.op == "call":
                cc = S.call_contract(F, i)
                if cc:
                    A = Call(F, i); n = i.cname or S.slot(i, F.f)
                    for r in (cc["pre"](A) if "pre" in cc else []): out.append(Row(i, b, [], [r], "precondition of %s" % n))
                    for g, c in (cc["precond"](A) if "precond" in cc else []): out.append(Row(i, b, g, c, "precondition of %s" % n))
                if S.effect(F, i) is None or (i.cname or "").startswith("scm_lbuf_") and i.cname not in ("scm_lbuf_init", "scm_lbuf_alloc"): out += kept(F, i, b, F.before.get(i.id, {}), i)
            elif i.op == "ret":
                out += kept(F, i, b, F.outmem[b], None)
                c = S.contract(F.f.name)
                if c and "post" in c:
                    rs, cs = c["post"](Ret(F, i))
                    for r in rs: out.append(Row(i, b, [], [r], "promise of %s" % F.f.name))
                    for g, cc in cs: out.append(Row(i, b, g, cc, "promise of %s" % F.f.name))
        for t in F.f.blocks[b].succs:
            # structures joined at t
            for at in F.mphi.get(t, {}):
                pass
    for t, ms in F.mphi.items():
        for at, src in ms.items():
            if at[2][0] in F.recroots and at in F.livem and t in F.heads:
                for p, v in src.items(): out += kept(F, F.f.blocks[p].term, p, F.outmem[p], None, only=at[2][0])
    seen = set(); res = []
    for r in out:
        k = (r.blk, r.what, tuple(sorted(map(str, r.guards))), tuple(map(str, r.rows)) if not isinstance(r, Access) else (str(r.addr), str(r.width)))
        if k in seen: continue
        seen.add(k); res.append(r)
    return res

def kept(F, i, b, mem, call, only=None):
    """every structure of a known class is consistent with memory contents mem at the end of block b"""
    S = F.spec; out = []
    for r in F.recroots:
        if only is not None and r != only: continue
        c = S.record(F, r)
        if call is not None and F.private(r) and not any(k[0] == r for a in call.ops for k in F.targets(a)): continue
        x = F.f.defs.get(r[1]) if r[0] == "v" else None
        if x is not None and not F.dominates(x.blk.id, b): continue
        if x is not None and x.op == "alloca" and call is None and only is None: continue      # dies here
        a, z, u = S.shape(c)
        P, N = mem.get(((r, a), "ptr")), mem.get(((r, z), "i64"))
        if P is None or N is None: continue
        whole = P[0] in ("m", "after", "init", "unk") and S.cellof(P) == (r, a) and S.whole(F, P) and S.sibling(F, P, z, "i64") == N
        others = [mem.get(((r, o), t)) for o, t in S.CELLS[c]]
        if whole and all(S.sibling(F, P, o, t) == v for (o, t), v in zip(S.CELLS[c], others)): continue
        if P[0] == "u" or N[0] == "u":
            if call is None: continue
        if not whole:
            y = Access(i, P, scale(F.lin(N), u), "the size recorded in the %s structure" % c); y.blk = b; y.guards = []; y.rows = []
            out.append(y)
        rs, cs = S.invariant(c, lambda off, ty: F.lin(mem.get(((r, off), ty)) or ("?", off)))
        for q in rs: out.append(Row(i, b, [], [q], "consistency of the %s structure" % c))
        for g, q in cs: out.append(Row(i, b, g, q, "consistency of the %s structure" % c))
    return out

def proved(F, d, splits=4):
    if isinstance(d, Access): return within(F, d, splits)
    for r in d.rows:
        if not F.prove(r, d.blk, list(d.guards), splits): return "not shown: %s  [%s >= 0]" % (d.what, bounds.show(r))
    return None

def within(F, acc, splits=4):
    """None if proved, else a reason"""
    def go(addr, A, blk, extra, depth):
        rs = roots(F, addr) - {("n",)}
        if len(rs) > 1 and depth < 4:
            # tell the possible objects apart
            j = join_of(F, addr)
            if j is not None:
                jb, at, src = j
                for p in F.preds[jb]:
                    y = src.get(p)
                    if y is None: return "address unknown on one way"
                    if y[0] in ("n", "u"): continue
                    ex = extra + list(F.edge(p, jb).rows.values()) + list(F.base_facts(p, []).rows.values())
                    for at2, ty, src2 in F.phis(jb):
                        if p in src2 and src2[p][0] != "u": ex = ex + F.eq(var(at2), F.lin(src2[p]))
                    r = go(y, A, blk, ex, depth + 1)
                    if r: return r
                return None
        if not rs and ("n",) in roots(F, addr): rs = {("n",)}
        if rs == {("n",)}:
            return None if F.prove(scale(acc.width, -1), blk, extra, splits) else "not shown: nothing is accessed through a null address"
        if len(rs) != 1: return "address with several possible objects %s" % (sorted(map(str, rs))[:4],)
        r = next(iter(rs)); E = F.spec.end(F, r)
        if E is None: return "size of the object at %s unknown" % (desc(F, r),)
        lo = add(A, F.lin(r), -1); hi = add(add(E, A, -1), acc.width, -1)
        if not F.prove(lo, blk, extra, splits): return "not shown: address is at or after the start of %s" % desc(F, r)
        if not F.prove(hi, blk, extra, splits): return "not shown: address stays before the end of %s  [%s >= 0]" % (desc(F, r), bounds.show(hi))
        return None
    return go(acc.addr, F.lin(acc.addr), getattr(acc, "blk", acc.ins.blk.id), [], 0)

def join_of(F, o):
    """(block, atom, sources) of the join (not a loop head) an address is computed from"""
    for _ in range(30):
        if o[0] == "ge": o = o[1]; continue
        if o[0] == "m":
            if o[1] in F.heads: return None
            return (o[1], o, F.mphi.get(o[1], {}).get(o, {}))
        x = F.d(o)
        if x is None: return None
        if x.id in F.canon and F.canon[x.id] != o: o = F.canon[x.id]; continue
        if x.op in ("getelementptr", "bitcast", "freeze"): o = x.ops[0]; continue
        if x.op == "call" and x.cname in ("memcpy", "memmove"): o = x.ops[0]; continue
        if x.op == "phi" and x.blk.id not in F.heads: return (x.blk.id, ("v", x.id), dict((p, y) for y, p in zip(x.ops, x.raw["in"])))
        return None

def desc(F, r):
    if r[0] == "g": return "global " + str(F.m.gname(r) or r[1])
    x = F.f.defs.get(r[1]) if r[0] == "v" else None
    if x is None: return "parameter " + str(F.f.names.get(r[1]) if r[0] == "v" else r)
    return "%s%s @%s" % (x.op, " " + x.cname if x.op == "call" and x.cname else "", x.line)

def analyse(f, spec):
    F = bounds.Flow(f, spec); F.spec = spec
    return F
