"""Text buffers end with a NUL: every byte written into a text buffer is followed, on every path, by the
terminator before the buffer is used as a string or the function returns (part of C02 and C18)."""
import ir
from core import Part

STRFN = {"strlen": (0,), "strchr": (0,), "strdup": (0,), "strcmp": (0, 1), "strcpy": (1,), "strcat": (0, 1), "strncat": (0, 1), "strtol": (0,),
         "strstr": (0, 1), "fopen": (0,), "open": (0,), "puts": (0,), "fputs": (0,), "atoi": (0,), "getenv": (0,),
         "scm_strdup": (0,), "scm_intern": (0,), "scm_make_string": (0,), "scm_make_immutable_string": (0,),
         "scm_make_string_copying": (0,), "scm_make_immutable_string_copying": (0,), "scm_string2number": (0,)}
COPY = ("memcpy", "memmove", "llvm.memcpy", "llvm.memmove", "strncpy", "memset", "llvm.memset", "__memcpy_chk", "__memset_chk", "fread", "read")
ENDS = ("strcpy", "sprintf", "snprintf", "vsnprintf", "fgets", "scm_strdup", "strdup", "__snprintf_chk", "__sprintf_chk", "__vsnprintf_chk")
FREE = ("free",)

class Bufs:
    def __init__(s, m, f):
        s.m, s.f = m, f
    def addr_key(s, o):
        """a name for the place a pointer is kept in"""
        off = 0
        while True:
            if o[0] == "ge":
                b = o[1]; return ("g", b[1] if isinstance(b, tuple) else b, o[2])
            if o[0] != "v": return (o[0], o[1], off)
            d = s.f.defs.get(o[1])
            if d is not None and d.op == "getelementptr" and d.raw.get("off") is not None:
                off += d.raw["off"]; o = d.ops[0]; continue
            if d is not None and d.op in ("bitcast", "addrspacecast"): o = d.ops[0]; continue
            if d is not None and d.op == "load": return ("ind", s.addr_key(d.ops[0]), off)
            return ("v", o[1], off)

def flow_roots(m, f):
    """pointer value -> set of buffers, by a forward fixpoint"""
    B = Bufs(m, f); R = {}
    def of(o):
        if o[0] == "g": return {("g", o[1])}
        if o[0] == "ge": return {("g", o[1][1] if isinstance(o[1], tuple) else o[1])}
        return R.get(o[1], set()) if o[0] == "v" else set()
    for a in f.args:
        if a[1] == "ptr": R[a[0]] = {("arg", a[0])}
    ch = True
    while ch:
        ch = False
        for b in f.blocks:
            for i in b.ins:
                if i.ty != "ptr": continue
                if i.op == "getelementptr" and i.raw.get("sty", "").startswith("%struct") and i.raw.get("off") is not None: r = {("fld", B.addr_key(("v", i.id)))}
                elif i.op in ("getelementptr", "bitcast", "addrspacecast", "freeze"): r = of(i.ops[0])
                elif i.op == "phi": r = set().union(*[of(o) for o in i.ops])
                elif i.op == "select": r = of(i.ops[1]) | of(i.ops[2])
                elif i.op == "alloca": r = {("alloca", i.id)}
                elif i.op == "load": r = {("mem", B.addr_key(i.ops[0]))}
                elif i.op == "inttoptr": r = {("new", i.id)}
                elif i.op == "call":
                    r = {("new", i.id)}
                    if i.cname in ("scm_realloc", "realloc"): pass
                    elif i.cname is None or i.cname.startswith("mem") or i.cname in ("strchr", "strcpy", "strncpy"):
                        d = [o for o in i.ops if o[0] == "v" and of(o)]
                        if i.cname is None: d = d[-1:] if d else []
                        for o in d[:1] if i.cname else d: r = r | of(o)
                else: r = set()
                if not r <= R.get(i.id, set()): R[i.id] = R.get(i.id, set()) | r; ch = True
    return of

def with_end(m, f, i):
    """a copy that brings the terminator with it: one byte more than a length, or zeros"""
    from rules import room
    if "memset" in i.cname: return i.ops[1][0] == "i" and i.ops[1][1] == 0
    if "mem" not in i.cname: return False
    n = i.ops[2]
    if n[0] == "i":
        t = room.const(m, i.ops[1]); return t is not None and n[1] > len(t)
    L = room.Lin(m, f); l = L.lin(n)
    return l.get(1, 0) == 1 and len(l) > 1 or room.add(l, L.length(i.ops[1]), -1) == {1: 1}

def isname(i, names): return i.cname is not None and any(i.cname == n or n.startswith("llvm.") and i.cname.startswith(n) for n in names)

def scan(m, f):
    """(write, end, what) for every write of text that can reach a use as a string, or a return, unterminated"""
    of = flow_roots(m, f); writes = []
    def text(o): return of(o)
    ev = {}
    for b in f.blocks:
        for i in b.ins:
            if i.op == "store" and i.raw.get("vty") == "i8":
                r = of(i.ops[1])
                if r: ev[i] = ("nul" if i.ops[0][0] == "i" and i.ops[0][1] == 0 else "write", r)
            elif i.op == "call":
                if isname(i, ENDS):
                    r = of(i.ops[0])
                    if r: ev[i] = ("nul", r)
                elif i.cname is not None and isname(i, COPY):
                    d = 1 if i.cname == "read" else 0
                    r = of(i.ops[d])
                    if r: ev[i] = ("nul" if with_end(m, f, i) else "copy", r)
                elif i.cname is None or i.cname in m.fns and not m.fns[i.cname].decl or i.cname in STRFN or isname(i, FREE):
                    ev[i] = ("call", None)
    bytebufs = set()
    for i, (k, r) in ev.items():
        if k in ("write", "nul"): bytebufs |= r
    for b in f.blocks:
        for i in b.ins:
            if i.op == "getelementptr" and i.raw.get("sty") == "i8": bytebufs |= of(i.ops[0])
            elif i.op == "call":
                for a in STRFN.get(i.cname, ()):
                    if a < len(i.ops): bytebufs |= of(i.ops[a])
    out = []
    for i, (k, r) in ev.items():
        if k == "copy" and not (r & bytebufs): continue
        if k not in ("write", "copy"): continue
        # an end put there before (at the end of the block, the text then filled in below it)
        res = [] if ended_before(f, i, r, ev) else ends(m, f, i, r, ev, of)
        out.append((i, r, res))
    return out

def ends(m, f, w, r, ev, of):
    seen = set(); st = [(w.blk, w.idx + 1)]; bad = []
    while st:
        b, k = st.pop(); stop = False
        for i in b.ins[k:]:
            e = ev.get(i)
            if e and e[1] and e[1] & r:
                stop = True; break                 # terminated, or written again (checked from there)
            if i.op == "call":
                if i.raw.get("nr") or i.cname in m.fns and m.fns[i.cname].noreturn: stop = True; break
                if isname(i, FREE) and of(i.ops[0]) & r: stop = True; break
                if i.cname is None and any(of(o) & r for o in i.ops): stop = True; break
                for a in STRFN.get(i.cname, ()):
                    if a < len(i.ops) and of(i.ops[a]) & r: bad.append((i, "is used as a string")); stop = True
                if stop: break
            if i.op == "ret":
                if not all(x[0] == "alloca" for x in r): bad.append((i, "is left"))
                stop = True; break
            if i.op == "unreachable": stop = True; break
        if stop: continue
        for x in b.succs:
            if x not in seen: seen.add(x); st.append((f.blocks[x], 0))
    return bad

def run(cfg, prop):
    from rules import bound
    P = Part("terminators", cfg); m = ir.Module(cfg)
    for f in sorted(m.defined(), key=lambda f: f.name):
        if f.file in ("encoding.c", "scmport-mbchar.c"): g = "C13"
        elif f.file in bound.READER: g = "C18"
        else: g = "C02"
        if g != prop: continue
        for i, r, res in scan(m, f):
            P.count("writes of text")
            P.check(not res, "%s:terminator" % f.name, "%s: in %s: text is written into a buffer that %s at %s without having been terminated" % (
                i.loc(), f.name, res[0][1] if res else "", res[0][0].loc() if res else ""))
    P.need("writes of text", 3)
    return P
def c02(cfg): return run(cfg, "C02")
def c13(cfg): return run(cfg, "C13")
def c18(cfg): return run(cfg, "C18")

def ended_before(f, w, r, ev):
    """on every path to the write an end was put into the buffer since it was obtained"""
    fresh = {x[1] for x in r if x[0] == "new" and f.defs[x[1]].op == "call" and "alloc" in (f.defs[x[1]].cname or "")}
    body = all(x[0] == "new" for x in r)          # bodies of existing strings are terminated
    seen = set(); st = [(w.blk, w.idx)]
    while st:
        b, k = st.pop(); stop = False
        for i in reversed(b.ins[:k]):
            e = ev.get(i)
            if e and e[0] == "nul" and e[1] & r: stop = True; break
            if i.id in fresh: return False
        if stop: continue
        if b.id == 0:
            if body: continue
            return False
        for p in b.preds:
            if p not in seen: seen.add(p); st.append((f.blocks[p], len(f.blocks[p].ins)))
    return True
