"""Room for text: every copy of a whole string (strcpy, strcat, strncpy, sprintf) into a buffer obtained in the
same function fits the size it was requested with, as linear expressions over string lengths (part of C02)."""
import ir
from core import Part
from rules import nul, bound

ALLOC = {"malloc": 0, "scm_malloc": 0, "scm_malloc_aligned": 0, "scm_realloc": 1, "realloc": 1}

def add(a, b, k=1):
    r = dict(a)
    for t, c in b.items():
        r[t] = r.get(t, 0) + k * c
        if not r[t]: del r[t]
    return r

class Lin:
    def __init__(s, m, f):
        s.m, s.f = m, f; s.B = nul.Bufs(m, f)
        s.ends = {}                                # buffer -> addresses of stored ends
        for i in f.instrs():
            if i.op == "store" and i.raw.get("vty") == "i8" and i.ops[0][0] == "i" and i.ops[0][1] == 0:
                b, o = s.base(i.ops[1]); s.ends.setdefault(b, []).append(o)
    def base(s, o):
        """root of a pointer and linear offset from it"""
        off = {}
        while True:
            if o[0] != "v": return ("k", o[1]), off
            d = s.f.defs.get(o[1])
            if d is None: return ("v", o[1]), off
            if d.op == "getelementptr" and d.raw.get("sty") == "i8" and len(d.ops) == 2: off = add(off, s.lin(d.ops[1])); o = d.ops[0]
            elif d.op == "getelementptr" and d.raw.get("off") is not None: off = add(off, {1: d.raw["off"]}); o = d.ops[0]
            elif d.op == "getelementptr" and "i8]" in d.raw.get("sty", "") and d.ops[1][0] == "i" and d.ops[1][1] == 0: off = add(off, s.lin(d.ops[-1])); o = d.ops[0]
            elif d.op in ("bitcast", "freeze"): o = d.ops[0]
            elif d.op == "load": return ("ld", s.B.addr_key(d.ops[0])), off
            else: return ("v", d.id), off
    def lin(s, o, depth=0):
        if o[0] == "i": return {1: o[1]} if o[1] else {}
        if o[0] != "v" or depth > 40: return {("?", str(o)): 1}
        d = s.f.defs.get(o[1])
        if d is None: return {("v", o[1]): 1}
        L = lambda k: s.lin(d.ops[k], depth + 1)
        if d.op in ("zext", "sext", "trunc", "freeze"): return L(0)
        if d.op == "add": return add(L(0), L(1))
        if d.op == "sub": return add(L(0), L(1), -1)
        if d.op == "mul" and d.ops[1][0] == "i": return add({}, L(0), d.ops[1][1])
        if d.op == "shl" and d.ops[1][0] == "i": return add({}, L(0), 1 << d.ops[1][1])
        if d.op == "ptrtoint": b, off = s.base(d.ops[0]); return add({("p",) + b: 1}, off)
        if d.op == "call" and d.cname == "strlen": return s.length(d.ops[0])
        if d.op == "load": return {("ld", s.B.addr_key(d.ops[0])): 1}
        return {("v", d.id): 1}
    def length(s, o):
        """upper bound of the length of a text"""
        if o[0] in ("g", "ge"):
            t = const(s.m, o)
            if t is not None: return {1: len(t)} if t else {}
        b, off = s.base(o)
        root = b
        seen = set()
        while root[0] == "v":                      # a pointer walking inside one local buffer
            d = s.f.defs.get(root[1])
            if d is None or d.op != "phi" or root in seen: break
            seen.add(root); bs = {s.base(x)[0] for x in d.ops} - {root}
            bs = {x for x in bs if not (x[0] == "v" and x in seen)}
            if len(bs) != 1: break
            root = bs.pop()
            if root[0] == "v":
                d2 = s.f.defs.get(root[1])
        if root in s.ends and len(s.ends[root]) == 1 and root[0] == "v" and root[1] in s.f.defs and s.f.defs[root[1]].op == "alloca":
            return add(add({("p",) + root: 1}, s.ends[root][0]), add({("p",) + b: 1}, off), -1)
        return add({("strlen", b, tuple(sorted(off.items(), key=str))): 1}, {})

def const(m, o): return m.cstr(o) if o[0] in ("g", "ge") else None

def rules(cfg, prop):
    P = Part("room for text", cfg); m = ir.Module(cfg)
    for f in sorted(m.defined(), key=lambda f: f.name):
        if prop == "C18" and f.file not in bound.READER: continue
        if not any(i.cname in ("strcpy", "strcat", "strncpy", "sprintf") for i in f.calls()): continue
        L = Lin(m, f)
        for b in f.blocks:
            cur = {}                                # buffer -> text length known here
            for i in b.ins:
                if i.op == "store" and i.raw.get("vty") == "i8" and i.ops[0][0] == "i" and i.ops[0][1] == 0:
                    r, off = L.base(i.ops[1]); cur[r] = off
                if i.cname not in ("strcpy", "strcat", "strncpy", "sprintf") or i.op != "call": continue
                r, off = L.base(i.ops[0]); d = L.f.defs.get(r[1]) if r[0] == "v" else None
                if d is not None and d.op == "alloca": size = {1: d.raw["asz"]}
                elif d is not None and d.op == "call" and d.cname in ALLOC: size = L.lin(d.ops[ALLOC[d.cname]])
                else: P.trusts("%s into a buffer obtained elsewhere (%s)" % (i.cname, f.name)); continue
                P.count("copies of whole texts")
                one = {1: 1}
                if i.cname == "strncpy": need = add(off, L.lin(i.ops[2]))
                elif i.cname == "strcpy": n = L.length(i.ops[1]); cur[r] = add(off, n); need = add(cur[r], one)
                elif i.cname == "strcat":
                    if r not in cur: P.trusts("strcat to a text whose length is not known there (%s)" % f.name); continue
                    cur[r] = add(cur[r], L.length(i.ops[1])); need = add(cur[r], one)
                else:
                    n = formatted(L, i)
                    if n is None: P.bad("%s:room" % f.name, "%s: in %s: sprintf whose output has no bound" % (i.loc(), f.name)); continue
                    cur[r] = add(off, n); need = add(cur[r], one)
                left = add(size, need, -1)
                if any(c > 0 and t != 1 and t[0] != "strlen" for t, c in left.items()) and left.get(1, 0) >= 0 and all(c > 0 for t, c in left.items() if t != 1):
                    P.trusts("size of the buffer has a part the expression does not relate to the text (%s)" % f.name); continue
                ok = all(c >= 0 if (t == 1 or t[0] == "strlen") else c == 0 for t, c in left.items())
                P.check(ok, "%s:room" % f.name, "%s: in %s: %s may write more than the buffer was requested with (size - need = %s)" % (i.loc(), f.name, i.cname, left))
    if prop == "C02": P.need("copies of whole texts", 2)
    return P

def formatted(L, i):
    t = const(L.m, i.ops[1])
    if t is None: return None
    if isinstance(t, bytes): t = t.decode("latin1")
    n = {}; k = 2; p = 0
    while p < len(t):
        if t[p] != "%": n = add(n, {1: 1}); p += 1; continue
        if t[p + 1:p + 2] == "%": n = add(n, {1: 1})
        elif t[p + 1:p + 2] == "s": n = add(n, L.length(i.ops[k])); k += 1
        elif t[p + 1:p + 2] == "c": n = add(n, {1: 1}); k += 1
        else: return None
        p += 2
    return n

def c02(cfg): return rules(cfg, "C02")
def c18(cfg): return rules(cfg, "C18")
