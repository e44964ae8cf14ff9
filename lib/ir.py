"""In-memory model of the dumped IR."""
import re, collections
import build

OBJ = "ptr addrspace(7)"

class Ins:
    __slots__ = ("op","id","ty","ops","callee","line","file","blk","fn","raw","idx","succ")
    def __init__(s, raw, blk, fn, idx):
        s.raw = raw; s.op = raw["op"]; s.id = raw["id"]; s.ty = raw.get("ty"); s.ops = [tuple_(o) for o in raw["ops"]]
        c = raw.get("callee"); s.callee = tuple_(c) if c else None
        s.line = raw.get("line"); s.file = raw.get("file"); s.blk = blk; s.fn = fn; s.idx = idx
        s.succ = raw.get("succ")
    def get(s, k, d=None): return s.raw.get(k, d)
    @property
    def cname(s):
        return s.callee[1] if s.callee and s.callee[0] == "f" else None
    def loc(s):
        f = s.file or s.fn.file or "?"
        return "%s:%s" % (f.split("/")[-1], s.line)
    def __repr__(s): return "<%s %%%d %s %s @%s>" % (s.op, s.id, s.cname or "", s.ops, s.loc())

def tuple_(o):
    return tuple(tuple_(x) if isinstance(x, list) else x for x in o)

class Block:
    __slots__ = ("id","ins","preds","succs","fn","phis")
    def __init__(s, id, fn): s.id = id; s.fn = fn; s.ins = []; s.preds = []; s.succs = []; s.phis = []
    @property
    def term(s): return s.ins[-1]

class Fn:
    def __init__(s, raw, mod):
        s.mod = mod; s.raw = raw; s.name = raw["name"]; s.decl = raw["decl"]; s.noreturn = raw["noreturn"]
        s.dname = raw.get("dname") or s.name; s.file = (raw.get("file") or "").split("/")[-1]; s.line = raw.get("line")
        s.args = [(a[0], a[1], a[2]) for a in raw["args"]]; s.ret = raw["ret"]; s.vararg = raw["vararg"]
        s.dtypes = raw.get("dtypes", []); s.local = raw["local"]; s.ro = raw.get("ro"); s.rn = raw.get("rn")
        # source type of each argument (aggregates passed in pieces have none)
        s.ptypes = [None] * len(s.args); pt = raw.get("ptypes", [])[1:]
        if pt or not s.args:
            k = 0; last = None
            for a, (aid, ty, nm) in enumerate(s.args):
                base = nm.split(".coerce")[0] if nm and ".coerce" in nm else None
                if nm and nm.startswith("agg.result"): continue
                if base is not None:
                    if base != last: k += 1
                    last = base; continue
                last = None
                if k < len(pt): s.ptypes[a] = pt[k]
                k += 1
        s.blocks = []; s.defs = {}; s.names = {}
        for a in s.args: s.names.setdefault(a[0], a[2])
        for i, b in enumerate(raw["blocks"]):
            B = Block(i, s); s.blocks.append(B); k = 0
            for r in b:
                if r["op"] == "dbg":
                    if r["ops"] and r["ops"][0][0] == "v": s.names[r["ops"][0][1]] = r.get("var")
                    continue
                I = Ins(r, B, s, k); k += 1; B.ins.append(I); s.defs[I.id] = I
                if I.op == "phi": B.phis.append(I)
        for B in s.blocks:
            t = B.term; ss = list(t.succ or [])
            if t.op == "switch": ss += [c[1] for c in t.raw["cases"]]
            seen = []
            for x in ss:
                if x not in seen: seen.append(x)
            B.succs = seen
            for x in seen: s.blocks[x].preds.append(B.id)
        s.uses_ = None
    def instrs(s):
        for b in s.blocks:
            for i in b.ins: yield i
    def calls(s):
        for i in s.instrs():
            if i.op == "call": yield i
    def rpo(s):
        if not s.blocks: return []
        seen = set(); out = []
        st = [(0, iter(s.blocks[0].succs))]; seen.add(0)
        while st:
            b, it = st[-1]
            for n in it:
                if n not in seen:
                    seen.add(n); st.append((n, iter(s.blocks[n].succs))); break
            else:
                out.append(b); st.pop()
        return out[::-1]
    def uses(s):
        if s.uses_ is None:
            u = collections.defaultdict(list)
            for i in s.instrs():
                for k, o in enumerate(i.ops):
                    if o[0] == "v": u[o[1]].append((i, k))
                if i.callee and i.callee[0] == "v": u[i.callee[1]].append((i, -1))
            s.uses_ = u
        return s.uses_
    def dominators(s):
        if hasattr(s, "_dom"): return s._dom
        order = s.rpo(); pos = {b: i for i, b in enumerate(order)}
        idom = {order[0]: order[0]}
        ch = True
        while ch:
            ch = False
            for b in order[1:]:
                ps = [p for p in s.blocks[b].preds if p in idom]
                if not ps: continue
                n = ps[0]
                for p in ps[1:]:
                    a, c = p, n
                    while a != c:
                        while pos[a] > pos[c]: a = idom[a]
                        while pos[c] > pos[a]: c = idom[c]
                    n = a
                if idom.get(b) != n: idom[b] = n; ch = True
        s._dom = idom
        return idom
    def dominates(s, a, b):
        idom = s.dominators()
        if b not in idom: return True
        while True:
            if a == b: return True
            n = idom[b]
            if n == b: return False
            b = n

class Module:
    def __init__(s, cfg, mode="abs", passes=None):
        j = build.load_json(cfg, mode, passes)
        s.cfg = cfg; s.mode = mode
        s.fns = {}
        for f in j["funcs"]: s.fns[f["name"]] = Fn(f, s)
        s.globals = {g["name"]: g for g in j["globals"]}
        s.structs = {x["name"]: x for x in j["structs"]}
        s.dtypes = {}
        for x in j["dtypes"]:
            if x["name"]: s.dtypes.setdefault(x["name"], x)
        s.anon_dtypes = [x for x in j["dtypes"] if not x["name"]]
    def defined(s): return [f for f in s.fns.values() if not f.decl]
    def gname(s, o):
        """source-level name of the global variable (or member of a global variable block) o addresses"""
        off = 0
        while o and o[0] == "ge": off += o[2]; o = o[1]
        if not o or o[0] != "g": return None
        g = s.globals.get(o[1]); t = (g or {}).get("ty") or ""
        if t.startswith("%struct."):
            # (equal structure types are merged by the linker: prefer the name of the variable block)
            d = s.dtypes.get(o[1].replace("scm_g_instance_", "scm_g_")) if o[1].startswith("scm_g_instance_") else None
            d = d or s.dtypes.get(t[len("%struct."):])
            if d:
                for n, at, ty, sz in d["mem"]:
                    if at == off: return n
        return (g or {}).get("dname") or o[1]
    def enum(s, name):
        """enumerator -> value of the named enum, or of any anonymous enum containing it"""
        d = s.dtypes.get(name)
        return {m[0]: m[1] for m in d["mem"]}
    def funcdescs(s):
        """(table, scheme name, C function name, type code value) for every registered entry."""
        out = []
        for n, g in s.globals.items():
            if not n.startswith("scm_functable_"): continue
            ini = g.get("init")
            if not ini or ini[0] != "a": continue
            for e in ini[1]:
                if e[0] != "a": continue
                nm, fn, tc = e[1][0], e[1][1], e[1][2]
                if fn[0] != "f": 
                    if nm[0] == "n": continue
                    out.append((n, s.cstr(nm), None, tc[1])); continue
                out.append((n, s.cstr(nm), fn[1], tc[1]))
        return out
    def cstr(s, v):
        while v and v[0] == "ge" and v[2] == 0: v = v[1]
        if v and v[0] == "g":
            i = s.globals[v[1]].get("init")
            if i and i[0] == "s": return i[1].rstrip("\0")
            if i and i[0] == "z": return ""
        return None
