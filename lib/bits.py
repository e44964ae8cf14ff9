"""Abstract interpretation in a bit-provenance domain, partitioned by branch outcome.

Every bit of a value is 0, 1 or a symbolic bit (name, index); one object cell ("P")
is the tracked memory.  Masks, shifts, field accesses and comparisons against tags
are exact in this domain, which is all the object representation is made of.
Nothing is executed and no solver is involved."""
import itertools

def const(v, w): return tuple((v >> i) & 1 for i in range(w))
def sym(name, w): return tuple((name, i) for i in range(w))
def isconst(b): return all(x in (0, 1) for x in b)
def cval(b): return sum(x << i for i, x in enumerate(b))
def width(ty):
    if ty is None: return 64
    if ty == "ptr" or ty.startswith("ptr"): return 64
    if ty[0] == "i" and ty[1:].isdigit(): return int(ty[1:])
    return 64

class State:
    __slots__ = ("env", "mem", "asg", "ev", "conds", "gmem")
    def __init__(s, env, mem, asg, ev, conds, gmem=None): s.env = env; s.mem = mem; s.asg = asg; s.ev = ev; s.conds = conds; s.gmem = gmem or {}
    def copy(s): return State(dict(s.env), s.mem, dict(s.asg), s.ev, dict(s.conds), dict(s.gmem))
    def key(s): return (frozenset(s.env.items()), s.mem, frozenset(s.asg.items()), s.ev, frozenset(s.gmem.items()))
    def res(s, b): return tuple(s.asg.get(x, x) if not isinstance(x, int) else x for x in b)

class TooComplex(Exception): pass

class Interp:
    """mem0: bits of the tracked cell; align: number of low address bits of the cell known to be 0"""
    def __init__(s, mod, align, cellbits, hook=None, inline=(), glob=None, limit=4000):
        s.mod = mod; s.align = align; s.nb = cellbits; s.hook = hook; s.inline = inline; s.glob = glob or {}
        s.limit = limit; s.P = tuple(0 if i < align else ("P", i) for i in range(64)); s.n = 0
        s.fresh_depth = 0; s.ginit = {}; s.special = {}
    # -- addresses
    def offset(s, b):
        """byte offset of the address inside the tracked cell, or None"""
        if len(b) != 64 or any(b[i] != ("P", i) for i in range(s.align, 64)): return None
        lo = b[:s.align]
        return cval(lo) if isconst(lo) else None
    def val(s, st, f, o, w=64):
        k = o[0]
        if k == "i": return const(o[1], o[2] if len(o) > 2 else w)
        if k == "n": return const(0, 64)
        if k == "v":
            v = st.env.get((f.name, o[1]))
            return st.res(v) if v is not None else sym("?%s.%d" % (f.name, o[1]), w)
        if k == "g":
            return s.glob.get(o[1]) or sym("&" + o[1], 64)
        if k == "f": return sym("&" + o[1], 64)
        if k == "ge":
            b = s.val(st, f, o[1]); return s.addc(b, o[2], "ge%r" % (o,))
        return sym("?%r" % (o,), w)
    def addc(s, a, c, nm):
        w = len(a); c &= (1 << w) - 1
        if isconst(a): return const(cval(a) + c, w)
        out = []; carry = 0
        for i in range(w):
            x = a[i]; y = (c >> i) & 1
            if isinstance(x, int):
                t = x + y + carry; out.append(t & 1); carry = t >> 1
            elif y + carry == 0: out.append(x)
            elif y + carry == 2: out.append(x)     # carry stays 1
            else:
                # unknown from here on
                if c >> i == 0 and carry == 0: out.append(x); continue
                out += [(nm, j) for j in range(i, w)]; break
        return tuple(out)
    def ev(s, st, f, i):
        if s.special and (f.name, i.id) in s.special: return s.special[(f.name, i.id)]
        op = i.op; w = width(i.ty); nm = "%s.%d" % (f.name, i.id)
        V = lambda k: s.val(st, f, i.ops[k], w)
        def fresh():
            for k in range(w): st.asg.pop((nm, k), None)
            return sym(nm, w)
        if op in ("bitcast", "inttoptr", "ptrtoint", "freeze", "addrspacecast"):
            a = V(0); return (a + (0,) * w)[:w]
        if op == "trunc": return V(0)[:w]
        if op in ("zext", "sext"):
            a = s.val(st, f, i.ops[0], width(i.get("sty"))); a = a[:width(i.get("sty"))]
            return a + ((0,) if op == "zext" else (a[-1],)) * (w - len(a))
        if op in ("and", "or", "xor"):
            a, b = V(0), V(1); out = []
            for k in range(w):
                x, y = a[k], b[k]
                if op == "and":
                    r = 0 if x == 0 or y == 0 else x if y == 1 else y if x == 1 else x if x == y else (nm, k)
                elif op == "or":
                    r = 1 if x == 1 or y == 1 else x if y == 0 else y if x == 0 else x if x == y else (nm, k)
                else:
                    r = 0 if x == y else x if y == 0 else y if x == 0 else (nm, k)
                out.append(r)
            if op == "xor" and w == 1 and out[0] == (nm, 0):
                for x, y in ((a[0], b[0]), (b[0], a[0])):
                    if y == 1: st.conds[(nm, 0)] = ("not", x)
            if w == 1 and out[0] == (nm, 0) and op in ("and", "or"): st.conds[(nm, 0)] = (op, a[0], b[0])
            return tuple(out)
        if op in ("shl", "lshr", "ashr"):
            a, b = V(0), V(1)
            if not isconst(b): return fresh()
            n = cval(b)
            if n >= w: return fresh()
            if op == "shl": return (0,) * n + a[:w - n]
            return a[n:] + ((0,) if op == "lshr" else (a[-1],)) * n
        if op == "add":
            a, b = V(0), V(1)
            if isconst(b): return s.addc(a, cval(b), nm)
            if isconst(a): return s.addc(b, cval(a), nm)
            return fresh()
        if op == "sub":
            a, b = V(0), V(1)
            if isconst(b): return s.addc(a, -cval(b), nm)
            if a == b: return const(0, w)
            return fresh()
        if op in ("mul", "udiv", "sdiv", "urem", "srem"):
            a, b = V(0), V(1)
            if isconst(a) and isconst(b) and (op == "mul" or cval(b)):
                x, y = cval(a), cval(b)
                return const({"mul": lambda: x * y, "udiv": lambda: x // y, "urem": lambda: x % y}.get(op, lambda: 0)(), w) if op in ("mul", "udiv", "urem") else fresh()
            if op == "urem" and isconst(b) and cval(b) and cval(b) & (cval(b) - 1) == 0:
                n = cval(b).bit_length() - 1; return a[:n] + (0,) * (w - n)
            return fresh()
        if op == "getelementptr":
            b = V(0)
            if i.get("off") is not None: return s.addc(b, i.get("off"), nm)
            ix = [s.val(st, f, o) for o in i.ops[1:]]
            if len(ix) == 1 and isconst(ix[0]):
                n = cval(ix[0]); n -= (1 << len(ix[0])) if ix[0][-1] else 0
                return s.addc(b, n * i.get("esz"), nm)
            return fresh()
        if op == "icmp":
            ow = width(i.get("oty")); a, b = s.val(st, f, i.ops[0], ow), s.val(st, f, i.ops[1], ow)
            p = i.get("pred"); r = None
            if isconst(a) and isconst(b):
                x, y = cval(a), cval(b)
                sx, sy = (x - (1 << len(a)) if a[-1] else x), (y - (1 << len(b)) if b[-1] else y)
                r = {"eq": x == y, "ne": x != y, "ult": x < y, "ule": x <= y, "ugt": x > y, "uge": x >= y,
                     "slt": sx < sy, "sle": sx <= sy, "sgt": sx > sy, "sge": sx >= sy}[p]
            elif p in ("eq", "ne"):
                df = any(isinstance(x, int) and isinstance(y, int) and x != y for x, y in zip(a, b))
                if not df:
                    pa, pb = any(x == ("P", 63) for x in a), any(x == ("P", 63) for x in b)
                    if (pa and isconst(b)) or (pb and isconst(a)): df = True
                    # addresses of globals are not null and differ from the heap
                    ga, gb = [any(not isinstance(x, int) and x[0].startswith("&") for x in q) for q in (a, b)]
                    if (ga and (isconst(b) or pb)) or (gb and (isconst(a) or pa)): df = True
                    if ga and gb and a != b: df = True
                if df: r = p == "ne"
                elif a == b: r = p == "eq"
            elif isconst(b) and cval(b) == 0 and p in ("slt", "sge") and isinstance(a[-1], int): r = (a[-1] == 1) == (p == "slt")
            elif isconst(b) and cval(b) == (1 << len(b)) - 1 and p in ("sgt", "sle") and isinstance(a[-1], int): r = (a[-1] == 0) == (p == "sgt")
            elif isconst(b) and p in ("ult", "uge", "ugt", "ule"):
                hi = sum((1 if x != 0 else 0) << k for k, x in enumerate(a)); lo = sum((1 if x == 1 else 0) << k for k, x in enumerate(a)); y = cval(b)
                if p in ("ult", "uge"): r = (p == "ult") if hi < y else (p == "uge") if lo >= y else None
                else: r = (p == "ule") if hi <= y else (p == "ugt") if lo > y else None
            if r is not None: return (int(r),)
            st.asg.pop((nm, 0), None)
            st.conds[(nm, 0)] = ("cmp", p, a, b)
            return ((nm, 0),)
        if op == "select":
            c = s.val(st, f, i.ops[0], 1)[0]
            a, b = V(1), V(2)
            if c == 1: return a
            if c == 0: return b
            return tuple(x if x == y else (nm, k) for k, (x, y) in enumerate(zip(a, b)))
        return fresh()
    def refine(s, st, bit, truth):
        """assume a condition bit; False when impossible"""
        if isinstance(bit, int): return bit == int(truth)
        if bit in st.asg: return st.asg[bit] == int(truth)
        st.asg[bit] = int(truth)
        d = st.conds.get(bit)
        if d is None: return True
        if d[0] == "not": return s.refine(st, d[1], not truth)
        if d[0] == "and" and truth or d[0] == "or" and not truth:
            return s.refine(st, d[1], truth) and s.refine(st, d[2], truth)
        if d[0] == "cmp":
            p, a, b = d[1], st.res(d[2]), st.res(d[3])
            if p in ("eq", "ne"):
                eq = (p == "eq") == truth
                prs = [(x, y) for x, y in zip(a, b) if x != y]
                if eq:
                    for x, y in prs:
                        if isinstance(x, int) and isinstance(y, int): return False
                        if isinstance(y, int): st.asg[x] = y
                        elif isinstance(x, int): st.asg[y] = x
                else:
                    if not prs: return False
                    if len(prs) == 1:
                        x, y = prs[0]
                        if isinstance(y, int) and not isinstance(x, int): st.asg[x] = 1 - y
                        elif isinstance(x, int) and not isinstance(y, int): st.asg[y] = 1 - x
        return True
    # -- memory
    def load(s, st, f, i):
        a = s.val(st, f, i.ops[0]); w = width(i.ty); off = s.offset(a)
        if off is not None and off * 8 + w <= s.nb: return st.res(st.mem[off * 8: off * 8 + w])
        nm = "ld:%s.%d" % (f.name, i.id)
        k = None
        o = i.ops[0]
        if a in st.gmem:
            v = st.gmem[a]
            if len(v) == w: return st.res(v)
        if a in s.ginit and len(s.ginit[a]) == w: return st.res(s.ginit[a])
        if isconst(a): return sym(nm, w)
        # a load from an address that is not the cell: name the value by the address, so that
        # two loads of the same unmodified location agree
        nm = "[%s]" % s.name(a)
        st.gmem[a] = sym(nm, w)
        return st.res(sym(nm, w))
    def name(s, b):
        g = [x for x in b if not isinstance(x, int)]
        if g and all(b[i] == (g[0][0], i) or b[i] == 0 for i in range(len(b))): return g[0][0]
        return repr(hash(b) & 0xffffff)
    def store(s, st, f, i):
        a = s.val(st, f, i.ops[1]); w = width(i.get("vty")); v = s.val(st, f, i.ops[0], w); off = s.offset(a)
        if off is not None and off * 8 + w <= s.nb:
            st.mem = st.mem[:off * 8] + tuple(v[:w]) + st.mem[off * 8 + w:]
            return
        st.gmem[a] = tuple(v)
        st.ev = st.ev + (("store", a, tuple(v), f.name, i.id),)
    # -- functions
    def run(s, f, args, st, start=None, stop=None, depth=0):
        """-> [(kind, value, state)]; kind 'ret' or ('edge', block) for an edge into a block of stop"""
        if depth > 6: raise TooComplex("call depth")
        out = []
        st = st.copy()
        for a, v in zip(f.args, args): st.env[(f.name, a[0])] = v
        work = [(0 if start is None else start, None, st)]
        seen = {}
        while work:
            s.n += 1
            if s.n > s.limit: raise TooComplex("%s: too many abstract states" % f.name)
            bid, pred, st = work.pop()
            b = f.blocks[bid]
            if pred is not None:
                back = f.dominates(bid, pred) and pred in f.dominators()
                new = {}
                for ph in b.phis:
                    nm = "%s.%d" % (f.name, ph.id)
                    if back:
                        for k in range(64): st.asg.pop((nm, k), None)
                        new[ph.id] = sym(nm, width(ph.ty))
                    else:
                        for o, p in zip(ph.ops, ph.raw["in"]):
                            if p == pred: new[ph.id] = s.val(st, f, o, width(ph.ty)); break
                for k, v in new.items(): st.env[(f.name, k)] = v
            k = st.key()
            if k in seen.setdefault(bid, set()): continue
            seen[bid].add(k)
            states = [st]; 
            for i in b.ins:
                if i.op == "phi": continue
                if not states: break
                if i.op in ("br", "switch", "ret", "unreachable"): break
                nx = []
                for st in states:
                    if i.op == "load": st.env[(f.name, i.id)] = s.load(st, f, i); nx.append(st)
                    elif i.op == "store": s.store(st, f, i); nx.append(st)
                    elif i.op == "call":
                        for r, st2 in s.call(f, i, st, depth):
                            if r is not None: st2.env[(f.name, i.id)] = r
                            nx.append(st2)
                    else: st.env[(f.name, i.id)] = s.ev(st, f, i); nx.append(st)
                states = nx
            t = b.term
            for st in states:
                if t.op == "ret":
                    out.append(("ret", s.val(st, f, t.ops[0], width(f.ret)) if t.ops else None, st)); continue
                if t.op == "unreachable": continue
                nxt = []
                if t.op == "br":
                    su = t.raw["succ"]
                    if len(su) == 1: nxt.append((su[0], st))
                    else:
                        c = s.val(st, f, t.ops[0], 1)[0] if t.ops[0][0] != "u" else 0
                        for tgt, truth in ((su[0], True), (su[1], False)):
                            st2 = st.copy()
                            if s.refine(st2, c, truth): nxt.append((tgt, st2))
                elif t.op == "switch":
                    w = 64
                    o = t.ops[0]
                    d = f.defs.get(o[1]) if o[0] == "v" else None
                    if d is not None: w = width(d.ty)
                    elif o[0] == "v":
                        for a in f.args:
                            if a[0] == o[1]: w = width(a[1])
                    v = s.val(st, f, o, w); hit = False
                    for cv, tgt in t.raw["cases"]:
                        cb = const(cv, w)
                        if any(isinstance(x, int) and x != y for x, y in zip(v, cb)): continue
                        st2 = st.copy()
                        for x, y in zip(v, cb):
                            if not isinstance(x, int): st2.asg[x] = y
                        nxt.append((tgt, st2))
                        if isconst(v): hit = True; break
                    if not hit: nxt.append((t.raw["succ"][0], st))
                for tgt, st2 in nxt:
                    if stop and tgt in stop:
                        vals = {}
                        for ph in f.blocks[tgt].phis:
                            for o, p in zip(ph.ops, ph.raw["in"]):
                                if p == bid: vals[ph.id] = s.val(st2, f, o, width(ph.ty))
                        out.append((("edge", tgt), vals, st2))
                    else: work.append((tgt, bid, st2))
        return out
    def call(s, f, i, st, depth):
        nm = i.cname; args = [s.val(st, f, o, width(t)) for o, t in zip(i.ops, i.get("aty"))]
        if nm is None and i.callee and i.callee[0] == "v": nm = "*"
        if i.callee and i.callee[0] == "n": return []
        if nm and nm.startswith("llvm."):
            if nm.startswith(("llvm.lifetime", "llvm.dbg", "llvm.assume", "llvm.expect")): return [(args[0] if nm.startswith("llvm.expect") else None, st)]
        if s.hook:
            r = s.hook(s, f, i, nm, args, st)
            if r is not None: return r
        if i.get("nr") or (nm in s.mod.fns and s.mod.fns[nm].noreturn): return []
        g = s.mod.fns.get(nm)
        if g is not None and not g.decl and (s.inline is True or nm in s.inline):
            return [(v, st2) for k, v, st2 in s.run(g, args, st, depth=depth + 1) if k == "ret"]
        cal = None
        if nm == "*": cal = s.val(st, f, i.callee)
        st = st.copy(); st.ev = st.ev + (("call", nm, tuple(args), f.name, i.id, cal),)
        w = width(i.ty); n2 = "%s.%d" % (f.name, i.id)
        for k in range(w): st.asg.pop((n2, k), None)
        return [(sym(n2, w) if i.ty else None, st)]
