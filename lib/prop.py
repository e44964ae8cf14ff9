"""Constant propagation with path splitting: follows a function over partly known inputs (known text, unknown everything else).

A value is an int, a tuple naming something symbolic, or None (unknown).  A branch on an unknown value is followed both ways;
a state reached twice is followed once.  Nothing of the program is executed: calls are modelled by hooks, followed into the
functions listed, or answered with "unknown"."""
from core import Broken

NZ = ("nonzero",)                 # some value other than 0
def mask(v, w): return v & ((1 << w) - 1)
def sgn(v, w): v = mask(v, w); return v - (1 << w) if v >> (w - 1) else v
def width(ty):
    if ty and ty.startswith("i") and ty[1:].isdigit(): return int(ty[1:])
    return 64
SIZE = lambda ty: (width(ty) + 7) // 8

class State:
    __slots__ = ("frames", "mem", "ext", "trail")
    def __init__(s, frames, mem, ext, trail=()): s.frames = frames; s.mem = mem; s.ext = ext; s.trail = trail
    def copy(s): return State([[f, b, i, p, dict(e), n] for f, b, i, p, e, n in s.frames], dict(s.mem), dict(s.ext), s.trail)

class Interp:
    """hooks: {function name: h(interp, state, ins, args) -> value or list of (value, state) or NotImplemented}
    follow(name, args) -> whether to follow the call into the function"""
    LIMIT = 60000
    def __init__(s, m, hooks, follow):
        s.m = m; s.hooks = hooks; s.follow = follow; s.steps = 0; s.serial = 0
    # ---- values
    def get(s, st, o):
        k = o[0]
        if k == "v":
            return st.frames[-1][4].get(o[1])
        if k == "i":
            return mask(o[1], o[2]) if len(o) > 2 else o[1]
        if k in ("n", "null"): return 0
        if k in ("g", "ge"): return ("glob", o, 0)
        if k == "f": return ("fn", o[1])
        return None
    def addr(s, v, n):
        if v is None or n is None: return None
        if isinstance(v, tuple) and len(v) == 3 and isinstance(v[2], int): return (v[0], v[1], v[2] + n)
        if isinstance(v, int): return mask(v + n, 64)
        return None
    def load(s, st, a, ty):
        if a is None: return None
        n = SIZE(ty); base = (a[0], a[1]) if isinstance(a, tuple) and len(a) == 3 else None
        if base is None: return None
        x = st.mem.get((base, a[2], n))
        if x is not None: return x
        bs = []
        for k in range(n):
            b = st.mem.get((base, a[2] + k, 1))
            if not isinstance(b, int):
                bs = None; break
            bs.append(b)
        if bs is not None and n > 1: return sum(b << (8 * k) for k, b in enumerate(bs))
        for (b2, o2, n2), v in st.mem.items():
            if b2 == base and o2 <= a[2] and a[2] + n <= o2 + n2 and isinstance(v, int): return mask(v >> (8 * (a[2] - o2)), 8 * n)
        return None
    def store(s, st, a, v, n):
        if a is None: return
        if not (isinstance(a, tuple) and len(a) == 3): return
        base = (a[0], a[1])
        for k in list(st.mem):
            if k[0] == base and k[1] < a[2] + n and a[2] < k[1] + k[2]:
                if isinstance(st.mem[k], int):                     # what is left of a wider value
                    for j in range(k[2]):
                        if not a[2] <= k[1] + j < a[2] + n: st.mem[(base, k[1] + j, 1)] = mask(st.mem[k] >> (8 * j), 8)
                if k in st.mem and not (k[2] == 1 and not a[2] <= k[1] < a[2] + n): del st.mem[k]
        if v is not None: st.mem[(base, a[2], n)] = v
    def run(s, f, args, mem=None, ext=None):
        """[(outcome, value, state)] outcome: 'ret' or 'end' (a call that does not return)"""
        env = {f.args[k][0]: v for k, v in enumerate(args) if v is not None}
        st = State([[f, f.blocks[0], 0, None, env, 0]], dict(mem or {}), dict(ext or {}))
        work = [st]; out = []; seen = set()
        while work:
            st = work.pop()
            while st is not None:
                s.steps += 1
                if s.steps > s.LIMIT: raise Broken("the paths of %s are too many to follow" % f.name)
                fr = st.frames[-1]
                if fr[2] == 0:
                    key = (tuple((x[0].name, x[1].id, x[2], x[5], tuple(sorted(((k, repr(v)) for k, v in x[4].items())))) for x in st.frames),
                           tuple(sorted((repr(k), repr(v)) for k, v in st.mem.items())), tuple(sorted((k, repr(v)) for k, v in st.ext.items())))
                    if key in seen: st = None; break
                    seen.add(key)
                i = fr[1].ins[fr[2]]
                r = s.exec(st, i, out)
                if r is None: st = None
                elif r is st: pass
                else:
                    work.extend(r[1:]); st = r[0] if r else None
        return out
    def goto(s, st, b):
        fr = st.frames[-1]; B = fr[0].blocks[b]; prev = fr[1].id; vals = []
        for p in B.phis:
            for o, x in zip(p.ops, p.raw["in"]):
                if x == prev: vals.append((p.id, s.get(st, o)))
        for k, v in vals:
            if v is None: fr[4].pop(k, None)
            else: fr[4][k] = v
        fr[1] = B; fr[3] = prev; fr[2] = 0
        if B.phis:
            n = 0
            while n < len(B.ins) and B.ins[n].op == "phi": n += 1
            # phis were done on the edge; keep index 0 for the state test, exec skips them
        return st
    def put(s, st, i, v):
        e = st.frames[-1][4]
        if v is None: e.pop(i.id, None)
        else: e[i.id] = v
    def exec(s, st, i, out):
        fr = st.frames[-1]; op = i.op; g = lambda k: s.get(st, i.ops[k])
        if op == "phi": fr[2] += 1; return st
        if op == "br":
            if len(i.succ) == 1: return s.goto(st, i.succ[0])
            c = g(0)
            if isinstance(c, int): return s.goto(st, i.succ[0] if c & 1 else i.succ[1])
            a = st.copy(); s.know(st, i.ops[0], 1); s.know(a, i.ops[0], 0)
            return [s.goto(st, i.succ[0]), s.goto(a, i.succ[1])]
        if op == "switch":
            c = g(0); cases = i.raw["cases"]; w = width(i.raw.get("oty"))
            if isinstance(c, int):
                for v, b in cases:
                    if mask(v, 32) == mask(c, 32): return s.goto(st, b)
                return s.goto(st, i.succ[0])
            rs = []
            for v, b in cases: rs.append(s.goto(st.copy(), b))
            rs.append(s.goto(st, i.succ[0])); return rs
        if op == "unreachable":
            out.append(("end", None, st)); return None
        if op == "ret":
            v = g(0) if i.ops else None
            st.frames.pop()
            if not st.frames: out.append(("ret", v, st)); return None
            fr = st.frames[-1]; c = fr[1].ins[fr[2]]; s.put(st, c, v); fr[2] += 1
            return st
        if op == "call": return s.call(st, i, out)
        v = s.value(st, i)
        if op == "store":
            s.store(st, g(1), g(0), SIZE(i.raw.get("vty")))
        else: s.put(st, i, v)
        fr[2] += 1
        return st
    def know(s, st, o, truth):
        """record the outcome of a test of an unknown value (so that the same test is not split again)"""
        if o[0] == "v":
            st.frames[-1][4][o[1]] = truth
            d = st.frames[-1][0].defs.get(o[1])
            if d is not None and d.op == "icmp" and d.raw["pred"] in ("eq", "ne") and (d.raw["pred"] == "eq") == bool(truth):
                a, b = d.ops; x, y = s.get(st, a), s.get(st, b)
                if a[0] == "v" and x is None and y is not None: st.frames[-1][4][a[1]] = y
            elif d is not None and d.op == "icmp" and d.raw["pred"] in ("eq", "ne"):
                a, b = d.ops; x, y = s.get(st, a), s.get(st, b)
                if a[0] == "v" and x is None and y == 0: st.frames[-1][4][a[1]] = NZ
            if d is not None and d.op == "icmp" and "know" in s.hooks: s.hooks["know"](s, st, d, truth)
    def value(s, st, i):
        op = i.op; g = lambda k: s.get(st, i.ops[k])
        if op == "alloca":
            s.serial += 1
            return ("al", "%s.%d.%d" % (st.frames[-1][0].name, i.id, len(st.frames)), 0)
        if op == "load":
            a = g(0); h = s.hooks.get("load")
            if h is not None:
                r = h(s, st, i, a)
                if r is not NotImplemented: return r
            return s.load(st, a, i.ty)
        if op == "getelementptr":
            b = g(0)
            if i.raw.get("off") is not None: return s.addr(b, i.raw["off"])
            if len(i.ops) == 2:
                n = g(1)
                if isinstance(n, tuple) and "gep" in s.hooks: return s.hooks["gep"](s, st, i, b, n)
                if isinstance(n, int): return s.addr(b, sgn(n, 64 if i.ops[1][0] == "v" else i.ops[1][2]) * i.raw.get("esz", 1))
            return None
        if op in ("bitcast", "inttoptr", "addrspacecast", "ptrtoint", "freeze"): return g(0)
        if op == "zext":
            x = g(0)
            if isinstance(x, tuple): return x
            return mask(x, width(i.raw.get("sty"))) if isinstance(x, int) else None
        if op == "sext":
            x = g(0)
            if isinstance(x, tuple): return x
            return mask(sgn(x, width(i.raw.get("sty"))), width(i.ty)) if isinstance(x, int) else None
        if op == "trunc":
            x = g(0); return mask(x, width(i.ty)) if isinstance(x, int) else None
        if op == "icmp":
            x, y = g(0), g(1); w = width(i.raw.get("oty")); p = i.raw["pred"]
            if isinstance(x, int) and isinstance(y, int):
                if p[0] == "s": x, y = sgn(x, w), sgn(y, w)
                else: x, y = mask(x, w), mask(y, w)
                return int({"eq": x == y, "ne": x != y, "lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[p[-2:]])
            if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == 3 and len(y) == 3 and x[:2] == y[:2]:
                x, y = x[2], y[2]
                return int({"eq": x == y, "ne": x != y, "lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[p[-2:]])
            if p in ("eq", "ne") and ((x == 0 and isinstance(y, tuple) and y[0] in ("al", "t", "glob")) or (y == 0 and isinstance(x, tuple) and x[0] in ("al", "t", "glob"))):
                return int(p == "ne")
            if p in ("eq", "ne") and (x is NZ and y == 0 or y is NZ and x == 0): return int(p == "ne")
            h = s.hooks.get("icmp")
            return h(s, st, i, x, y) if h is not None else None
        if op == "select":
            c = g(0)
            if isinstance(c, int): return g(1) if c & 1 else g(2)
            return g(1) if g(1) == g(2) else None
        if op in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "udiv", "urem", "sdiv", "srem"):
            x, y = g(0), g(1); w = width(i.ty)
            if op == "add" and isinstance(x, tuple) and isinstance(y, int): return s.addr(x, sgn(y, w))
            if op == "sub" and isinstance(x, tuple) and isinstance(y, tuple) and len(x) == 3 and len(y) == 3 and x[:2] == y[:2]: return mask(x[2] - y[2], w)
            if op == "sub" and isinstance(x, tuple) and isinstance(y, int): return s.addr(x, -sgn(y, w))
            if op == "and" and (x == 0 or y == 0): return 0
            if not (isinstance(x, int) and isinstance(y, int)): return None
            if op == "add": return mask(x + y, w)
            if op == "sub": return mask(x - y, w)
            if op == "mul": return mask(x * y, w)
            if op == "and": return x & y
            if op == "or": return x | y
            if op == "xor": return x ^ y
            if op == "shl": return mask(x << y, w) if y < w else None
            if op == "lshr": return mask(x, w) >> y if y < w else None
            if op == "ashr": return mask(sgn(x, w) >> y, w) if y < w else None
            if op == "udiv": return x // y if y else None
            if op == "urem": return x % y if y else None
            return None
        h = s.hooks.get(op)
        return h(s, st, i) if h is not None else None
    def call(s, st, i, out):
        fr = st.frames[-1]; n = i.cname; args = [s.get(st, o) for o in i.ops]
        h = s.hooks.get(n)
        if h is None and n and n.startswith("llvm.memcpy"): h = memcpy
        if h is None and n and n.startswith("llvm.memset"): h = memset
        if h is not None:
            r = h(s, st, i, args)
            if r is not NotImplemented:
                if isinstance(r, list):
                    sts = []
                    for v, t in r:
                        f2 = t.frames[-1]; s.put(t, i, v); f2[2] += 1; sts.append(t)
                    return sts
                s.put(st, i, r); fr[2] += 1; return st
        g = s.m.fns.get(n) if n else None
        if i.raw.get("nr") or (g is not None and g.noreturn):
            out.append(("end", i, st)); return None
        if g is not None and not g.decl and s.follow(n, args) and len(st.frames) < 8:
            env = {a[0]: v for a, v in zip(g.args, args) if v is not None}
            st.frames.append([g, g.blocks[0], 0, None, env, i.id]); return st
        # unknown code may write whatever it was given the address of
        if not (n and n.startswith("llvm.")):
            for a in args:
                if isinstance(a, tuple) and a[0] == "al":
                    for k in [k for k in st.mem if k[0] == (a[0], a[1])]: del st.mem[k]
        s.put(st, i, None); fr[2] += 1
        return st

def memcpy(s, st, i, args):
    d, src, n = args[:3]
    if not isinstance(n, int): 
        return None
    if isinstance(d, tuple) and len(d) == 3:
        items = []
        if isinstance(src, tuple) and len(src) == 3:
            items = [(k, v) for k, v in st.mem.items() if k[0] == src[:2] and src[2] <= k[1] and k[1] + k[2] <= src[2] + n]
        s.store(st, d, None, n)
        for k, v in items: st.mem[((d[0], d[1]), d[2] + k[1] - src[2], k[2])] = v
    return None
def memset(s, st, i, args):
    d, v, n = args[:3]
    if isinstance(d, tuple) and len(d) == 3 and isinstance(n, int) and isinstance(v, int):
        s.store(st, d, None, n)
        for k in range(n): st.mem[((d[0], d[1]), d[2] + k, 1)] = mask(v, 8)
    return None
