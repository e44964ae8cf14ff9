"""Constant propagation under the assumption that the input has ended: which code can still run?"""
TOP = None          # unknown
W = {"i1": 1, "i8": 8, "i16": 16, "i32": 32, "i64": 64}
def sx(v, w):
    v &= (1 << w) - 1
    return v - (1 << w) if v >> (w - 1) else v

class Run:
    """executable blocks of a function when every read answers EOF"""
    def __init__(s, f, answer, head=None, region=None, init=None):
        """head, region: one way through a loop only, starting from the values init of the loop head's phis"""
        s.f = f; s.answer = answer; s.val = {}; s.edges = set(); s.ret = "none"
        s.head = head; s.region = region; s.init = init or {}
        s.exe = {0 if head is None else head}
        s.back = set()
        s.args = {a[0] for a in f.args}
        s.solve()
    def get(s, o):
        """'top' not known yet; TOP anything; else a constant operand"""
        if o[0] == "i": return ("i", sx(o[1], o[2] if len(o) > 2 else 64))
        if o[0] in ("n", "g", "f"): return tuple(o)
        if o[0] == "u": return "top"
        if o[0] == "v":
            if o[1] in s.args: return s.val.get(o[1], ("arg", o[1]))
            if s.region is not None and s.f.defs[o[1]].blk.id not in s.region: return TOP
            return s.val.get(o[1], "top")
        return TOP
    def solve(s):
        ch = True
        while ch:
            ch = False
            for b in s.f.rpo():
                if b not in s.exe: continue
                B = s.f.blocks[b]; dead = False
                for i in B.ins:
                    if i.op in ("br", "switch", "ret", "unreachable"): continue
                    v = s.eval(i, b)
                    old = s.val.get(i.id, "top")
                    if v != old and old is not TOP:
                        if old != "top" and v == "top": continue
                        s.val[i.id] = v if old == "top" else TOP; ch = True
                    if i.op == "call" and (i.get("nr") or v == "never"): dead = True; break
                if dead: continue
                for n in s.succs(B):
                    if s.region is not None and n not in s.region: continue
                    if n == s.head: s.back.add(b); continue
                    if (b, n) not in s.edges: s.edges.add((b, n)); s.exe.add(n); ch = True
        rs = []
        for b in s.exe:
            t = s.f.blocks[b].term
            if t.op == "ret" and not s.cut(b): rs.append(s.get(t.ops[0]) if t.ops else TOP)
        rs = [r for r in rs if r != "top"]
        rs = [TOP if r is not TOP and r[0] == "arg" else r for r in rs]
        s.ret = "never" if not rs and not any(s.f.blocks[b].term.op == "ret" and not s.cut(b) for b in s.exe) else (rs[0] if rs and all(r == rs[0] for r in rs) else TOP)
    def cut(s, b):
        return any(i.op == "call" and (i.get("nr") or s.val.get(i.id) == "never") for i in s.f.blocks[b].ins)
    def succs(s, B):
        t = B.term
        if t.op == "br":
            if len(B.succs) < 2 or not t.ops: return B.succs
            c = s.get(t.ops[0])
            if c == "top": return []
            if c is TOP or c[0] != "i": return B.succs
            return [t.raw["succ"][0] if c[1] & 1 else t.raw["succ"][1]]
        if t.op == "switch":
            c = s.get(t.ops[0])
            if c == "top": return []
            if c is TOP or c[0] != "i": return B.succs
            w = 64
            for v, n in [(k[0], k[1]) for k in t.raw["cases"]]:
                if sx(v, 32) == sx(c[1], 32): return [n]
            return [t.raw["succ"][0]]
        return B.succs
    def eval(s, i, b):
        op = i.op; g = s.get
        if op == "phi":
            if b == s.head: return s.init.get(i.id, TOP)
            r = "top"
            for y, p in zip(i.ops, i.raw["in"]):
                if (p, b) not in s.edges: continue
                v = g(y)
                if v == "top": continue
                if r == "top": r = v
                elif r != v: return TOP
            return r
        if op == "call": return s.answer(s, i)
        if op == "select":
            c = g(i.ops[0])
            if c == "top": return "top"
            if c is not TOP: return g(i.ops[1] if c[1] & 1 else i.ops[2])
            a, d = g(i.ops[1]), g(i.ops[2])
            return a if a == d else TOP
        if op in ("sext", "zext", "trunc", "freeze", "bitcast"):
            a = g(i.ops[0])
            if a in ("top", TOP) or a[0] != "i": return a if op in ("freeze", "bitcast") else ("top" if a == "top" else TOP)
            if op == "zext": return ("i", a[1] & ((1 << W.get(i.get("sty"), 64)) - 1))
            if op == "trunc": return ("i", sx(a[1], W.get(i.ty, 64)))
            return a
        if op == "icmp":
            a, c = g(i.ops[0]), g(i.ops[1])
            if "top" in (a, c): return "top"
            p = i.get("pred")
            if a is TOP or c is TOP: return TOP
            if a[0] == "i" and c[0] == "i":
                w = W.get(i.get("oty"), 64); x, y = a[1], c[1]
                if p[0] == "u": x &= (1 << w) - 1; y &= (1 << w) - 1
                return ("i", -1 if {"eq": x == y, "ne": x != y, "lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[p if p in ("eq", "ne") else p[1:]] else 0)
            if p in ("eq", "ne") and (a == c or a[0] in "ng" and c[0] in "ng"): return ("i", -1 if (a == c) == (p == "eq") else 0)
            return TOP
        if op in ("and", "or", "xor", "add", "sub", "shl", "lshr", "mul"):
            a, c = g(i.ops[0]), g(i.ops[1])
            if a != "top" and c != "top":
                for k in (a, c):
                    if k is not TOP and k[0] == "i" and (op == "and" and k[1] == 0): return ("i", 0)
                    if k is not TOP and k[0] == "i" and op == "or" and k[1] == -1: return ("i", -1)
            if "top" in (a, c): return "top"
            if a is TOP or c is TOP or a[0] != "i" or c[0] != "i": return TOP
            w = W.get(i.ty, 64); x, y = a[1], c[1]
            if op in ("shl", "lshr") and not 0 <= y < w: return TOP
            r = {"and": x & y, "or": x | y, "xor": x ^ y, "add": x + y, "sub": x - y, "mul": x * y}.get(op)
            if op == "shl": r = x << y
            if op == "lshr": r = (x & ((1 << w) - 1)) >> y
            return ("i", sx(r, w))
        return TOP
    def carried(s):
        """values of the loop head's phis on each way back to it"""
        out = []
        for b in sorted(s.back):
            if s.cut(b): continue
            v = {}
            for i in s.f.blocks[s.head].phis:
                for y, p in zip(i.ops, i.raw["in"]):
                    if p == b:
                        x = s.get(y); v[i.id] = TOP if x == "top" else x
            if v not in out: out.append(v)
        return out
    def cycles(s):
        """strongly connected sets of executable blocks"""
        idx = {}; low = {}; st = []; on = set(); out = []; n = [0]
        adj = {}
        for a, c in s.edges: adj.setdefault(a, []).append(c)
        def go(v):
            work = [(v, 0)]
            while work:
                v, k = work.pop()
                if k == 0: idx[v] = low[v] = n[0]; n[0] += 1; st.append(v); on.add(v)
                for j in range(k, len(adj.get(v, ()))):
                    w = adj[v][j]
                    if w not in idx: work.append((v, j + 1)); work.append((w, 0)); break
                    if w in on: low[v] = min(low[v], idx[w])
                else:
                    if low[v] == idx[v]:
                        c = set()
                        while True:
                            w = st.pop(); on.discard(w); c.add(w)
                            if w == v: break
                        if len(c) > 1 or v in adj.get(v, ()): out.append(c)
                    if work: low[work[-1][0]] = min(low[work[-1][0]], low[v])
        for v in sorted(s.exe):
            if v not in idx: go(v)
        return out

class Walk(Run):
    """every way through a region separately, remembering what the branches taken say about the values"""
    LIMIT = 20000
    def __init__(s, f, answer, head, region):
        s.f = f; s.answer = answer; s.head = head; s.region = region; s.args = {a[0] for a in f.args}
        s.edges = (); s.init = {}
    def get(s, o):
        if o[0] == "i": return ("i", sx(o[1], o[2] if len(o) > 2 else 64))
        if o[0] in ("n", "g", "f"): return tuple(o)
        if o[0] == "v": return s.val.get(o[1], TOP)
        return TOP
    def ckey(s, i):
        p, a, c = i.get("pred"), tuple(i.ops[0]), tuple(i.ops[1])
        if p in ("eq", "ne"): return ("eq",) + tuple(sorted((a, c), key=str)), p == "eq"
        sg, r = p[0], p[1:]
        if r in ("gt", "ge"): a, c = c, a; r = {"gt": "lt", "ge": "le"}[r]
        if r == "le": return (sg, c, a), False
        return (sg, a, c), True
    def learn(s, o, truth, val, facts, d=0):
        if o[0] != "v" or d > 6: return
        val[o[1]] = ("i", -1 if truth else 0)
        x = s.f.defs.get(o[1])
        if x is None: return
        if x.op == "icmp":
            k, pos = s.ckey(x); facts[k] = pos == truth
            if k[0] == "eq" and pos == truth:
                a, c = x.ops
                for u, w in ((a, c), (c, a)):
                    cw = s.get(w)
                    if u[0] == "v" and cw is not TOP and s.get(u) is TOP: val[u[1]] = cw
        elif x.op == "select" and x.ops[2][0] == "i" and not x.ops[2][1] & 1 and truth:
            s.learn(x.ops[0], True, val, facts, d + 1); s.learn(x.ops[1], True, val, facts, d + 1)
        elif x.op == "select" and x.ops[1][0] == "i" and x.ops[1][1] & 1 and not truth:
            s.learn(x.ops[0], False, val, facts, d + 1); s.learn(x.ops[2], False, val, facts, d + 1)
        elif x.op == "and" and truth or x.op == "or" and not truth:
            if x.ty == "i1":
                for y in x.ops: s.learn(y, truth, val, facts, d + 1)
        elif x.op == "xor" and x.ty == "i1" and x.ops[1][0] == "i": s.learn(x.ops[0], not truth, val, facts, d + 1)
    def step(s, b, pred, val, facts, skip=None):
        """the block run once; the ways on, or None when it does not end normally"""
        B = s.f.blocks[b]; s.val = val; new = {}
        for i in B.ins:
            if i.op == "phi" and pred is not None:
                y = next((y for y, q in zip(i.ops, i.raw["in"]) if q == pred), None)
                new[i.id] = s.get(y) if y is not None and y[0] != "u" else TOP
        def put(n, v):
            for k in [k for k in facts if any(o == ("v", n) for o in k[1:])]: del facts[k]
            if v is TOP or v == "top": val.pop(n, None)
            else: val[n] = v
        if pred is not None:
            for n, v in new.items(): put(n, v)
        on = skip is None
        for i in B.ins:
            if not on:
                on = i is skip; continue
            if i.op in ("phi", "br", "switch", "ret", "unreachable", "store"): continue
            v = s.eval(i, b)
            if i.op == "call" and (i.get("nr") or v == "never"): return None
            if i.op == "icmp" and v is TOP:
                k, pos = s.ckey(i)
                if k in facts: v = ("i", -1 if facts[k] == pos else 0)
            put(i.id, v)
        t = B.term; out = []
        if t.op == "br" and len(B.succs) > 1 and t.ops:
            c = s.get(t.ops[0])
            for truth, n in ((True, t.raw["succ"][0]), (False, t.raw["succ"][1])):
                if c is not TOP and c[0] == "i" and bool(c[1] & 1) != truth: continue
                v2, f2 = dict(val), dict(facts); s.val = v2
                s.learn(t.ops[0], truth, v2, f2); out.append((n, v2, f2))
        elif t.op == "switch":
            c = s.get(t.ops[0])
            cs = [(k[0], k[1]) for k in t.raw["cases"]]
            if c is not TOP and c[0] == "i":
                n = next((n for v, n in cs if sx(v, 32) == sx(c[1], 32)), t.raw["succ"][0]); out.append((n, val, facts))
            else:
                for v, n in cs:
                    v2 = dict(val)
                    if t.ops[0][0] == "v": v2[t.ops[0][1]] = ("i", sx(v, 32))
                    out.append((n, v2, dict(facts)))
                out.append((t.raw["succ"][0], dict(val), dict(facts)))
        else: out = [(n, dict(val), dict(facts)) for n in B.succs]
        return out
    def ends(s, b, val, skip=None):
        """the states in which the head is reached again from block b (None: too many ways)"""
        st = [(b, None, dict(val), {}, skip)]; seen = set(); out = []
        while st:
            b, p, v, fc, sk = st.pop()
            k = (b, p, tuple(sorted((a, str(c)) for a, c in v.items())), tuple(sorted(map(str, fc.items()))))
            if k in seen: continue
            seen.add(k)
            if len(seen) > s.LIMIT: return None
            w = s.step(b, p, v, fc, sk)
            for n, v2, f2 in w or ():
                if n == s.head: out.append((b, v2))
                elif n in s.region: st.append((n, b, v2, f2, None))
        return out
    def carried(s, init):
        r = s.ends(s.head, {k: v for k, v in init.items() if v is not TOP})
        if r is None: return None
        out = []
        for b, val in r:
            s.val = val; v = {}
            for i in s.f.blocks[s.head].phis:
                for y, p in zip(i.ops, i.raw["in"]):
                    if p == b: v[i.id] = s.get(y) if y[0] != "u" else TOP
            if v not in out: out.append(v)
        return out

def constants(f, o, seen=None):
    """the constants a value can be, or None when it can be something else"""
    if o[0] == "i": return {("i", sx(o[1], o[2] if len(o) > 2 else 64))}
    if o[0] == "u": return set()
    seen = set() if seen is None else seen
    d = f.defs.get(o[1]) if o[0] == "v" else None
    if d is None: return None
    if d.id in seen: return set()
    seen.add(d.id)
    if d.op == "phi": srcs = d.ops
    elif d.op == "select": srcs = d.ops[1:]
    else: return None
    out = set()
    for y in srcs:
        c = constants(f, y, seen)
        if c is None: return None
        out |= c
    return out

def repeats(f, head, region, answer):
    """can the loop go round for ever once every read answers EOF?  (a cycle among the values its head can have)"""
    starts = [{}]
    for i in f.blocks[head].phis:
        c = constants(f, ("v", i.id))
        c = sorted(c) if c and len(c) <= 6 else [TOP]
        if len(starts) * len(c) > 64: c = [TOP]
        starts = [{**s, i.id: v} for s in starts for v in c]
    return around(starts, lambda st: Run(f, answer, head, region, st).carried()) and around(starts, Walk(f, answer, head, region).carried)

def around(starts, step):
    k = lambda d: tuple(sorted((a, str(v)) for a, v in d.items()))
    nxt = {}; todo = list(starts)
    while todo:
        st = todo.pop()
        if k(st) in nxt: continue
        if len(nxt) > 200: return True
        ns = step(st)
        if ns is None: return True
        nxt[k(st)] = [k(n) for n in ns]; todo += ns
    # a cycle?
    col = {}
    def dfs(x):
        col[x] = 1
        for y in nxt.get(x, ()):
            if col.get(y) == 1 or y not in col and dfs(y): return True
        col[x] = 2
        return False
    return any(dfs(x) for x in list(nxt) if x not in col)
