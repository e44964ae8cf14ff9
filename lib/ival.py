"""Forward interval analysis of one function with some values preset.

Used for dispatch code: with the type code fixed, which calls remain reachable and
what index does each argument slot have."""
INF = float("inf")
TOP = (-INF, INF)
def meet(a, b):
    lo, hi = max(a[0], b[0]), min(a[1], b[1])
    return None if lo > hi else (lo, hi)
def join(a, b): return (min(a[0], b[0]), max(a[1], b[1]))
NEG = {"eq": "ne", "ne": "eq", "slt": "sge", "sge": "slt", "sgt": "sle", "sle": "sgt",
       "ult": "uge", "uge": "ult", "ugt": "ule", "ule": "ugt"}

class Ival:
    def __init__(s, f, preset, dead=None, args=None):
        """preset: ins -> interval or None; dead: ins(call), env -> True when it cannot return"""
        s.f = f; s.preset = preset; s.deadcall = dead or (lambda i, v: False)
        s.args = args or {}                   # argument id -> interval
        s.inn = {}; s.reached = set(); s.edges = {}
        s.run()
    def val(s, env, o):
        if o[0] == "i": return (o[1], o[1])
        if o[0] == "v": return env.get(o[1], TOP)
        return TOP
    def ev(s, env, i):
        p = s.preset(i)
        if p is not None: return p
        v = lambda k: s.val(env, i.ops[k])
        op = i.op
        if op in ("sext", "zext", "trunc", "freeze"): 
            a = v(0)
            if op == "zext" and a[0] < 0: return TOP
            return a
        if op == "add":
            a, b = v(0), v(1); return (a[0] + b[0], a[1] + b[1])
        if op == "sub":
            a, b = v(0), v(1); return (a[0] - b[1], a[1] - b[0])
        if op == "xor" and i.ops[1][0] == "i" and i.ops[1][1] == -1 and i.ty != "i1":
            a = v(0); return (-1 - a[1], -1 - a[0])
        if op in ("and", "or", "xor", "shl", "lshr", "ashr", "mul"):
            a, b = v(0), v(1)
            if a[0] == a[1] and b[0] == b[1]:
                x, y = a[0], b[0]
                if op in ("shl", "lshr", "ashr") and y < 0: return TOP
                r = {"and": lambda: x & y, "or": lambda: x | y, "xor": lambda: x ^ y, "shl": lambda: x << y,
                     "lshr": lambda: x >> y, "ashr": lambda: x >> y, "mul": lambda: x * y}[op]()
                return (r, r)
            if op == "and":
                for c in (a, b):
                    if c[0] == c[1] and c[0] >= 0: return (0, c[0])
            return TOP
        if op == "icmp":
            t = s.cmp(i.get("pred"), v(0), v(1))
            return (0, 1) if t is None else (int(t), int(t))
        if op == "select":
            c = v(0)
            if c == (1, 1): return v(1)
            if c == (0, 0): return v(2)
            return join(v(1), v(2))
        return TOP
    @staticmethod
    def cmp(p, a, b):
        if p[0] == "u" :
            if a[0] < 0 or b[0] < 0: return None
            p = "s" + p[1:]
        if p == "eq":
            if meet(a, b) is None: return False
            return True if a[0] == a[1] == b[0] == b[1] else None
        if p == "ne":
            r = Ival.cmp("eq", a, b); return None if r is None else not r
        if p in ("sgt", "sge"): return Ival.cmp({"sgt": "slt", "sge": "sle"}[p], b, a)
        if p == "slt": return True if a[1] < b[0] else False if a[0] >= b[1] else None
        if p == "sle": return True if a[1] <= b[0] else False if a[0] > b[1] else None
    def refine(s, env, o, truth):
        """env with the condition o known; None if impossible"""
        a = s.val(env, o)
        if a == ((0, 0) if truth else (1, 1)): return None
        if o[0] != "v": return env
        d = s.f.defs.get(o[1])
        env = dict(env)
        if d is None: return env
        if d.ty == "i1": env[o[1]] = (int(truth), int(truth))
        if d.op == "icmp":
            p = d.get("pred") if truth else NEG[d.get("pred")]
            x, y = s.val(env, d.ops[0]), s.val(env, d.ops[1])
            if p[0] == "u" :
                if p in ("ult", "ule") and y[0] >= 0:
                    x = meet(x, (0, INF))
                    if x is None: return None
                elif x[0] < 0 or y[0] < 0: return env
                p = "s" + p[1:]
            if p == "eq": m = meet(x, y); nx = ny = m
            elif p == "ne":
                nx, ny = x, y
                if y[0] == y[1]:
                    if x[0] == y[0]: nx = (x[0] + 1, x[1])
                    elif x[1] == y[0]: nx = (x[0], x[1] - 1)
                    if nx[0] > nx[1]: return None
            elif p == "slt": nx, ny = meet(x, (-INF, y[1] - 1)), meet(y, (x[0] + 1, INF))
            elif p == "sle": nx, ny = meet(x, (-INF, y[1])), meet(y, (x[0], INF))
            elif p == "sgt": nx, ny = meet(x, (y[0] + 1, INF)), meet(y, (-INF, x[1] - 1))
            elif p == "sge": nx, ny = meet(x, (y[0], INF)), meet(y, (-INF, x[1]))
            else: nx, ny = x, y
            if nx is None or ny is None: return None
            for oo, n in ((d.ops[0], nx), (d.ops[1], ny)):
                if oo[0] == "v": s.push(env, oo, n)
        elif d.op == "xor" and d.ops[1] == ("i", 1, 1): return s.refine(env, d.ops[0], not truth)
        elif d.op == "and" and d.ty == "i1" and truth:
            env = s.refine(env, d.ops[0], True)
            return None if env is None else s.refine(env, d.ops[1], True)
        elif d.op == "or" and d.ty == "i1" and not truth:
            env = s.refine(env, d.ops[0], False)
            return None if env is None else s.refine(env, d.ops[1], False)
        return env
    def push(s, env, o, n):
        env[o[1]] = n
        d = s.f.defs.get(o[1])
        if d is not None and d.op in ("sext", "zext", "freeze") and d.ops[0][0] == "v" and d.ops[0][1] in env:
            m = meet(env[d.ops[0][1]], n)
            if m: env[d.ops[0][1]] = m
    def run(s):
        f = s.f; order = f.rpo(); s.inn = {0: {}}; s.edges = {}
        for rnd in range(400):
            ch = False
            for bid in order:
                b = f.blocks[bid]
                if bid == 0: env = dict(s.args)
                else:
                    es = [(p, s.edges[(p, bid)]) for p in b.preds if (p, bid) in s.edges]
                    if not es: continue
                    env = None
                    for p, e in es:
                        if env is None: env = dict(e)
                        else: env = {k: join(v, e[k]) for k, v in env.items() if k in e}
                    for ph in b.phis:
                        r = None
                        for o, p in zip(ph.ops, ph.raw["in"]):
                            if (p, bid) in s.edges:
                                v = s.val(s.edges[(p, bid)], o); r = v if r is None else join(r, v)
                        old = s.inn.get(bid, {}).get(ph.id)
                        if rnd > 40 and old is not None and r is not None:
                            r = (old[0] if r[0] >= old[0] else -INF, old[1] if r[1] <= old[1] else INF)
                        if r is not None: env[ph.id] = r
                s.inn[bid] = dict(env)
                dead = False
                for i in b.ins:
                    if i.op == "phi": continue
                    if i.op == "call" and (i.get("nr") or (i.cname in f.mod.fns and f.mod.fns[i.cname].noreturn) or s.deadcall(i, lambda o, e=env: s.val(e, o))):
                        dead = True; break
                    if i.op == "unreachable": dead = True; break
                    if i.op not in ("br", "switch", "ret", "store"):
                        r = s.ev(env, i)
                        if r != TOP: env[i.id] = r
                        else: env.pop(i.id, None)
                s.outenv = getattr(s, "outenv", {}); s.outenv[bid] = None if dead else env
                new = {}
                if not dead:
                    t = b.term
                    if t.op == "br":
                        su = t.raw["succ"]
                        if len(su) == 1: new[su[0]] = env
                        else:
                            for k, truth in ((0, True), (1, False)):
                                e = s.refine(env, t.ops[0], truth)
                                if e is not None: new[su[k]] = e if su[k] not in new else {q: join(v, e[q]) for q, v in new[su[k]].items() if q in e}
                    elif t.op == "switch":
                        a = s.val(env, t.ops[0]); o = t.ops[0]; hit = False
                        for v, x in t.raw["cases"]:
                            m = meet(a, (v, v))
                            if m is None: continue
                            if a == (v, v): hit = True
                            e = dict(env)
                            if o[0] == "v": e[o[1]] = m
                            new[x] = e if x not in new else {q: join(vv, e[q]) for q, vv in new[x].items() if q in e}
                        if not hit: new[t.raw["succ"][0]] = env
                for x, e in new.items():
                    if s.edges.get((bid, x)) != e: s.edges[(bid, x)] = e; ch = True
            if not ch: break
        s.reached = {0} | {x for (_, x) in s.edges}
    def envs(s):
        """(block, instruction, env before it) for everything reachable"""
        for bid in s.f.rpo():
            if bid not in s.reached: continue
            env = dict(s.inn.get(bid, {}))
            for i in s.f.blocks[bid].ins:
                yield i, env
                if i.op == "phi": continue
                if i.op == "call" and (i.get("nr") or (i.cname in s.f.mod.fns and s.f.mod.fns[i.cname].noreturn) or s.deadcall(i, lambda o: s.val(env, o))): break
                if i.op not in ("br", "switch", "ret", "store", "unreachable"):
                    r = s.ev(env, i)
                    if r != TOP: env[i.id] = r
    def returns(s): return any(i.op == "ret" for i, _ in s.envs())
