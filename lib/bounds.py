"""Linear-inequality analysis of integers and addresses.

Abstract state at a program point = a conjunction of linear inequalities over the
function's SSA values (integers read as signed mathematical integers, pointers as
addresses) plus a few ghost quantities (size of an object, position of a string's
terminator, length of a vector).  Inequalities come from dominating branches, from the
meaning of instructions (only where no wrap-around is provable), from contracts, and
from loop invariants found by repeatedly discarding candidates that are not inductive.
Entailment is linear (Farkas) reasoning.
"""
import collections, math
from fractions import Fraction

# ---------------------------------------------------------------- linear forms
def add(a, b, k=1):
    r = dict(a)
    for t, c in b.items():
        n = r.get(t, 0) + k * c
        if n: r[t] = n
        elif t in r: del r[t]
    return r
def scale(a, k): return {t: c * k for t, c in a.items()} if k else {}
def con(n): return {None: n} if n else {}
def var(t): return {t: 1}
def norm(r):
    """divide by the common factor of the coefficients (the quantities are integers)"""
    g = 0
    for t, c in r.items():
        if t is not None:
            g = math.gcd(g, c)
            if g == 1: return r
    if g <= 1: return r
    o = {t: c // g for t, c in r.items()}       # floor division of the constant is exact reasoning for integers
    return {t: c for t, c in o.items() if c}
def key(r): return tuple(sorted(((repr(t), c) for t, c in r.items())))

def show(r, names=None):
    o = []
    for t, c in sorted(r.items(), key=lambda x: repr(x[0])):
        n = "" if t is None else (names(t) if names else str(t))
        o.append(("%+d" % c) + ("*" + n if n else ""))
    return " ".join(o) or "0"

# ---------------------------------------------------------------- entailment
def feasible(rows):
    """is there a rational solution of all rows >= 0 ?  (general simplex, Bland's rule)"""
    cols = []; ix = {}
    basic = []; tab = []; low = []
    for r in rows:
        t = {}
        for a, c in r.items():
            if a is None: continue
            if a not in ix: ix[a] = len(cols); cols.append(a)
            t[ix[a]] = Fraction(c)
        k = r.get(None, 0)
        if not t:
            if k < 0: return False
            continue
        tab.append(t); low.append(Fraction(-k))
    n = len(cols); m = len(tab)
    # variables 0..n-1 free (nonbasic, value 0), n..n+m-1 slacks (basic) with lower bound low
    val = [Fraction(0)] * (n + m)
    rowof = {n + i: tab[i] for i in range(m)}
    lb = {n + i: low[i] for i in range(m)}
    for _ in range(4000):
        b = None
        for x in sorted(rowof):
            if x in lb and val[x] < lb[x]: b = x; break
        if b is None: return True
        row = rowof[b]
        # must increase b: a nonbasic with positive coeff can increase (no upper bounds), negative coeff must decrease
        e = None
        for y in sorted(row):
            c = row[y]
            if c > 0 or y not in lb or val[y] > lb[y]: e = y; break
        if e is None: return False
        c = row[e]
        th = (lb[b] - val[b]) / c
        # pivot: e = (b - sum others)/c
        ne = {b: 1 / c}
        for y, k in row.items():
            if y != e: ne[y] = -k / c
        del rowof[b]
        val[b] = lb[b]; val[e] += th
        for x, r in list(rowof.items()):
            k = r.pop(e, None)
            if k is None: continue
            val[x] += k * th
            for y, c2 in ne.items():
                v = r.get(y, 0) + k * c2
                if v: r[y] = v
                else: r.pop(y, None)
        rowof[e] = ne
    return True

class Facts:
    """a set of inequalities with conditional ones"""
    def __init__(s): s.rows = {}; s.conds = {}
    def copy(s):
        n = Facts(); n.rows = dict(s.rows); n.conds = dict(s.conds); return n
    def add(s, r):
        if not (set(r) - {None}): 
            if r.get(None, 0) < 0: s.rows[("false",)] = {None: -1}
            return
        r = norm(r); s.rows[key(r)] = r
    def cond(s, guards, concl): s.conds[(tuple(key(g) for g in guards), tuple(key(c) for c in concl))] = (guards, concl)

def clash(rows):
    """do two rows about a single quantity exclude each other?"""
    lo, hi = {}, {}
    for r in rows.values():
        ts = [t for t in r if t is not None]
        if len(ts) != 1: continue
        t = ts[0]; k = r[t]; c = r.get(None, 0)
        if k > 0: lo[t] = max(lo.get(t, -1 << 80), -(c // k))
        else: hi[t] = min(hi.get(t, 1 << 80), c // -k)
    return any(t in hi and lo[t] > hi[t] for t in lo)
def inconsistent(rows, atoms):
    """can the rows connected with the given quantities not hold together?"""
    rel = set(atoms); left = list(rows); use = []
    ch = True
    while ch:
        ch = False; nl = []
        for r in left:
            ks = set(r) - {None}
            if not ks or ks & rel: use.append(r); rel |= ks; ch = True
            else: nl.append(r)
        left = nl
    k = ("inc", frozenset(key(r) for r in use))
    if k not in _memo: _memo[k] = not feasible(use)
    return _memo[k]
_memo = {}
def entails_rows(rows, goal):
    """rows (list) |- goal >= 0 over the integers (approximated by the rationals)"""
    if not (set(goal) - {None}): 
        if goal.get(None, 0) >= 0: return True
    # relevance: rows connected with the goal
    rel = set(goal) - {None}; left = list(rows); use = []
    ch = True
    while ch:
        ch = False; nl = []
        for r in left:
            ks = set(r) - {None}
            if not ks: use.append(r)
            elif ks & rel:
                use.append(r); n = len(rel); rel |= ks; ch = ch or len(rel) > n
                ch = True
            else: nl.append(r)
        left = nl
    ng = scale(goal, -1); ng[None] = ng.get(None, 0) - 1
    if not ng[None]: del ng[None]
    ng = norm(ng)
    k = (frozenset(key(r) for r in use), key(ng))
    if k in _memo: return _memo[k]
    v = not feasible(use + [ng])
    if len(_memo) > 200000: _memo.clear()
    _memo[k] = v
    return v

# ---------------------------------------------------------------- one function
def captured(spec, f, vid, busy=()):
    """may the address in value vid outlive the function's own uses of it?"""
    st = [vid]; seen = set()
    while st:
        y = st.pop()
        if y in seen: continue
        seen.add(y)
        for i, k in f.uses().get(y, ()):
            if i.op == "load" or i.op == "icmp": continue
            if i.op == "store" and k == 1: continue
            if i.op in ("getelementptr", "bitcast", "phi", "select", "freeze", "ptrtoint") and not (i.op == "getelementptr" and k > 0):
                if i.op != "ptrtoint": st.append(i.id)
                continue
            if i.op == "call" and k >= 0:
                n = i.cname
                if n and n.startswith("llvm."): continue
                if spec.nocapture(i, k, f, busy): continue
            return True
    return False

def owned_param(spec, f, k, busy=()):
    memo = spec.__dict__.setdefault("_owned", {}); q = (f.name, k)
    if q in busy: return True
    if q not in memo:
        ok = not captured(spec, f, f.args[k][0])
        calls, taken = callsites(spec.m)
        if f.name in taken or f.name not in calls: ok = False
        for g, i in calls.get(f.name, ()) if ok else ():
            o = i.ops[k]; x = g.defs.get(o[1]) if o[0] == "v" else None
            if x is not None and x.op == "alloca" and not captured(spec, g, x.id): continue
            a = next((n for n, a in enumerate(g.args) if o == ("v", a[0])), None)
            if a is not None and owned_param(spec, g, a, busy + (q,)): continue
            ok = False
        memo[q] = ok
    return memo[q]
def callsites(m):
    if not hasattr(m, "_sites"):
        calls = {}; taken = set()
        def fns(o):
            if o[0] == "f": taken.add(o[1])
            for y in o[1:]:
                if isinstance(y, (tuple, list)): fns(y)
        for g in m.defined():
            for i in g.instrs():
                if i.op == "call" and i.cname: calls.setdefault(i.cname, []).append((g, i))
                for o in i.ops: fns(o)
        def ini(e):
            if isinstance(e, (tuple, list)):
                if len(e) > 1 and e[0] == "f": taken.add(e[1])
                for y in e: ini(y)
        for g in m.globals.values(): ini(g.get("init"))
        m._sites = (calls, taken)
    return m._sites
W = {"i1": 1, "i8": 8, "i16": 16, "i32": 32, "i64": 64}
BIG = 1 << 47           # the native address space: no object is larger, no address beyond it
NEG = {"ult": "uge", "uge": "ult", "ugt": "ule", "ule": "ugt", "slt": "sge", "sge": "slt", "sgt": "sle", "sle": "sgt", "eq": "ne", "ne": "eq"}

class Flow:
    """inequalities holding at each block of a function"""
    def __init__(s, f, spec):
        s.f = f; s.m = f.mod; s.spec = spec
        s.order = f.rpo(); s.reach = set(s.order); s.dom = f.dominators()
        s.preds = {b: [p for p in dict.fromkeys(f.blocks[b].preds) if p in s.reach] for b in s.order}
        s.heads = {}
        for b in s.order:
            for t in f.blocks[b].succs:
                if s.dominates(t, b): s.heads.setdefault(t, []).append(b)
        s.body = {}
        for h, la in s.heads.items():
            body = {h}; st = list(la)
            while st:
                x = st.pop()
                if x in body: continue
                body.add(x); st += s.preds[x]
            s.body[h] = body
        s.inv = {h: [] for h in s.heads}
        s._lin = {}; s._ax = {}; s._cf = {}; s._facts = {}
        s.argty = {a[0]: a[1] for a in f.args}
        s.canon = {}
        s.hint = set(); s.quot = {}
        s._ph = {}; s.livem = set(); s.mphi = {}; s.before = {}
        spec.prepare(s)
        s.strides()
        s.loads()
        # memory joins that some load or contract can see
        work = [v for v in s.canon.values() if v[0] == "m"]
        for d in list(s.before.values()) + list(s.outmem.values()): work += [v for q, v in d.items() if v and v[0] == "m" and (s.private(q[0][0]) or s.spec.keeps_init(s, q[0]))]
        while work:
            v = work.pop()
            if v in s.livem: continue
            s.livem.add(v)
            for y in s.mphi.get(v[1], {}).get(v, {}).values():
                if y and y[0] == "m": work.append(y)
        s.strs = {}
        spec.ready(s)
    def dominates(s, a, b):
        while True:
            if a == b: return True
            n = s.dom[b]
            if n == b: return False
            b = n
    def strides(s):
        """addresses joined at a loop head that advance by multiples of one record size: address = start + size * count"""
        for h in s.heads:
            for i in s.f.blocks[h].phis:
                if i.ty != "ptr": continue
                ini = []; steps = []; ok = True
                for y, p in zip(i.ops, i.raw["in"]):
                    if p not in s.reach: continue
                    if p not in s.body[h]: ini.append(y); continue
                    off = 0; n = 0
                    while n < 20:
                        n += 1
                        x = s.f.defs.get(y[1]) if y[0] == "v" else None
                        if x is None or x.id == i.id: break
                        if x.op == "getelementptr" and x.get("off") is not None: off += x.get("off"); y = x.ops[0]
                        elif x.op in ("bitcast", "freeze"): y = x.ops[0]
                        else: break
                    if y != ("v", i.id): ok = False; break
                    steps.append(off)
                g = 0
                for st in steps: g = math.gcd(g, st)
                if ok and g > 1 and len({repr(y) for y in ini}) == 1 and ini[0][0] != "u": s.quot[i.id] = (g, ini[0])
    def d(s, o): return s.f.defs.get(o[1]) if o[0] == "v" else None

    # values of memory cells at constant offsets ("memory SSA"): a load of a cell whose content is known
    # reads that content.  Cells of variables whose address is never captured survive calls that are not
    # handed the address; where values meet they are joined by ("m", block, cell); after a call that was
    # handed the address the content is ("after", call, cell).
    def loads(s):
        s.before = {}; s.mphi = {}; s.outmem = {}; s.cellty = {}
        IN = {}; OUT = {}
        F = s.f
        tracked = set()
        for i in F.instrs():
            if i.blk.id not in s.reach: continue
            if i.op in ("load", "store"):
                o = i.ops[0] if i.op == "load" else i.ops[1]; ty = i.ty if i.op == "load" else i.get("vty")
                k = s.root_off(o)
                if k and k[1] is not None: tracked.add((k, ty)); s.cellty[k] = ty
        for q in s.spec.extra_cells(s): tracked.add(q); s.cellty[q[0]] = q[1]
        def entry():
            st = {}
            for (k, ty) in tracked:
                x = s.d(k[0])
                st[(k, ty)] = ("u", k, ty) if x is not None and (x.op == "alloca" or x.op == "call" and s.spec.fresh(x)) else ("init", k, ty)
            return st
        defd = {b: [] for b in s.order}
        for q in tracked:
            x = s.d(q[0][0])
            if x is not None and x.op != "alloca" and x.blk.id in defd: defd[x.blk.id].append((q, x))
        def step(b, st, rec):
            st = dict(st)
            for q, x in defd[b]: st[q] = ("unk", x.id, q)       # the address is a new one each time round
            for i in F.blocks[b].ins:
                if i.op == "load" and not i.get("vol"):
                    k = s.root_off(i.ops[0])
                    if k is None or k[1] is None: continue
                    k2 = (k, i.ty)
                    v = st.get(k2)
                    if v is None or v[0] == "unk" and not s.spec.keeps_init(s, k): st[k2] = ("v", i.id)
                    elif v[0] == "init" and not s.private(k[0]) and not s.spec.keeps_init(s, k): st[k2] = ("v", i.id)
                    elif rec and v != ("v", i.id): res[i.id] = v
                elif i.op == "store":
                    ks = s.targets(i.ops[1]); ty = i.get("vty")
                    for q in list(st):
                        if any(s.mayalias(k, ty, q[0], q[1]) for k in ks): st[q] = ("unk", i.id, q)
                    k = s.root_off(i.ops[1])
                    if k is not None and k[1] is not None: st[(k, ty)] = i.ops[0]
                elif i.op == "call":
                    if i.get("nr"): continue
                    e = s.spec.effect(s, i)          # None: anything reachable; else the arguments written through
                    if rec: s.before[i.id] = dict(st)
                    if e == (): continue
                    hit = set(); 
                    for a in i.ops:
                        for k in s.targets(a): hit.add(k[0])
                    for q in list(st):
                        r = q[0][0]
                        if e is not None:
                            w = set()
                            for a in e: w |= {k[0] for k in s.targets(i.ops[a])}
                            if w and all(not s.mayalias((x, None), "i8", q[0], q[1]) for x in w): continue
                            if r in w: st[q] = ("after", i.id, q[0], q[1]) if not s.spec.bytes_only(s, i) or q[1] == "i8" else st[q]
                            elif not s.owned(r) and any(not s.known_object(x) for x in w) and (not s.spec.bytes_only(s, i) or q[1] == "i8"): st[q] = ("unk", i.id, q)
                        elif r in hit: st[q] = ("after", i.id, q[0], q[1])
                        elif not s.owned(r) and not s.spec.constant(s, q[0]): st[q] = ("unk", i.id, q)
            return st
        def run(rec):
            n = 0; ch = True
            while ch and n < 40:
                ch = False; n += 1
                for b in s.order:
                    if b == s.order[0]: st = entry()
                    else:
                        ps = [(p, OUT[p]) for p in s.preds[b] if p in OUT]
                        st = {}
                        for q in tracked:
                            vs = {o.get(q) for _, o in ps}
                            if len(vs) == 1 and (q, b) not in made: st[q] = next(iter(vs))
                            elif len(vs) == 1 and next(iter(vs)) == ("m", b) + q: st[q] = next(iter(vs))
                            else: made.add((q, b)); st[q] = ("m", b) + q
                    IN[b] = st
                    o = step(b, st, False)
                    if OUT.get(b) != o: OUT[b] = o; ch = True
            return n < 40
        made = set(); res = {}
        s.canon = {}
        if not run(False): return
        for b in s.order:
            s.outmem[b] = step(b, IN[b], True)
        for (q, b) in made:
            s.mphi.setdefault(b, {})[("m", b) + q] = {p: OUT[p].get(q) for p in s.preds[b] if p in OUT}
        # only cells that hold addresses or numbers, and whose every meeting value is known, are joined
        for k, v in res.items():
            n = 0
            while v[0] == "v" and v[1] in res and n < 50: v = res[v[1]]; n += 1
            s.canon[k] = v
        s.inmem = IN
    def root_off(s, o):
        """(object, constant offset or None)"""
        off = 0; n = 0; known = True
        while n < 40:
            n += 1
            if o[0] == "ge": off += o[2]; o = o[1]; continue
            x = s.d(o)
            if x is not None and x.op == "getelementptr":
                if x.get("off") is not None: off += x.get("off")
                else: known = False
                o = x.ops[0]; continue
            if x is not None and x.op in ("bitcast", "freeze", "addrspacecast"): o = x.ops[0]; continue
            break
        if o[0] in ("v", "g"): return (o, off if known else None)
        return None
    def targets(s, o, seen=None):
        """every (object, offset or None) an address may be in"""
        seen = set() if seen is None else seen
        k = s.root_off(o)
        if k is None: return set()
        x = s.d(k[0])
        if x is not None and x.op in ("phi", "select"):
            if x.id in seen: return set()
            seen.add(x.id)
            out = set()
            for y in (x.ops if x.op == "phi" else x.ops[1:]):
                for t in s.targets(y, seen): out.add((t[0], None))
            return out
        return {k}
    def known_object(s, r):
        """a distinct object: a local variable, a global or fresh memory"""
        if r[0] == "g": return True
        x = s.d(r)
        return x is not None and (x.op == "alloca" or x.op == "call" and s.spec.fresh(x))
    def size_of(s, ty): return {"i1": 1, "i8": 1, "i16": 2, "i32": 4}.get(ty, 8)
    def mayalias(s, k, ty, k2, ty2):
        if k[0] == k2[0]: return k[1] is None or k2[1] is None or not (k[1] + s.size_of(ty) <= k2[1] or k2[1] + s.size_of(ty2) <= k[1])
        if s.private(k[0]) or s.private(k2[0]): return False
        if s.known_object(k[0]) and s.known_object(k2[0]): return False
        for a, b in ((k[0], k2[0]), (k2[0], k[0])):
            # what a parameter addressed when the function was entered is not one of its local variables
            x = s.d(a)
            if x is not None and x.op == "alloca" and b[0] == "v" and s.d(b) is None: return False
        if s.spec.apart(s, k, ty, k2, ty2): return False
        return True
    def private(s, o):
        """a local variable whose address is not captured"""
        x = s.d(o)
        if x is None or x.op != "alloca": return False
        if not hasattr(s, "_priv"): s._priv = {}
        if x.id not in s._priv: s._priv[x.id] = not captured(s.spec, s.f, x.id)
        return s._priv[x.id]

    def owned(s, o):
        """a local variable of this function or, handed down by address, of its callers that only calls
        given the address reach"""
        if s.private(o): return True
        if o[0] != "v" or s.d(o) is not None: return False
        k = next((k for k, a in enumerate(s.f.args) if a[0] == o[1]), None)
        return k is not None and owned_param(s.spec, s.f, k)
    # ------------------------------------------------------------ linear forms
    def lin(s, o):
        k = o[0]
        if k == "i":
            n = o[1]
            if len(o) > 2 and o[2] == 1: n = n & 1
            return con(n)
        if k == "n": return {}
        if k == "ge": return add(s.lin(o[1]), con(o[2]))
        if k == "g": return {("&", o[1]): 1}
        if k == "f": return {("fn", o[1]): 1}
        if k == "u": return {("undef", o[1:] or id(o)): 1}
        if k in ("m", "after", "init", "unk"): return {o: 1}
        if k == "lr": return dict(o[1])
        if k != "v": return {("?", repr(o)): 1}
        if o[1] in s._lin: return s._lin[o[1]]
        x = s.f.defs.get(o[1])
        r = {("v", o[1]): 1}
        if x is not None:
            op = x.op
            if x.id in s.canon and s.canon[x.id] != o: r = s.lin(s.canon[x.id])
            elif op in ("bitcast", "inttoptr", "ptrtoint", "freeze", "sext", "addrspacecast"): r = s.lin(x.ops[0])
            elif op == "phi" and x.id in s.quot:
                s._lin[o[1]] = r
                g, y = s.quot[x.id]; r = add(s.lin(y), {("q", x.id): g})
            elif op == "getelementptr":
                if x.get("off") is not None: r = add(s.lin(x.ops[0]), con(x.get("off")))
                elif len(x.ops) == 2: r = add(s.lin(x.ops[0]), scale(s.lin(x.ops[1]), x.get("esz")))
                elif len(x.ops) == 3 and x.ops[1][0] == "i" and x.ops[1][1] == 0 and x.get("lsz"): r = add(s.lin(x.ops[0]), scale(s.lin(x.ops[2]), x.get("lsz")))
            elif op in ("add", "sub", "mul", "shl") and x.get("nsw"):
                e = s.expr(x)
                if e is not None: r = e
            elif op == "call":
                e = s.spec.call_lin(s, x)
                if e is not None: r = e
        s._lin[o[1]] = r
        return r
    def expr(s, x):
        """the mathematical value of an arithmetic instruction, were it not to wrap"""
        op = x.op
        if op == "add": return add(s.lin(x.ops[0]), s.lin(x.ops[1]))
        if op == "sub": return add(s.lin(x.ops[0]), s.lin(x.ops[1]), -1)
        if op in ("mul", "shl"):
            a, b = s.lin(x.ops[0]), s.lin(x.ops[1])
            if op == "shl":
                if set(b) <= {None}: return scale(a, 1 << b.get(None, 0)) if 0 <= b.get(None, 0) < 63 else None
                return None
            if set(b) <= {None}: return scale(a, b.get(None, 0))
            if set(a) <= {None}: return scale(b, a.get(None, 0))
        return None
    def ty(s, t):
        if t[0] == "m": return t[3]
        if t[0] == "after": return t[3]
        if t[0] == "init": return t[2]
        if t[0] == "unk": return t[2][1]
        if t[0] == "v":
            x = s.f.defs.get(t[1])
            return x.ty if x is not None else s.argty.get(t[1])
        return None
    def axioms(s, t):
        """(rows, conds) about an atom"""
        if t in s._ax: return s._ax[t]
        rows = []; conds = []
        V = var(t)
        s._ax[t] = (rows, conds)
        if t[0] == "q":
            e = s.lin(("v", t[1])); rows += [add(e, con(-1)), add(con(BIG), e, -1)]
            return s._ax[t]
        if t[0] == "&": rows += [add(V, con(-4096))]; rows.append(add(con(BIG), V, -1))
        ty = s.ty(t)
        if ty in W:
            w = W[ty]
            if w == 1: rows += [V, add(con(1), V, -1)]
            else: rows += [add(V, con(1 << (w - 1))), add(con((1 << (w - 1)) - 1), V, -1)]
        elif ty is not None and ty.startswith("ptr"): rows += [V, add(con(BIG), V, -1)]
        if t[0] == "v":
            x = s.f.defs.get(t[1])
            if x is not None: s.def_axioms(x, V, rows, conds)
        s.spec.axioms(s, t, rows, conds)
        return s._ax[t]
    def inrange(s, e, w):
        return [add(e, con(1 << (w - 1))), add(con((1 << (w - 1)) - 1), e, -1)]
    def eq(s, a, b): return [add(a, b, -1), add(b, a, -1)]
    def def_axioms(s, x, V, rows, conds):
        op = x.op; w = W.get(x.ty)
        if op in ("add", "sub", "mul", "shl") and not x.get("nsw"):
            e = s.expr(x)
            if e is not None:
                conds.append((s.inrange(e, w), s.eq(V, e)))
                if w == 64: conds.append(([V, e, add(con((1 << 64) - 1), e, -1)], s.eq(V, e)))
        elif op == "zext":
            a = s.lin(x.ops[0]); sw = W.get(x.get("sty"), 64)
            rows += [V, add(con((1 << sw) - 1), V, -1)]
            if sw == 1: rows += s.eq(V, a)
            else: conds.append(([a], s.eq(V, a)))
        elif op == "trunc":
            a = s.lin(x.ops[0])
            if w and w > 1: conds.append((s.inrange(a, w), s.eq(V, a)))
        elif op == "and":
            for p, q in ((0, 1), (1, 0)):
                if x.ops[q][0] == "i" and x.ops[q][1] >= 0 and (w or 0) > 1:
                    rows += [V, add(con(x.ops[q][1]), V, -1)]
                a = s.lin(x.ops[p])
                conds.append(([a], [V, add(a, V, -1)]))
        elif op == "lshr":
            if x.ops[1][0] == "i":
                k = x.ops[1][1]; a = s.lin(x.ops[0])
                if k > 0: rows += [V, add(con((1 << (w - k)) - 1), V, -1)]
                conds.append(([a], [add(a, V, -(1 << k)), add(add(scale(V, 1 << k), con((1 << k) - 1)), a, -1)]))
        elif op == "ashr":
            if x.ops[1][0] == "i":
                k = x.ops[1][1]; a = s.lin(x.ops[0])
                rows += [add(a, V, -(1 << k)), add(add(scale(V, 1 << k), con((1 << k) - 1)), a, -1)]
        elif op in ("udiv", "sdiv"):
            a = s.lin(x.ops[0]); b = s.lin(x.ops[1])
            if set(b) <= {None} and b.get(None, 0) > 0:
                k = b[None]
                conds.append(([a], [V, add(a, V, -k), add(add(scale(V, k), con(k - 1)), a, -1)]))
            else: conds.append(([a, add(b, con(-1))], [V, add(a, V, -1)]))
        elif op in ("urem", "srem"):
            a = s.lin(x.ops[0]); b = s.lin(x.ops[1])
            conds.append(([a, add(b, con(-1))], [V, add(a, V, -1), add(add(b, con(-1)), V, -1)]))
        elif op == "icmp":
            for val, g in ((True, add(V, con(-1))), (False, scale(V, -1))):
                o = Facts(); s.cmp(x, val, o, 3)
                for r in o.rows.values(): conds.append(([g], [r]))
                for gs, cs in o.conds.values(): conds.append(([g] + list(gs), cs))
        elif op == "alloca":
            rows += [add(V, con(-4096))]
        elif op == "call" and x.cname == "strlen":
            rows += [V, add(con(BIG), V, -1)]

    # ------------------------------------------------------------ conditions
    def cond(s, o, val, out, depth=0):
        """facts following from i1 value o being val"""
        if depth > 6: return
        if o[0] == "i": return
        x = s.d(o)
        if x is None: return
        V = s.lin(o)
        if set(V) - {None}: 
            for r in s.eq(V, con(1 if val else 0)): out.add(r)
        if x.op == "icmp": s.cmp(x, val, out, depth)
        elif x.op == "xor" and any(y[0] == "i" and y[1] & 1 for y in x.ops):
            s.cond([y for y in x.ops if y[0] != "i"][0] if x.ops[0][0] != "i" or x.ops[1][0] != "i" else x.ops[0], not val, out, depth + 1)
        elif x.op == "and" and val or x.op == "or" and not val:
            for y in x.ops: s.cond(y, val, out, depth + 1)
        elif x.op == "select" and x.ty == "i1":
            a, b = x.ops[1], x.ops[2]
            if val and b[0] == "i" and not b[1] & 1: s.cond(x.ops[0], True, out, depth + 1); s.cond(a, True, out, depth + 1)
            elif not val and a[0] == "i" and a[1] & 1: s.cond(x.ops[0], False, out, depth + 1); s.cond(b, False, out, depth + 1)
        elif x.op == "phi" and x.ty == "i1":
            # all sources but one are the other constant
            live = [(y, p) for y, p in zip(x.ops, x.raw["in"]) if p in s.reach and not (y[0] == "i" and bool(y[1] & 1) != val)]
            if len(live) == 1:
                y, p = live[0]
                if x.blk.id not in s.heads:
                    s.merge(out, s.edge(p, x.blk.id)); s.merge(out, s.facts(p))
                    if y[0] != "i": s.cond(y, val, out, depth + 1)
    def merge(s, out, fs):
        out.rows.update(fs.rows); out.conds.update(fs.conds)
    def cmp(s, x, val, out, depth):
        p = x.get("pred"); a, b = x.ops
        if not val: p = NEG[p]
        if x.get("oty") == "i1" or p in ("eq", "ne"):
            for u, v in ((a, b), (b, a)):
                if v[0] == "i":
                    y = s.d(u)
                    # a truth value widened and compared with zero
                    n = 0; w = u
                    while y is not None and y.op in ("zext", "sext") and n < 5: w = y.ops[0]; y = s.d(w); n += 1
                    if y is not None and y.ty == "i1" and (v[1] == 0): s.cond(w, (p == "ne"), out, depth + 1)
        A, B = s.lin(a), s.lin(b)
        s.spec.compare(s, x, p, a, b, out)
        if not W.get(x.get("oty")) and not (x.get("oty") or "").startswith("ptr"): return
        ptr = (x.get("oty") or "").startswith("ptr")
        D = add(B, A, -1)          # B - A
        if p == "eq":
            for r in s.eq(A, B): out.add(r)
        elif p == "ne":
            out.cond([D], [add(D, con(-1))]); M = scale(D, -1); out.cond([M], [add(M, con(-1))])
        else:
            u = p[0] == "u"
            if p[1:] in ("lt", "le"): lo, hi, st = A, B, p[1:] == "lt"
            else: lo, hi, st = B, A, p[1:] == "gt"
            r = add(add(hi, lo, -1), con(-1 if st else 0))
            if not u or ptr: out.add(r)
            else: out.cond([hi], [lo, r])         # lo <=u hi and hi >= 0  =>  0 <= lo <= hi
    def edge(s, p, b):
        """facts on the edge p -> b"""
        k = (p, b)
        if k in s._facts: return s._facts[k]
        out = Facts(); s._facts[k] = out
        t = s.f.blocks[p].term
        if t.op == "br" and len(t.raw["succ"]) == 2 and t.raw["succ"][0] != t.raw["succ"][1]:
            s.cond(t.ops[0], t.raw["succ"][0] == b, out)
        elif t.op == "switch":
            V = s.lin(t.ops[0]); cs = [c[0] for c in t.raw["cases"] if c[1] == b]
            if b not in t.raw["succ"]:
                if len(cs) == 1:
                    for r in s.eq(V, con(cs[0])): out.add(r)
                else: out.add(add(V, con(-min(cs)))); out.add(add(con(max(cs)), V, -1))
            elif not cs:
                for c in t.raw["cases"]:
                    D = add(V, con(-c[0])); out.cond([D], [add(D, con(-1))]); M = scale(D, -1); out.cond([M], [add(M, con(-1))])
        return out
    def facts(s, b):
        """everything known on entry to (and throughout) block b without case distinctions"""
        if b in s._facts: return s._facts[b]
        out = Facts(); s._facts[b] = out
        chain = [b]
        while s.dom[chain[-1]] != chain[-1]: chain.append(s.dom[chain[-1]])
        for x in chain:
            ps = s.preds[x]
            if len(ps) == 1: s.merge(out, s.edge(ps[0], x))
            elif x in s.heads:
                pass
        s.spec.block_facts(s, b, chain, out)
        return out
    def chain(s, b):
        c = [b]
        while s.dom[c[-1]] != c[-1]: c.append(s.dom[c[-1]])
        return c

    # ------------------------------------------------------------ proof
    def close(s, fs, goal_atoms, busy):
        """rows of fs plus axioms of the atoms involved plus conclusions of conditionals whose guards hold"""
        rows = dict(fs.rows); conds = dict(fs.conds); atoms = set(); fired = set()
        def grow(seed):
            todo = [t for t in seed if t is not None]
            while todo:
                t = todo.pop()
                if t in atoms: continue
                atoms.add(t)
                rs, cs = s.axioms(t)
                for r in rs:
                    r = norm(r); rows[key(r)] = r; todo += [q for q in r if q is not None]
                for g, c in cs:
                    conds.setdefault((tuple(key(x) for x in g), tuple(key(x) for x in c)), (g, c))
                    for r in c: todo += [q for q in r if q is not None]
                    for r in g: todo += [q for q in r if q is not None]
                for r in list(rows.values()):
                    if t in r: todo += [q for q in r if q is not None]
        grow(goal_atoms)
        # conditions on differences, sums and products of the quantities in question
        for c in [c for g, c in conds.values()] + [[r] for r in rows.values()]:
            for r in c:
                for t in r:
                    if t is not None and t[0] == "v" and t not in atoms:
                        x = s.f.defs.get(t[1])
                        if x is None: continue
                        if x.op in ("add", "sub", "mul", "shl"): e = s.expr(x)
                        elif x.op == "call" and s.spec.call_contract(s, x): e = {q for o in x.ops for q in s.lin(o)}
                        elif x.ty == "i8" and x.op in ("load", "phi") and s.spec.charat(s, x): e = s.lin(s.spec.charat(s, x))
                        else: continue
                        if e and set(e) & atoms - {None}: grow({q for r2 in c for q in r2})
        ch = True; rounds = 0
        while ch and rounds < 12:
            ch = False; rounds += 1; size = (len(conds), len(atoms), len(rows))
            for k, (g, c) in list(conds.items()):
                if k in fired: continue
                cat = {t for r in c for t in r if t is not None}
                if cat and not cat & atoms: continue
                gat = {t for r in g for t in r if t is not None}
                grow(cat | gat)
                if all(key(r) in rows for r in c): fired.add(k); continue
                L = list(rows.values())
                if all(entails_rows(L, r) for r in g):
                    fired.add(k); ch = True
                    for r in c: r = norm(r); rows[key(r)] = r
                    grow(cat)
            if (len(conds), len(atoms), len(rows)) != size: ch = True
        return list(rows.values())
    def prove(s, goal, b, extra=None, splits=4):
        """does goal >= 0 hold whenever control is in block b (after its phis)?"""
        s.hint = {t for r in (extra or []) for t in r if t is not None} if len(extra or []) <= 6 else set()
        try: return s._prove(goal, b, extra or [], splits)
        finally: s.hint = set()
    def conditioned(s, fs):
        return {t for g, c in fs.conds.values() for r in c for t in r if t is not None} | {t for r in fs.rows.values() for t in r if t is not None}
    def base_facts(s, b, extra):
        fs = s.facts(b).copy()
        for x in s.chain(b):
            for r in s.inv.get(x, ()): fs.add(r)
        for r in extra: fs.add(r)
        return fs
    def _prove(s, goal, b, extra, splits):
        fs = s.base_facts(b, extra)
        return s.go(goal, fs, {b}, set(), splits)
    def go(s, goal, fs, pts, done, splits):
        rows = s.close(fs, set(goal) | s.hint, None)
        if entails_rows(rows, goal): return True
        if s.hint and inconsistent(rows, s.hint): return True
        if len(goal) <= 2 and len([t for t in goal if t is not None]) == 1 and splits > 0:
            # suppose it did not hold
            g = fs.copy(); g.add(add(con(-1), goal, -1))
            if inconsistent(s.close(g, set(goal) | s.hint, None), set(goal) - {None}): return True
        if splits <= 0: return False
        # distinguish how a join point was reached
        rel = set(goal) - {None}
        ch = True
        while ch:
            n = len(rel)
            for r in rows:
                ks = set(r) - {None}
                if len(ks) > 1 and ks & rel: rel |= ks
            ch = len(rel) > n
        joins = []
        for p in pts:
            for x in s.chain(p):
                if x in done or x in s.heads or len(s.preds[x]) < 2 or len(s.preds[x]) > 24: continue
                ph = s.phis(x)
                score = 2 if any(at in rel for at, _, _ in ph) else (1 if ph else 0)
                joins.append((-score, -s.order.index(x), x))
            # selects
        joins = sorted(set(joins))
        sel = [t for t in rel if t[0] == "v" and s.f.defs.get(t[1]) is not None and s.f.defs[t[1]].op == "select" and ("sel", t[1]) not in done]
        for t in sel[:1]:
            x = s.f.defs[t[1]]; ok = True
            for val, y in ((True, x.ops[1]), (False, x.ops[2])):
                g = fs.copy(); s.cond(x.ops[0], val, g)
                for r in s.eq(var(t), s.lin(y)): g.add(r)
                if not s.go(goal, g, pts, done | {("sel", t[1])}, splits - 1): ok = False; break
            if ok: return True
        for sc, _, x in joins[:3]:
            if sc == 0 and splits < 2: continue
            ok = True
            for p in s.preds[x]:
                g = fs.copy(); s.merge(g, s.facts(p)); s.merge(g, s.edge(p, x))
                for h in s.chain(p):
                    for r in s.inv.get(h, ()): g.add(r)
                for at, ty, src in s.phis(x):
                    if p in src and src[p][0] != "u":
                        for r in s.eq(var(at), s.lin(src[p])): g.add(r)
                        if ty == "i1" and src[p][0] == "v":
                            # which way the joined truth value went
                            for tv in (0, 1):
                                e = s.eq(var(at), con(tv))
                                if all(key(r) in fs.rows for r in e): s.cond(src[p], bool(tv), g)
                if clash(g.rows): continue
                old = s.hint; e = s.edge(p, x)
                s.hint = old | {t for r in list(e.rows.values()) + [r for gs, cs in e.conds.values() for r in cs] for t in r if t is not None}
                s.hint |= {at for at, ty, src in s.phis(x) if p in src and src[p][0] in ("i", "n") and at in rel | s.conditioned(fs)}
                try: r = s.go(goal, g, pts | {p}, done | {x}, splits - 1)
                finally: s.hint = old
                if not r: ok = False; break
            if ok: return True
        return False
    # ------------------------------------------------------------ invariants
    def phis(s, b):
        """[(atom, type, {pred: operand})] of the values joined at block b"""
        if b in s._ph: return s._ph[b]
        out = []
        for i in s.f.blocks[b].phis:
            if i.id in s.quot and b in s.heads:
                g, y0 = s.quot[i.id]; m = {}
                for y, p in zip(i.ops, i.raw["in"]):
                    e = add(s.lin(y), s.lin(y0), -1)
                    m[p] = ("lr", tuple((t, c // g) for t, c in e.items()))
                out.append((("q", i.id), "i64", m))
            else: out.append((("v", i.id), i.ty, dict((q, y) for y, q in zip(i.ops, i.raw["in"]))))
        for i in s.f.blocks[b].phis:
            if i.ty == "ptr addrspace(7)":
                for k in s.spec.folds(s):
                    m = {}
                    for y, p in zip(i.ops, i.raw["in"]):
                        if y[0] != "u": m[p] = ("lr", tuple(s.spec.fold(s, k, y).items()))
                    if len(m) == len(i.ops): out.append(((k, ("v", i.id)), "i64", m))
        if b in s.heads: out += s.products(b, out)
        for at, m in s.mphi.get(b, {}).items():
            if at in s.livem and all(v is not None for v in m.values()): out.append((at, at[3], m))
        s._ph[b] = out
        return out
    def products(s, b, phis):
        """stride * counter, for an address that moves by a variable stride beside a counter"""
        la = [p for p in s.preds[b] if p in s.body[b]]; ws = set(); out = []
        def delta(P, of):
            e = None
            for p in la:
                if p not in P[2] or P[2][p][0] == "u": return None
                d = add(of(P[2][p]), var(P[0]), -1)
                if e is not None and d != e: return None
                e = d
            return e
        phis = [P for P in phis if P[0][0] in ("v", "q")]
        for P in phis:
            d = delta(P, s.lin)
            if d and len(d) == 1:
                t, c = next(iter(d.items()))
                if t is not None and abs(c) == 1 and t[0] == "v" and s.outside(t, b): ws.add(t)
        for w in sorted(ws):
            for P in phis:
                d = delta(P, lambda o: s.spec.guess(s, o))
                if not d or set(d) != {None} or P[0][0] != "v": continue
                m = {}
                for p, y in P[2].items():
                    if y[0] == "u": break
                    e = s.lin(y); r = {}
                    for t, c in e.items():
                        r = add(r, {w: c} if t is None else {("pr", w, t): c})
                    m[p] = ("lr", tuple(r.items()))
                if len(m) == len(P[2]): out.append((("pr", w, P[0]), "i64", m))
        return out
    def outside(s, t, h):
        x = s.f.defs.get(t[1])
        return x is None or x.blk.id not in s.body[h]
    def subst(s, r, h, p):
        """row r with the phis of block h replaced by their values arriving from p"""
        m = {}
        for at, ty, src in s.phis(h):
            if p in src: m[at] = s.lin(src[p])
        out = {}
        for t, c in r.items():
            out = add(out, m[t], c) if t in m else add(out, {t: c})
        return out
    def infer(s, cands, splits=3):
        """largest inductive subset of the candidate invariants {head: [row]}"""
        s.inv = {h: list({key(r): r for r in cands.get(h, ()) if set(r) - {None}}.values()) for h in s.heads}
        # entry edges do not depend on the other candidates of the same head
        for _ in range(60):
            ch = False
            for h in s.order:
                if h not in s.heads: continue
                keep = []
                for r in s.inv[h]:
                    ok = True
                    for p in s.preds[h]:
                        g = s.subst(r, h, p)
                        ex = list(s.edge(p, h).rows.values())
                        fs = s.base_facts(p, []); s.merge(fs, s.edge(p, h))
                        if not s.go(g, fs, {p}, set(), splits): ok = False; break
                    if ok: keep.append(r)
                    else: ch = True
                s.inv[h] = keep
            if not ch: return
