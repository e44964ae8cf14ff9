"""How many arguments each registered function accepts, derived from the code.

For a list-valued parameter the analysis computes, per normal return, which
lengths the list can have: the length is pinned to d where the d-th tail is known
to be empty, and 'any' where the list is walked to its end or handed on whole.
"""
import typestate as T
from typestate import K
ANY = "*"; UNK = "?"
NULLM = K["NULL"]
PURE = {"scm_length", "scm_finite_length", "scm_validate_formals", "scm_validate_actuals", "scm_p_listp"}

class Arity:
    def __init__(s, e): s.e = e; s.memo = {}
    def depths(s, f, arg):
        """SSA values that are tails of the argument list -> set of depths (ANY inside loops)"""
        dep = {f.args[arg][0]: {0}}
        ch = True; rounds = 0
        while ch:
            ch = False; rounds += 1
            for b in f.blocks:
                for i in b.ins:
                    n = None
                    if i.op == "call" and i.cname == "sal_cons_cdr" and i.ops[0][0] == "v" and i.ops[0][1] in dep:
                        n = {d if d == ANY else d + 1 for d in dep[i.ops[0][1]]}
                    elif i.op in ("phi", "select") and i.ty == T.OBJ:
                        srcs = i.ops if i.op == "phi" else i.ops[1:]
                        n = set()
                        for o in srcs:
                            if o[0] == "v" and o[1] in dep: n |= dep[o[1]]
                        if not n: n = None
                    elif i.op == "call" and i.cname == "sal_deref": n = None
                    if n is None: continue
                    n = {ANY if d != ANY and d > 12 else d for d in n}
                    if len(n) > 6: n = {ANY}
                    o = dep.get(i.id, set())
                    if ANY in o: continue
                    if not n <= o:
                        dep[i.id] = o | n; ch = True
            if rounds > 60:
                break
        # tails inside loops have no fixed depth
        for k, v in dep.items():
            if ANY in v: dep[k] = {ANY}
        return dep
    def accepted(s, fn, arg, stack=()):
        """lengths of list parameter `arg` with which fn can return normally"""
        key = (fn, arg)
        if key in s.memo: return s.memo[key]
        if key in stack: return {ANY}
        e = s.e; f = e.funcs[fn]; C = e.states.get(fn)
        if C is None: return {ANY}
        dep = s.depths(f, arg)
        inn = {0: {UNK}}
        order = f.rpo()
        out = {}
        rets = set()
        ch = True
        def pin(cur, st):
            """facts of a state: tails known to be empty"""
            best = None
            for v, ds in dep.items():
                av = st.get(v) or C.base.get(v)
                if av is None: continue
                if v not in st and v not in C.base: continue
                if av[0] != 0 and av[0] & ~NULLM == 0:
                    if len(ds) == 1: best = next(iter(ds)) if best in (None, ANY) else best
                    elif best is None: best = ("set", frozenset(ds))
            return best
        def settled(cur, p):
            if p is None: return cur
            if isinstance(p, tuple):
                # the tail at one of several depths is empty: keep exact ones already known
                r = {c for c in cur if c not in (UNK,)}
                if UNK in cur: r |= set(p[1])
                return r
            r = set()
            for c in cur:
                if c == UNK or c == ANY: r.add(p)
                else: r.add(c)
            return r
        while ch:
            ch = False
            for bid in order:
                cur = inn.get(bid)
                if cur is None: continue
                cur = set(cur); dead = False
                b = f.blocks[bid]
                for i in b.ins:
                    if i.op == "call":
                        if i.get("nr") or (i.cname in e.mod.fns and e.mod.fns[i.cname].noreturn): dead = True; break
                        for k, o in enumerate(i.ops):
                            if o[0] == "v" and o[1] in dep and (e.isobj(f, o)):
                                c = i.cname
                                if c is None or c in ("sal_cons_set_cdr", "sal_cons_set_car", "sal_set") or c in T.MAKERM: cur = s.use(cur, dep[o[1]], {ANY})
                                elif c.startswith("sal_") or c in PURE: pass
                                elif c in e.funcs:
                                    cur = s.use(cur, dep[o[1]], s.accepted(c, k, stack + (key,)))
                    elif i.op == "store" and i.ops[0][0] == "v" and i.ops[0][1] in dep: cur = s.use(cur, dep[i.ops[0][1]], {ANY})
                    elif i.op == "ret":
                        if i.ops and i.ops[0][0] == "v" and i.ops[0][1] in dep: cur = s.use(cur, dep[i.ops[0][1]], {ANY})
                        rets |= cur
                if dead: continue
                for t in b.succs:
                    est = C.edge.get((bid, t))
                    if est is None: continue
                    n = settled(cur, pin(cur, est))
                    o = inn.get(t, set())
                    if not n <= o: inn[t] = o | n; ch = True
        s.memo[key] = rets
        return rets
    def use(s, cur, ds, acc):
        """a tail at depth ds was handed to something that accepts lengths acc"""
        r = set()
        for c in cur:
            if c != UNK: r.add(c); continue
            for d in ds:
                for a in acc:
                    r.add(ANY if ANY in (d, a) else UNK if a == UNK else d + a)
        return r

def shape(e, f, tc, ax):
    """expected C parameters of a registered function with this type code"""
    if tc & ax.ODD: return ["o", "o", "p"]
    r = ["o"] * (tc & ax.MASK)
    if tc & ax.VAR: r.append("o")
    if tc & ax.TAIL: r.append("p")
    elif tc & ax.SYN: r.append("o")
    return r
def rng(acc):
    if UNK in acc: return (min([x for x in acc if isinstance(x, int)] + [0]) if any(isinstance(x, int) for x in acc) else 0, UNK)
    ints = [x for x in acc if isinstance(x, int)]
    return (min(ints) if ints and ANY not in acc else (0 if ANY in acc else None), ANY if ANY in acc else (max(ints) if ints else None))
