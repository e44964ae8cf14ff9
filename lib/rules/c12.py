"""C12: closed and wrong-direction ports are rejected; a device is released once; every kind of port implements every operation."""
import ir, walk
from walk import INTO
from ir import OBJ
from core import Part, Broken, Missing, need_fn
TABLES = {"%struct.ScmCharPortVTbl_": "ScmCharPortVTbl_", "%struct.ScmBytePortVTbl_": "ScmBytePortVTbl_"}
READ = ("get_byte", "peek_byte", "byte_readyp"); WRITE = ("puts", "write", "flush")
IN, OUT, LIVE_OUT, LIVE_IN = 2, 1, 4, 8
STDIO = {"fgetc": -1, "getc": -1, "_IO_getc": -1, "ungetc": -1, "fputs": -1, "fputc": -1, "putc": -1, "fflush": -1, "fwrite": "n", "fread": "n"}
READS = {"fgetc", "getc", "_IO_getc", "fread"}

# ---------------------------------------------------------------- A. a device is used only while the port is alive
def canon(f, t):
    """the port whose device a term denotes"""
    if t[0] == "call" and t[1] == "sal_port_impl" and t[2] == f.name: return f.defs[t[3]].ops[0]
    return None

class Live:
    def __init__(s, P, m):
        s.P = P; s.m = m
        s.closers = reach_back(m, {"sal_port_set_impl"})
        s.evals = reach_back(m, {"scm_eval", "scm_call", "scm_apply"})
        s.reg = {d[2] for d in m.funcdescs()}
        s.fresh = set(); s.needs = {}                       # function -> parameters that must be live
        ch = True
        while ch:
            ch = False
            for f in m.defined():
                if f.name in s.fresh or f.ret != OBJ: continue
                rs = [r for r in f.instrs() if r.op == "ret"]
                if rs and all(s.isfresh(f, r.ops[0]) for r in rs): s.fresh.add(f.name); ch = True
    def isfresh(s, f, o, seen=()):
        d = f.defs.get(o[1]) if o[0] == "v" else None
        if d is None or d.id in seen: return d is not None
        if d.op == "phi": return all(s.isfresh(f, y, seen + (d.id,)) for y in d.ops)
        return d.op == "call" and (d.cname == "scm_make_port" or d.cname in s.fresh)
    def run(s):
        m, P = s.m, s.P
        work = [f for f in m.defined() if any(i.cname == "sal_port_impl" for i in f.calls()) and "storage" not in (f.file or "")]
        done = set()
        while work:
            f = work.pop()
            P.count("functions using a port's device")
            for port, i, what in s.unlive(f):
                k = [n for n, a in enumerate(f.args) if ("v", a[0]) == port]
                if k and f.name not in s.reg and callers(m, f):
                    if (f.name, k[0]) in done: continue
                    done.add((f.name, k[0])); s.needs.setdefault(f.name, set()).add(k[0])
                    for g in callers(m, f):
                        if g not in work: work.append(g)
                else:
                    P.check(False, f.name + ":live", "%s: in %s: %s a port that may be closed" % (i.loc(), f.name, what))
    def unlive(s, f):
        """[(port operand, instruction, what)] uses of a device on a path where the port was not found alive"""
        m = s.m; bad = []
        defs = f.defs
        def canon_port(o):
            # the same variable read twice denotes the same port (it can only be replaced by a call)
            d = defs.get(o[1]) if o[0] == "v" else None
            if d is not None and d.op == "load":
                g = m.gname(d.ops[0])
                if g: return ("var", g)
            return o
        def use(q, o, i, what):
            p = canon_port(o)
            if p in q: s.P.check(True, "", ""); return
            if s.isfresh(f, o): s.P.check(True, "", ""); return
            if not any(b[0] == o and b[1] is i for b in bad): bad.append((o, i, what))
        def port_of(cx, o):
            t = cx.term(o)
            return canon(f, t)
        def step(cx, i, q):
            if i.op == "load" or i.op == "store":
                a = i.ops[0] if i.op == "load" else i.ops[1]
                p = port_of(cx, base(f, a))
                if p is not None: use(q, p, i, "uses the device of")
                if i.op == "store":
                    g = m.gname(i.ops[1])
                    if g and ("var", g) in q: return [q - {("var", g)}]
                return None
            if i.op != "call": return None
            n = i.cname
            g = m.fns.get(n)
            for k in s.needs.get(n, ()): use(q, i.ops[k], i, "calls %s with" % n)
            if n is not None and n.startswith("sal_"):
                return [frozenset(x for x in q if canon_port(i.ops[0]) != x)] if n == "sal_port_set_impl" else None
            if n is None or not n.startswith("llvm."):
                for o in i.ops:
                    p = port_of(cx, o) if o[0] == "v" else None
                    if p is not None and n in m.fns and not g.decl and derefs(m, g, i.ops.index(o)): use(q, p, i, "passes on the device of")
            if n is None or n in s.closers or n in s.evals:
                if n is None and all(port_of(cx, o) is None for o in i.ops[:1]) is False: return None    # a method of the device itself
                return [frozenset()]
            return None
        def branch(cx, x, truth, q):
            c = walk.cmp(cx, x)
            if c is None: return q
            for a, b in ((c[1], c[2]), (c[2], c[1])):
                if b in (("n",), ("i", 0)) and canon(f, a) is not None:
                    p = canon_port(canon(f, a))
                    return (q | {p}) if c[0] != truth else q - {p}
            return q
        walk.run(m, f, {}, frozenset(), step, branch)
        return bad

def base(f, o):
    for _ in range(10):
        if o[0] == "ge": o = o[1]; continue
        d = f.defs.get(o[1]) if o[0] == "v" else None
        if d is not None and d.op in ("getelementptr", "bitcast"): o = d.ops[0]; continue
        return o
    return o

def derefs(m, g, k, seen=()):
    if k >= len(g.args) or g.name in seen: return False
    for u, j in g.uses().get(g.args[k][0], ()):
        if u.op == "load" or (u.op == "store" and j == 1) or u.op == "getelementptr": return True
        if u.op == "call" and u.cname in m.fns and not m.fns[u.cname].decl and j >= 0 and derefs(m, m.fns[u.cname], j, seen + (g.name,)): return True
    return False

def callers(m, f):
    return [g for g in m.defined() if any(i.cname == f.name for i in g.calls())]

def reach_back(m, seeds):
    """functions from which a call can reach one of seeds (indirect calls of registered procedures included through the evaluator)"""
    cs = {}
    for f in m.defined():
        for i in f.calls():
            if i.cname: cs.setdefault(i.cname, set()).add(f.name)
    out = set(); st = list(seeds)
    while st:
        n = st.pop()
        if n in out: continue
        out.add(n); st += list(cs.get(n, ()))
    return out

# ---------------------------------------------------------------- B. method tables
def fields(m, sty):
    d = m.dtypes.get(sty)
    if d is None: raise Broken("no layout of " + sty)
    return {x[1]: x[0] for x in d["mem"]}

def tables(P, m):
    """class table name -> {slot: function}"""
    out = {}
    for n, g in m.globals.items():
        t = TABLES.get(g.get("ty"))
        if not t: continue
        ini = g.get("init")
        if ini is None: continue
        if ini[0] == "a":
            fs = fields(m, t); row = {}
            for off, e in zip(sorted(fs), ini[1]):
                ok = e[0] == "f"
                P.count("method slots")
                P.check(ok, n + ":" + fs[off], "%s: operation %s is not implemented (null): using it crashes" % (n, fs[off]))
                if ok: row[fs[off]] = e[1]
            P.check(len(ini[1]) == len(fs), n + ":slots", "%s: %d operations for %d slots" % (n, len(ini[1]), len(fs)))
            out[n] = (t, row)
        elif ini[0] == "z": P.check(False, n + ":empty", "%s: no operation is implemented" % n)
    # tables filled at run time
    for f in m.defined():
        for pub in f.instrs():
            if pub.op != "store" or pub.ops[1][0] != "g": continue
            dst = pub.ops[1][1]
            if not dst.endswith("_vptr"): continue
            v = resolve(f, pub.ops[0])
            t = "ScmCharPortVTbl_" if "Char" in dst else "ScmBytePortVTbl_"
            fs = fields(m, t); row = {}
            if v[0] == "g" and v[1] in out: continue
            for i in f.instrs():
                if i.idx >= 0 and not (i.blk.id == pub.blk.id and i.idx < pub.idx or i.blk.id != pub.blk.id and f.dominates(i.blk.id, pub.blk.id)): continue
                if i.op == "call" and (i.cname or "").startswith("llvm.memcpy") and resolve(f, i.ops[0]) == v:
                    src = resolve(f, i.ops[1]); d = f.defs.get(src[1]) if src[0] == "v" else None
                    if d is not None and d.op == "load":
                        g = m.globals.get(d.ops[0][1] if d.ops[0][0] == "g" else "") or {}
                        src = tuple(g.get("init") or ())
                    if src and src[0] == "g" and src[1] in out and i.ops[2][1] >= 8 * len(fs): row.update(out[src[1]][1])
                if i.op == "store":
                    a = resolve(f, i.ops[1])
                    b, o = split(a); vb, vo = split(v)
                    if b == vb and o - vo in fs:
                        if i.ops[0][0] == "f": row[fs[o - vo]] = i.ops[0][1]
                        else: row.pop(fs[o - vo], None)
            for o, nm in fs.items():
                P.count("method slots")
                P.check(nm in row, dst + ":" + nm, "%s: in %s: operation %s is not implemented when the table is put into use" % (pub.loc(), f.name, nm))
            out[dst] = (t, row)
    return out

def resolve(f, o):
    d = f.defs.get(o[1]) if o[0] == "v" else None
    if d is not None and d.op == "bitcast": return resolve(f, d.ops[0])
    if d is not None and d.op == "getelementptr" and d.get("off") is not None:
        b = resolve(f, d.ops[0]); bb, oo = split(b)
        return ("ge", bb, oo + d.get("off")) if oo + d.get("off") else bb
    if d is not None and d.op == "load":
        # a local or global holding the table's address
        return o
    return o

def split(a):
    n = 0
    while a and a[0] == "ge": n += a[2]; a = a[1]
    return a, n

def signatures(P, m, T):
    """every implementation takes the operands its slot is called with"""
    sig = {}
    for f in m.defined():
        for i in f.calls():
            if i.cname is not None or not i.callee or i.callee[0] != "v": continue
            d = f.defs.get(i.callee[1])
            if d is None or d.op != "load": continue
            tb = d.get("tbaa")
            if not tb or tb[0] not in TABLES.values(): continue
            sig.setdefault((tb[0], tb[1]), []).append((f, i))
    for n, (t, row) in T.items():
        inv = {nm: off for off, nm in fields(m, t).items()}
        for nm, fn in row.items():
            g = m.fns.get(fn)
            if g is None: continue
            for f, i in sig.get((t, inv[nm]), ()):
                P.count("method calls matched")
                at = i.get("aty") or []
                ok = len(at) == len(g.args) and all(a == b[1] for a, b in zip(at, g.args)) and (i.ty in (None, "void") or i.ty == g.ret)
                P.check(ok, n + ":" + nm + ":type", "%s: %s is called at %s with other operands than it takes" % (n, fn, i.loc()))

# ---------------------------------------------------------------- C. closing
def ev(f, o, known, env, d=0):
    """value of an integer expression over known calls (None: unknown)"""
    if o[0] == "i": return o[1]
    if o[0] == "n": return 0
    if o[0] != "v" or d > 30: return None
    if o[1] in env: return env[o[1]]
    x = f.defs.get(o[1])
    if x is None: return None
    R = lambda y: ev(f, y, known, env, d + 1)
    if x.op == "call": return known(x)
    if x.op in ("zext", "sext", "trunc", "freeze", "bitcast"):
        return R(x.ops[0])
    if x.op in ("and", "or", "xor", "add", "sub", "shl", "lshr"):
        a, b = R(x.ops[0]), R(x.ops[1])
        if x.op == "and" and 0 in (a, b): return 0
        if a is None or b is None: return None
        w = 1 if x.ty == "i1" else int(x.ty[1:]) if x.ty and x.ty[0] == "i" else 64
        r = {"and": a & b, "or": a | b, "xor": a ^ b, "add": a + b, "sub": a - b, "shl": a << (b & 63), "lshr": (a & (1 << w) - 1) >> (b & 63)}[x.op]
        return r & ((1 << w) - 1) if r >= 0 or w < 64 else r
    if x.op == "icmp":
        a, b = R(x.ops[0]), R(x.ops[1])
        if a is None or b is None: return None
        w = int(x.get("oty")[1:]) if (x.get("oty") or "").startswith("i") else 64
        u = lambda y: y & ((1 << w) - 1)
        sg = lambda y: u(y) - (1 << w) if u(y) >> (w - 1) else u(y)
        p = x.get("pred")
        return int({"eq": u(a) == u(b), "ne": u(a) != u(b), "slt": sg(a) < sg(b), "sle": sg(a) <= sg(b), "sgt": sg(a) > sg(b), "sge": sg(a) >= sg(b), "ult": u(a) < u(b), "ule": u(a) <= u(b), "ugt": u(a) > u(b), "uge": u(a) >= u(b)}[p])
    if x.op == "select":
        c = R(x.ops[0])
        return None if c is None else R(x.ops[1] if c else x.ops[2])
    return None

def trace(m, f, known, event, limit=400, args=None):
    """explore f with the given knowledge about calls; event(i, state, env) -> state; -> states at normal returns [(state, returned value operand)]"""
    out = []; st = [(0, None, (), dict(args or {}))]; n = 0; seen = set()
    while st:
        b, prev, q, env = st.pop(); n += 1
        k = (b, prev, q, tuple(sorted(env.items(), key=lambda kv: kv[0])))
        if k in seen: continue
        seen.add(k)
        if n > limit: raise Broken("too many ways through " + f.name)
        blk = f.blocks[b]; env = dict(env); dead = False
        for ph in blk.phis:
            for y, p in zip(ph.ops, ph.get("in")):
                if p == prev:
                    v = ev(f, y, known, env)
                    if v is not None: env[ph.id] = v
                    else: env.pop(ph.id, None)
        for i in blk.ins:
            if i.op == "phi": continue
            q = event(i, q, env)
            if i.op == "call" and (i.get("nr") or (i.cname in m.fns and m.fns[i.cname].noreturn)): dead = True; break
        if dead: continue
        t = blk.term
        if t.op == "ret": out.append((q, t.ops[0] if t.ops else None, dict(env))); continue
        if t.op == "br" and len(t.raw["succ"]) == 2:
            v = ev(f, t.ops[0], known, env)
            ss = t.raw["succ"]
            for truth, x in ((1, ss[0]), (0, ss[1])):
                if v is None or (v & 1) == truth: st.append((x, b, q, env))
            continue
        if t.op == "switch":
            v = ev(f, t.ops[0], known, env)
            cases = {c[0]: c[1] for c in t.raw["cases"]}
            if v is not None:
                st.append((cases.get(v, t.raw["succ"][0]), b, q, env)); continue
        for x in blk.succs: st.append((x, b, q, env))
    return out

def closing(P, m):
    by = {d[1]: d[2] for d in m.funcdescs()}
    # what a new port's flag looks like
    for nm, bit, live in (("close-input-port", IN, LIVE_IN), ("close-output-port", OUT, LIVE_OUT)):
        fn = by.get(nm)
        if fn is None: raise Broken(nm + " is not registered")
        f = need_fn(m, fn)
        for flag in (IN | LIVE_IN, OUT | LIVE_OUT, IN | OUT | LIVE_IN | LIVE_OUT, IN | OUT | LIVE_IN, IN | OUT | LIVE_OUT):
            def known(x, flag=flag):
                if x.cname == "sal_port_flag": return flag
                if x.cname in ("sal_portp", "sal_port_impl"): return 1
                return None
            def event(i, q, env):
                if i.op == "call":
                    if i.cname == "sal_port_set_flag": return q + (("flag", ev(f, i.ops[1], known, env)),)
                    if i.cname in ("scm_port_close",) or i.cname in close_fns(m): return q + (("close",),)
                return q
            outs = trace(m, f, known, event)
            P.count("ways to close a port")
            left = flag & ~live & (LIVE_IN | LIVE_OUT)
            ok = bool(outs)
            for q, r, e in outs:
                cl = ("close",) in q
                if left: ok = ok and not cl and ("flag", flag & ~live) in q
                else: ok = ok and cl
            P.check(ok, "%s:%x" % (nm, flag), "%s: a port open for %s %s" % (nm, "+".join(x for x, b in (("input", LIVE_IN), ("output", LIVE_OUT)) if flag & b), "keeps its other direction only" if left else "is not released"))
    # direction predicates
    for nm, bit in (("input-port?", IN), ("output-port?", OUT)):
        f = need_fn(m, by[nm])
        for flag in (IN, OUT, IN | OUT, IN | LIVE_IN, OUT | LIVE_OUT):
            def known(x, flag=flag): return flag if x.cname == "sal_port_flag" else 1 if x.cname in ("sal_portp", "sal_port_impl") else None
            outs = trace(m, f, known, lambda i, q, env: q)
            P.count("direction answers")
            for q, r, e in outs:
                v = truthval(f, r, known, e)
                P.check(v is None or v == bool(flag & bit), nm, "%s answers %s for a port open for %s" % (nm, v, "+".join(x for x, b in (("input", IN), ("output", OUT)) if flag & b)))
    # only a port of the right direction and alive becomes a current port
    for nm, var, bit in (("%%set-current-input-port!", "scm_in", IN), ("%%set-current-output-port!", "scm_out", OUT), ("%%set-current-error-port!", "scm_err", OUT)):
        f = m.fns.get(by.get(nm))
        if f is None: continue
        other = {IN: OUT, OUT: IN}[bit]
        for flag, impl in ((other | {IN: LIVE_IN, OUT: LIVE_OUT}[other], 1), (bit | {IN: LIVE_IN, OUT: LIVE_OUT}[bit], 0)):
            def known(x, flag=flag, impl=impl): return flag if x.cname == "sal_port_flag" else impl if x.cname == "sal_port_impl" else 1 if x.cname == "sal_portp" else None
            def event(i, q, env):
                if i.op == "store" and m.gname(i.ops[1]) == var: return q + ("set",)
                return q
            outs = trace(m, f, known, event)
            P.count("current port changes")
            P.check(not any("set" in q for q, r, e in outs), nm, "%s accepts a port that is %s" % (nm, "not open for its direction" if impl else "closed"))
    # ports start alive in their directions (storage layer: scm_make_port)
    r = ir.Module(m.cfg, "real"); g = need_fn(r, "scm_make_port")
    got = {flag: live_bits(r, g, flag) for flag in (IN, OUT, IN | OUT)}
    want = {IN: IN | LIVE_IN, OUT: OUT | LIVE_OUT, IN | OUT: IN | OUT | LIVE_IN | LIVE_OUT}
    # (the representation keeps the flag above a fixed number of tag bits)
    ok = any(all(got[k] and all(any(v >> sh == want[k] for v in vs) for vs in got[k]) for k in want) for sh in range(17))
    P.count("new port flags", 3)
    P.check(ok, "scm_make_port:flag", "scm_make_port: a new port is not marked alive in exactly the directions it was made for (%s)" % {k: sorted(v) for k, v in got.items()})

def live_bits(r, g, flag):
    """the flag values scm_make_port can store, evaluated over the (constant) requested direction"""
    out = set()
    args = {g.args[1][0]: flag}
    def event(i, q, env):
        if i.op == "store":
            v = ev(g, i.ops[0], lambda x: None, env)
            if v is not None: return q + (v,)
        return q
    for q, rr, e in trace(r, g, lambda x: None, event, args=args): out.add(tuple(v & 0xffffffff for v in q))
    return out

def truthval(f, o, known, env):
    """#t/#f returned"""
    if o is None: return None
    if o[0] == "g": return {"sal_k_true": True, "sal_k_false": False}.get(o[1])
    d = f.defs.get(o[1]) if o[0] == "v" else None
    if d is None: return None
    if d.op == "load" and d.ops[0][0] == "g": return {"sal_k_true": True, "sal_k_false": False}.get(d.ops[0][1])
    if d.op == "select":
        c = ev(f, d.ops[0], known, env)
        return None if c is None else truthval(f, d.ops[1] if c else d.ops[2], known, env)
    return None

def close_fns(m):
    """functions that end a port's life: they call the close method of its device"""
    out = set()
    for f in m.defined():
        for i in f.calls():
            if i.cname is None and slot(m, f, i) == ("ScmCharPortVTbl_", "close"): out.add(f.name)
    return out

def slot(m, f, i):
    d = f.defs.get(i.callee[1]) if i.callee and i.callee[0] == "v" else None
    tb = d.get("tbaa") if d is not None and d.op == "load" else None
    if not tb or tb[0] not in TABLES.values(): return None
    return tb[0], fields(m, tb[0]).get(tb[1])

def releasing(P, m, T):
    # the port forgets its device before the device's own code can fail
    n = 0
    for f in m.defined():
        for i in f.calls():
            if i.cname is None and slot(m, f, i) == ("ScmCharPortVTbl_", "close"):
                d = f.defs.get(i.ops[0][1]) if i.ops[0][0] == "v" else None
                if d is None or d.cname != "sal_port_impl": continue
                n += 1
                res = []
                def step(cx, x, q):
                    if x.op == "call" and x.cname == "sal_port_set_impl" and x.ops[0] == d.ops[0] and cx.term(x.ops[1]) in (("n",), ("i", 0)): return ["forgot"]
                    if x is i: res.append(q)
                    return None
                walk.run(m, f, {}, "held", step)
                P.check(res and all(q == "forgot" for q in res), f.name + ":forget", "%s: in %s: the port still refers to the device while it is released (an error in between leaves a closed port usable)" % (i.loc(), f.name))
    P.count("releases by a port", n)
    P.check(n > 0, "port:release", "no function calls the close method of a port's device: devices are never released")
    closes = {}
    for n, (t, row) in T.items():
        if "close" in row: closes[row["close"]] = t
    for fn in sorted(closes):
        f = need_fn(m, fn); one(P, m, f, fn)
    P.need("close methods", 3)

def one(P, m, f, fn):
    """a close method: everything released once, the record last, nothing used afterwards"""
    P.count("close methods")
    p = ("p", f.name, f.args[0][0]); bad = []; ends = []
    def under(t):
        while t[0] in ("off", "mem", "gep"):
            if t[0] == "mem": t = t[1]
            elif t[0] == "off": t = t[1]
            else: t = t[3]
        return t
    def step(cx, i, q):
        freed, dev, own = q
        if i.op in ("load", "store"):
            a = cx.term(i.ops[0] if i.op == "load" else i.ops[1])
            b = a
            while b[0] == "off": b = b[1]
            if b == p and "self" in freed: bad.append((i, "uses the record it released"))
            return None
        if i.op != "call": return None
        n = i.cname
        if n == "free":
            t = cx.term(i.ops[0]); k = "self" if t == p else walk.strip(t)
            if k in freed: bad.append((i, "releases the same memory twice"))
            return [(freed | {k}, dev, own)]
        if n == "fclose" or n == "close" or n == "pclose": return [(freed, dev + 1, own)]
        if n is None:
            if "self" in freed and any(cx.term(o) == p or (cx.term(o)[0] == "off" and cx.term(o)[1] == p) for o in i.ops): bad.append((i, "passes on the record it released"))
            return [(freed, dev + 1, own)]
        if i.get("nr") or (n in m.fns and m.fns[n].noreturn): ends.append((q, i)); return None
        g = m.fns.get(n)
        if g is not None and not g.decl and any(under(cx.term(o)) == p for o in i.ops): return INTO
        return None
    own_terms = set()
    def branch(cx, x, truth, q):
        c = walk.cmp(cx, x)
        if c and any(b in (("i", 0), ("n",)) for b in c[1:]):
            a = [y for y in c[1:] if y not in (("i", 0), ("n",))]
            if a and a[0][0] == "mem" and under(a[0]) == p:
                nz = c[0] != truth
                fld = a[0][1][2] if a[0][1][0] == "off" else 0
                return (q[0], q[1], q[2] | {(fld, nz)})
        return q
    walk.run(m, f, {f.args[0][0]: p}, (frozenset(), 0, frozenset()), step, branch, ends=lambda cx, r, q, ret: ends.append((q, r)))
    for i, what in bad: P.check(False, fn + ":after", "%s: in %s: %s" % (i.loc(), fn, what))
    if not bad: P.check(True, "", "")
    fld = {x[1]: x[0] for x in (m.dtypes.get(rec(m, f)) or {"mem": []})["mem"]}
    for (freed, dev, own), i in ends:
        P.count("ways a close method ends")
        names = {(fld.get(o), nz) for o, nz in own}
        shared = ("ownership", False) in names
        P.check("self" in freed, fn + ":record", "%s: in %s: ends without releasing its record" % (i.loc(), fn))
        P.check(dev == (0 if shared else 1), fn + ":device", "%s: in %s: the device is released %d times%s" % (i.loc(), fn, dev, " although it is shared" if shared else ""))

def rec(m, f):
    for i in f.instrs():
        tb = i.get("tbaa")
        if i.op == "load" and tb and tb[0].endswith("Port_"): return tb[0]
    return None

def collector(P, m, T):
    """no error can be raised while the collector releases a port"""
    r = ir.Module(m.cfg, "real"); f = need_fn(r, "free_cell")
    flag = None
    q = need_fn(r, "scm_gc_finalizingp")
    for i in q.instrs():
        if i.op == "ret" and i.ops:
            d = q.defs.get(i.ops[0][1]) if i.ops[0][0] == "v" else None
            while d is not None and d.op in ("zext", "trunc", "sext"): d = q.defs.get(d.ops[0][1])
            if d is not None and d.op == "load": flag = r.gname(d.ops[0])
    P.check(flag is not None, "finalizing:flag", "scm_gc_finalizingp does not report the collector's state")
    # set before anything is released
    def event(i, q, env):
        if i.op == "store" and r.gname(i.ops[1]) == flag: return ("on",) if i.ops[0] != ("i", 0, 32) and i.ops[0][:2] != ("i", 0) else ("off",)
        if i.op == "call" and not (i.cname or "").startswith("llvm.") and i.cname not in ("free", "abort") and not (i.get("nr")):
            P.count("calls made by the collector for a dead object")
            P.check(q == ("on",), "free_cell:%s" % (i.cname or "method"), "%s: the collector releases an object without announcing it: an error could be raised inside the collection" % i.loc())
        return q
    outs = trace(r, f, lambda x: None, event, limit=4000)
    for q, x, e in outs: P.check(q in ((), ("off",)), "free_cell:end", "free_cell: leaves the collector announced as releasing objects")
    # while it is set, the close methods (and what they call) cannot fail
    for n, (t, row) in T.items():
        if "close" not in row: continue
        g = need_fn(m, row["close"]); hits = []
        def step(cx, i, q):
            if i.op == "call":
                if i.get("nr") or (i.cname in m.fns and m.fns[i.cname].noreturn): hits.append(i); return []
                if i.cname in m.fns and not m.fns[i.cname].decl and i.cname != "scm_gc_finalizingp": return INTO
            return None
        def branch(cx, x, truth, q):
            c = walk.cmp(cx, x)
            if c and any(b == ("i", 0) for b in c[1:]) and any(a[0] == "call" and a[1] == "scm_gc_finalizingp" for a in c[1:]):
                return q if c[0] != truth else None
            return q
        walk.run(m, g, {a[0]: ("p", g.name, a[0]) for a in g.args}, "", step, branch)
        P.count("close methods run by the collector")
        hits = [h for h in hits if not asserts(m, h)]
        P.check(not hits, row["close"] + ":gc", "%s: in %s: raises an error even when the collector closes the port" % (hits[0].loc() if hits else "", row["close"]))
    P.need("close methods run by the collector", 3)

def asserts(m, i):
    return i.cname in ("__assert_fail", "abort", "scm_fatal_error")

# ---------------------------------------------------------------- D. wrong direction
def directions(P, m, T):
    use = {}                                      # class table -> directions of ports made with it
    for f in m.defined():
        for i in f.calls():
            if i.cname != "scm_make_port": continue
            P.count("ports made")
            fl = i.ops[1]
            cls, modes = devclass(m, f, i.ops[0])
            for c in cls: use.setdefault(c, set()).add(fl[1] if fl[0] == "i" else "any")
            for mode in modes:
                if fl[0] != "i" or mode is None: continue
                ok = (fl[1] & OUT or mode.startswith("r")) and (fl[1] & IN or mode[0] in "wa") and not ("+" in mode and fl[1] != (IN | OUT))
                P.check(bool(ok), f.name + ":mode", "%s: in %s: the file is opened with mode %s for a port of direction %d" % (i.loc(), f.name, mode, fl[1]))
    for c, dirs in use.items():
        if c not in T: continue
        row = T[c][1]
        for names, bit in ((READ, IN), (WRITE, OUT)):
            allowed = all(d != "any" and d & bit for d in dirs)
            if allowed: continue
            for nm in names:
                g = m.fns.get(row.get(nm))
                if g is None: continue
                P.count("operations against the port's direction")
                if nm == "byte_readyp" and len(dirs) > 1: P.trusts("char-ready? of a file port reads nothing"); continue
                never = any(d == "any" or d & bit for d in dirs) is False
                P.check(rejects(m, g, never), c + ":" + nm, "%s: %s can succeed on a port that is not open for %s" % (c, g.name, "input" if bit == IN else "output"))
    P.need("operations against the port's direction", 6)

def devclass(m, f, o, depth=0, seen=None):
    """class tables of the byte port an object port is made of, and fopen modes"""
    seen = set() if seen is None else seen
    cls = set(); modes = set()
    if depth > 8 or o[0] != "v": return cls, modes
    d = f.defs.get(o[1])
    if d is None or (f.name, d.id) in seen: return cls, modes
    seen.add((f.name, d.id))
    if d.op == "phi" or d.op == "select":
        for y in (d.ops if d.op == "phi" else d.ops[1:]):
            a, b = devclass(m, f, y, depth + 1, seen); cls |= a; modes |= b
        return cls, modes
    if d.op == "call" and d.cname in m.fns:
        g = m.fns[d.cname]
        for y in d.ops:
            a, b = devclass(m, f, y, depth + 1, seen); cls |= a; modes |= b
        a, b = stored(m, g, set()); cls |= a; modes |= b
        # mode constants handed to the opener
        for i in g.calls():
            for y in i.ops:
                s = m.cstr(y) if y[0] in ("g", "ge") else None
                if s and len(s) <= 3 and s[0] in "rwa" and "open" in (i.cname or ""): modes.add(s)
    return cls, modes

def stored(m, g, seen):
    """byte port classes constructed by g"""
    cls = set(); modes = set()
    if g.decl or g.name in seen: return cls, modes
    seen.add(g.name)
    for i in g.instrs():
        if i.op == "store":
            v = i.ops[0]
            d = g.defs.get(v[1]) if v[0] == "v" else None
            n = None
            if d is not None and d.op == "load" and d.ops[0][0] == "g": n = d.ops[0][1]
            elif v[0] == "g": n = v[1]
            gl = m.globals.get(n or "")
            if gl:
                if gl.get("ty") == "%struct.ScmBytePortVTbl_": cls.add(n)
                elif gl.get("init") and gl["init"][0] == "g" and m.globals.get(gl["init"][1], {}).get("ty") == "%struct.ScmBytePortVTbl_": cls.add(gl["init"][1])
        if i.op == "call" and i.cname in m.fns and m.fns[i.cname].ret == "ptr":
            a, b = stored(m, m.fns[i.cname], seen); cls |= a; modes |= b
    return cls, modes

def rejects(m, g, never):
    """the operation does not return, or the device's refusal is turned into an error"""
    bad = []; n = [0]
    if never:
        r = walk.run(m, g, {a[0]: ("p", g.name, a[0]) for a in g.args}, "", lambda cx, i, q: None)
        if not r: return True
    def step(cx, i, q):
        if i.op == "call":
            if i.cname in STDIO: n[0] += 1; return [("un", i.cname, cx.f.name, i.id)]
            if i.cname == "ferror": return [("ferr", i.cname, cx.f.name, i.id)] if q and q[0] in ("fail", "un") else None
            h = m.fns.get(i.cname)
            if h is not None and not h.decl and not h.noreturn: return INTO
        return None
    def branch(cx, x, truth, q):
        if not q: return q
        a, b = cx.term(x.ops[0]), cx.term(x.ops[1])
        t = ("call",) + q[1:]
        if t not in (a, b): return q
        other = b if a == t else a
        pr = x.get("pred")
        if b == t: pr = {"slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle", "ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule"}.get(pr, pr)
        if q[0] == "ferr":
            if other == ("i", 0) and pr in ("eq", "ne"): return ("erred",) + q[1:] if (pr == "ne") == truth else ("ok",) + q[1:]
            return q
        if STDIO.get(q[1]) == "n":
            # success means all of it
            if other[0] == "p" or other[0] not in ("i",):
                if pr in ("eq", "uge", "sge"): return ("ok",) + q[1:] if truth else ("fail",) + q[1:]
                if pr in ("ne", "ult", "slt"): return ("fail",) + q[1:] if truth else ("ok",) + q[1:]
            return q
        if other[0] == "i":
            c = other[1]; c = c - (1 << 32) if c >= 1 << 31 else c
            r = {"eq": -1 == c, "ne": -1 != c, "slt": -1 < c, "sle": -1 <= c, "sgt": -1 > c, "sge": -1 >= c}.get(pr)
            if r is None: return q
            if r != truth: return ("ok",) + q[1:] if q[0] != "fail" else None
            return ("fail",) + q[1:] if q[0] != "ok" else None
        return q
    outs = walk.run(m, g, {a[0]: ("p", g.name, a[0]) for a in g.args}, "", step, branch)
    for q, ret in outs:
        if q == "" : bad.append("without the device"); continue
        if q[0] == "ok" : continue
        bad.append(q[0])
    return bool(n[0]) and not bad or not outs

def run(cfg):
    P = Part("c12", cfg)
    m = ir.Module(cfg)
    Live(P, m).run()
    P.need("functions using a port's device", 10)
    T = tables(P, m)
    P.need("method slots", 40)
    signatures(P, m, T)
    P.need("method calls matched", 10)
    closing(P, m)
    releasing(P, m, T)
    collector(P, m, T)
    directions(P, m, T)
    return P
