"""C20: modules: what a module advertises exists, is registered by the module's initialiser, and its state is set before it is used."""
import os, re, json, glob
import ir, walk, loops, build
from walk import Cx, INTO, strip
from ir import OBJ
from core import Part, Broken, Missing, need_fn
from rules.c05 import always
from rules.c06 import gaddr
from rules.c11 import never
HERE = os.path.dirname(os.path.abspath(__file__))
PROTECT = {"scm_gc_protect_with_init"}
POINTERS = {"scm_current_char_codec", "scm_identifier_codec", "scm_write_ss_func"}
EVAL = {"scm_load_system_file", "scm_load", "scm_eval", "scm_eval_c_string", "scm_call"}
CORE = ""
# names that modules deliberately give a new meaning (SRFI-1 extends these procedures of R5RS; SRFI-9 hides records from them;
# the library file loaded last wraps these)
OVERRIDES = {"map", "for-each", "member", "assoc", "append!", "last-pair", "list-copy", "vector?", "eval", "load", "call-with-input-file", "call-with-output-file",
  "with-input-from-file", "with-output-to-file", "format", "%cond-expand-dummy", "map-in-order", "list-tail", "reverse!", "vector-fill!", "vector->list", "list->vector",
  "call-with-values", "call-with-current-continuation"}
# alias -> what it must name (same procedure); several spellings accepted where the standard leaves the choice
ALIASES = {
 "call/cc": {"call-with-current-continuation"}, "r5rs:map": {"map"}, "r5rs:for-each": {"for-each"}, "r5rs:member": {"member"}, "r5rs:assoc": {"assoc"},
 "r5rs:vector?": {"vector?"}, "r5rs:eval": {"eval"}, "proper-list?": {"list?"}, "drop": {"list-tail"}, "write/ss": {"write-with-shared-structure"},
 "let*-optionals": {"let-optionals*"}, "bitwise-and": {"logand"}, "bitwise-ior": {"logior"}, "bitwise-xor": {"logxor"}, "bitwise-not": {"lognot"},
 "bitwise-merge": {"bitwise-if"}, "any-bits-set?": {"logtest"}, "srfi-1:map": {"map-in-order"}, "map": {"map-in-order", "r5rs:map"},
 "srfi-1:for-each": {"for-each"}, "srfi-1:member": {"member"}, "srfi-1:assoc": {"assoc"}, "map-in-order": {"r5rs:map", "map"}, "for-each": {"r5rs:for-each"},
 "pretty-print": {"write"}}
# modules deliberately declared present by another one (which supersedes them)
SUPERSEDES = {("scm_initialize_srfi48", "srfi-28")}

class Prog:
    def __init__(s, P, m):
        s.P = P; s.m = m; s.N = never(m)
        s.by = {}
        for t, nm, fn, tc in m.funcdescs(): s.by.setdefault(t, {})[nm] = fn
        g = [x for x in m.globals if x == "module_info_table" or (m.globals[x].get("dname") == "module_info_table")]
        if not g: raise Broken("no table of modules")
        ini = m.globals[g[0]]["init"]
        s.table = g[0]; s.mods = {}; s.end = False
        for e in ini[1]:
            if e[0] == "a":
                nm, i, fin = e[1][0], e[1][1], e[1][2]
                if nm[0] in ("n",): s.end = True; break
                c = m.cstr(nm)
                P.count("modules")
                P.check(i[0] == "f", "module:%s:initialiser" % c, "module %s has no initialiser" % c)
                P.check(c not in s.mods, "module:%s:twice" % c, "module %s is listed twice" % c)
                if i[0] == "f": s.mods[c] = i[1]
                if fin[0] == "f": s.mods[c + "/fin"] = fin[1]
            elif e[0] in ("z", "n"): s.end = True; break
        P.check(s.end, "module-table:end", "the table of modules does not end with an empty entry")
        s.fin = {k: v for k, v in s.mods.items() if k.endswith("/fin")}
        s.mods = {k: v for k, v in s.mods.items() if not k.endswith("/fin")}
        s.core = need_fn(m, "scm_initialize").name
        s.events = {}

    def str_arg(s, f, o):
        if o[0] in ("g", "ge"): return s.m.cstr(o)
        d = f.defs.get(o[1]) if o[0] == "v" else None
        if d is not None and d.op == "call" and d.cname in ("scm_make_immutable_string_copying", "scm_make_string_copying", "scm_make_immutable_string"): return s.m.cstr(d.ops[0])
        return None

    def kids(s, f):
        """functions f calls that are part of bringing the interpreter up"""
        for i in f.calls():
            if i.cname in s.m.fns and not s.m.fns[i.cname].decl: yield i

    def initfns(s):
        return {f.name for ev in s.flow.values() for k, f, i, c in ev if hasattr(f, "name")} | {i.cname for k, f, i, c in s.flow[CORE] if k == "call"}

    def own(s, n):
        """functions an initialiser is made of"""
        out = set(); st = [n]
        while st:
            x = st.pop()
            if x in out or x not in s.m.fns or s.m.fns[x].decl or x in s.N: continue
            out.add(x)
            if x in ("scm_require_module", "scm_load_system_file", "scm_p_require_module", "scm_eval", "scm_call"): continue
            st += [i.cname for i in s.kids(s.m.fns[x])]
        return out

def must(m, f, site):
    """does f pass site on every path to a return (a loop over nothing cannot hide it)"""
    st = [0]; seen = {0}
    while st:
        b = f.blocks[st.pop()]
        if b.id == site.blk.id: continue
        if b.term.op == "ret": return False
        for x in b.succs:
            if x not in seen: seen.add(x); st.append(x)
    return True

def exposed(f, N):
    """blocks that can still lead to a return (errors excluded)"""
    ok = {b.id for b in f.blocks if b.term.op == "ret"}
    dead = {b.id for b in f.blocks if any(i.op == "call" and i.cname in N for i in b.ins)}
    ch = True
    while ch:
        ch = False
        for b in f.blocks:
            if b.id not in ok and any(x in ok for x in b.succs) and b.id not in dead: ok.add(b.id); ch = True
    return ok - dead

def setters(S):
    """global -> [(function, site)] that give it its first value (an initialiser call, or a store)"""
    m = S.m; out = {}
    for f in m.defined():
        for i in f.instrs():
            if i.op == "call" and i.cname in PROTECT:
                g = m.gname(i.ops[0])
                if g: out.setdefault(g, []).append((f, i))
            elif i.op == "store":
                g = m.gname(i.ops[1])
                if g: out.setdefault(g, []).append((f, i))
    return out

def readers(m):
    out = {}
    for f in m.defined():
        for i in f.instrs():
            if i.op == "load":
                g = m.gname(i.ops[0])
                if g and not g.startswith("sal_k_"): out.setdefault(g, []).append((f, i))
    return out

def isobj(m, g, rd): return any(i.ty == OBJ for f, i in rd.get(g, ()))

def run(cfg):
    P = Part("c20", cfg)
    m = ir.Module(cfg)
    S = Prog(P, m)
    P.need("modules", 8)
    tables(S)
    st = state(S)
    order(S, st)
    require(S)
    scheme(S, cfg)
    return P

def flows(S, n, depth=0, seen=()):
    """events of an initialiser in order, for every path: yields via callback the flattened list on the path(s) that return normally.
    Only the straight order matters, so calls are expanded in place; conditional events are marked."""
    m = S.m; f = need_fn(m, n); ok = exposed(f, S.N)
    out = []
    order = f.rpo()
    for b in order:
        if b not in ok: continue
        cond = not always_block(f, b, ok)
        for i in f.blocks[b].ins:
            if i.op == "call" and i.cname:
                c = i.cname
                if c in EVENTS: out.append((c, f, i, cond))
                elif c == "scm_init_storage" and m.mode == "abs":
                    # (the storage layer's own code is not part of the abstract module)
                    R = Real(S); out += [("set", (R.m.gname(i2.ops[0 if k2 == "call" else 1]), f2), i2, c2 or cond) for k2, f2, i2, c2 in flows(R, c, depth + 1) if k2 == "store" or k2 == "call" and i2.cname in PROTECT]
                elif c == "scm_call_with_gc_ready_stack" and gated(m, i):
                    for x in gated(m, i): out += [(a, f2, i2, c2 or cond) for a, f2, i2, c2 in flows(S, x, depth + 1, seen + (n,))] if interesting(S, x) else [("call", f, i, cond)]
                elif c in m.fns and not m.fns[c].decl and depth < 4 and c not in seen and not m.fns[c].name.startswith("scm_gc_"):
                    g = m.fns[c]
                    if interesting(S, c): out += [(a, f2, i2, c2 or cond) for a, f2, i2, c2 in flows(S, c, depth + 1, seen + (n,))]
                    else: out.append(("call", f, i, cond))
                else: out.append(("call", f, i, cond))
            elif i.op == "store": out.append(("store", f, i, cond))
            elif i.op == "load": out.append(("load", f, i, cond))
            elif i.op == "call": out.append(("call", f, i, cond))
    return out

class Real:
    def __init__(s, S): s.m = ir.Module(S.m.cfg, "real"); s.N = never(s.m); s.events = {}; s.mods = {}
    def kids(s, f): return [i for i in f.calls() if i.cname in s.m.fns and not s.m.fns[i.cname].decl]

EVENTS = {"scm_register_funcs", "scm_define_alias", "scm_load_system_file", "scm_require_module", "scm_provide", "scm_register_func"}
def gated(m, i):
    return [o[1] for o in i.ops if o[0] == "f" and o[1] in m.fns and not m.fns[o[1]].decl] if i.cname == "scm_call_with_gc_ready_stack" else []

def interesting(S, n, memo=None):
    memo = S.events
    if n in memo: return memo[n]
    memo[n] = False
    f = S.m.fns[n]
    if n in ("scm_interpret_argv",): memo[n] = True; return True
    r = any(i.op == "call" and i.cname in PROTECT | {"scm_register_funcs", "scm_define_alias"} for i in f.instrs())
    if not r: r = any(interesting(S, x) for i in S.kids(f) if i.cname not in EVENTS for x in [i.cname] + gated(S.m, i) if x not in S.mods.values() and x not in S.N)
    memo[n] = r
    return r

def always_block(f, b, ok):
    """every normal path of f passes block b"""
    if b == 0: return True
    st = [0]; seen = {0}
    while st:
        x = st.pop()
        if x == b: continue
        if f.blocks[x].term.op == "ret": return False
        for y in f.blocks[x].succs:
            if y in ok and y not in seen: seen.add(y); st.append(y)
    return True

def tables(S):
    """every table of procedures registered exactly by one initialiser; aliases name what exists at that point"""
    P, m = S.P, S.m
    reg = {}      # table -> [(initialiser, cond, ins, f)]
    S.flow = {}
    roots = {CORE: S.core}; roots.update(S.mods)
    for mod, n in roots.items():
        if n not in m.fns: P.check(False, "module:%s:gone" % mod, "module %s: its initialiser does not exist" % mod); continue
        S.flow[mod] = flows(S, n)
    for mod, ev in S.flow.items():
        for k, f, i, cond in ev:
            if k == "scm_register_funcs":
                o = i.ops[0]
                while o[0] == "ge": o = o[1]
                if o[0] != "g": P.check(False, f.name + ":table", "%s: %s registers something that is not a table" % (i.loc(), f.name)); continue
                reg.setdefault(o[1], []).append((mod, cond, f, i))
    S.reg = reg
    for t in sorted(S.by):
        if not S.by[t]: continue
        P.count("tables of procedures")
        r = reg.get(t, [])
        src = t.replace("scm_functable_", "")
        if P.check(bool(r), t + ":unregistered", "the procedures %s... are never registered by an initialiser" % ", ".join(sorted(S.by[t])[:3])):
            P.check(any(not c for _, c, _, _ in r), t + ":conditional", "%s: %s registers its procedures only on some paths" % (r[0][3].loc(), r[0][2].name))
            P.check(len({x[0] for x in r}) == 1, t + ":shared", "the procedures %s... are registered by several modules" % ", ".join(sorted(S.by[t])[:3]))
        for nm, fn in sorted(S.by[t].items()):
            P.count("procedures advertised")
            P.check(fn is not None and fn in m.fns and not m.fns[fn].decl, "%s:missing" % nm, "%s is advertised but has no implementation" % nm)
    P.need("tables of procedures", 15)
    # the table ends, and nothing after the end
    for t in S.by:
        e = m.globals[t]["init"][1]
        last = e[-1]
        P.check(last[0] in ("z", "n") or (last[0] == "a" and last[1][0][0] == "n"), t + ":end", "the table of procedures %s has no end mark" % t)
    # what is available to whom
    S.names = {}
    def names(mod, seen=()):
        if mod in S.names: return S.names[mod]
        if mod in seen: return set()
        out = {}
        have = set() if mod == CORE else set(names(CORE, seen + (mod,)))
        for k, f, i, cond in S.flow.get(mod, ()):
            if k == "scm_register_funcs":
                o = i.ops[0]
                while o[0] == "ge": o = o[1]
                have |= set(S.by.get(o[1], ()))
            elif k == "scm_register_func":
                c = S.str_arg(f, i.ops[0])
                if c: have.add(c)
            elif k == "scm_require_module":
                c = S.str_arg(f, i.ops[0])
                P.count("modules required by initialisers")
                if P.check(c in S.mods, "%s:requires:%s" % (f.name, c), "%s: %s requires the module %s, which does not exist" % (i.loc(), f.name, c)):
                    if mod == CORE:
                        # the core is being built: the module sees what there is so far
                        S.names[CORE] = have
                        have |= names(c, seen + (mod,)); S.names.pop(CORE, None)
                    else: have |= names(c, seen + (mod,))
            elif k == "scm_define_alias":
                new, old = S.str_arg(f, i.ops[0]), S.str_arg(f, i.ops[1])
                P.count("aliases")
                P.check(old in have, "alias:%s:early" % new, "%s: %s makes %s another name of %s before %s is defined" % (i.loc(), f.name, new, old, old))
                if new in ALIASES: P.check(old in ALIASES[new], "alias:%s" % new, "%s: %s makes %s another name of %s" % (i.loc(), f.name, new, old))
                have.add(new)
            elif k == "scm_load_system_file":
                c = S.str_arg(f, i.ops[0])
                p = os.path.join(build.REPO, "lib", c or "?")
                P.count("library files loaded")
                if P.check(c is not None and os.path.exists(p), "%s:file" % f.name, "%s: %s loads a library file that does not exist (%s)" % (i.loc(), f.name, c)):
                    src = lib(p)
                    S.libs.setdefault(c, []).append((mod, set(have), f, i))
                    have |= {d for d, _ in src.defs}
            elif k == "scm_provide":
                c = S.str_arg(f, i.ops[0])
                if c in S.mods: P.check((f.name, c) in SUPERSEDES, "%s:provides:%s" % (f.name, c), "%s: %s declares the module %s present without initialising it" % (i.loc(), f.name, c))
        S.names[mod] = have
        return have
    S.libs = {}
    names(CORE)
    for mod in S.mods: names(mod)
    P.need("aliases", 10)
    # nothing advertised has disappeared
    spec = json.load(open(os.path.join(HERE, "names.json")))[P.cfg]
    for mod, ns in spec.items():
        if mod == "features": continue
        if mod not in S.names: P.check(False, "module:%s:gone" % mod, "the module %s is not there any more" % mod); continue
        for n in ns:
            P.count("names that must be available")
            P.check(n in S.names[mod], "%s:%s:name" % (mod or "core", n), "%s: the name %s is not defined after initialisation" % (("module " + mod) if mod else "core", n))
    # a module's table must not silently replace core procedures
    own = {}
    for t in S.by:
        for n in S.by[t]: own.setdefault(n, []).append(t)
    for n, ts in sorted(own.items()):
        if len(ts) > 1: P.check(n in OVERRIDES or superseded(S, ts), "%s:twice" % n, "%s is defined by %s" % (n, " and by ".join(sorted(x.replace("scm_functable_", "") for x in ts))))

def superseded(S, ts):
    mods = {r[0] for t in ts for r in S.reg.get(t, ())}
    return any({S.flow and a.replace("scm_initialize_", "").replace("srfi", "srfi-"), b} == mods for a, b in SUPERSEDES)

def state(S):
    """who owns which interpreter-wide variable; set on every path of its initialiser"""
    P, m = S.P, S.m
    st = setters(S); rd = readers(m)
    owner = {}
    flowset = {}
    for mod, ev in S.flow.items():
        for k, f, i, cond in ev:
            g = None
            if k == "call" and i.cname in PROTECT: g = m.gname(i.ops[0])
            elif k == "store": g = m.gname(i.ops[1])
            elif k == "set": g, f = f
            if g: flowset.setdefault(g, []).append((mod, cond, f, i))
    S.flowset = flowset
    for g in sorted(rd):
        if not isobj(m, g, rd): continue
        ini = m.globals.get(g, {}).get("init")
        P.count("interpreter-wide variables")
        fs = flowset.get(g, [])
        # variables with one static value (other than zero) are never without one
        P.count("of these given a value by an initialiser", bool(fs))
        sure = [x for x in fs if not x[1]]
        # (given a value by setting code on every use instead: saved and restored around a call)
        if not fs:
            w = {f.name for f, i in st.get(g, ())}
            r = {f.name for f, i in rd[g]}
            P.check(False, g + ":unset", "%s is read (%s) but no initialiser gives it a value" % (g, sorted(r)[0])); continue
        if not P.check(bool(sure), g + ":conditional", "%s: %s gives %s its first value only on some paths" % (fs[0][3].loc(), fs[0][2].name, g)): continue
        owner[g] = {x[0] for x in sure}
    P.need("interpreter-wide variables", 25)
    for g in sorted(POINTERS):
        rd2 = rd.get(g)
        if not rd2: continue
        P.count("pointers that must be set before any program runs")
        def gives(n, depth=0):
            f = m.fns.get(n)
            if f is None or f.decl or depth > 3: return False
            return any(must(m, f, i) for h, i in st.get(g, ()) if h is f) or any(must(m, f, i) and gives(i.cname, depth + 1) for i in S.kids(f))
        ok = False
        for k, f, i, cond in S.flow[CORE]:
            if k == "scm_load_system_file": break
            if not cond and (k == "store" and m.gname(i.ops[1]) == g or k == "call" and i.cname and i.cname not in EVAL and gives(i.cname)): ok = True; break
        P.check(ok, g + ":unset", "%s is used (%s) but not set before library code runs" % (g, rd2[0][0].name))
    S.owner = owner; S.rd = rd
    # readers of a module's state are reachable only once the module is initialised
    callers = {}; taken = {}
    for f in m.defined():
        for i in f.instrs():
            if i.op == "call" and i.cname: callers.setdefault(i.cname, []).append((f, i))
            for o in list(i.ops):
                for x in fnrefs(o): taken.setdefault(x, []).append((f, i))
    regd = {}
    for t in S.by:
        for nm, fn in S.by[t].items():
            for r in S.reg.get(t, ()): regd.setdefault(fn, set()).add((nm, r[0]))
    requires = {}
    for mod, ev in S.flow.items():
        requires[mod] = {S.str_arg(f, i.ops[0]) for k, f, i, cond in ev if k == "scm_require_module" and not cond}
    def has(mod, want, seen=()):
        """initialising mod implies that `want` is initialised too"""
        return mod == want or mod not in seen and any(has(x, want, seen + (mod,)) for x in requires.get(mod, ()) if x in S.mods)
    incore = {x for x in requires.get(CORE, ())}
    for g, ow in sorted(owner.items()):
        if CORE in ow or any(has(c, o) for c in incore for o in ow if c in S.mods): continue
        setting = {x[2].name for x in flowset[g]}
        seen = set(); work = [(f, i, (f.name,)) for f, i in rd[g]]
        while work:
            f, i, how = work.pop()
            if (f.name, i.blk.id) in seen: continue
            seen.add((f.name, i.blk.id))
            if f.name in setting: continue
            if any(guarded(S, f, i.blk.id, o) for o in ow): P.count("uses behind a test that the module is there"); continue
            P.count("ways to a module's state")
            for nm, mod in regd.get(f.name, ()):
                P.check(any(has(mod, o) for o in ow), "%s:%s" % (nm, g), "%s, available %s, uses %s (through %s) before the module %s was initialised" % (nm, "from the start" if mod == CORE else "with " + mod, g, " <- ".join(how[:5]), "/".join(sorted(ow))))
            for c, ci in callers.get(f.name, ()) + taken.get(f.name, []) if isinstance(callers.get(f.name, ()), list) else taken.get(f.name, []): work.append((c, ci, how + (c.name,)))
    return owner

def fnrefs(o):
    if isinstance(o, tuple) and o:
        if o[0] == "f" and len(o) > 1: yield o[1]
        else:
            for x in o:
                if isinstance(x, tuple): yield from fnrefs(x)

def tests(S, mod):
    """functions whose true result means that the module is initialised: calls of scm_module_initializedp, possibly remembered in a static variable"""
    m = S.m; out = set()
    for f in m.defined():
        cs = [i for i in f.calls() if i.cname == "scm_module_initializedp" and S.m.cstr(i.ops[0]) == mod]
        if not cs or f.ret == "void" or len([i for i in f.instrs() if i.op == "ret"]) != 1: continue
        ok = True
        # every value returned is the call's, zero, or a variable only ever given these
        def good(o, seen):
            if o[0] == "i": return o[1] == 0
            if o[0] != "v": return False
            d = f.defs.get(o[1])
            if d is None or d.id in seen: return d is not None
            seen = seen | {d.id}
            if d.op == "call": return d in cs
            if d.op in ("phi",): return all(good(x, seen) for x in d.ops)
            if d.op in ("zext", "trunc", "freeze"): return good(d.ops[0], seen)
            if d.op == "icmp" and d.get("pred") == "ne" and any(x[0] == "i" and x[1] == 0 for x in d.ops): return good([x for x in d.ops if x[0] != "i"][0], seen)
            if d.op == "select": return all(good(x, seen) for x in d.ops[1:])
            if d.op == "load":
                g = d.ops[0]
                if g[0] != "g" and not (g[0] == "ge" and g[1][0] == "g"): return False
                ini = m.globals.get(g[1] if g[0] == "g" else g[1][1], {}).get("init")
                nm = m.gname(g)
                S.P.check(any(i.op == "store" and m.gname(i.ops[1]) == nm and i.ops[0][0] == "i" and i.ops[0][1] == 0 and must(m, h, i) for h in m.defined() if h.name in S.initfns() for i in h.instrs()), "%s:reset" % nm, "%s remembers that a module is initialised across finalisation: no initialiser resets it" % nm)
                ws = [(h, i) for h in m.defined() for i in h.instrs() if i.op == "store" and i.ops[1] == g]
                return ini is not None and ini[0] in ("z", "n", "i") and (ini[0] != "i" or ini[1] == 0) and all(h is f and good(i.ops[0], seen) or i.ops[0] in (("i", 0, 32), ("i", 0)) or (i.ops[0][0] == "i" and i.ops[0][1] == 0) for h, i in ws)
            return False
        r = [i for i in f.instrs() if i.op == "ret"][0]
        if r.ops and good(r.ops[0], frozenset()): out.add(f.name)
    return out | {"scm_module_initializedp"}

def guarded(S, f, b, mod):
    if not hasattr(S, "tst"): S.tst = {}
    if mod not in S.tst: S.tst[mod] = tests(S, mod)
    T = S.tst[mod]
    for blk in f.blocks:
        t = blk.term
        if t.op != "br" or len(t.raw["succ"]) != 2: continue
        o, want = t.ops[0], True
        while o[0] == "v" and f.defs.get(o[1]) is not None:
            d = f.defs[o[1]]
            if d.op == "icmp" and d.get("pred") in ("eq", "ne") and any(x[0] == "i" and x[1] == 0 for x in d.ops):
                if d.get("pred") == "eq": want = not want
                o = [x for x in d.ops if x[0] != "i"]
                if not o: break
                o = o[0]; continue
            if d.op == "xor": want = not want; o = [x for x in d.ops if x[0] != "i"][0]; continue
            if d.op in ("zext", "trunc", "freeze"): o = d.ops[0]; continue
            if d.op == "call" and d.cname in T and (d.cname != "scm_module_initializedp" or S.m.cstr(d.ops[0]) == mod):
                s = t.raw["succ"][0 if want else 1]
                if len(f.blocks[s].preds) == 1 and f.dominates(s, b): return True
            break
    return False

def needs(S, mod, c):
    """variables that the procedures of module mod mentioned in library file c may read"""
    m = S.m; text = set(); L = lib(os.path.join(build.REPO, "lib", c)); bodies = {}
    for d, fm in L.defs: bodies.setdefault(d, []).append(fm)
    def syms(x, run):
        """names of what is evaluated while the file is loaded (bodies of procedures only if something evaluated mentions them)"""
        if isinstance(x, Sym):
            text.add(str(x))
        elif isinstance(x, tuple): return
        elif isinstance(x, list) and x:
            if not run and x[0] == "define":
                if not isinstance(x[1], Node):
                    for y in x[2:]: syms(y, False)
                return
            if not run and x[0] in ("lambda", "define-macro", "define-syntax", "quote"): return
            if isinstance(x[0], Sym) and str(x[0]) in bodies and str(x[0]) not in text:
                text.add(str(x[0]))
                for fm in bodies[str(x[0])]:
                    if fm is not None: syms(Node(fm[1:]), True)
            for y in x: syms(y, run)
            if getattr(x, "tail", None) is not None: syms(x.tail, run)
    for fm in L.forms: syms(fm, False)
    fns = {fn for t in S.by for nm, fn in S.by[t].items() if nm in text and any(r[0] == mod for r in S.reg.get(t, ()))}
    seen = set(); st = list(fns); out = set()
    while st:
        n = st.pop()
        if n in seen or n not in m.fns or m.fns[n].decl: continue
        seen.add(n)
        for i in m.fns[n].instrs():
            if i.op == "load":
                g = m.gname(i.ops[0])
                if g: out.add(g)
            if i.op == "call" and i.cname: st.append(i.cname)
            for o in i.ops: st += list(fnrefs(o))
    return out

def order(S, owner):
    """no initialiser reads state, or runs Scheme code that could, before that state has its first value"""
    P, m = S.P, S.m
    def reads(n, memo={}):
        key = (P.cfg, n)
        if key in memo: return memo[key]
        memo[key] = {}
        f = m.fns.get(n); out = {}
        if f is not None and not f.decl and n not in S.N:
            ok = exposed(f, S.N)
            for b in f.blocks:
                if b.id not in ok: continue
                for i in b.ins:
                    if i.op == "load":
                        g = m.gname(i.ops[0])
                        if g in owner: out.setdefault(g, i)
                    elif i.op == "call" and i.cname and i.cname not in STOP:
                        for g, w in reads(i.cname).items(): out.setdefault(g, w)
        memo[key] = out
        return out
    STOP = EVAL | {"scm_require_module", "scm_p_require_module", "scm_register_funcs", "scm_register_func", "scm_define_alias"}
    def go(mod, have, done):
        """have: variables set so far"""
        done = done | {mod}
        mine = {g for g, o in owner.items() if mod in o and not (CORE in o and mod != CORE)}
        for k, f, i, cond in S.flow.get(mod, ()):
            if k == "call" and i.cname in PROTECT:
                g = m.gname(i.ops[0])
                if g in owner: have.add(g)
            elif k == "store":
                g = m.gname(i.ops[1])
                if g in owner: have.add(g)
            elif k == "set": have.add(f[0])
            elif k == "load":
                g = m.gname(i.ops[0])
                if g in owner:
                    P.count("reads while initialising")
                    P.check(g in have, "%s:%s:order" % (f.name, g), "%s: %s uses %s before it has a value" % (i.loc(), f.name, g))
            elif k == "scm_require_module":
                c = S.str_arg(f, i.ops[0])
                if c in S.mods and c not in done: go(c, have, done)
            elif k == "scm_provide":
                for g in ("l_features",):
                    if g in owner: P.check(g in have, "%s:%s:order" % (f.name, g), "%s: %s uses %s before it has a value" % (i.loc(), f.name, g))
            elif k == "call" and i.cname in EVAL or k == "scm_load_system_file":
                # arbitrary Scheme code runs: everything core and everything this module has registered must be ready
                P.count("library code run while initialising")
                registered = any(k2 == "scm_register_funcs" for k2, f2, i2, c2 in S.flow[mod][:S.flow[mod].index((k, f, i, cond))])
                c = S.str_arg(f, i.ops[0]) if k == "scm_load_system_file" else None
                used = needs(S, mod, c) if c in S.libs else None
                for g, o in sorted(owner.items()):
                    if CORE in o or (mod in o and registered and (used is None or g in used)):
                        P.check(g in have, "%s:%s:load-order" % (f.name, g), "%s: %s runs library code before %s has a value" % (i.loc(), f.name, g))
            elif k == "call" and i.cname:
                for g, w in sorted(reads(i.cname).items()):
                    P.count("reads while initialising")
                    P.check(g in have, "%s:%s:order" % (i.cname, g), "%s: %s calls %s, which uses %s (%s) before it has a value" % (i.loc(), f.name, i.cname, g, w.loc()))
        return have
    base = go(CORE, set(), frozenset())
    for mod in S.mods: go(mod, set(base), frozenset())
    P.need("reads while initialising", 3)

def require(S):
    P, m = S.P, S.m
    f = need_fn(m, "scm_p_require_module")
    lk = [i for i in f.calls() if i.cname == "lookup_module_info"]
    arg = ("arg", 0); bind = {f.args[0][0]: arg}
    seen = {"init": 0, "false": 0, "true": 0}
    def isnull(x): return x in (("n",), ("i", 0))
    def step(cx, i, q):
        found, prov, ran, recd, decl = q
        if i.op == "store" and i.get("vty") == OBJ and m.gname(i.ops[1]) == "l_provided_modules":
            t = cx.term(i.ops[0])
            P.check(ran == "yes", "require:recorded-early", "%s: a module is recorded as initialised before its initialiser ran" % i.loc())
            P.check(t[0] == "cons" and strip(t[2]) == ("ld", "l_provided_modules"), "require:recorded", "%s: the list of initialised modules loses entries" % i.loc())
            P.check(t[0] != "cons" or t[1] != arg, "require:alias", "%s: the record keeps the caller's own string, which may change" % i.loc())
            return [(found, prov, ran, "yes", decl)]
        if i.op != "call": return None
        c = i.cname
        if c is None:
            t = cx.term(i.callee)
            ent = t[0] == "mem" and t[1][0] == "off" and t[1][2] == 8
            if not P.check(ent, "require:which", "%s: what is run is not the initialiser of the module found" % i.loc()): return [q]
            seen["init"] += 1
            P.check(found == "yes", "require:found", "%s: an initialiser is run though no module was found" % i.loc())
            P.check(prov == "no", "require:again", "%s: the initialiser is run though the module is already provided" % i.loc())
            P.check(ran == "no", "require:twice", "%s: the initialiser is run twice" % i.loc())
            P.check(decl == "no", "require:declared-early", "%s: the module is declared provided before its initialiser ran" % i.loc())
            return [(found, prov, "yes", recd, decl)]
        if c == "scm_provide":
            P.check(ran == "yes", "require:declared-early", "%s: the module is declared provided before its initialiser ran" % i.loc())
            return [(found, prov, ran, recd, "yes")]
        h = m.fns.get(c)
        if h is not None and not h.decl and h.local and any(j.op == "call" and not j.cname or j.op == "store" and m.gname(j.ops[1]) == "l_provided_modules" or j.cname == "scm_provide" for j in h.instrs()): return INTO
        return None
    def branch(cx, x, truth, q):
        found, prov, ran, recd, decl = q
        r = walk.cmp(cx, x)
        if not r: return q
        eq, a, b = r
        if isnull(b) or isnull(a):
            y = a if isnull(b) else b
            if y[0] == "call" and y[1] in m.fns and m.fns[y[1]].ret == "ptr" or y[0] in ("phi", "mem", "gep") and b == ("n",): return ("yes" if (truth != eq) else "no", prov, ran, recd, decl)
            if y[0] == "call" and y[1] in ("scm_providedp", "scm_module_initializedp"): return (found, "yes" if (truth != eq) else "no", ran, recd, decl)
        return q
    ends = []
    def fin(cx, t, q, ret): ends.append((t, q, ret))
    walk.run(m, f, bind, ("?", "?", "no", "no", "no"), step, branch, ends=fin)
    for t, (found, prov, ran, recd, decl), ret in ends:
        P.count("ways to require a module")
        v = strip(ret) if ret else None
        if v == ("g", "sal_k_true"):
            seen["true"] += 1
            P.check(found == "yes", "require:true", "%s: succeeds for a module that does not exist" % t.loc())
            P.check(prov == "yes" or ran == "yes", "require:skipped", "%s: reports success without having initialised the module" % t.loc())
            if ran == "yes":
                P.check(recd == "yes", "require:unrecorded", "%s: the module is not recorded as initialised" % t.loc())
                P.check(decl == "yes", "require:undeclared", "%s: the module is not declared provided, so it would be initialised again" % t.loc())
        elif v == ("g", "sal_k_false"):
            seen["false"] += 1
            P.check(found == "no", "require:false", "%s: fails for a module that exists" % t.loc())
            P.check(ran == "no", "require:false-ran", "%s: fails though the module was initialised" % t.loc())
        else: P.check(False, "require:result", "%s: does not report whether the module is there" % t.loc())
    for k, w in (("init", "never runs an initialiser"), ("true", "never succeeds"), ("false", "never fails")): P.check(seen[k] > 0, "require:no-" + k, "%%%%require-module %s" % w)
    # which entry is found: only under equality of the names
    g = next((x for x in m.defined() if x.ret == "ptr" and any(o == ("g", S.table) for i in x.instrs() for o in i.ops)), None)
    if g is not None and not g.decl: lookup(S, g)
    # provided only after the file was loaded; by whom the record may be written
    for f2 in m.defined():
        for i in f2.instrs():
            if i.op == "store" and m.gname(i.ops[1]) == "l_provided_modules":
                P.count("writers of the record of initialised modules")
                P.check(f2 is f or f2.name.startswith(("scm_init_", "scm_fin_")), f2.name + ":records", "%s: %s changes the record of initialised modules" % (i.loc(), f2.name))
    r = m.fns.get("scm_require_internal")
    if r is not None and not r.decl:
        for i in r.calls():
            if i.cname == "scm_provide":
                P.count("files required")
                P.check(always(r, {"scm_load"}, before=i), "require-file:early", "%s: a file is recorded as loaded before it was" % i.loc())
        ls = [i for i in r.calls() if i.cname == "scm_load"]
        P.check(bool(ls), "require-file:load", "require does not load the file")
        for i in ls: P.check(notprovided(r, i), "require-file:again", "%s: the file is loaded again though recorded as loaded" % i.loc()); P.check(after(r, i, "scm_provide"), "require-file:unrecorded", "%s: the file is not recorded as loaded, so it is loaded again next time" % i.loc())
    # features: declared ones are never taken back
    for f2 in m.defined():
        for i in f2.instrs():
            if i.op == "store" and m.gname(i.ops[1]) == "l_features":
                t = Cx(m, f2, {}).term(i.ops[0])
                P.check(t[0] == "cons" and strip(t[2]) == ("ld", "l_features") or f2.name.startswith("scm_init"), f2.name + ":features", "%s: %s makes features that were provided disappear" % (i.loc(), f2.name))
    pv = need_fn(m, "scm_provide")
    sts = [i for i in pv.instrs() if i.op == "store" and m.gname(i.ops[1]) == "l_features"]
    P.check(any(must(m, pv, i) and Cx(m, pv, {pv.args[0][0]: ("arg", 0)}).term(i.ops[0])[1:2] == (("arg", 0),) for i in sts), "provide", "scm_provide: does not always record the feature")
    for n, var in (("scm_providedp", "l_features"), ("scm_module_initializedp", "l_provided_modules")):
        q = m.fns.get(n)
        if q is None or q.decl: continue
        c = [i for i in q.calls() if i.cname == "scm_p_member"]
        if c:
            cx = Cx(m, q, {q.args[0][0]: ("arg", 0)})
            P.check(strip(cx.term(c[0].ops[1])) == ("ld", var), n + ":list", "%s: %s looks in the wrong list" % (c[0].loc(), n))
    # what the other ways of requiring a module ask for is what they were given
    for n in ("scm_require_module_internal", "scm_use_internal", "scm_s_use"):
        q = m.fns.get(n)
        if q is None or q.decl: continue
        cs = [i for i in q.calls() if i.cname in ("scm_p_require_module", "scm_s_use", "scm_require_module_internal")]
        P.check(bool(cs) and any(must(m, q, i) or n == "scm_s_use" for i in cs) and all(from_arg(q, i.ops[0]) for i in cs), n + ":asks", "%s: does not require the module it was asked for" % n)
        P.check(all(uses_result(q, i) for i in cs), n + ":answer", "%s: does not report whether the module is there" % n)
    # superseded modules are declared present
    for fn, nm in SUPERSEDES:
        q = m.fns.get(fn)
        if q is None or q.decl or nm not in S.mods: continue
        cs = [i for i in q.calls() if i.cname == "scm_provide" and S.str_arg(q, i.ops[0]) == nm]
        P.check(any(must(m, q, i) for i in cs), "%s:%s" % (fn, nm), "%s: does not declare %s present, so requiring it later replaces what this module defined" % (fn, nm))
    features(S)
    reg(S)

def from_arg(f, o, d=0):
    if o == ("v", f.args[0][0]): return True
    x = f.defs.get(o[1]) if o[0] == "v" else None
    if x is None or d > 8: return False
    if x.op == "call": return x.cname not in (None,) and bool(x.ops) and from_arg(f, x.ops[0], d + 1)
    if x.op == "phi": return all(from_arg(f, y, d + 1) for y in x.ops)
    return x.op in ("load", "getelementptr", "bitcast", "freeze") and from_arg(f, x.ops[0], d + 1)

def uses_result(f, i):
    """the value returned depends on i"""
    rs = [j for j in f.instrs() if j.op == "ret" and j.ops]
    seen = set(); st = [("v", i.id)]
    while st:
        o = st.pop()
        if o in seen: continue
        seen.add(o)
        for u, k in f.uses().get(o[1], ()):
            if u.op == "ret": return True
            if u.op == "br":
                return True
            st.append(("v", u.id))
    return False

def features(S):
    """every built-in feature is declared, in a loop over the whole list"""
    P, m = S.P, S.m
    g = [n for n, x in m.globals.items() if x.get("dname") == "builtin_features" or n == "builtin_features"]
    if not g: return
    ini = m.globals[g[0]]["init"][1]
    names = {m.cstr(e) for e in ini if e[0] in ("g", "ge")}
    P.check(ini[-1][0] in ("n", "z"), "features:end", "the list of built-in features has no end")
    want = set(json.load(open(os.path.join(HERE, "names.json")))[P.cfg].get("features", ()))
    for n in sorted(want): P.count("built-in features"); P.check(n in names, "feature:" + n, "the feature %s is no longer declared" % n)
    ok = False
    for f in m.defined():
        for i in f.calls():
            if i.cname != "scm_provide": continue
            d = f.defs.get(i.ops[0][1]) if i.ops[0][0] == "v" else None
            d = f.defs.get(d.ops[0][1]) if d is not None and d.op == "call" and d.ops and d.ops[0][0] == "v" else None
            if d is None or d.op != "load": continue
            ph = f.defs.get(d.ops[0][1]) if d.ops[0][0] == "v" else None
            if ph is None or ph.op not in ("phi", "getelementptr"): continue
            if any(x == ("g", g[0]) for x in ph.ops):
                L = [b for b in f.blocks if i.blk.id in (b.id,)]
                # inside the loop the only way on is another round
                if ph.op == "phi" and all(f.defs.get(x[1]) is not None and f.defs[x[1]].get("off") == 8 for x in ph.ops if x[0] == "v"): ok = must_round(f, ph, i)
                elif ph.op == "getelementptr": ok = True
    P.check(ok, "features", "the built-in features are not all declared")

def must_round(f, ph, i):
    """every way from the loop head back to itself passes i"""
    h = ph.blk.id; st = [x for x in f.blocks[h].succs]; seen = set(st)
    if i.blk.id == h: return True
    while st:
        b = st.pop()
        if b == i.blk.id: continue
        if b == h: return False
        for x in f.blocks[b].succs:
            if x not in seen: seen.add(x); st.append(x)
    return True

def notprovided(f, i):
    """i runs only where scm_providedp answered no"""
    for blk in f.blocks:
        t = blk.term
        if t.op != "br" or len(t.raw["succ"]) != 2: continue
        o, want = t.ops[0], True
        d = f.defs.get(o[1]) if o[0] == "v" else None
        while d is not None and (d.op in ("zext", "trunc", "freeze", "xor") or d.op == "icmp" and d.get("pred") in ("eq", "ne") and any(x[0] == "i" and x[1] == 0 for x in d.ops)):
            if d.op == "xor" or d.op == "icmp" and d.get("pred") == "eq": want = not want
            o = [x for x in d.ops if x[0] != "i"][0]
            d = f.defs.get(o[1]) if o[0] == "v" else None
        if d is not None and d.op == "call" and d.cname == "scm_providedp":
            s = t.raw["succ"][1 if want else 0]
            if len(f.blocks[s].preds) == 1 and f.dominates(s, i.blk.id): return True
    return False

def after(f, i, name):
    """every path from i to a return calls name"""
    if any(j.op == "call" and j.cname == name for j in i.blk.ins[i.idx + 1:]): return True
    st = list(i.blk.succs); seen = set(st)
    if i.blk.term.op == "ret": return False
    while st:
        b = f.blocks[st.pop()]
        if any(j.op == "call" and j.cname == name for j in b.ins): continue
        if b.term.op == "ret": return False
        for x in b.succs:
            if x not in seen: seen.add(x); st.append(x)
    return True

def lookup(S, f):
    P, m = S.P, S.m
    # the state: what the names told so far, and the last test for the end of the table with its answer
    def step(cx, i, q):
        if i.op == "icmp" and q[1] == i.id: return [(q[0], None, None)]
        return None
    def branch(cx, x, truth, q):
        r = walk.cmp(cx, x)
        if not r: return q
        eq, a, b = r
        for y, z in ((a, b), (b, a)):
            if z == ("i", 0) and y[0] == "call" and y[1] == "strcmp":
                return ("eq" if truth == eq else "ne",) + q[1:]
            if z == ("n",):
                null = truth == eq
                if q[1] == x.id and q[2] != null: return None
                return ("end" if null and q[0] != "eq" else q[0], x.id, null)
        return q
    ends = []
    walk.run(m, f, {f.args[0][0]: ("arg", 0)}, ("?", None, None), step, branch, ends=lambda cx, t, q, ret: ends.append((cx, t, q[0], ret)))
    for cx, t, q, ret in ends:
        P.count("ways to look a module up")
        if ret in (("n",), ("i", 0)): P.check(q != "eq", "lookup:missed", "%s: a module whose name matches is not found" % t.loc())
        else: P.check(q == "eq", "lookup:wrong", "%s: a module is found whose name was not compared, or differs" % t.loc())
    for i in f.calls():
        if i.cname == "strcmp":
            P.check(("v", f.args[0][0]) in i.ops, "lookup:name", "%s: the name compared is not the one asked for" % i.loc())
    P.check(any(i.cname == "strcmp" for i in f.calls()), "lookup:compare", "%s: names are not compared in full" % f.name)
    # starts at the first entry, steps by one entry
    base = [o for i in f.instrs() for o in i.ops if o == ("g", S.table)]
    P.check(bool(base), "lookup:first", "%s: the search does not begin with the first module" % f.name)
    for L in loops.loops(f):
        for ph in f.blocks[L.head].phis if hasattr(L, "head") else ():
            for o in ph.ops:
                d = f.defs.get(o[1]) if o[0] == "v" else None
                if d is not None and d.op == "getelementptr" and d.ops[0] == ("v", ph.id): P.check(d.get("off") == 24, "lookup:step", "%s: the search passes over modules" % f.name)

def reg(S):
    """registration: every entry of the table up to the end mark becomes the value of its name"""
    P, m = S.P, S.m
    f = need_fn(m, "scm_register_func")
    store = [i for i in f.calls() if i.cname in ("sal_symbol_set_vcell",)]
    mk = [i for i in f.calls() if i.cname == "scm_make_func"]
    it = [i for i in f.calls() if i.cname == "scm_intern"]
    P.check(len(store) == 1 and len(mk) == 1 and len(it) >= 1 and must(m, f, store[0]) if store and mk and it else False, "register", "scm_register_func: does not always define the name")
    if store and mk and it:
        ok = any(store[0].ops[0] == ("v", i.id) and i.ops[0] == ("v", f.args[0][0]) for i in it) and store[0].ops[1] == ("v", mk[0].id)
        P.check(ok, "register:what", "scm_register_func: does not give the name its procedure")
        P.check(("v", f.args[1][0]) in mk[0].ops and any(trace(f, o) == ("v", f.args[2][0]) for o in mk[0].ops), "register:func", "scm_register_func: the procedure is not made of the function and type given")
    g = need_fn(m, "scm_register_funcs")
    c = [i for i in g.calls() if i.cname == "scm_register_func"]
    P.check(len(c) == 1, "register-all", "scm_register_funcs: does not register the entries")
    a = need_fn(m, "scm_define_alias")
    v = [i for i in a.calls() if i.cname == "sal_symbol_set_vcell"]; r = [i for i in a.calls() if i.cname == "sal_symbol_vcell"]
    it = {("v", i.id): i.ops[0] for i in a.calls() if i.cname == "scm_intern"}
    ok = len(v) == 1 and len(r) == 1 and it.get(v[0].ops[0]) == ("v", a.args[0][0]) and it.get(r[0].ops[0]) == ("v", a.args[1][0]) and v[0].ops[1] == ("v", r[0].id)
    P.check(ok, "alias:what", "scm_define_alias: does not give the new name the value of the old one")

def trace(f, o):
    while o[0] == "v" and o[1] in f.defs and f.defs[o[1]].op in ("zext", "trunc", "sext", "bitcast", "freeze"): o = f.defs[o[1]].ops[0]
    return o

# ---------------------------------------------------------------- library files written in Scheme
class Lib: pass
TOK = re.compile(r'''\s+|;[^\n]*|\#\|(?:.|\n)*?\|\#|(?P<s>"(?:\\.|[^"\\])*")|(?P<c>\#\\(?:[A-Za-z]+[0-9]*|.))|(?P<p>\#\(|[()\[\]]|'|`|,@|,)|(?P<a>[^\s()\[\]"';`,]+)''')
class Sym(str): __slots__ = ("line",)
class Node(list): tail = None

def read(text):
    toks = []; line = 1; pos = 0
    while pos < len(text):
        k = TOK.match(text, pos)
        if not k: raise Broken("unreadable library text near %r" % text[pos:pos + 20])
        if k.lastgroup: toks.append((k.lastgroup, k.group(), line))
        line += k.group().count("\n"); pos = k.end()
    i = 0
    def one():
        nonlocal i
        k, t, ln = toks[i]; i += 1
        if k == "s": return ("str", t)
        if k == "c": return ("chr", t)
        if k == "p":
            if t in "([" or t == "#(":
                n = Node(); n.tail = None
                while True:
                    if i >= len(toks): raise Broken("unbalanced library text (line %d)" % ln)
                    if toks[i][1] in (")", "]") and toks[i][0] == "p": i += 1; break
                    if toks[i][0] == "a" and toks[i][1] == ".": i += 1; n.tail = one(); continue
                    n.append(one())
                return ("vec", n) if t == "#(" else n
            if t in ("'", "`", ",", ",@"):
                x = one(); n = Node([Sym({"'": "quote", "`": "quasiquote", ",": "unquote", ",@": "unquote-splicing"}[t]), x]); n.tail = None
                for q in n[:1]: q.line = ln
                return n
            raise Broken("stray ) in library text (line %d)" % ln)
        if re.fullmatch(r"[+-]?\d[\d./e+-]*|#.*", t): return ("num", t)
        s = Sym(t.lower() if False else t); s.line = ln
        return s
    out = []
    while i < len(toks): out.append(one())
    return out

_libs = {}
def lib(path):
    if path in _libs: return _libs[path]
    L = Lib(); L.path = path; L.forms = read(open(path).read()); L.defs = set(); L.macros = set(); L.requires = []
    def top(fm):
        if not isinstance(fm, Node) or not fm: return
        h = fm[0]
        if h == "define" and len(fm) > 1:
            n = fm[1]
            while isinstance(n, Node): n = n[0]
            if isinstance(n, Sym): L.defs.add((str(n), fm))
        elif h in ("define-macro", "define-syntax") and len(fm) > 1:
            n = fm[1][0] if isinstance(fm[1], Node) else fm[1]
            L.defs.add((str(n), None)); L.macros.add(str(n))
        elif h == "begin": [top(x) for x in fm[1:]]
        elif h in ("cond-expand",):
            for c in fm[1:]:
                if isinstance(c, Node): [top(x) for x in c[1:]]
        elif h == "define-record-type":
            def names(x):
                if isinstance(x, Sym): L.defs.add((str(x), None))
                elif isinstance(x, Node): [names(y) for y in x]
            names(Node(fm[1:]) if True else None)
        elif h == "require-extension":
            for c in fm[1:]:
                if isinstance(c, Node): L.requires += ["%s-%s" % (c[0], x[1]) for x in c[1:] if isinstance(x, tuple)]
    L.defs = set()
    class D(list):
        def add(s, x): s.append(x)
    L.defs = D()
    for fm in L.forms: top(fm)
    _libs[path] = L
    return L

KW = {"else", "=>", "unquote", "unquote-splicing"}
def params(p):
    """names bound by a parameter list"""
    if isinstance(p, Sym): return [str(p)]
    out = []
    if isinstance(p, Node):
        for x in p: out += [str(x)] if isinstance(x, Sym) else params(x[:1] and Node([x[0]])) if isinstance(x, Node) else []
        if p.tail is not None: out += params(p.tail)
    return out

def free(fm, env, macros, out):
    """collect free identifiers of expression fm"""
    if isinstance(fm, Sym):
        if str(fm) not in env and str(fm) not in KW: out.append(fm)
        return
    if not isinstance(fm, Node) or not fm: return
    h = fm[0]; rest = fm[1:]
    F = lambda x, e=env: free(x, e, macros, out)
    if isinstance(h, Sym) and str(h) not in env:
        h = str(h)
        if h in macros: return
        if h == "quote": return
        if h == "quasiquote":
            def qq(x, lvl):
                if isinstance(x, tuple) and x[0] == "vec": x = x[1]
                if isinstance(x, Node) and x:
                    if x[0] in ("unquote", "unquote-splicing") and len(x) == 2: return qq(x[1], lvl - 1) if lvl > 1 else F(x[1])
                    if x[0] == "quasiquote": return qq(x[1], lvl + 1)
                    l = list(x)
                    # `(a . ,b) reads as a list ending in (unquote b)
                    for y in l: qq(y, lvl)
                    if x.tail is not None: qq(x.tail, lvl)
            return qq(rest[0], 1)
        if h in ("define-macro", "define-syntax", "let-syntax", "letrec-syntax", "syntax-rules"): return
        if h == "define":
            if isinstance(rest[0], Node):
                e = env | set(params(rest[0][0])) if isinstance(rest[0][0], Node) else env
                n = Node(rest[0][1:]); n.tail = rest[0].tail
                return body(rest[1:], e | set(params(n)), macros, out)
            return [F(x) for x in rest[1:]]
        if h in ("lambda", "named-lambda"): return body(rest[1:], env | set(params(rest[0])), macros, out)
        if h in ("receive",): F(rest[1]); return body(rest[2:], env | set(params(rest[0])), macros, out)
        if h in ("let", "let*", "letrec", "let-optionals*", "let*-optionals"):
            if h.startswith("let-opt") or h.startswith("let*-opt"): F(rest[0]); rest = rest[1:]
            e2 = env
            if isinstance(rest[0], Sym): e2 = env | {str(rest[0])}; rest = rest[1:]
            bs = rest[0]; e = set(e2) | {n for b in bs for n in params(Node([b[0]]) if isinstance(b, Node) else b)}
            if isinstance(bs, Node) and bs.tail is not None: e |= set(params(bs.tail))
            cur = env
            for b in bs:
                if isinstance(b, Node):
                    for x in b[1:]: F(x, e if h == "letrec" else cur)
                if h in ("let*", "let-optionals*", "let*-optionals"): cur = cur | set(params(Node([b[0]]) if isinstance(b, Node) else b))
            return body(rest[1:], e, macros, out)
        if h == "do":
            e = env | {str(b[0]) for b in rest[0]}
            for b in rest[0]:
                if len(b) > 1: F(b[1])
                for x in b[2:]: F(x, e)
            for x in rest[1]: F(x, e)
            return [F(x, e) for x in rest[2:]]
        if h == "case":
            F(rest[0])
            for c in rest[1:]: [F(x) for x in c[1:]]
            return
        if h == "cond":
            for c in rest: [F(x) for x in c]
            return
        if h == "cond-expand":
            for c in rest: [F(x) for x in c[1:]]
            return
        if h in ("and-let*",):
            e = env
            for b in rest[0]:
                if isinstance(b, Node): [F(x, e) for x in b[1:] or b]; e = e | ({str(b[0])} if len(b) > 1 else set())
                else: F(b, e)
            return body(rest[1:], e, macros, out)
        if h == "let-vector-start+end" or h == "let-vector-start+end-list":
            F(rest[0]); F(rest[1]); F(rest[2]); return body(rest[4:], env | set(params(rest[3])), macros, out)
        if h in ("define-record-type", "require-extension", "use", "guard"): return
    F(fm[0])
    for x in rest: F(x)
    if fm.tail is not None: F(fm.tail)

def body(forms, env, macros, out):
    e = set(env)
    for x in forms:
        if isinstance(x, Node) and x and x[0] == "define" and len(x) > 1:
            n = x[1]
            while isinstance(n, Node): n = n[0]
            e.add(str(n))
        elif isinstance(x, Node) and x and x[0] == "begin":
            for y in x[1:]:
                if isinstance(y, Node) and y and y[0] == "define": n = y[1]; e.add(str(n[0] if isinstance(n, Node) else n))
    for x in forms: free(x, e, macros, out)

def scheme(S, cfg):
    """every identifier a library file uses is defined by the file, the core, or a module its loader requires"""
    P = S.P
    for c, uses in sorted(S.libs.items()):
        for mod, have, f, i in uses:
            L = lib(os.path.join(build.REPO, "lib", c))
            P.count("library files analysed")
            known = set(have) | {d for d, _ in L.defs} | S.names[CORE]
            for r in L.requires:
                if r in S.names: known |= S.names[r]
                else: P.check(os.path.exists(os.path.join(build.REPO, "lib", r + ".scm")), "%s:requires:%s" % (c, r), "lib/%s requires %s, which does not exist" % (c, r))
            macs = set(L.macros)
            for fm in L.forms:
                out = []
                free(fm, set(), macs, out)
                for s in out:
                    P.count("identifiers resolved")
                    P.check(str(s) in known, "%s:%s" % (c, s), "lib/%s:%d: %s is not defined by the file, the core or a module it requires" % (c, s.line, s))
    P.need("identifiers resolved", 300)
