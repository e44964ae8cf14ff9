"""C24: lengths and positions of strings count characters.
units     a byte size (strlen, pointer difference, size of a multibyte text, char_len, a constant offset) never becomes the
          recorded length of a string, a position or a count of characters;
counting  a length that is counted in a loop counts one for each character appended (or each element visited, or the length
          of each string copied) on every way around;
matching  the text made and the length recorded are about the same thing (same substring count, same list, same repetition);
nul       a character put into the text of a string is tested not to be NUL on every path, before or after."""
import ir, memspec
from core import Part
from rules.room import add, const

MAKERS = {"scm_make_string": 1, "scm_make_string_copying": 1, "scm_make_immutable_string": 1, "scm_make_immutable_string_copying": 1}
COUNTS = {"scm_mb_substring": (3, 4), "scm_mb_strref": (3,), "sal_string_set_len": (1,)}
CHARLEN = ("scm_mb_bare_c_strlen", "scm_mb_strlen", "sal_string_len")
COPY = ("memcpy", "memmove", "strcpy", "strcat", "strncpy")
UNKNOWN = -1

class Fn:
    deep = ()
    def __init__(s, m, S, f):
        s.m, s.S, s.f = m, S, f
    def d(s, o): return s.f.defs.get(o[1]) if o[0] == "v" else None
    def slot(s, i): return s.S.slot(i, s.f) if i.op == "call" and i.cname is None else None
    def strip(s, o):
        while True:
            d = s.d(o)
            if d is not None and d.op in ("zext", "sext", "trunc", "freeze"): o = d.ops[0]
            else: return o
    def lin(s, o, k=0):
        """linear expression over leaves; a call is named by what it computes"""
        o = s.strip(o)
        if o[0] == "i": return {1: o[1]} if o[1] else {}
        d = s.d(o)
        if d is None or k > 30: return {o: 1}
        if d.op == "add": return add(s.lin(d.ops[0], k + 1), s.lin(d.ops[1], k + 1))
        if d.op == "sub": return add(s.lin(d.ops[0], k + 1), s.lin(d.ops[1], k + 1), -1)
        if d.op == "call" and d.cname in ("sal_string_len", "sal_int_value", "strlen", "sal_string_str", "sal_char_value"): return {(d.cname, tuple(d.ops[0])): 1}
        return {o: 1}
    def root(s, o):
        """where a pointer into text comes from"""
        seen = set()
        while True:
            d = s.d(o)
            if d is None or o in seen: return o
            seen.add(o)
            if d.op in ("getelementptr", "bitcast", "freeze"): o = d.ops[0]
            elif d.op == "phi" and d.ty == "ptr":
                rs = {s.root1(x, seen) for x in d.ops} - {None}
                return rs.pop() if len(rs) == 1 else o
            elif d.op == "call" and (s.slot(d) == "int2str" or d.cname in COPY): o = d.ops[0]
            else: return o
    def root1(s, o, seen):
        while True:
            if o in seen: return None
            d = s.d(o)
            if d is None: return o
            if d.op in ("getelementptr", "bitcast", "freeze"): o = d.ops[0]
            elif d.op == "call" and (s.slot(d) == "int2str" or d.cname in COPY): o = d.ops[0]
            elif d.op == "phi" and d.ty == "ptr":
                seen.add(o); rs = {s.root1(x, seen) for x in d.ops} - {None}
                return rs.pop() if len(rs) == 1 else None if not rs else o
            else: return o
    def units(s, o, seen=None):
        """what a number measures: B bytes, C characters, U a number of the user's, K a constant other than 0"""
        seen = set() if seen is None else seen
        o = s.strip(o)
        if o in seen: return set()
        seen.add(o)
        if o[0] == "i": return {"K"} if o[1] else set()
        d = s.d(o)
        if d is None: return {"?"}
        if d.op in ("add", "sub"):
            if d.op == "sub" and all((s.d(x) is not None and s.d(x).op == "ptrtoint") for x in d.ops): return {"B"}
            return s.units(d.ops[0], seen) | s.units(d.ops[1], seen)
        if d.op == "phi": return set().union(*[s.units(x, seen) for x in d.ops])
        if d.op == "select": return s.units(d.ops[1], seen) | s.units(d.ops[2], seen)
        if d.op == "mul": u = s.units(d.ops[0], seen) | s.units(d.ops[1], seen); return {"B"} if "B" in u else u
        if d.op in ("sdiv", "udiv", "shl", "lshr", "ashr"): return s.units(d.ops[0], seen) | {"?"}
        if d.op == "call":
            if d.cname in CHARLEN: return {"C"}
            if d.cname == "strlen" or s.slot(d) == "char_len": return {"B"}
            if d.cname == "sal_int_value": return {"U"}
            g = s.m.fns.get(d.cname)
            if g is not None and not g.decl and g.ret in ("i64", "i32") and len(s.deep) < 3 and g.name not in s.deep:
                G = Fn(s.m, s.S, g); G.deep = s.deep + (g.name,)
                r = set().union(*[G.units(i.ops[0]) for i in g.instrs() if i.op == "ret" and i.ops])
                return (r - {"K"}) | {"?"}
            return {"?"}
        if d.op == "load" and d.raw.get("tbaa") and tuple(d.raw["tbaa"]) in bytefields(s.m): return {"B"}
        if d.op == "extractvalue" and s.d(d.ops[0]) is not None and (s.d(d.ops[0]).cname or "").startswith("scm_mb_"): return {"B"}
        return {"?"}

SIZES = {"malloc": 0, "scm_malloc": 0, "scm_realloc": 1, "realloc": 1, "memcpy": 2, "memmove": 2}

def bytefields(m):
    """fields of structures that hold byte sizes: what is requested from, or copied by, the C library with them"""
    if hasattr(m, "_bytefields"): return m._bytefields
    out = set()
    for f in m.defined():
        vals = set()
        for i in f.calls():
            if i.cname not in SIZES or SIZES[i.cname] >= len(i.ops): continue
            st = [i.ops[SIZES[i.cname]]]
            while st:
                o = st.pop()
                if o in vals or o[0] != "v": continue
                vals.add(o); d = f.defs.get(o[1])
                if d is not None and d.op in ("zext", "sext", "trunc", "add", "phi"): st += list(d.ops)
        for i in f.instrs():
            t = i.raw.get("tbaa")
            if not t or not t[0].startswith("Scm"): continue
            if i.op == "load" and ("v", i.id) in vals and i.ty == "i64" or i.op == "store" and i.ops[0] in vals and i.raw.get("vty") == "i64": out.add(tuple(t))
    m._bytefields = out
    return out

def loops(f):
    """header -> blocks of its loop"""
    L = {}
    for b in f.blocks:
        for x in b.succs:
            if f.dominates(x, b.id):
                body = L.setdefault(x, {x}); st = [b.id]
                while st:
                    y = st.pop()
                    if y in body: continue
                    body.add(y); st += [p for p in f.blocks[y].preds]
    return L

def ways(F, h, body, track, event):
    """for each way around the loop: (end values of the tracked quantities relative to the header's, events)"""
    f = F.f; out = set()
    start = tuple(sorted((o, ()) for o in track))
    st = [(h, None, start, ())]; seen = set()
    while st:
        b, pred, vals, evs = st.pop()
        if (b, pred, vals, evs) in seen or len(seen) > 20000: continue
        seen.add((b, pred, vals, evs)); V = dict(vals); B = f.blocks[b]; new = {}
        if b != h:
            for i in B.phis:
                o = incoming(i, pred)
                o = F.strip(o) if o else None
                if o in V: new[("v", i.id)] = V[o]
                elif o is not None and o[0] == "i": new[("v", i.id)] = (("abs", o[1]),)
            V.update(new)
        E = evs; dead = False
        for i in B.ins:
            if i.op == "add":
                a, c = F.strip(i.ops[0]), F.strip(i.ops[1])
                if c in V and a not in V: a, c = c, a
                if a in V:
                    V[("v", i.id)] = V[a] + ((("k", c[1]) if c[0] == "i" else ("l", tuple(sorted(F.lin(c).items(), key=str)))),)
            elif i.op == "call" and i.cname == "sal_cons_cdr" and i.ops[0] in V: V[("v", i.id)] = V[i.ops[0]] + (("cdr",),)
            elif i.op in ("zext", "sext", "trunc", "freeze") and i.ops[0] in V: V[("v", i.id)] = V[i.ops[0]]
            if i.op == "call" and (i.raw.get("nr") or i.cname in F.m.fns and F.m.fns[i.cname].noreturn): dead = True; break
            e = event(i)
            if e is not None and len(E) < 4 and not (E and e[0] == "copy" and E[-1] == e): E = E + (e,)
        if dead: continue
        t = B.term; go = B.succs
        if t.op == "br" and t.ops and len(t.succ) == 2:
            c = V.get(F.strip(t.ops[0]))
            if c is not None and len(c) == 1 and c[0][0] == "abs": go = [t.succ[0] if c[0][1] else t.succ[1]]
        for x in go:
            if x == h:
                res = []
                for o in track:
                    nx = incoming(f.defs[o[1]], b); nx = F.strip(nx) if nx else None
                    res.append(V.get(nx, ("?",)))
                out.add((tuple(res), E))
            elif x in body:
                keep = tuple(sorted(((o, v) for o, v in V.items() if len(v) < 4), key=str))
                st.append((x, b, keep, E))
    return out

def incoming(phi, pred):
    for o, p in zip(phi.ops, phi.raw["in"]):
        if p == pred: return o
    return None

def key(F, o):
    """a text block: where it comes from (a buffer kept in a structure is named by the place)"""
    from rules import nul
    r = F.root(o); d = F.d(r)
    if d is not None and d.op == "load": return ("ld", nul.Bufs(F.m, F.f).addr_key(d.ops[0]))
    return r

def appends(F, dst):
    """events that put text into the block: ('char', value) or ('copy', source)"""
    k = key(F, dst); d = F.d(k); fresh = d is None or not (d.op == "call" and d.cname == "sal_string_str")
    def ev(i):
        if i.op == "call":
            if F.slot(i) == "int2str" and key(F, i.ops[0]) == k: return ("char", F.strip(i.ops[1]))
            if i.cname in COPY and key(F, i.ops[0]) == k: return ("copy", F.root(i.ops[1]))
        if i.op == "store" and i.raw.get("vty") == "i8" and not (i.ops[0][0] == "i" and i.ops[0][1] == 0) and key(F, i.ops[1]) == k:
            v = F.strip(i.ops[0]); e = F.d(v)
            if e is not None and e.op == "load" and e.raw.get("tbaa") is None and e.ty == "i8": return ("copy", F.root(e.ops[0]))
            return ("char", v)
        return None
    return ev

def element(F, v, steps_of):
    """list the loop takes its elements from, for an element"""
    d = F.d(v)
    return d.ops[0] if d is not None and d.op == "call" and d.cname == "sal_cons_car" else None

def header_lists(F, h):
    """list-valued header phis with where they start"""
    out = {}
    for i in F.f.blocks[h].phis:
        if not (i.ty or "").startswith("ptr addrspace"): continue
        out[("v", i.id)] = i
    return out

def starts(F, phi, body):
    return {o for o, p in zip(phi.ops, phi.raw["in"]) if p not in body}

def counted(P, F, L, where, ev, LP, msg):
    """L is a count kept by a loop: one for each character, element or string on every way around. -> 'char', lists or None"""
    d = F.d(L); h = d.blk.id; body = LP[h]
    ini = starts(F, d, body)
    P.check(all(o == ("i", 0) + o[2:] for o in ini if o[0] == "i") and all(o[0] == "i" for o in ini), "%s:count-start" % F.f.name, "%s: the count starts at something other than 0" % msg)
    lists = header_lists(F, h); tr = [L] + sorted(lists)
    if not ev: ev = lambda i: None
    W = ways(F, h, body, tr, ev)
    res = set()
    for vals, evs in W:
        c = vals[0]; st = {l: v for l, v in zip(tr[1:], vals[1:])}
        chars = [e for e in evs if e[0] == "char"]; copies = [e for e in evs if e[0] == "copy"]
        steps = {l for l, v in st.items() if v == (("cdr",),)}
        if len(c) == 0 or any(x[0] == "?" or x[0] == "abs" for x in c):
            if c and c[0] == "?": P.trusts("a count carried through values the rule does not follow (%s)" % F.f.name); return None
            P.bad("%s:count" % F.f.name, "%s: a way around the loop at %s does not count" % (msg, F.f.blocks[h].ins[0].loc() if F.f.blocks[h].ins[0].line else d.loc())); return None
        if len(c) > 1: P.bad("%s:count" % F.f.name, "%s: a way around the loop counts more than once" % msg); return None
        c = c[0]
        if c[0] == "k":
            n = c[1]
            if copies and not chars and n == 1: chars = copies
            if chars:
                P.check(n == len(chars), "%s:count" % F.f.name, "%s: a way around the loop appends %d character(s) and counts %d" % (msg, len(chars), n)); res.add(("char",))
            elif steps:
                P.check(n == 1, "%s:count" % F.f.name, "%s: a way around the loop takes one element and counts %d" % (msg, n)); res |= {("list", o) for l in steps for o in starts(F, lists[l], body)}
            else: P.trusts("a count of something the rule does not follow (%s)" % F.f.name); return None
        elif c[0] == "l":
            t = dict(c[1])
            ok = len(t) == 1 and list(t.values()) == [1] and list(t)[0][0] == "sal_string_len"
            P.check(ok, "%s:count" % F.f.name, "%s: a way around the loop adds something other than the length of one string (%s)" % (msg, t))
            if steps: res |= {("list", o) for l in steps for o in starts(F, lists[l], body)}
    return res

def run(cfg):
    P = Part("string lengths", cfg); m = ir.Module(cfg); S = memspec.Spec(m)
    for f in sorted(m.defined(), key=lambda f: f.name):
        if f.file == "storage.c": continue
        F = Fn(m, S, f); sinks = []
        for i in f.calls():
            if i.cname in MAKERS: sinks.append((i, i.ops[0], i.ops[1]))
            elif i.cname == "sal_string_set_str": sinks.append((i, i.ops[1], ("len", i.ops[0])))
            for a in COUNTS.get(i.cname, ()):
                if a >= len(i.ops): continue
                P.count("counts of characters handed over")
                P.check("B" not in F.units(i.ops[a]), "%s:units" % f.name, "%s: in %s: a number of bytes is handed to %s as a number of characters" % (i.loc(), f.name, i.cname))
            if i.cname == "sal_string_set_len":
                l = F.lin(i.ops[1]); P.check(not l.get(1) or len(l) == 1, "%s:units" % f.name, "%s: in %s: the length recorded is a count with a constant offset" % (i.loc(), f.name))
                d = F.d(F.strip(i.ops[1]))
                src = F.d(F.root(d.ops[-1])) if d is not None and d.cname == "scm_mb_bare_c_strlen" else None
                if src is not None: P.check(src.op == "call" and src.cname == "sal_string_str" and src.ops[0] == i.ops[0], "%s:match" % f.name, "%s: in %s: the length recorded is that of another text" % (i.loc(), f.name))
            if i.cname in ("scm_make_int", "sal_make_int") and f.file in ("string.c", "string-procedure.c", "module-srfi13.c"):
                P.count("counts of characters handed over")
                P.check("B" not in F.units(i.ops[0]), "%s:units" % f.name, "%s: in %s: a number of bytes is given to the program as a number of characters" % (i.loc(), f.name))
                l = F.lin(i.ops[0]); cs = [t for t in l if t != 1 and (t[0] == "sal_string_len" or F.d(t) is not None and F.d(t).cname in CHARLEN)]
                P.check(not (cs and l.get(1)), "%s:units" % f.name, "%s: in %s: a count of characters with a constant offset is given to the program" % (i.loc(), f.name))
        if any(F.slot(i) == "scan_char" for i in f.calls()): scans(P, F)
        if not sinks: continue
        LP = loops(f)
        for i, T, L in sinks: sink(P, F, i, T, L, LP)
        nuls(P, F, sinks)
    P.need("string lengths given", 12); P.need("counts of characters handed over", 6)
    return P

def scans(P, F):
    LP = loops(F.f)
    for h, body in LP.items():
        if not any(F.slot(i) == "scan_char" for b in body for i in F.f.blocks[b].ins if i.op == "call"): continue
        tr = [("v", i.id) for i in F.f.blocks[h].phis if i.ty in ("i64", "i32")]
        if not tr: continue
        W = ways(F, h, body, tr, lambda i: ("scan", i.id) if i.op == "call" and F.slot(i) == "scan_char" else None)
        for vals, evs in W:
            for v in vals:
                if all(x[0] == "k" for x in v):
                    n = sum(x[1] for x in v)
                    if n >= 1 << 63: n -= 1 << 64
                    P.count("ways around loops that step over characters")
                    P.check(abs(n) == len(evs), "%s:scan-count" % F.f.name, "%s: in %s: a way around the loop steps over %d character(s) and counts %d" % (
                        F.f.blocks[h].term.loc(), F.f.name, len(evs), n))

def sink(P, F, i, T, L, LP):
    f = F.f; where = "%s: in %s" % (i.loc(), f.name); P.count("string lengths given")
    copying = i.cname.endswith("copying")
    if L[0] != "len":
        L = F.strip(L)
        if L[0] == "i" and (L[1] == UNKNOWN or L[1] == 0xffffffffffffffff): P.count("lengths left to be counted"); return
        t = const(F.m, T)
        if L[0] == "i":
            if t is not None: P.check(len(t) == L[1], "%s:match" % f.name, "%s: length %d is recorded for a text of %d characters" % (where, L[1], len(t)))
            else: P.trusts("constant length for a computed text (%s)" % f.name)
            return
        P.check("B" not in F.units(L), "%s:units" % f.name, "%s: the length recorded is a number of bytes" % where)
        l = F.lin(L)
    else:
        if any(j.cname == "sal_string_set_len" and j.ops[0] == L[1] for j in f.calls()): P.trusts("text and length are replaced together (%s)" % f.name); return
        l = {("sal_string_len", tuple(L[1])): 1}
    k = key(F, T); d = F.d(k)
    # the text of an existing string, or a copy of some text
    src = None
    if d is not None and d.op == "call":
        if d.cname in ("scm_strdup", "strdup"): src = F.root(d.ops[0])
        elif d.cname == "sal_string_str" and copying: src = k
    if src is not None:
        sd = F.d(src)
        if sd is not None and sd.op == "call" and sd.cname == "sal_string_str": want = {("sal_string_len", tuple(sd.ops[0])): 1}
        else: want = None
        ld = F.d(L) if L[0] == "v" else None
        if want is not None: ok = l == want or ld is not None and ld.cname in ("scm_mb_bare_c_strlen",) and F.root(ld.ops[-1]) in (src, F.root(T))
        elif ld is not None and ld.cname in ("scm_mb_bare_c_strlen", "scm_mb_strlen"): ok = any(r in [F.root(o) for o in ld.ops] for r in (src, F.root(T)))
        else: P.trusts("length and text of a copy that the rule does not relate (%s)" % f.name); return
        P.check(ok, "%s:match" % f.name, "%s: the length recorded is not that of the text copied" % where); return
    if L[0] == "v" and F.d(L) is not None and F.d(L).cname in ("scm_mb_bare_c_strlen", "scm_mb_strlen"):
        ks = [key(F, o) for o in F.d(L).ops]
        P.check(k in ks, "%s:match" % f.name, "%s: the length recorded is that of another text" % where); return
    ev = appends(F, T); evs = [(j, ev(j)) for j in f.instrs() if ev(j)]
    inl = [(j, e) for j, e in evs if any(j.blk.id in b for b in LP.values())]
    # a part of a text: the count handed to substring is the length
    subs = [F.d(e[1]) for j, e in evs if e[0] == "copy" and F.d(e[1]) is not None and F.d(e[1]).op == "extractvalue"]
    subs = [F.d(x.ops[0]) for x in subs]; subs = [x for x in subs if x is not None and x.cname == "scm_mb_substring"]
    if subs and not inl and len(evs) == 1:
        P.check(F.lin(subs[0].ops[4]) == l, "%s:match" % f.name, "%s: the length recorded is not the number of characters taken from the text" % where); return
    if any(c for t, c in l.items() if t == 1) and not subs:
        P.bad("%s:units" % f.name, "%s: the length recorded is a count with a constant offset (%s)" % (where, l)); return
    D = F.d(L) if L[0] == "v" else None
    if D is not None and D.op == "phi" and D.blk.id in LP:
        h = D.blk.id; here = [(j, e) for j, e in inl if j.blk.id in LP[h]]
        res = counted(P, F, L, where, ev if here else None, LP, where)
        if res is None or here: P.count("counted lengths"); return
        # counted in one loop, written in another: over the same list, one character (or string) for each element
        lists = {o for t, *o in res if t == "list" for o in o}
        P.count("counted lengths")
        for h2, body in LP.items():
            ins = [j for j, e in inl if j.blk.id in body]
            if not ins: continue
            hl = header_lists(F, h2)
            if not hl: continue
            tr = sorted(hl)
            for vals, es in ways(F, h2, body, tr, ev):
                st = [l2 for l2, v in zip(tr, vals) if v == (("cdr",),)]
                if not st: continue
                P.check(any(o in lists for l2 in st for o in starts(F, hl[l2], body)), "%s:match" % f.name, "%s: the length was counted over another list than the text is made from" % where)
                kinds = [e for e in es if e[0] == "char"]
                P.check(len(kinds) <= 1 and (len(es) >= 1 or any(lo != h2 and lo in body for lo in LP)), "%s:count" % f.name, "%s: a way around the loop puts %d characters into the text for one element counted" % (where, len(kinds)))
        return
    # one character repeated: as many times as the length
    reps = repeats(F, inl, LP, k)
    if reps is None: P.trusts("text whose number of characters the rule does not follow (%s)" % f.name); return
    for x in reps: P.check(x == l, "%s:match" % f.name, "%s: a character is repeated a number of times that is not the length recorded (%s, %s)" % (where, x, l))
    P.count("repeated characters")

def repeats(F, inl, LP, k):
    out = []
    for j, e in inl:
        hs = [h for h, b in LP.items() if j.blk.id in b]
        if len(hs) != 1: return None
        body = LP[hs[0]]; got = None
        for b in body:
            t = F.f.blocks[b].term
            if t.op != "br" or all(x in body for x in F.f.blocks[b].succs): continue
            c = F.d(t.ops[0]) if t.ops else None
            if c is None or c.op != "icmp": return None
            for o in c.ops:
                d = F.d(o)
                if d is not None and d.op == "getelementptr" and d.blk.id is not None and key(F, ("v", d.id)) == k and len(d.ops) == 2:
                    x = F.d(F.strip(d.ops[1]))
                    if x is not None and x.op == "mul":
                        for a, b2 in ((0, 1), (1, 0)):
                            got = got or []
                            got.append((F.lin(x.ops[a]), F.lin(x.ops[b2])))
            if got is None:
                for a in (0, 1):
                    p = F.d(F.strip(c.ops[a]))
                    if p is not None and p.op == "phi" and p.blk.id == hs[0] and all(o[0] == "i" and o[1] == 0 for o in starts(F, p, body)) and c.raw["pred"] in ("slt", "ult", "ne"):
                        st = {tuple(F.d(o).ops) for o, q in zip(p.ops, p.raw["in"]) if q in body and F.d(o) is not None and F.d(o).op == "add"}
                        if len(st) != 1: return None
                        st = [o for o in st.pop() if o != ("v", p.id)]
                        if len(st) != 1: return None
                        if st[0][0] == "i" and st[0][1] == 1: return [F.lin(c.ops[1 - a])]
                        x = F.d(F.strip(c.ops[1 - a]))
                        if x is None or x.op != "mul": return None
                        fs = [F.lin(o) for o in x.ops]; l = F.lin(st[0])
                        return [fs[1 - fs.index(l)]] if l in fs else None
        if got is None: return None
        # the step is one of the factors; the other is the number of repetitions
        steps = set()
        for p in F.f.blocks[hs[0]].phis:
            if p.ty != "ptr" or key(F, ("v", p.id)) != k: continue
            for o, q in zip(p.ops, p.raw["in"]):
                d = F.d(o)
                if q in body and d is not None and d.op == "getelementptr" and d.ops[0] == ("v", p.id): steps.add(tuple(sorted(F.lin(d.ops[1]).items(), key=str)))
        if len(steps) != 1: return None
        s = dict(steps.pop()); r = [y for x, y in got if x == s]
        if not r: return [{("not a multiple of the step",): 1}]
        out += r[:1]
    return out or None

def nuls(P, F, sinks):
    """a character written into the text of a string is not NUL"""
    f = F.f
    ends = {i.id for i, T, L in sinks}
    for w in f.calls():
        if F.slot(w) != "int2str": continue
        x = F.strip(w.ops[1])
        if x[0] == "i": P.check(x[1] != 0, "%s:nul" % f.name, "%s: in %s: NUL is put into a string" % (w.loc(), f.name)); continue
        P.count("characters put into strings")
        d = F.d(x); base = None
        if d is not None and d.op == "call" and d.cname == "sal_char_value": base = d.ops[0]; d0 = F.d(base)
        else: d0 = d
        names = frozenset([x] + ([("v", j.id) for j in f.calls() if base is not None and j.cname == "sal_char_value" and j.ops[0] == base]))
        b0, k0 = (d0.blk.id, d0.idx + 1) if d0 is not None else (0, 0)
        st = [(b0, k0, names, False)]; seen = set(); bad = None
        while st and not bad:
            b, k, N, put = st.pop()
            if (b, k, N, put) in seen: continue
            seen.add((b, k, N, put)); B = f.blocks[b]; stop = False
            for i in B.ins[k:]:
                if i.id == w.id and i is w: put = True
                if i.op == "call" and (i.raw.get("nr") or i.cname in F.m.fns and F.m.fns[i.cname].noreturn): stop = True; break
                if put and i.id in ends and i.op == "call": bad = i; break
                if put and d0 is not None and i is d0: bad = i; break
            if stop or bad: continue
            t = B.term; cond = F.d(t.ops[0]) if t.op == "br" and t.ops else None
            for x2 in B.succs:
                if t.op == "switch" and F.strip(t.ops[0]) in N:
                    cs = [c for c in t.raw["cases"] if c[1] == x2]
                    if cs and x2 not in t.succ and all(c[0] != 0 for c in cs): continue
                    if x2 in t.succ and any(c[0] == 0 for c in t.raw["cases"]) and not any(c[0] == 0 for c in cs): continue
                if cond is not None and cond.op == "icmp" and len(t.succ) == 2 and excludes(F, cond, N, x2 == t.succ[0]): continue
                n2 = set(N)
                for p in f.blocks[x2].phis:
                    o = incoming(p, b); o = F.strip(o) if o else None
                    if o in N: n2.add(("v", p.id))
                    else: n2.discard(("v", p.id))
                st.append((x2, 0, frozenset(n2), put))
        P.check(not bad, "%s:nul" % f.name, "%s: in %s: a character that may be NUL is put into the text of a string (used at %s)" % (w.loc(), f.name, bad.loc() if bad else ""))

def excludes(F, c, N, taken):
    """the edge is passed only when the value is not 0"""
    a, b = F.strip(c.ops[0]), F.strip(c.ops[1]); p = c.raw["pred"]
    if a not in N and b in N:
        a, b = b, a; p = {"slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle", "ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule"}.get(p, p)
    if a not in N or b[0] != "i": return False
    n = b[1]
    tr = {"eq": 0 == n, "ne": 0 != n, "slt": 0 < n, "sle": 0 <= n, "sgt": 0 > n, "sge": 0 >= n, "ult": 0 < n if n >= 0 else True, "ule": True, "ugt": False, "uge": n == 0}[p]
    return tr != taken

def storage(cfg):
    """a length left open is counted from the same text, a length given is the one recorded"""
    P = Part("open string lengths", cfg); m = ir.Module(cfg, "real")
    def decides(f, busy=()):
        """functions that decide an open length, with what they count"""
        lens = [a[0] for a in f.args if a[1] == "i64"]; out = []
        for i in f.instrs():
            if i.op == "icmp" and i.ops[0][0] == "v" and i.ops[0][1] in lens and i.ops[1][0] == "i" and (i.ops[1][1] in (-1, (1 << 64) - 1) or i.ops[1][1] == 0 and i.raw["pred"] in ("slt", "sge")): out.append((f, i))
        for i in f.calls():
            g = m.fns.get(i.cname)
            if g is not None and not g.decl and g.file == "storage.c" and g.name not in busy: out += decides(g, busy + (f.name,))
        return out
    done = set()
    for n in sorted(MAKERS):
        f = m.fns.get(n)
        if f is None or f.decl: continue
        P.count("constructors of strings"); ds = decides(f)
        P.check(ds, "%s:open" % n, "%s: a length left open is recorded as it is" % n)
        for g, c in ds:
            if c.id in done and (g.name, c.id) in done: continue
            done.add((g.name, c.id)); p = c.ops[0]; strs = {("v", a[0]) for a in g.args if a[1] == "ptr"}
            ch = True
            while ch:
                ch = False
                for i in g.calls():
                    if i.cname in ("scm_strdup", "strdup") and i.ops[0] in strs and ("v", i.id) not in strs: strs.add(("v", i.id)); ch = True
            got = False
            for i in g.instrs():
                if i.op not in ("phi", "select") or i.ty != "i64": continue
                vs = list(i.ops if i.op == "phi" else i.ops[1:])
                if p not in vs: continue
                got = True
                for v in vs:
                    if v == p: continue
                    d = g.defs.get(v[1]) if v[0] == "v" else None
                    ok = d is not None and d.op == "call" and d.cname == "scm_mb_bare_c_strlen" and d.ops[-1] in strs
                    P.check(ok, "%s:open" % g.name, "%s: in %s: a length left open is taken from something other than a count of the characters of the text" % (c.loc(), g.name))
                if i.op == "phi":
                    # on the way where the length was left open the count must be what arrives
                    t = c.blk.term
                    for v, q in zip(i.ops, i.raw["in"]):
                        if v == p and t.op == "br" and len(t.succ) == 2 and t.ops[0] == ("v", c.id):
                            opened = t.succ[0] if c.raw["pred"] in ("eq", "slt") else t.succ[1]
                            P.check(q != opened and not g.dominates(opened, q), "%s:open" % g.name, "%s: in %s: a length left open is recorded as it is" % (c.loc(), g.name))
            P.check(got, "%s:open" % g.name, "%s: in %s: the count made for an open length is not what is recorded" % (c.loc(), g.name))
    P.need("constructors of strings", 2)
    return P
