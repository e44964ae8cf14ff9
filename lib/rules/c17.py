"""C17: formatting consumes exactly the arguments its directives ask for; native format texts match the native arguments passed."""
import ir, prop
from ir import OBJ
from core import Part, Broken, need_fn

FN = ("scm_lformat", "scm_vformat")
PREDS = ("sal_consp", "sal_nullp")
WIDE = {"i32", "i64", "ptr", OBJ}

class Fmt:
    """constant propagation of one format text through the formatter; the arguments stay unknown, only how many there are
    (Scheme list) or in which order and type they are fetched (native) is followed"""
    def __init__(s, m):
        s.m = m
        s.int_ = prop.Interp(m, {"scm_charcodec_read_char": s.read_char, "strlen": s.strlen, "scm_string2number": s.string2number,
            "scm_make_immutable_string_copying": s.mkstr, "scm_make_string_copying": s.mkstr, "sal_string_str": s.string_str,
            "sal_consp": s.consp, "sal_nullp": s.nullp, "sal_cons_car": s.car, "sal_cons_cdr": s.cdr, "load": s.load, "icmp": s.icmp, "gep": s.gep, "know": s.know,
            "scm_lformat": s.nested, "verif_unreachable": s.crash, "scm_length": s.length, "scm_safe_cdr": None}, s.follow)
        del s.int_.hooks["scm_safe_cdr"]
        s.bad = []
    # -- model of the calls
    def follow(s, n, args):
        """functions handed the text, the position in it, or the arguments"""
        if n in ("scm_error_obj",): return False
        return any(isinstance(a, tuple) and (a[0] in ("t", "va") or a[0] == "al" and s.carries(a)) for a in args)
    def carries(s, a): 
        return any(k[0] == a[:2] and isinstance(v, tuple) and v[0] in ("t", "lst") for k, v in s.cur.mem.items())
    def text(s, a): return s.txt[a[1]] if isinstance(a, tuple) and a[0] == "t" else None
    def read_char(s, I, st, i, args):
        mb = args[1] if len(args) > 1 else None
        p = I.load(st, mb, "ptr"); n = I.load(st, I.addr(mb, 8), "i64"); t = s.text(p)
        if t is None: return None
        if not isinstance(n, int) or n == 0 or n > len(t) - p[2]:
            s.bad.append("%s: in %s: a character of the format text is read past its end" % (i.loc(), st.frames[-1][0].name)); return 0
        I.store(st, mb, ("t", p[1], p[2] + 1), 8); I.store(st, I.addr(mb, 8), n - 1, 8)
        return prop.mask(ord(t[p[2]]), 32)
    def strlen(s, I, st, i, args):
        if isinstance(args[0], tuple) and args[0][0] == "cstr" and args[0][2] == 0: return ("clen", args[0][1], 0)
        t = s.text(args[0])
        return len(t) - args[0][2] if t is not None else None
    def string2number(s, I, st, i, args):
        b, r, e = args[:3]; txt = ""
        while True:
            c = I.load(st, b, "i8")
            if not isinstance(c, int): 
                I.store(st, e, None, 4); return None
            if c == 0: break
            txt += chr(c); b = I.addr(b, 1)
            if len(txt) > 40: return None
        ok = txt.isascii() and txt.isdigit()
        I.store(st, e, int(not ok), 4)
        return int(txt) if ok else 0
    def mkstr(s, I, st, i, args): return ("strobj", args[0]) if s.text(args[0]) is not None else None
    def string_str(s, I, st, i, args): return args[0][1] if isinstance(args[0], tuple) and args[0][0] == "strobj" else None
    def lst(s, v):
        return v[1] if isinstance(v, tuple) and v[0] == "lst" else None
    def consp(s, I, st, i, args):
        k = s.lst(args[0]); return int(k < s.n) if k is not None else None
    def nullp(s, I, st, i, args):
        k = s.lst(args[0]); return int(k >= s.n) if k is not None else None
    def length(s, I, st, i, args):
        k = s.lst(args[0]); return s.n - k if k is not None else None
    def car(s, I, st, i, args):
        k = s.lst(args[0])
        if k is None: return None
        if k >= s.n: s.bad.append("%s: in %s: takes an argument from the empty list" % (i.loc(), st.frames[-1][0].name)); return None
        st.ext["took"] = st.ext.get("took", ()) + (k,)
        return ("arg", k)
    def cdr(s, I, st, i, args):
        k = s.lst(args[0])
        return ("lst", k + 1) if k is not None else None
    # the last character of a string with a first one is not the terminator
    def gep(s, I, st, i, b, n):
        return ("cend", b[1], n[2]) if isinstance(b, tuple) and b[0] == "cstr" and b[2] == 0 and n[0] == "clen" and n[1] == b[1] else None
    def know(s, I, st, d, truth):
        x, y = I.get(st, d.ops[0]), I.get(st, d.ops[1])
        if isinstance(x, tuple) and x[0] == "cfirst" and y == 0 and d.raw["pred"] in ("eq", "ne"):
            if (d.raw["pred"] == "ne") == bool(truth): st.ext["full%d" % x[1]] = 1
    def icmp(s, I, st, i, x, y):
        for a, b in ((x, y), (y, x)):
            if s.lst(a) is not None and isinstance(b, tuple) and b[0] == "glob" and b[1] == ("g", "sal_k_null"):
                r = a[1] >= s.n
                return int(r if i.raw["pred"] == "eq" else not r)
        return None
    def load(s, I, st, i, a):
        if not (isinstance(a, tuple) and len(a) == 3): return NotImplemented
        if a[0] == "va": return {0: 0, 8: ("slot", "o", 0), 16: ("slot", "r", 0)}.get(a[2])
        if a[0] == "slot":
            pops = st.ext.get("pops", ())
            st.ext["pops"] = pops + (i.ty,)
            return ("cstr", len(pops), 0) if i.ty == "ptr" else None
        if a[0] == "cstr" and a[2] == 0 and i.ty == "i8": return ("cfirst", a[1])
        if a[0] == "cend": return prop.NZ if a[2] == -1 and st.ext.get("full%d" % a[1]) else None
        if a[0] == "t":
            t = s.txt[a[1]]
            if 0 <= a[2] < len(t) and i.ty == "i8": return ord(t[a[2]]) & 255
            return 0 if a[2] == len(t) else None
        return NotImplemented
    def crash(s, I, st, i, args):
        s.bad.append("%s: in %s: a format text can get to a place declared unreachable" % (i.loc(), st.frames[-1][0].name))
        return NotImplemented
    def nested(s, I, st, i, args):
        f = args[1]
        if f is None or f & 1: s.bad.append("%s: in %s: a list of arguments is formatted with native directives allowed" % (i.loc(), st.frames[-1][0].name))
        return None
    # -- runs
    def list_(s, text, fcap, n):
        """outcomes of formatting text with n arguments: (returns?, errors?, arguments taken on return)"""
        f = need_fn(s.m, "scm_lformat"); s.txt = {0: text}; s.n = n; s.bad = []; s.int_.steps = 0
        out = s.go(f, {"fcap": fcap, "fmt": ("t", 0, 0), "lst": ("lst", 0)})
        ret = [st for o, v, st in out if o == "ret"]; end = [st for o, v, st in out if o == "end"]
        return ret, end
    def native(s, text, fcap):
        """sequences of argument types fetched on the ways that return, and on the ways that end in an error"""
        f = need_fn(s.m, "scm_vformat"); s.txt = {0: text}; s.n = 0; s.bad = []; s.int_.steps = 0
        out = s.go(f, {"fcap": fcap, "fmt": ("t", 0, 0), "va": ("va", 0, 0)})
        return {st.ext.get("pops", ()) for o, v, st in out if o == "ret"}, {st.ext.get("pops", ()) for o, v, st in out if o == "end"}
    def go(s, f, vals):
        args = []
        for k, a in enumerate(f.args):
            ty = f.ptypes[k] or ""
            if a[1] == OBJ: args.append(vals["lst"] if k == len(f.args) - 1 else ("glob", ("g", "sal_k_false"), 0))
            elif a[1] == "i32": args.append(vals["fcap"])
            elif a[1] == "ptr" and k == len(f.args) - 1 and "va" in vals: args.append(vals["va"])
            elif a[1] == "ptr": args.append(vals["fmt"])
            else: raise Broken("unexpected parameters of %s" % f.name)
        class Cur: pass
        I = s.int_; call = I.call
        def follow_call(st, i, out): s.cur = st; return type(I).call(I, st, i, out)
        I.call = follow_call
        return I.run(f, args)

SRFI28, SRFI48, SSCM = 2, 2 | 4, 2 | 4 | 8 | 16
# what the directives documented in the help text ask for
COUNT28 = {"a": 1, "s": 1, "%": 0, "~": 0}
COUNT48 = dict(COUNT28, w=1, t=0, d=1, x=1, o=1, b=1, f=1, c=1, _=0, y=1, h=0, k=2, **{"&": 0, "?": 2})
RAW = 1
RAWMOD = ("W", "M", "L", "Q", "J", "T", "Z")
PREFIX = ("5", "12", "5,2", "05")

def chars():
    """representatives of every way a character can be treated: all small ones, and the ones that agree with a directive in their low bits"""
    c = [chr(x) for x in range(1, 0x180) if not 0x80 <= x < 0xa0]
    for d in sorted(set(COUNT48) | {k.upper() for k in COUNT48}):
        c += [chr(ord(d) + k) for k in (0x100, 0x200, 0x300, 0x10000, 0x20000)]
    return c + ["\u3042", "\U0010ffff"]

def directives(P, m):
    F = Fmt(m)
    def expect(text, fcap, n, key, what):
        """formatting text takes exactly n arguments (None: is always an error)"""
        for k in range(0, 4):
            ret, end = F.list_(text, fcap, k); P.count("format texts followed")
            for b in F.bad: P.check(False, "directive:" + key, b + " (text %r)" % text)
            if k == n:
                P.check(bool(ret), "directive:" + key, "scm_lformat: %s: is always an error with %d argument(s)" % (what, k))
                for st in ret:
                    took = st.ext.get("took", ())
                    P.check(took == tuple(range(n)), "directive:" + key, "scm_lformat: %s: takes the arguments %s" % (what, took))
            else:
                P.check(not ret, "directive:" + key, "scm_lformat: %s: is not an error with %d argument(s)" % (what, k))
    for fcap, name, table in ((SRFI28, "SRFI-28", COUNT28), (SRFI48, "SRFI-48", COUNT48), (SSCM, "format+", COUNT48)):
        for c in chars():
            n = table.get(c.lower() if c.isascii() else c)
            if c.isdigit() and c.isascii(): continue
            if c == ",": n = None
            if n is None and fcap == SRFI28 and not (c.isascii() or ord(c) & 255 in (0x61, 0x73, 0x25, 0x7e)): continue
            ks = None
            what = "directive ~%s of %s" % (c if c.isascii() else "U+%04X" % ord(c), name)
            if n is None:
                # (an unknown directive is an error whatever follows: one count is enough unless it is near a known one)
                for k in (0, 1) if not c.isascii() or c.isalpha() else (0,):
                    ret, end = F.list_("~" + c, fcap, k); P.count("format texts followed")
                    for b in F.bad: P.check(False, "directive:" + name + c, b + " (text %r)" % ("~" + c))
                    P.check(not ret, "directive:" + name + c, "scm_lformat: unknown %s: is not an error with %d argument(s)" % (what, k))
            else: expect("~" + c, fcap, n, name + c, what); P.count("directives")
        for t in ("~", "a~", "~5", "~5,", "~,", "~5,2", "~0", "~12345a", "~128d", "~999f", "~5,a", "~,5f"):
            for k in (0, 1, 2):
                ret, end = F.list_(t, fcap, k); P.count("format texts followed")
                for b in F.bad: P.check(False, "truncated:" + t, b + " (text %r)" % t)
                P.check(not ret, "truncated:" + name + t, "scm_lformat: format text %r of %s: is not an error with %d argument(s)" % (t, name, k))
        for p in PREFIX:
            for c in "asdxobfwc%~?":
                if fcap == SRFI28: n = None
                elif c == "f": n = 1
                elif c in "dxob": n = 1 if fcap == SSCM else None
                else: n = None
                expect("~" + p + c, fcap, n, name + p + c, "directive ~%s%s of %s" % (p, c, name))
        for t, n in (("", 0), ("abc", 0), ("a~ab", 1), ("~a~s", 2), ("~%~a~~~s~%", 2), ("\u3042~a\u3044", 1)):
            expect(t, fcap, n, name + t, "format text %r of %s" % (t, name))
    P.need("format texts followed", 1000); P.need("directives", 30)

# ---------------------------------------------------------------- native callers
def consts(f, o, seen=()):
    """constants or parameters an operand can be; None when something else"""
    if o[0] in ("g", "ge"): return [o]
    if o[0] == "v":
        for k, a in enumerate(f.args):
            if a[0] == o[1]: return [("p", k)]
        d = f.defs.get(o[1])
        if d is not None and d.op in ("phi", "select") and d.id not in seen:
            r = []
            for x in (d.ops if d.op == "phi" else d.ops[1:]):
                c = consts(f, x, seen + (d.id,))
                if c is None: return None
                r += c
            return r
        if d is not None and d.id in seen: return []
        if d is not None and d.op == "load" and d.ops[0][0] in ("g", "ge", "v"): return [("load", d)]
    return None

class Native:
    def __init__(s, P, m, F):
        s.P, s.m, s.F = P, m, F; s.done = {}
        # formatters: function -> (text parameter, capability or None, how the arguments are given)
        s.forms = {}; s.errs = set()
    def fcap(s, f, o):
        if o[0] == "i": return o[1]
        return None
    def run(s):
        m, P = s.m, s.P
        v = need_fn(m, "scm_vformat")
        tp, cp, vp = s.params(v)
        # functions passing a native argument list on: (function, text parameter, list parameter) closed over internal helpers
        fw = {(v.name, tp, vp): None}; work = [(v.name, tp, vp, None)]
        while work:
            n, t, l, cap = work.pop()
            for f in m.defined():
                for i in f.calls():
                    if i.cname != n: continue
                    c = cap
                    if n == v.name:
                        c = s.fcap(f, i.ops[cp])
                        if f.name in ("scm_format",) or c is None: 
                            k = [k for k, a in enumerate(f.args) if i.ops[cp] == ("v", a[0])]
                            if not P.check(bool(k), f.name + ":cap", "%s: in %s: the directives allowed are not known" % (i.loc(), f.name)): continue
                            c = ("p", k[0])
                    ts = consts(f, i.ops[t]); P.count("places passing an argument list on")
                    ls = s.list_origin(f, i.ops[l])
                    if not P.check(ls is not None, f.name + ":va", "%s: in %s: passes an argument list of unknown origin on" % (i.loc(), f.name)): continue
                    if ts is None or len(ts) != 1 or ts[0][0] != "p":
                        if not P.check(ts is not None and all(x[0] in ("g", "ge") for x in ts), f.name + ":text", "%s: in %s: formats an argument list with a text that is not its parameter" % (i.loc(), f.name)): continue
                        P.check(False, f.name + ":text", "%s: in %s: formats the caller's arguments with a text of its own" % (i.loc(), f.name)); continue
                    if ls[0] == "p":
                        if (f.name, ts[0][1], ls[1]) not in fw: fw[(f.name, ts[0][1], ls[1])] = c; work.append((f.name, ts[0][1], ls[1], c))
                    else:
                        P.check(f.vararg, f.name + ":va", "%s: in %s: no arguments follow its text" % (i.loc(), f.name))
                        s.forms.setdefault(f.name, set()).add((ts[0][1], c, len(f.args)))
                        P.count("functions taking a format text")
        # call sites, closed over functions that only pass their own text (and fixed arguments)
        work = [(n, t, c, k, ()) for n, S in s.forms.items() for t, c, k in S]; seen = set(work)
        while work:
            n, t, c, k, extra = work.pop()
            for f in m.defined():
                for i in f.calls():
                    if i.cname != n: continue
                    if t >= len(i.ops): continue
                    cap = c
                    if isinstance(c, tuple):
                        cap = s.fcap(f, i.ops[c[1]])
                        if not P.check(cap is not None, f.name + ":cap", "%s: in %s: the directives allowed are not known" % (i.loc(), f.name)): continue
                    given = tuple(extra) if k is None else tuple(i.raw["aty"][k:])
                    ts = consts(f, i.ops[t])
                    P.count("call sites with a format text")
                    if not P.check(ts is not None, f.name + ":text", "%s: in %s: the format text passed to %s is computed at run time" % (i.loc(), f.name, n)): continue
                    for x in ts:
                        if x[0] == "p":
                            job = (f.name, x[1], cap, None, given)
                            if job not in seen: seen.add(job); work.append(job)
                        elif x[0] == "load": s.loaded(f, i, x[1], cap, given, n)
                        else: s.site(f, i, x, cap, given, n)
        P.need("call sites with a format text", 100); P.need("functions taking a format text", 3)
    def params(s, v):
        ptr = [k for k, a in enumerate(v.args) if a[1] == "ptr"]; cap = [k for k, a in enumerate(v.args) if a[1] == "i32"]
        if len(ptr) != 2 or len(cap) != 1: raise Broken("unexpected parameters of %s" % v.name)
        return ptr[0], cap[0], ptr[1]
    def list_origin(s, f, o):
        for k, a in enumerate(f.args):
            if o == ("v", a[0]): return ("p", k)
        b = o
        while b[0] == "v" and f.defs[b[1]].op in ("getelementptr", "bitcast"): b = f.defs[b[1]].ops[0]
        if b[0] == "v" and f.defs[b[1]].op == "alloca":
            starts = [i for i in f.calls() if i.cname and i.cname.startswith("llvm.va_start")]
            if starts: return ("va",)
        return None
    def loaded(s, f, i, ld, cap, given, n):
        """a text read from memory: a table or variable only ever holding constants"""
        m = s.m; a = ld.ops[0]; b = a
        while b[0] == "ge": b = b[1]
        d = f.defs.get(b[1]) if b[0] == "v" else None
        if d is not None and d.op == "getelementptr":
            b = d.ops[0]
            while b[0] == "ge": b = b[1]
        if b[0] == "g":
            g = m.globals.get(b[1]) or {}; texts = []
            flat(g.get("init"), texts)
            writes = [x for h in m.defined() for x in h.instrs() if x.op == "store" and x.ops[1] == a]
            if texts and not writes:
                for x in texts: s.site(f, i, x, cap, given, n)
                return
        s.P.check(False, f.name + ":text", "%s: in %s: the format text passed to %s is computed at run time" % (i.loc(), f.name, n))
    def site(s, f, i, x, cap, given, n):
        P, m = s.P, s.m
        t = m.cstr(x)
        if not P.check(t is not None, f.name + ":text", "%s: in %s: the format text passed to %s is not a constant" % (i.loc(), f.name, n)): return
        key = "%s:%s" % (f.name, t[:40])
        if (t, cap) not in s.done:
            ret, end = s.F.native(t, cap); s.done[(t, cap)] = (ret, end, list(s.F.bad)); P.count("native format texts")
        ret, end, bad = s.done[(t, cap)]
        for b in bad: P.check(False, key, "%s: in %s: format text %r: %s" % (i.loc(), f.name, t, b))
        if not P.check(bool(ret), key, "%s: in %s: format text %r is always an error" % (i.loc(), f.name, t)): return
        P.check(not end, key, "%s: in %s: format text %r has an invalid directive" % (i.loc(), f.name, t))
        for r in ret:
            P.check(len(r) == len(given), key, "%s: in %s: format text %r asks for %d argument(s), %d given" % (i.loc(), f.name, t, len(r), len(given)))
            for k, (w, g) in enumerate(zip(r, given)):
                P.check(w == g, key, "%s: in %s: format text %r fetches argument %d as %s, %s is given" % (i.loc(), f.name, t, k + 1, nm(w), nm(g)))
                # a null pointer is no text
        o = i.ops[-len(given):] if given else []
        for k, (w, q) in enumerate(zip(given, o)):
            if w == "ptr" and q[0] == "n": P.check(False, key, "%s: in %s: format text %r is given a null pointer" % (i.loc(), f.name, t))
        P.sample("%s: %r with (%s)" % (i.loc(), t, ", ".join(map(nm, given))))

def nm(t): return "an object" if t == OBJ else {"ptr": "a pointer", "i32": "a 32-bit integer", "i64": "a 64-bit integer"}.get(t, t)
def flat(v, out):
    if not v: return
    if v[0] == "a":
        for x in v[1]: flat(x, out)
    elif v[0] in ("g", "ge"): out.append(v)

def raw(P, m, F):
    """every native directive fetches one argument of its own type"""
    n = 0
    for mod in ("",) + RAWMOD:
        for c in "UDXOBudxob":
            t = "~%s%s" % (mod, c); ret, end = F.native(t, RAW); n += 1
            want = "i32" if mod in ("", "W") else "i64"
            # the lower-case ones are asked of Scheme objects
            if c.islower() and c != "u":
                if mod: P.check(not any(len(r) != 1 for r in ret), "raw:" + t, "scm_vformat: directive %s fetches %s" % (t, sorted(ret))); continue
                want = OBJ
            if not ret: P.check(c.islower() , "raw:" + t, "scm_vformat: directive %s is always an error" % t); continue
            P.check(ret == {(want,)}, "raw:" + t, "scm_vformat: directive %s fetches %s instead of one %s" % (t, sorted(ret), nm(want)))
    for t, want in (("~C", ("i32",)), ("~P", ("ptr",)), ("~S", ("ptr",))):
        for u in (t, "x" + t + "y"):
            ret, end = F.native(u, RAW); n += 1
            P.check(ret == {want}, "raw:" + t, "scm_vformat: directive %s fetches %s" % (u, sorted(ret)))
    P.count("native directives", n); P.need("native directives", 60)

def lists(P, m):
    """formatting of a list never allows native directives"""
    f0 = need_fn(m, "scm_lformat")
    cp = [k for k, a in enumerate(f0.args) if a[1] == "i32"][0]
    def low(f, o, seen):
        """bit 0 known to be clear"""
        if o[0] == "i": return not o[1] & 1
        if o[0] != "v": return False
        for k, a in enumerate(f.args):
            if a[0] == o[1]:
                if (f.name, k) in seen: return True
                cs = [(g, i) for g in m.defined() for i in g.calls() if i.cname == f.name]
                return bool(cs) and all(low(g, i.ops[k], seen | {(f.name, k)}) for g, i in cs)
        d = f.defs[o[1]]
        if d.op == "and": return any(x[0] == "i" and not x[1] & 1 for x in d.ops) or any(low(f, x, seen) for x in d.ops)
        if d.op in ("or", "xor", "phi", "select"):
            if d.id in seen: return True
            return all(low(f, x, seen | {d.id}) for x in (d.ops[1:] if d.op == "select" else d.ops))
        return False
    for f in m.defined():
        for i in f.calls():
            if i.cname != f0.name: continue
            P.count("calls formatting a list")
            P.check(low(f, i.ops[cp], frozenset()), f.name + ":raw", "%s: in %s: a list of arguments is formatted with native directives allowed" % (i.loc(), f.name))
    P.need("calls formatting a list", 2)

def run(cfg):
    P = Part("format directives and arguments", cfg); m = ir.Module(cfg)
    directives(P, m)
    raw(P, m, Fmt(m))
    Native(P, m, Fmt(m)).run()
    lists(P, m)
    P.trusts("a format text is a sequence of characters of the current character codec (decoding it is C13)")
    return P
