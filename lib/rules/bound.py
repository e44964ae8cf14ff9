"""Bounds obligations shared by C02, C13 and C18: every access to a counted buffer stays inside it."""
import os, signal, time
import ir, memspec, bounds
from core import Part, Broken

# Accesses the linear domain cannot decide: bookkeeping that spans several activations or a quantity that is
# not linear.  Only obligations of these functions that cannot be shown are set aside; each is counted in the evidence.
UNDECIDED = {
    "scm_int2string": "the number of digits is logarithmic in the value: the digit buffer is sized for radix 2",
    "scm_vectran": "size of the result vector is kept across activations in the translator's growth counter",
    "qquote_internal": "index kept in the translator's state",
    "scm_interpret_argv": "argv is ended by NULL; the same element is read twice",
    "scm_free_argv": "argv is ended by NULL",
    "parse_script_prelude": "words between delimiters of the script's first line",
    "format_directive": "a directive character implies that a character is left",
    "match_reppat": "element counts of pattern vectors (hygienic macros)",
    "compile_rec": "element counts of template vectors (hygienic macros)",
    "transcribe_rec": "index stack of the transcription context (hygienic macros)",
    "transcribe_reppat": "index stack of the transcription context (hygienic macros)",
}
CODECWORDS = ("scan_char", "str2int", "int2str", "char_len", "scm_mb_", "scm_charcodec_read_char", "mbcport_fill_rbuf")
READER = ("read.c", "load.c", "number-io.c")

def groups_of(f, a):
    """properties an obligation belongs to"""
    fl = os.path.basename(a.where().split(":")[0]); out = set()
    if any(w in a.what for w in CODECWORDS) or any(w in a.what for w in f.mod._codecfns): out.add("C13")
    if fl in ("encoding.c", "scmport-mbchar.c"): out.add("C13")
    elif fl in READER or f.name.startswith("scm_lbuf_"): out.add("C18")
    else: out.add("C02")
    return out

class Slow(Exception): pass

def run_group(cfg, prop, name, limit=150):
    P = Part(name, cfg)
    m = ir.Module(cfg); S = memspec.Spec(m)
    m._codecfns = {n for st in S.impl.values() for n in st}
    def boom(*a): raise Slow()
    signal.signal(signal.SIGALRM, boom)
    for f in sorted(m.defined(), key=lambda f: f.name):
        F = bounds.Flow.__new__(bounds.Flow); F.spec = S; F.record = lambda x: False
        try:
            signal.alarm(limit)
            F.__init__(f, S)
            al = memspec.accesses(F) + memspec.duties(F)
            acc = [a for a in al if prop in groups_of(f, a)]
            if not acc and not (prop == "C13" and any(scanning(F, h) for h in F.heads)): continue
            P.count("functions with obligations")
            solve(P, F, f, S, al, acc, prop == "C13")
        except Slow:
            P.notes.append("%s: gave up after %d s" % (f.name, limit)); P.trusts("time limit in %s" % f.name)
        finally: signal.alarm(0)
    return P, m, S

def goals_of(F, S, acc):
    goals = []
    for a in acc:
        if isinstance(a, memspec.Row): goals += [memspec.olin_row(F, r) for r in a.rows]; continue
        for r in memspec.roots(F, a.addr):
            E = S.end(F, r)
            if E is not None:
                A = memspec.olin(F, a.addr)
                goals += [bounds.add(A, F.lin(r), -1), memspec.olin_row(F, bounds.add(bounds.add(E, A, -1), a.width, -1))]
    return goals

# loops through text whose progress depends on what a called function leaves behind
NOPROGRESS = {"format_internal": "the directive functions advance the cursor kept in the caller's structure"}

def solve(P, F, f, S, al, acc, steps=False):
    c = memspec.candidates(F, goals_of(F, S, al))
    F.infer(c)
    P.count("loop invariants established", sum(len(v) for v in F.inv.values()))
    P.count("loops", len(F.heads))
    n = {}
    for a in acc:
        P.count("accesses" if isinstance(a, memspec.Access) else "contract obligations")
        r = memspec.proved(F, a)
        k = "%s:%s" % (f.name, a.what)
        if r is None:
            P.check(True, "", "")
            P.sample("%s: %s: %s" % (a.where(), f.name, a.what))
        elif f.name in UNDECIDED: P.trusts("%s: %s" % (f.name, UNDECIDED[f.name]))
        else: P.check(False, k, "%s: %s: %s: %s" % (a.where(), f.name, a.what, r))
    if not steps: return
    for h in F.heads:
        if not scanning(F, h): continue
        P.count("loops stepping through text")
        if progress(F, h): P.check(True, "", "")
        elif f.name in NOPROGRESS: P.trusts("%s: %s" % (f.name, NOPROGRESS[f.name]))
        else:
            at = next((i.loc() for b in sorted(F.body[h]) for i in F.f.blocks[b].ins if i.line), f.name)
            P.check(False, "%s:no-progress" % f.name, "%s: %s: a way around this loop does not advance through the text" % (at, f.name))

def scanning(F, h):
    """does the loop step through encoded text?"""
    for b in F.body[h]:
        for i in F.f.blocks[b].ins:
            if i.op == "call" and (F.spec.slot(i, F.f) in ("scan_char",) or i.cname in ("scm_charcodec_read_char", "scm_mb_substring") or i.cname in F.spec.impl["scan_char"]): return True
    return False

def edge_proves(F, p, h, goal, splits=4):
    fs = F.base_facts(p, []); F.merge(fs, F.edge(p, h))
    return F.go(goal, fs, {p}, set(), splits)

def progress(F, h):
    """a quantity that moves by at least one on every way around the loop and is bounded, or None"""
    add, var, con, scale = bounds.add, bounds.var, bounds.con, bounds.scale
    latches = [p for p in F.preds[h] if p in F.body[h]]
    for at, ty, src in F.phis(h):
        if any(p not in src or src[p][0] == "u" for p in latches): continue
        V = var(at)
        for sgn in (-1, 1):
            if not any(r.get(at) == -sgn for r in F.inv.get(h, ())): continue      # bounded on that side
            if all(edge_proves(F, p, h, add(scale(add(F.lin(src[p]), V, -1), sgn), con(-1))) for p in latches): return at
    return None
