"""C13: decoding never reads past the bytes it was given; every codec is complete; every scan step makes progress."""
import ir, memspec, bounds
from rules import bound
from core import Part, Broken, need_fn
SLOTS = ["statefulp", "encoding", "ccs", "char_len", "scan_char", "str2int", "int2str"]
ARGS = {"statefulp": 0, "encoding": 0, "ccs": 0, "char_len": 1, "scan_char": 2, "str2int": 3, "int2str": 3}
SCANS = ("scan_char",)

def run(cfg):
    P, m, S = bound.run_group(cfg, "C13", "encoded text")
    tables(P, m)
    P.need("accesses", 60); P.need("codec operations", 30)
    return P

def tables(P, m):
    tabs = memspec.codecs(m)
    for n, ini in sorted(tabs.items()):
        for k, e in enumerate(ini[1]):
            P.count("codec operations"); nm = SLOTS[k] if k < len(SLOTS) else str(k)
            ok = e[0] == "f"
            if P.check(ok, "%s:%s-missing" % (n, nm), "%s: the codec table has no %s operation" % (n, nm)):
                f = m.fns.get(e[1])
                if f is not None and not f.decl: P.check(len(f.args) == ARGS.get(nm, len(f.args)), "%s:%s-arity" % (n, nm), "%s: %s takes %d operands, the operation is called with %d" % (n, e[1], len(f.args), ARGS.get(nm, 0)))
        P.check(len(ini[1]) == len(SLOTS), n + ":slots", "%s: %d operations for %d slots" % (n, len(ini[1]), len(SLOTS)))
    lists = [(n, g) for n, g in m.globals.items() if g.get("init") and g["init"][0] == "a" and any(e[0] == "g" and e[1] in tabs for e in g["init"][1])]
    for n, g in lists:
        P.count("lists of codecs"); es = g["init"][1]
        P.check(es[-1][0] in ("n", "z"), n + ":unterminated", "%s: the list of codecs is not ended by a null entry" % n)
        P.check(all(e[0] == "g" and e[1] in tabs for e in es[:-1]), n + ":hole", "%s: a null entry hides the codecs after it" % n)
        for t in tabs: P.check(("g", t) in [tuple(e[:2]) for e in es[:-1]], "%s:unlisted" % t, "%s: codec %s is built but cannot be selected" % (n, t))
    P.check(bool(lists), "codecs:no-list", "no list of the available codecs")
