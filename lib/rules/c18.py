"""C18: hostile text never overruns the reader's buffers; the end of input ends every scanning loop."""
import ir, eofprop
from rules import bound
from core import Part, Broken, need_fn
GET, PEEK = "scm_port_get_char", "scm_port_peek_char"

def run(cfg):
    P, m, S = bound.run_group(cfg, "C18", "reader buffers")
    need_fn(m, GET); need_fn(m, PEEK)
    ends(P, m)
    P.need("accesses", 30); P.need("functions reading characters", 5); P.need("loops reading characters", 5); P.need("ways to begin a datum", 5)
    return P

def ends(P, m):
    fns = {f.name: f for f in m.defined()}
    reading = {GET, PEEK}
    ch = True
    while ch:
        ch = False
        for f in m.defined():
            if f.name in reading or f.file in ("port.c",) and f.name in (GET, PEEK): continue
            if any(i.cname in reading for i in f.calls()) and f.file not in ("port.c",): reading.add(f.name); ch = True
    summary = {}; runs = {}
    def answer(busy):
        def a(r, i):
            n = i.cname
            if n in (GET, PEEK): return ("i", -1)
            if n in ("sal_make_eof",): return ("g", "sal_k_eof")
            if n in reading and n in fns:
                if n in busy: return eofprop.TOP
                return summ(n, busy)
            return eofprop.TOP
        return a
    def summ(n, busy):
        if n not in summary:
            r = eofprop.Run(fns[n], answer(busy | {n})); runs[n] = r; summary[n] = r.ret
        return summary[n]
    mine = sorted(n for n in reading if n in fns and n not in (GET, PEEK))
    for n in mine: summ(n, frozenset())
    # input that ends inside a datum is an error, never a datum
    if P.check("read_sexpression" in fns and "scm_read" in fns, "reader:missing", "read.c: the reader's entry functions are gone"):
        for i in fns["read_sexpression"].calls():
            n = i.cname
            if n not in reading or n not in fns or n in (GET, PEEK, "read_sexpression", "scm_read") or not returns_object(fns[n]): continue
            P.count("ways to begin a datum")
            P.check(summary.get(n) == "never", n + ":eof-datum", "%s: %s returns as if the datum were complete when the input ends inside it" % (i.loc(), n))
        P.check(summary.get("scm_read") == ("g", "sal_k_eof"), "scm_read:eof", "%s: scm_read does not answer the end-of-file object when the input has ended" % fns["scm_read"].name)
    again = {}
    for n in mine:
        f, r = fns[n], runs[n]
        P.count("functions reading characters")
        for h, c in loops(f):
            if not any(i.cname in reading for b in c for i in f.blocks[b].ins if i.op == "call"): continue
            P.count("loops reading characters")
            ok = not eofprop.repeats(f, h, c, answer(frozenset({n})))
            at = next((i for b in sorted(c) for i in f.blocks[b].ins if i.op == "call" and i.cname in reading), None)
            P.check(ok, n + ":eof-ignored", "%s: %s: this loop goes on reading when the input has ended" % (at.loc(), n))
        again[n] = {i.cname for b in r.exe if not dead(r, b) for i in upto(r, b) if i.op == "call" and i.cname in mine}
        # a character only looked at must be consumed before looking again
        stuck = unconsumed(f, reading)
        if stuck is not None: P.check(False, n + ":stuck", "%s: %s: a way around this loop looks at the next character without consuming it" % (stuck.loc(), n))
        else: P.check(True, "", "")
    for n in mine:
        # reading functions that call each other for ever at the end of input
        seen = set(); todo = list(again[n])
        while todo:
            x = todo.pop()
            if x in seen: continue
            seen.add(x); todo += again.get(x, ())
        P.check(n not in seen, n + ":eof-recursion", "%s calls itself again (through %s) when the input has ended" % (n, ", ".join(sorted(seen & set(mine)))))

def returns_object(f): return f.ret == "ptr addrspace(7)"
def dead(r, b): return False
def upto(r, b):
    for i in r.f.blocks[b].ins:
        yield i
        if i.op == "call" and (i.get("nr") or r.val.get(i.id) == "never"): return

def loops(f):
    """natural loops: (head, blocks)"""
    idom = f.dominators(); out = {}
    for b in f.blocks:
        for n in b.succs:
            if b.id in idom and f.dominates(n, b.id):
                body = out.setdefault(n, {n}); todo = [b.id]
                while todo:
                    x = todo.pop()
                    if x in body: continue
                    body.add(x); todo += [p for p in f.blocks[x].preds if p in idom]
    return sorted(out.items())

def unconsumed(f, reading):
    """a peek on a cycle that passes no call which may consume a character"""
    eat = {b.id for b in f.blocks if any(i.op == "call" and i.cname in reading and i.cname != PEEK for i in b.ins)}
    peeks = {b.id: next(i for i in b.ins if i.op == "call" and i.cname == PEEK) for b in f.blocks if b.id not in eat and any(i.op == "call" and i.cname == PEEK for i in b.ins)}
    # (a block that consumes before it peeks, or after, is among `eat`)
    for p in sorted(peeks):
        w = eofprop.Walk(f, lambda r, i: "never" if i.op == "call" and i.get("nr") else eofprop.TOP, p, set(range(len(f.blocks))) - eat)
        e = w.ends(p, {}, peeks[p])
        if e is None or e: return peeks[p]
    return None
