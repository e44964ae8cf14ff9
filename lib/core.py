"""Result collection, known findings, evidence files."""
import os, sys, json, time, re, traceback
from concurrent.futures import ProcessPoolExecutor
import build

VERIF = build.VERIF
class Broken(Exception):
    """the analysis itself cannot answer (an anchor it needs is gone)"""

class Missing(Broken):
    """a function the rule is about is not part of the program"""
    def __init__(s, name): super().__init__("function %s not found" % name); s.name = name

def need_fn(m, name):
    f = m.fns.get(name)
    if f is None or f.decl: raise Missing(name)
    return f

def in_source(name):
    """is the function still written down (and merely unused)?"""
    import glob
    for p in glob.glob(os.path.join(build.REPO, "src", "*.c")):
        if "functable-" in p: continue
        if re.search(r"^(?:[\w \t\*]+[ \t\*])?%s\([^;{}]*\)\s*\{" % re.escape(name), open(p, errors="replace").read(), re.M): return True
    return False

class Part:
    """what one unit of analysis (one rule on one configuration) found; picklable"""
    def __init__(s, name, cfg=None):
        s.name = name; s.cfg = cfg
        s.viol = []          # (key, message)
        s.counts = {}
        s.obl = 0; s.ok = 0; s.trusted = 0
        s.samples = []
        s.trust = {}         # reason -> number of obligations taken on trust
        s.notes = []
    def check(s, ok, key, msg):
        """one obligation"""
        s.obl += 1
        if ok: s.ok += 1
        else: s.bad(key, msg)
        return ok
    def bad(s, key, msg): s.viol.append((key, msg))
    def trusts(s, reason):
        s.obl += 1; s.ok += 1; s.trusted += 1
        s.trust[reason] = s.trust.get(reason, 0) + 1
    def count(s, k, n=1): s.counts[k] = s.counts.get(k, 0) + n
    def need(s, k, least=1):
        if s.counts.get(k, 0) < least and not s.viol: raise Broken("%s%s: only %d %s (expected at least %d)" % (s.name, "/" + s.cfg if s.cfg else "", s.counts.get(k, 0), k, least))
    def sample(s, x):
        if len(s.samples) < 6: s.samples.append(x)

def call_(a):
    fn, cfg = a
    mod, name = fn
    try:
        m = __import__("rules." + mod, fromlist=["x"])
        return getattr(m, name)(cfg)
    except Missing as e:
        if in_source(e.name):
            # the step exists but nothing performs it any more
            p = Part(mod, cfg); p.check(False, e.name + ":unused", "%s: is defined but no longer called by anything" % e.name); return p
        return ("broken", str(e))
    except Broken as e: return ("broken", str(e))
    except build.BuildError as e: return ("broken", "build: " + str(e))
    except Exception: return ("broken", traceback.format_exc())

def known(prop):
    fs = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop: fs.append((m.group(2), m.group(3)))
    return dict(fs)

def run_property(prop, tier, units, level, explanation, assumptions, trusted_base=()):
    """units: [(module, function), cfg]"""
    t0 = time.time()
    for c in sorted({c for _, c in units if c}):   # build once, not once per unit
        pass
    with ProcessPoolExecutor(min(8, max(1, len(units)))) as ex:
        parts = list(ex.map(call_, units))
    broken = [p for p in parts if isinstance(p, tuple)]
    parts = [p for p in parts if not isinstance(p, tuple)]
    kn = known(prop)
    seenk = set(); viol = {}
    for p in parts:
        for key, msg in p.viol:
            if key in kn: seenk.add(key)
            else: viol.setdefault(key, []).append("[%s%s] %s" % (p.name, "/" + p.cfg if p.cfg else "", msg))
    ev = os.path.join(VERIF, "evidence"); os.makedirs(ev, exist_ok=True)
    for k in sorted(seenk): print("KNOWN-FINDING: property=%s %s" % (prop, kn[k]))
    n = 0
    for key in sorted(viol):
        n += 1
        rp = os.path.join(ev, "%s-violation-%d.txt" % (prop, n))
        with open(rp, "w") as f:
            f.write("property %s\nconstruct %s\n" % (prop, key))
            for m in viol[key]: f.write(m + "\n")
            f.write("rerun: cd /verif && python3 check.py %s %s\n" % (prop, tier))
        print("  " + viol[key][0])
        print("VIOLATION property=%s replay=%s" % (prop, rp))
    obl = sum(p.obl for p in parts); ok = sum(p.ok for p in parts)
    trust = {}
    for p in parts:
        for k, v in p.trust.items(): trust[k] = trust.get(k, 0) + v
    cov = {"obligations": obl, "discharged": ok, "on_trust": sum(trust.values()),
           "explanation": explanation,
           "checker_cmd": "python3 /verif/check.py %s %s" % (prop, tier),
           "trusted_base": list(trusted_base) + ["trusted (%d obligations): %s" % (v, k) for k, v in sorted(trust.items())],
           "counts": {"%s%s" % (p.name, "/" + p.cfg if p.cfg else ""): p.counts for p in parts},
           "samples": [x for p in parts for x in p.samples][:12],
           "known_findings": sorted(seenk)}
    d = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": level, "coverage": cov,
         "assumptions": list(assumptions), "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    with open(os.path.join(ev, prop + ".json"), "w") as f: json.dump(d, f, indent=1)
    for b in broken: print("ANALYSIS-BROKEN %s: %s" % (prop, b[1]))
    print("%s %s: %d obligations, %d discharged (%d on trust), %d violations, %d known, %.1fs" % (prop, tier, obl, ok, sum(trust.values()), len(viol), len(seenk), time.time() - t0))
    if viol: return 1
    if broken: return 2
    return 0
