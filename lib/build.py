"""Program model: compiles the current sources under REPO to LLVM IR.

mode 'abs'  : against model/sal-abstract.h (objects are abstract, SAL operations
              are primitives); storage.c/storage-gc.c are left out.
mode 'real' : against the real storage headers.
Nothing is executed; nothing is written inside REPO.
"""
import os, sys, json, subprocess, tempfile, shutil, hashlib, re, glob, fcntl, atexit
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
LLVM = "/usr/lib/llvm-18/bin"
CLANG = "/usr/bin/clang-18"
CONFIGS = ("compact", "fatty", "hygienic")
NOT_BUILT = {"module-siod.c", "scmport-null.c", "scmport-sbchar.c", "dllentry.c", "template.c",
             "global-aggregated.c", "strcasecmp.c", "sigscheme-combined.c"}
FUNCTABLES = {
 "sscm-core": ["error.c", "module.c"], "r5rs-core": ["eval.c", "list.c", "procedure.c"],
 "r5rs-syntax": ["syntax.c"], "r5rs-qquote": ["qquote.c"], "r5rs-macro": ["macro.c"],
 "r5rs-promise": ["promise.c"], "r5rs-number": ["number.c"], "r5rs-number-io": ["number-io.c"],
 "r5rs-char": ["char.c"], "r5rs-string": ["string.c"], "r5rs-string-procedure": ["string-procedure.c"],
 "r5rs-vector": ["vector.c"], "r5rs-port": ["port.c"], "r5rs-read": ["read.c"], "r5rs-write": ["write.c"],
 "r5rs-load": ["load.c"], "r5rs-deep-cadrs": ["deep-cadrs.c"], "legacy-macro": ["legacy-macro.c"],
 "sscm-ext": ["module-sscm-ext.c"], "siod": ["module-siod.c"],
}
for _n in ("1", "2", "6", "8", "9", "23", "28", "34", "38", "43", "48", "55", "60"):
    FUNCTABLES["srfi" + _n] = ["module-srfi%s.c" % _n]

class BuildError(Exception):
    pass

def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), r.stdout[-4000:]))
    return r.stdout

def cache_dir():
    d = os.environ.get("VERIF_CACHE") or os.path.join(VERIF, ".cache")
    try:
        os.makedirs(d, exist_ok=True)
        t = os.path.join(d, ".w%d" % os.getpid()); open(t, "w").close(); os.unlink(t)
        return d
    except OSError:
        d = os.path.join(tempfile.gettempdir(), "verif-cache-%d" % os.getuid())
        os.makedirs(d, exist_ok=True)
        return d

def _sha(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode()); h.update(b"\0")
        with open(p, "rb") as f: h.update(f.read())
        h.update(b"\0")
    return h.hexdigest()[:24]

def irdump_tool():
    src = os.path.join(VERIF, "lib", "irdump.cpp")
    exe = os.path.join(cache_dir(), "irdump-" + _sha([src]))
    if os.path.exists(exe): return exe
    flags = run([LLVM + "/llvm-config", "--cxxflags"]).split()
    flags = [f for f in flags if f not in ("-fno-exceptions",) and not f.startswith("-std=")]
    tmp = exe + ".tmp%d" % os.getpid()
    run(["/usr/bin/clang++-18", "-O1", "-std=c++17", *flags, src, "-o", tmp, "-L/usr/lib/llvm-18/lib", "-lLLVM-18"])
    os.replace(tmp, exe)
    return exe

def sources():
    src = os.path.join(REPO, "src")
    cs = sorted(os.path.basename(p) for p in glob.glob(src + "/*.c"))
    cs = [c for c in cs if c not in NOT_BUILT and not c.startswith("functable-")]
    if len(cs) < 45: raise BuildError("only %d source files found in %s" % (len(cs), src))
    return cs

def config_macros(cfg):
    m = {}
    for l in open(os.path.join(VERIF, "configs", cfg, "config.h")):
        x = re.match(r"#define\s+(\w+)\s*(.*)", l)
        if x: m[x.group(1)] = x.group(2).strip()
    return m

def src_files_for(cfg):
    m = config_macros(cfg)
    cs = sources()
    if m.get("SCM_USE_HYGIENIC_MACRO", "0") != "1": cs.remove("macro.c") if "macro.c" in cs else None
    return cs

def functables(outdir):
    src = os.path.join(REPO, "src")
    def one(k):
        files = FUNCTABLES[k]
        if not all(os.path.exists(os.path.join(src, f)) for f in files): return
        run(["ruby", "-I" + os.path.join(REPO, "tools"), os.path.join(REPO, "tools", "build_func_table.rb"),
             os.path.join(outdir, "functable-%s.c" % k), "scm_functable_" + k.replace("-", "_"),
             *[os.path.join(src, f) for f in files]], cwd=REPO)
    with ThreadPoolExecutor(8) as ex: list(ex.map(one, FUNCTABLES))

PASSES = "function(sroa,early-cse<memssa>,gvn)"
PASSES_LIGHT = "function(sroa,early-cse)"

def _compile(cfg, mode, work, passes):
    src = os.path.join(REPO, "src")
    gen = os.path.join(work, "gen"); os.makedirs(gen)
    os.makedirs(os.path.join(gen, "sigscheme"))
    shutil.copy(os.path.join(VERIF, "configs", cfg, "config.h"), gen)
    shutil.copy(os.path.join(VERIF, "configs", cfg, "config.h"), os.path.join(gen, "sigscheme"))
    functables(gen)
    flags = ["-std=gnu11", "-O1", "-Xclang", "-disable-llvm-passes", "-Xclang", "-disable-lifetime-markers", "-g", "-emit-llvm", "-c", "-w",
             "-fno-discard-value-names", "-DHAVE_CONFIG_H", "-DSCM_COMPILING_LIBSSCM=1", "-DVERIF_ANALYSIS", '-DSCMLIBDIR="/usr/local/share/sigscheme/lib"', "-I" + gen, "-I" + src, "-fno-builtin"]
    if mode == "abs":
        ov = {"version": 0, "case-sensitive": "true", "roots": [
            {"name": src, "type": "directory", "contents": [
                {"name": n, "type": "file", "external-contents": os.path.join(VERIF, "model", "sal-abstract.h")}
                for n in ("storage-compact.h", "storage-fatty.h")]}]}
        ovp = os.path.join(work, "overlay.yaml")
        json.dump(ov, open(ovp, "w"))
        flags += ["-ivfsoverlay", ovp, "-Dvolatile="]
    inc = os.path.join(work, "inc"); os.makedirs(inc)
    shutil.copy(os.path.join(VERIF, "model", "assert.h"), inc)
    flags += ["-I" + inc]
    cs = src_files_for(cfg)
    if mode == "abs": cs = [c for c in cs if c not in ("storage.c", "storage-gc.c")]
    if mode == "real": cs = cs + [os.path.join(VERIF, "model", "witness.c")]
    known = set(open(os.path.join(VERIF, "model", "functions.txt")).read().split())
    def _funcs(o):
        """defined function symbols of a bitcode file"""
        r = set()
        for l in run([LLVM + "/llvm-nm", "--defined-only", o]).splitlines():
            x = l.split()
            if len(x) >= 2 and x[-2] in "tTwW": r.add(x[-1])
        return r
    dev = os.environ.get("VERIF_DEVCACHE")     # development only: objects shared between scratch copies
    def one(c):
        o = os.path.join(work, os.path.basename(c)[:-2] + ".bc")
        if dev:
            pp = run([CLANG, *[x for x in flags if x not in ("-c", "-emit-llvm")], "-E", os.path.join(src, c)], cwd=src)
            pp = pp.replace(REPO, "<repo>").replace(work, "<work>")
            dk = os.path.join(dev, hashlib.sha256((pp + repr(flags).replace(REPO, "").replace(work, "") + passes + repr(sorted(known))).encode()).hexdigest())
            if os.path.exists(dk): return dk
        run([CLANG, *flags, os.path.join(src, c), "-o", o], cwd=src)
        o2 = os.path.join(work, os.path.basename(c)[:-2] + ".opt.bc")
        # functions that did not exist when the repository facts were written (an
        # extracted helper, say) are analysed as part of their callers
        new = sorted(x for x in _funcs(o) - known if not x.startswith("w_"))
        if new and os.environ.get("VERIF_DEBUG"): print(c, new)
        pre = "forceattrs,always-inline," if new else ""
        run([LLVM + "/opt", *["-force-attribute=%s:alwaysinline" % x for x in new], "-passes=" + pre + passes, o, "-o", o2])
        if dev: shutil.copy(o2, dk + ".%d" % os.getpid()); os.replace(dk + ".%d" % os.getpid(), dk)
        return o2
    with ThreadPoolExecutor(8) as ex: objs = list(ex.map(one, cs))
    linked = os.path.join(work, "all.bc")
    run([LLVM + "/llvm-link", *objs, "-o", linked])
    out = os.path.join(work, "all.json")
    run([irdump_tool(), linked, out])
    return out, cs

def tree_key(extra=""):
    ps = []
    for d in ("src", "tools"):
        for r, _, fs in os.walk(os.path.join(REPO, d)):
            ps += [os.path.join(r, f) for f in fs if f.endswith((".c", ".h", ".rb", ".txt", ".in")) and not f.startswith("functable-")]
    for d in ("model", "configs"):
        for r, _, fs in os.walk(os.path.join(VERIF, d)):
            ps += [os.path.join(r, f) for f in fs]
    ps += [os.path.join(VERIF, "lib", "irdump.cpp"), os.path.join(VERIF, "lib", "build.py")]
    return _sha(ps, extra)

def load_json(cfg, mode="abs", passes=None):
    """-> parsed JSON of the linked module of configuration cfg (content-addressed cache)."""
    passes = passes or PASSES
    key = tree_key("%s|%s|%s|%s" % (cfg, mode, passes, REPO))
    cd = cache_dir()
    path = os.path.join(cd, "ir-%s-%s-%s.json" % (cfg, mode, key))
    if not os.path.exists(path):
        with open(os.path.join(cd, "lock-%s-%s%s" % (cfg, mode, os.getpid() if os.environ.get("VERIF_DEVCACHE") else "")), "w") as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            if not os.path.exists(path):
                work = tempfile.mkdtemp(prefix="verif-build-")
                try:
                    out, cs = _compile(cfg, mode, work, passes)
                    for old in glob.glob(os.path.join(cd, "ir-%s-%s-*.json" % (cfg, mode))):
                        if os.path.getmtime(old) < __import__("time").time() - 3600: os.unlink(old)
                    tmp = path + ".tmp%d" % os.getpid()
                    shutil.copy(out, tmp); os.replace(tmp, path)
                finally:
                    shutil.rmtree(work, ignore_errors=True)
    with open(path) as f: return json.load(f)

if __name__ == "__main__":
    import time
    for c in (sys.argv[1:] or CONFIGS):
        for m in ("abs", "real"):
            t = time.time(); j = load_json(c, m)
            print(c, m, len(j["funcs"]), "functions", sum(len(b) for f in j["funcs"] for b in f["blocks"]), "instructions", "%.1fs" % (time.time() - t))
