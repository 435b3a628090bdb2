"""Check driver: builds the IR from /repo's current sources, runs the rules of
one property, writes evidence, prints KNOWN-FINDING / VIOLATION lines."""
import os, re, sys, json, time, subprocess, tempfile, shutil, hashlib, glob, fcntl
from .ir import Mod
from .vn import VN, ModSets, Paths

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))   # /verif/engine
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("NK_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
KNOWN_FNS = os.path.join(HERE, "known_functions.txt")


class Broken(Exception):
    """the analysis lost its anchors: neither pass nor violation"""


def tool():
    """build (once) the IR exporter"""
    os.makedirs(BUILD, exist_ok=True)
    src = os.path.join(HERE, "irdump.cpp")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    exe = os.path.join(BUILD, "irdump-" + h)
    if os.path.exists(exe): return exe
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(exe): return exe
        flags = subprocess.check_output(["llvm-config", "--cxxflags"], text=True).split()
        ld = subprocess.check_output(["llvm-config", "--ldflags"], text=True).split()
        tmp = exe + ".tmp%d" % os.getpid()
        subprocess.run(["clang++", "-O1", "-w"] + flags + ["-fexceptions", src, "-o", tmp] + ld + ["-lLLVM-18"], check=True)
        os.rename(tmp, exe)
    return exe


# build switches of the sources themselves; the thorough tier repeats each rule with them on
VARIANTS = {"allocation-failure test mode": ([("nkmem.h", "NK_MALLOC_FAILURE_TEST_MODE", "1")], ""),
            "unsigned plain char": ([], "-funsigned-char"), "32-bit pointers": ([], "-mx32")}


def variant(name):
    """the IR of the current sources with one of their build switches turned on"""
    subst, flags = VARIANTS[name]
    d = tempfile.mkdtemp(prefix="nkvar-")
    try:
        shutil.copytree(os.path.join(REPO, "src"), os.path.join(d, "src"), ignore=lambda p, l: [x for x in l if not x.endswith((".c", ".h"))])
        for f, m, v in subst:
            p = os.path.join(d, "src", f); s = open(p).read()
            n, k = re.subn(r"(#\s*define\s+%s\s+)\S+" % m, r"\g<1>" + v, s)
            if k: open(p, "w").write(n)
        if "-mx32" in flags:            # the only 32-bit header the C library keeps in a package of its own; it has no declarations
            os.makedirs(os.path.join(d, "inc", "gnu")); open(os.path.join(d, "inc", "gnu", "stubs-x32.h"), "w").close()
            flags += " -isystem %s -idirafter /usr/include/x86_64-linux-gnu" % os.path.join(d, "inc")
        return load(d, flags=flags)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def load(repo=None, known=KNOWN_FNS, extra_units=(), flags=""):
    repo = repo or REPO
    exe = tool()
    d = tempfile.mkdtemp(prefix="nkir-")
    try:
        srcs = sorted(glob.glob(os.path.join(repo, "src", "*.c"))) + [os.path.join(repo, "src", x) for x in extra_units]
        if not srcs: raise Broken("no sources under %s/src" % repo)
        procs = []
        for s in srcs:
            b = os.path.join(d, os.path.basename(s)[:-2])
            cmd = ("clang -w " + flags + " -std=gnu11 -O0 -g -Xclang -disable-O0-optnone -emit-llvm -c '%s' -o '%s.bc' && '%s' '%s.bc' '%s' '%s.json'"
                   % (s, b, exe, b, known, b))
            procs.append((s, subprocess.Popen(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
        for s, pr in procs:
            out, _ = pr.communicate()
            if pr.returncode: raise Broken("cannot compile %s:\n%s" % (s, out))
        return Mod(glob.glob(d + "/*.json"))
    finally:
        shutil.rmtree(d, ignore_errors=True)


class Ctx:
    def __init__(self, mod):
        self.mod = mod
        self.ms = ModSets(mod)
        self._vn = {}
        self.violations = []     # (key, text)
        self.counts = {}
        self.notes = []
        self.minima = {}
        self.samples = {}

    def vn(self, name):
        if name not in self._vn: self._vn[name] = VN(self.mod, self.mod.fns[name], self.ms)
        return self._vn[name]

    def paths(self, fn): return Paths(fn)

    def bad(self, rule, where, what, key=None):
        """report one violation. key identifies the construct without line numbers"""
        loc = where.loc() if hasattr(where, "loc") else str(where)
        fn = where.fn.name if hasattr(where, "fn") else str(where)
        k = "%s/%s/%s" % (rule, fn, key or what)
        if any(x[0] == k and x[1] == "%s: [%s] %s" % (loc, rule, what) for x in self.violations): return
        self.violations.append((k, "%s: [%s] %s" % (loc, rule, what)))

    def ok(self, rule, n=1, sample=None):
        self.counts[rule] = self.counts.get(rule, 0) + n
        if sample is not None:
            l = self.samples.setdefault(rule, [])
            if len(l) < 6: l.append(str(sample))

    def need(self, rule, n):
        """the rule must have judged at least n instances"""
        self.minima[rule] = n


def known_findings(pid):
    """{key: text} of recorded (unrepaired) findings"""
    r = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.rstrip("\n")
            if line.startswith("finding: property=%s " % pid):
                rest = line[len("finding: property=%s " % pid):]
                if rest.startswith("key="):
                    k, _, t = rest[4:].partition(" :: ")
                    r[k] = t
    return r


def run(pid, rulefn, meta, tier="quick"):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ev = os.path.join(VERIF, "evidence", pid + ".json")
    os.makedirs(os.path.dirname(ev), exist_ok=True)
    try:
        mod = load()
        ctx = Ctx(mod)
        rulefn(ctx, tier)
        low = {r: (ctx.counts.get(r, 0), n) for r, n in ctx.minima.items() if ctx.counts.get(r, 0) < n}
        if low and not ctx.violations:
            raise Broken("rule instances below the confirmed count (found, needed): %s" % low)
        if tier == "thorough":
            for v in VARIANTS:
                try: m2 = variant(v)
                except Broken as e: ctx.notes.append("not analysed with %s: %s" % (v, str(e)[:300])); continue
                c2 = Ctx(m2); rulefn(c2, tier)
                for k, n in c2.counts.items(): ctx.counts["%s (%s)" % (k, v)] = n
                for k, x in c2.violations:
                    if k not in {y for y, _ in ctx.violations}: ctx.violations.append((k, x + " (with %s)" % v))
    except Broken as e:
        print("ANALYSIS-BROKEN property=%s %s" % (pid, e))
        return 3
    kn = known_findings(pid)
    fresh = []
    hit = {}
    for k, t in ctx.violations:
        if k in kn: hit[k] = t
        else: fresh.append((k, t))
    for k, t in hit.items():
        print("KNOWN-FINDING: property=%s %s (%s)" % (pid, kn[k], t))
    total = sum(ctx.counts.values())
    cov = {"explanation": meta["explains"],
           "units_analysed": len(mod.units), "functions_analysed": len(mod.fns),
           "instructions_analysed": sum(len(f.insts) for f in mod.fns.values()),
           "call_sites": sum(1 for f in mod.fns.values() for _ in f.calls()),
           "new_helpers_inlined": mod.inlined,
           "obligations": total, "discharged": total - len(ctx.violations),
           "rule_instances": ctx.counts, "rule_minimum_instances": ctx.minima,
           "samples": ctx.samples,
           "known_findings": sorted(hit), "notes": ctx.notes}
    doc = {"property": pid, "tier": tier, "seed": seed, "level": meta.get("level", "other"), "coverage": cov,
           "wall_s": round(time.time() - t0, 2),
           "assumptions": meta.get("assumptions", []),
           "violations": [{"key": k, "report": t} for k, t in fresh]}
    if meta.get("level") == "proof":
        cov["checker_cmd"] = "python3 /verif/engine/check.py %s" % pid
        cov["trusted_base"] = ["clang 18 front end and LLVM mem2reg/always-inline/jump-threading", "/verif/engine (irdump, value numbering, rules)"]
    json.dump(doc, open(ev, "w"), indent=1)
    for r, n in sorted(ctx.counts.items()): print("  %-40s %d instances" % (r, n))
    if fresh:
        rp = os.path.join(VERIF, "evidence", pid + ".violations.txt")
        with open(rp, "w") as f:
            for k, t in fresh: f.write("%s\n    key=%s\n" % (t, k))
        for k, t in fresh: print("  " + t + "   {key=%s}" % k)
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    print("OK property=%s obligations=%d (%.1fs)" % (pid, total, time.time() - t0))
    return 0
