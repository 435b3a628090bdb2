#!/usr/bin/env python3
"""seedtest.py [--notests] [--checks P1,P2] ID...: confirm planted bugs in private mount namespaces (nothing touches the real /repo).
demo on unchanged tree must exit 0; with patch: builds, stable tests pass, demo non-zero; then run the checks."""
import sys, os, json, subprocess, shutil, concurrent.futures as cf
SEED = "/verif/seeded"
BASE = json.load(open("/opt/vp/BASELINE.json"))
def stable():
    for k in ("stable", "stable_pass", "passed", "tests"):
        if k in BASE: return set(BASE[k])
    return None
def sh(ns, cmd, t=900):
    return subprocess.run(["unshare", "-m", "sh", "-c", "mount --bind %s /repo && cd /repo && %s" % (ns, cmd)], capture_output=True, text=True, timeout=t)
def one(i, tests, checks):
    out = []; s = SEED + "/" + i
    meta = json.load(open(s + "/meta.json"))
    w = "/tmp/seedwork/" + i
    shutil.rmtree(w, ignore_errors=True); os.makedirs(w)
    shutil.copytree(s, w + "/demo", ignore=shutil.ignore_patterns("*.diff", "*.patch", "meta.json"))
    subprocess.run(["cp", "-a", "/repo", w + "/r"], check=True)
    try:
        sh(w + "/r", "bash /opt/vp/build.sh")
        r = sh(w + "/r", "bash %s/demo/demo.sh" % w, 300)
        out.append("clean demo rc=%d%s" % (r.returncode, "" if r.returncode == 0 else " BAD " + (r.stdout + r.stderr)[-1500:]))
        r = sh(w + "/r", "git apply %s/patch.diff" % s)
        if r.returncode: return i, out + ["PATCH FAILS " + r.stderr]
        r = sh(w + "/r", "bash /opt/vp/build.sh")
        if r.returncode: return i, out + ["BUILD FAILS " + (r.stdout + r.stderr)[-1500:]]
        r = sh(w + "/r", "bash %s/demo/demo.sh" % w, 300)
        out.append("patched demo rc=%d %s" % (r.returncode, "BAD" if r.returncode == 0 else (r.stdout + r.stderr).strip()[-200:]))
        if tests:
            sh(w + "/r", "bash /opt/vp/test.sh %s/res.json" % w)
            res = json.load(open(w + "/res.json"))
            miss = sorted(stable() - set(res["passed"]))
            out.append("stable missing: %s" % miss[:8] + ("" if not miss else " BAD"))
        for c in (checks or [meta["property"]]):
            r = subprocess.run(["python3", "/verif/engine/check.py", c], env=dict(os.environ, NK_REPO=w + "/r"), capture_output=True, text=True)
            t = [l for l in (r.stdout + r.stderr).splitlines() if l.startswith("  ") and "instances" not in l or "VIOLATION" in l or "BROKEN" in l]
            out.append("check %s rc=%d %s" % (c, r.returncode, "CAUGHT" if r.returncode == 1 else "MISSED"))
            out += ["     " + l[:260] for l in t[:4]]
    finally:
        shutil.rmtree(w, ignore_errors=True)
    return i, out
if __name__ == "__main__":
    a = sys.argv[1:]; tests = True; checks = None
    if "--notests" in a: a.remove("--notests"); tests = False
    if "--checks" in a: k = a.index("--checks"); checks = a[k + 1].split(","); del a[k:k + 2]
    ids = a or sorted(os.listdir(SEED))
    with cf.ThreadPoolExecutor(4 if tests else 8) as ex:
        for i, out in ex.map(lambda i: one(i, tests, checks), ids):
            print("==", i); print("\n".join("   " + l for l in out), flush=True)
