#!/usr/bin/env python3
"""mut.py IDS FILE OLD NEW [FILE OLD NEW...]: run checks against a scratch copy of /repo/src with a textual change."""
import sys, os, shutil, subprocess, tempfile
ids = sys.argv[1].split(",")
d = tempfile.mkdtemp(prefix="nkmut")
try:
    shutil.copytree("/repo", d + "/r", ignore=shutil.ignore_patterns(".git", "_build", "build"))
    a = sys.argv[2:]
    for f, o, n in zip(a[0::3], a[1::3], a[2::3]):
        p = d + "/r/src/" + f
        s = open(p).read()
        o = o.encode().decode("unicode_escape"); n = n.encode().decode("unicode_escape")
        if s.count(o) < 1: print("NOT FOUND", o); sys.exit(2)
        open(p, "w").write(s.replace(o, n, 1))
    for i in ids:
        r = subprocess.run(["python3", "/verif/engine/check.py", i], env=dict(os.environ, NK_REPO=d + "/r"), capture_output=True, text=True)
        print(i, "exit", r.returncode)
        print("\n".join(l[:300] for l in (r.stdout + r.stderr).splitlines() if "instances" not in l))
finally: (None if os.environ.get('KEEP') else shutil.rmtree(d)); print(d) if os.environ.get('KEEP') else None
