#!/usr/bin/env python3
"""mkseed.py ID PROPERTY NEEDS BREAKS FILE OLD NEW [FILE OLD NEW...]: write seeded/ID/{patch.diff,meta.json} from textual edits."""
import sys, os, json, subprocess, tempfile, shutil
i, prop, needs, breaks = sys.argv[1:5]
a = sys.argv[5:]
d = tempfile.mkdtemp(prefix="mkseed")
subprocess.run(["git", "-C", "/repo", "worktree", "list"], capture_output=True)
subprocess.run("git -C /repo archive HEAD | tar x -C " + d, shell=True, check=True)
subprocess.run("cd %s && git init -q && git add -A && git -c user.name=x -c user.email=x commit -qm x" % d, shell=True, check=True)
for f, o, n in zip(a[0::3], a[1::3], a[2::3]):
    p = d + "/src/" + f; s = open(p).read()
    o = o.encode().decode("unicode_escape"); n = n.encode().decode("unicode_escape")
    if s.count(o) != 1: print("NOT UNIQUE" if s.count(o) else "NOT FOUND", o); sys.exit(2)
    open(p, "w").write(s.replace(o, n))
s = "/verif/seeded/" + i; os.makedirs(s, exist_ok=True)
open(s + "/patch.diff", "w").write(subprocess.check_output(["git", "-C", d, "diff"], text=True))
json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(s + "/meta.json", "w"), indent=1)
shutil.rmtree(d)
print(open(s + "/patch.diff").read())
