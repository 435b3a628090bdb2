"""Functions that only run while the machine is deleted."""


def teardown(cx):
    """functions that only run while the machine itself is given back"""
    mod = cx.mod
    roots = {f.name for f in mod.fns.values() if f.name.startswith("nkx") for i in f.calls() if any(c == "free" or c.startswith("cb:") and "free" in c.lower() for c in mod.cal(i)) and any(cx.ms.pointee(f, o) == "NKVM" for o in i.o)} or {"nkxVmDelete"}
    td = set(roots); ch = True
    while ch:
        ch = False
        for n in mod.fns:
            cs = mod.callers.get(n, [])
            if n not in td and cs and all(c.fn.name in td for c in cs): td.add(n); ch = True
    return td
