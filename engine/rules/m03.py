"""M03: nothing carries on after a catastrophic failure was swallowed by a
host callback or by a nested public call."""
from nk.core import Broken
from nk.throw import arms_itself, is_longjmp, is_setjmp, may_throw, summaries
from nk.vn import is_load_of

META = {"level": "other", "technique": "interprocedural must-check analysis: every place where a nested recovery may have swallowed a failure re-raises or reports before anything else",
        "note": "Every host-callback site that is given the machine and every internal call of a function with its own recovery point is judged on all CFG paths, and callers of functions that return without re-raising inherit the obligation. Machine deletion is exempt (it must go on).",
        "explains": "Swallow sites: calls of host callbacks that receive the machine, and internal calls of functions that install their own recovery point. From each site every CFG path must pass a test of the machine's failed flag, made after the site, whose failed side re-raises (longjmp), before any call that may allocate, fail or call the host again; a function that can return before the test hands the obligation to its internal callers."}

SKIP_CB = {"cb:NKVM.mallocReplacement", "cb:NKVM.freeReplacement", "cb:NKVMCreateParams.mallocReplacement"}


def gets_machine(cx, i):
    for op in i.o:
        p = cx.mod_pointee(i.fn, op)
        if p == "NKVM": return True
        if p and any(t.replace(" ", "") == "structNKVM*" for f, t, z in cx.mod.structs.get(p, {"fields": []})["fields"]) and p.endswith("CallbackData"): return True
    return False


def check(cx, tier):
    mod = cx.mod
    cx.mod_pointee = cx.ms.pointee
    T = summaries(cx)
    harmless = {}
    reach_cb = mod.may_reach(lambda i, c: c.startswith("cb:") and c not in SKIP_CB)

    def is_harmless(i):
        c = i.callee
        if c is None: return False
        if c.startswith("llvm.") or is_longjmp(c): return True
        if c not in mod.fns: return True           # libc: does not touch the machine
        if c in reach_cb or c in cx._arming: return False
        if may_throw(cx, i): return False
        return c in TRIVIAL or not writes_machine(cx, c)

    # sites: (call inst, why)
    todo = []
    for fn in mod.fns.values():
        internal = not fn.name.startswith("nkx")
        for i in fn.calls():
            cs = mod.cal(i)
            if any(c.startswith("cb:") and c not in SKIP_CB for c in cs) and gets_machine(cx, i):
                todo.append((i, "host callback %s" % cs[0][3:]))
            elif internal and any(c in cx._arming for c in cs):
                todo.append((i, "%s (has its own recovery point)" % [c for c in cs if c in cx._arming][0]))
    if len(todo) < 5: raise Broken("host callback sites not found")
    seen = set()
    done = []
    while todo:
        s, why = todo.pop()
        if (s.fn.name, s.id) in seen: continue
        seen.add((s.fn.name, s.id))
        fn = s.fn
        if teardown(cx, fn): continue
        if fn.name.startswith("nkx"):
            cx.ok("public-boundary", 1, s.loc()); continue
        vn = cx.vn(fn.name); P = cx.paths(fn)
        cx.ok("failure-passed-on", 1, "%s: %s" % (s.loc(), why))

        def tested(p, b):
            t = fn.blocks[p][-1]
            for f in vn.edge_facts(p, b):
                if len(f) == 3 and f[0] == "eq" and f[2] == ("c", 0):
                    e = f[1]
                    while e[0] in ("zext", "trunc"): e = e[1]
                    if is_load_of(vn, e, "NKErrorState", "allocationFailure"):
                        d = fn.insts[e[1]]
                        if P.escape(s, lambda i: i is t, stop=lambda i: i is d) is None: return True
                    if e[0] == "call" and (fn.insts[e[1]].callee or "") in cx.errq:
                        d = fn.insts[e[1]]
                        if P.escape(s, lambda i: i is t, stop=lambda i: i is d) is None: return True
            return False
        cx.errq = error_queries(cx)
        w = P.escape(s, lambda i: i.op == "call" and not is_harmless(i) and i.callee not in cx.errq, stop=lambda i: is_longjmp(i.callee) or i.op == "ret", stop_edge=tested)
        if w:
            # a path through the failed side that re-raises is cut by longjmp
            cx.bad("failure-passed-on", s, "after %s the machine goes on (%s) without testing whether it failed catastrophically meanwhile" % (why, w.callee or "indirect call"), why)
            continue
        r = P.escape(s, lambda i: i.op == "ret", stop=lambda i: is_longjmp(i.callee), stop_edge=tested)
        if r:
            for c in mod.callers.get(fn.name, []): todo.append((c, "%s (returns without re-raising after %s)" % (fn.name, why)))
            # address-taken functions are called by the host layer or dispatch
            if not mod.callers.get(fn.name):
                cx.ok("boundary", 1, fn.name)
    cx.need("failure-passed-on", 5)


TRIVIAL = {"nkiFree", "nkiErrorStateSetAllocationFailFlag", "nkiDynStrDelete"}


def error_queries(cx):
    """functions returning (at least) the failed flag"""
    if hasattr(cx, "_errq"): return cx._errq
    r = set()
    for n, fn in cx.mod.fns.items():
        if len(fn.insts) > 30 or cx.mod.structs is None: continue
        for i in fn.all():
            if i.op == "load" and cx.mod.addr_field(fn, i.o[0]) == ("NKErrorState", "allocationFailure"):
                if not any(j.op == "store" or (j.op == "call") for j in fn.all()): r.add(n)
    cx._errq = r
    return r


def writes_machine(cx, c):
    return any(l[0] in ("f", "*", "raw", "glob") for l in cx.ms.mods[c])


def teardown(cx, fn):
    """machine deletion: empties the block list itself"""
    return any(any(c == "cb:NKVM.freeReplacement" for c in cx.mod.cal(i)) for i in fn.calls()) and \
        any(i.op == "store" and cx.mod.addr_field(fn, i.o[1]) == ("NKVM", "allocations") for i in fn.all())
