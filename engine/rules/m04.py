"""M04: deleting a machine gives every block back."""
from nk.core import Broken
from nk.own import own
from nk.loops import loops_of, exit_edges, induction, index_covers
from nk.regions import COUNT
from nk.vn import is_load_of, loads_field, base_of, strip, show

META = {"level": "other", "technique": "ownership-coverage and must-release analysis of the teardown call tree",
        "note": "Covers every struct field of the machine that any code stores a fresh block into; array element loops must cover the recorded extent. Does not prove that the two views of one structure (index and elements) agree at run time.",
        "explains": "Enumerates every field (and array element) of the machine's structures that receives a freshly allocated block anywhere; for each, a release in the call tree of machine deletion must exist and be executed on every path of the orderly teardown (loops must run over the whole recorded extent, conditions may only skip null pointers). The failed-machine path must walk the block list to its end through the host's release callback; subsystem cleanups must run on every path; the host's user pointer must reach the machine."}

ALIASES = {  # fields that point at blocks owned through another field
    ("NKErrorState", "lastError"): "tail of the list owned by firstError",
    ("NKVMGCState", "openList"): "work list of one collection; moved to closedList and released there",
}


def key(cx, fn, op):
    """what an address denotes: ('f',S,f) a field, ('*',S,f) an element of the block a field points to"""
    while True:
        if op[0] == "cgep":
            for st in reversed(op[2]):
                if st[0] == "f": return ("f", st[1], st[2])
            op = op[1]; continue
        d = fn.idef(op)
        if d is None: return None
        if d.op == "getelementptr":
            for st in reversed(d.path):
                if st[0] == "f": return ("f", st[1], st[2])
            op = d.o[0]; continue
        if d.op == "bitcast": op = d.o[0]; continue
        if d.op == "load":
            k = key(cx, fn, d.o[0])
            return ("*",) + k[1:] if k and k[0] == "f" else None
        return None


def persistent(cx):
    """structs reachable by type from the machine"""
    seen = set(); st = ["NKVM", "NKVMExecutionContext"]
    while st:
        s = st.pop()
        if s in seen: continue
        seen.add(s)
        for f, t, z in cx.mod.structs.get(s, {"fields": []})["fields"]:
            for w in t.replace("*", " ").replace("[", " ").split():
                if w in cx.mod.structs and w not in seen: st.append(w)
    # unions of element pointers
    for s in ("NKVMObject", "NKVMString"): 
        if s in cx.mod.structs and s not in seen:
            seen.add(s)
            st = [s]
            while st:
                x = st.pop()
                for f, t, z in cx.mod.structs[x]["fields"]:
                    for w in t.replace("*", " ").replace("[", " ").split():
                        if w in cx.mod.structs and w not in seen: seen.add(w); st.append(w)
    seen -= {"NKMemoryHeader", "NKCompilerState"}
    return seen


def check(cx, tier):
    mod = cx.mod; O = own(cx)
    roots = [fn for fn in mod.fns.values() if is_walker(cx, fn)]
    if not roots: raise Broken("no function walks the block list to release everything")
    dele = [i for i in mod.fns["nkxVmDelete"].calls() if "cb:NKVM.freeReplacement" in mod.cal(i)] if "nkxVmDelete" in mod.fns else []
    if not dele: raise Broken("machine deletion entry not found")
    ext_clean = set()
    for k, fs in mod.field_fns.items(): pass
    R = mod.reach([r.name for r in roots])
    # cleanup callbacks the machine registers with itself
    for fn in mod.fns.values():
        for i in fn.calls():
            if i.callee in ("nkxVmRegisterExternalType", "nkiVmRegisterExternalType"):
                for op in i.o:
                    if op[0] == "fn": R |= mod.reach([op[1]])
    P = persistent(cx)
    owned = {}
    for fn in mod.fns.values():
        for i in fn.all():
            if i.op != "store": continue
            for r in O.roots(fn, i.o[0]):
                if r[0] == "i" and O.is_alloc(fn.insts[r[1]]):
                    k = key(cx, fn, i.o[1])
                    if k and k[1] in P: owned.setdefault(k, i)
    # local variables whose address is the slot (loadInPlace style) are covered by their field stores
    cx.ownedkeys = set(owned)
    sites = {}
    for n in R:
        fn = mod.fns.get(n)
        if not fn: continue
        for i in fn.calls():
            for op in O.freed_operands(i):
                for r in O.roots(fn, op):
                    if r[0] == "i" and fn.insts[r[1]].op == "load":
                        k = key(cx, fn, fn.insts[r[1]].o[0])
                        if k: sites.setdefault(k, []).append((fn, i, op))
                    elif r[0] == "a":
                        sites.setdefault(("param", n, r[1]), []).append((fn, i, op))
    for k, st in sorted(owned.items()):
        if k[1:] in ALIASES: continue
        if k[1:] == ("NKVMTable", "u") and k[0] == "*": pass
        cx.ok("owned-field-released", 1, "%s.%s" % k[1:] + ("[]" if k[0] == "*" else ""))
        ss = sites.get(k, [])
        ss = [s for s in ss if on_teardown(cx, roots, s, R)]
        if not ss:
            cx.bad("owned-field-released", st, "block stored into %s.%s%s here is never released by the orderly teardown" % (k[1], k[2], "[]" if k[0] == "*" else ""), "%s.%s" % k[1:])
            continue
        whys = [must_run(cx, roots, s, R) for s in ss]
        if all(whys):
            cx.bad("owned-field-released", ss[0][1], "%s.%s%s: %s" % (k[1], k[2], "[]" if k[0] == "*" else "", whys[0]), "%s.%s/path" % k[1:])
    cx.need("owned-field-released", 18)
    walker(cx, roots)
    deletion(cx, dele, roots)
    subsystems(cx, roots)
    userdata(cx)


def is_walker(cx, fn):
    return any("cb:NKVM.freeReplacement" in cx.mod.cal(i) for i in fn.calls()) and \
        any(i.op == "store" and cx.mod.addr_field(fn, i.o[1]) == ("NKVM", "allocations") for i in fn.all())


def on_teardown(cx, roots, s, R): return s[0].name in R


def emptied(vn, p, b):
    """edge on which the block list is known empty"""
    return any(len(f) == 3 and f[0] == "eq" and f[2] == ("c", 0) and is_load_of(vn, f[1], "NKVM", "allocations") for f in vn.edge_facts(p, b))


def may_skip(cx, fn, vn):
    def se(p, b):
        if emptied(vn, p, b): return True
        for f in vn.edge_facts(p, b):
            if len(f) == 3 and f[0] == "eq" and f[2] == ("c", 0):
                e = strip(f[1])
                if e[0] == "L":
                    d = fn.insts[e[1]]
                    k = key(cx, fn, d.o[0])
                    if d.ty == "ptr" and k and (k in cx.ownedkeys or k[2].startswith("next") or k[0] == "*"): return True
                    if k and k[1:] in COUNT.values(): return True
                if e[0] in ("phi", "a") and ptr_typed(fn, e): return True
        return False
    return se


def ptr_typed(fn, e):
    if e[0] == "phi": return fn.insts[e[1]].ty == "ptr"
    if e[0] == "a": return fn.ditypes[e[1] + 1].endswith("*")
    return False


def must_run(cx, roots, site, R, depth=0, seen=()):
    """None if the release is executed on every orderly path, else why not"""
    fn, inst = site[0], site[1]
    if depth > 8: return "call chain too deep"
    vn = cx.vn(fn.name); P = cx.paths(fn)
    se = may_skip(cx, fn, vn)
    ls = loops_of(fn, inst.blk)
    point = inst
    for h, body in ls:
        # every iteration reaches the point
        if P.round_trip(h, body, lambda i: i is point, se): return "an iteration of the loop at line %s can skip the release" % fn.blocks[h][-1].ln
        w = partial(cx, fn, vn, h, body, point)
        if w: return w
        point = fn.blocks[h][0]
    w = P.escape(None, lambda i: i.op == "ret", stop=lambda i: i is point, stop_edge=se)
    if w: return "released at %s, but a path through %s skips it" % (inst.loc(), fn.name)
    if any(fn is r for r in roots): return None
    # some caller on the teardown tree must run it
    why = "no call of %s on the teardown path" % fn.name
    if fn.name in seen: return why
    for c in cx.mod.callers.get(fn.name, []):
        if c.fn.name not in R: continue
        w = must_run(cx, roots, (c.fn, c), R, depth + 1, seen + (fn.name,))
        if w is None: return None
        why = w
    if fn.name in cx.mod.addr_taken: return None      # run through the external-type cleanup callback
    return why


def partial(cx, fn, vn, h, body, point):
    """None if the loop visits everything"""
    live = lambda p, s: any(fn.blocks[x][-1].op == "ret" for x in [s] + list(fn.reach_blocks(s)))
    def ext(e):
        if e[0] == "c": return cx_array_extent(cx, e[1])
        if e[0] != "L": return False
        k = key(cx, fn, fn.insts[e[1]].o[0])
        return bool(k) and k[1:] in COUNT.values()
    for i in fn.blocks[h]:
        if i.op == "phi" and i.ty != "ptr":
            P = ("phi", i.id)
            for idx in (P, ("add", P, ("c", -1)), ("sub", P, ("c", 1))):
                if index_covers(fn, vn, h, body, idx, ext, live_exit=live, use=point) is None: return None
    for p, s in exit_edges(fn, body):
        if live(p, s) and not exhausted(cx, fn, vn, p, s): return "the loop at line %s can end before everything was visited" % (fn.blocks[p][-1].ln)
    for i in fn.blocks[h]:
        if i.op == "phi" and i.ty != "ptr":
            ind = induction(fn, vn, i)
            if ind and (ind[0] != ("c", 0) or ind[1] != 1): return "the loop at line %s does not visit every element (starts at %s, step %s)" % (fn.blocks[h][-1].ln, show(vn, ind[0]), ind[1])
    return None


def uses_index(vn, fn, point, inst, phi): return True


def exhausted(cx, fn, vn, p, s):
    for f in vn.edge_facts(p, s):
        if len(f) != 3: continue
        if f[0] == "eq" and f[2] == ("c", 0):
            e = strip(f[1])
            if e[0] in ("L",) and fn.insts[e[1]].ty == "ptr": return True
            if e[0] in ("phi", "a") and ptr_typed(fn, e): return True
    return False


def cx_array_extent(cx, n):
    """n is the full length of one of the machine's fixed bucket arrays"""
    import re
    for s, f in (("NKVM", "stringsByHash"), ("NKVM", "subsystemDataTable"), ("NKVMObject", "hashBuckets")):
        m = re.search(r"\[(\d+)\]", cx.mod.ftype(s, f))
        if m and int(m.group(1)) == n: return True
    return False


def walker(cx, roots):
    """the failed-machine path releases the whole block list"""
    for fn in roots:
        vn = cx.vn(fn.name)
        frees = [i for i in fn.calls() if "cb:NKVM.freeReplacement" in cx.mod.cal(i)]
        for s in frees:
            cx.ok("block-list-walk", 1, s.loc())
            ls = loops_of(fn, s.blk)
            if not ls: cx.bad("block-list-walk", s, "block list released outside a loop: only one block is given back", "noloop"); continue
            h, body = ls[0]
            for p, b in exit_edges(fn, body):
                if not emptied(vn, p, b): cx.bad("block-list-walk", fn.blocks[p][-1], "the walk over the block list can stop before the list is empty", "early")
            # head advanced to the successor read from the block that is released
            adv = [i for i in fn.all() if i.op == "store" and i.blk in body and cx.mod.addr_field(fn, i.o[1]) == ("NKVM", "allocations")]
            ptr = vn.expr(s.o[0])
            ok = [i for i in adv if loads_field(vn, vn.expr(i.o[0]), "NKMemoryHeader", "nextAllocation") == ptr]
            if not ok or len(ok) != len(adv): cx.bad("block-list-walk", s, "the walk does not advance to the successor of the released block", "advance")
            for i in ok:
                d = fn.insts[strip(vn.expr(i.o[0]))[1]]
                if not fn.dominates(d, s): cx.bad("block-list-walk", d, "the successor is read after the block was released", "order")
        # a failed machine must take that path; every return leaves the list empty or ran the orderly teardown
        P = cx.paths(fn)
        def failed_edge(p, b):
            return any(len(f) == 3 and f[0] == "eq" and f[2] == ("c", 0) and is_load_of(vn, strip(f[1]), "NKErrorState", "allocationFailure") for f in vn.edge_facts(p, b))
        w = P.escape(None, lambda i: i.op == "ret", stop_edge=lambda p, b: failed_edge(p, b) or emptied(vn, p, b))
        cx.ok("failed-machine-emptied")
        if w: cx.bad("failed-machine-emptied", w, "deleting a failed machine can return without releasing the whole block list", "failed")
        # after setjmp came back a second time
        from nk.throw import is_setjmp
        for i in fn.calls():
            if is_setjmp(i.callee):
                cx.ok("failed-during-teardown")
                e = vn.expr(["i", i.id])
                def normal(p, b): return any(len(f) == 3 and f[0] == "eq" and strip(f[1]) == e and f[2] == ("c", 0) for f in vn.edge_facts(p, b))
                w = P.escape(i, lambda j: j.op == "ret", stop_edge=lambda p, b: normal(p, b) or emptied(vn, p, b))
                if w: cx.bad("failed-during-teardown", i, "running out of memory during teardown returns without releasing what is left", "second")


def deletion(cx, dele, roots):
    fn = dele[0].fn; P = cx.paths(fn); vn = cx.vn(fn.name)
    names = {r.name for r in roots}
    run = lambda i: i.op == "call" and (i.callee in names or any(c in names for c in cx.mod.cal(i)))
    for d in dele:
        cx.ok("teardown-before-release", 1, d.loc())
        if fn.name in names: continue
        if P.escape(None, lambda i: i is d, stop=run): cx.bad("teardown-before-release", d, "the machine itself is released without tearing it down", "notorn")
    cx.ok("delete-releases")
    null = lambda p, b: any(len(f) == 3 and f[0] == "eq" and f[1] == ("a", 0) and f[2] == ("c", 0) for f in vn.edge_facts(p, b))
    if P.escape(None, lambda i: i.op == "ret", stop=lambda i: i in dele, stop_edge=null):
        cx.bad("delete-releases", fn.blocks[0][0], "deletion can return without giving the machine's own block back", "kept")


def subsystems(cx, roots):
    for fn in roots:
        vn = cx.vn(fn.name); P = cx.paths(fn)
        cs = [i for i in fn.calls() if any(c == "cb:NKVMExternalSubsystemData.cleanupCallback" for c in cx.mod.cal(i))]
        for i in cs:
            cx.ok("subsystem-cleanup", 1, i.loc())
            def nocb(p, b): return any(len(f) == 3 and f[0] == "eq" and f[2] == ("c", 0) and is_load_of(vn, f[1], "NKVMExternalSubsystemData", "cleanupCallback") for f in vn.edge_facts(p, b))
            pt = i
            for h, body in loops_of(fn, i.blk):
                w = P.round_trip(h, body, lambda j: j is pt, lambda p, b: nocb(p, b) or se_null(vn, fn, p, b))
                if w: cx.bad("subsystem-cleanup", i, "a registered subsystem's cleanup can be skipped", "iter")
                if partial(cx, fn, vn, h, body, pt): cx.bad("subsystem-cleanup", i, "not every subsystem is visited", "exit")
                pt = fn.blocks[h][0]
            if P.escape(None, lambda j: j.op == "ret", stop=lambda j: j is pt): cx.bad("subsystem-cleanup", i, "deletion can return without running subsystem cleanups", "path")
            # data pointer is the subsystem's own
            if not any(is_load_of(vn, vn.expr(o), "NKVMExternalSubsystemData", "data") for o in i.o): cx.bad("subsystem-cleanup", i, "cleanup is not given the subsystem's data", "data")
    cx.need("subsystem-cleanup", 1)


def se_null(vn, fn, p, b):
    for f in vn.edge_facts(p, b):
        if len(f) == 3 and f[0] == "eq" and f[2] == ("c", 0):
            e = strip(f[1])
            if e[0] == "L" and fn.insts[e[1]].ty == "ptr" and is_load_of(vn, e, "NKVM", "subsystemDataTable"): return True
    return False


def userdata(cx):
    """whoever copies the host's allocator into the machine also copies its user pointer"""
    mod = cx.mod
    for fn in mod.fns.values():
        vn = cx.vn(fn.name)
        for i in fn.all():
            if i.op == "store" and mod.addr_field(fn, i.o[1]) == ("NKVM", "mallocReplacement"):
                cx.ok("host-user-pointer", 1, i.loc())
                base = base_of(vn.addr(i.o[1]), "NKVM", "mallocReplacement")
                src = loads_field(vn, vn.expr(i.o[0]), "NKVMCreateParams", "mallocReplacement")
                P = cx.paths(fn)
                def cp(j):
                    return j.op == "store" and base_of(vn.addr(j.o[1]), "NKVM", "mallocAndFreeReplacementUserData") == base and (src is None or loads_field(vn, vn.expr(j.o[0]), "NKVMCreateParams", "mallocAndFreeReplacementUserData") == src)
                def fp(j):
                    return j.op == "store" and base_of(vn.addr(j.o[1]), "NKVM", "freeReplacement") == base and (src is None or loads_field(vn, vn.expr(j.o[0]), "NKVMCreateParams", "freeReplacement") == src)
                from nk.throw import is_setjmp
                uses = lambda j: j.op == "ret" or (j.op == "call" and (j.callee or "").startswith("nki") and j.callee != "nkiMemset")
                if P.escape(i, uses, stop=cp) and not any(cp(j) and fn.dominates(j, i) for j in fn.all()):
                    cx.bad("host-user-pointer", i, "the machine uses the host's allocator without the host's user pointer", "userdata")
                if P.escape(i, uses, stop=fp) and not any(fp(j) and fn.dominates(j, i) for j in fn.all()):
                    cx.bad("host-user-pointer", i, "the machine pairs the host's allocate callback with another release callback", "free")
    cx.need("host-user-pointer", 1)
