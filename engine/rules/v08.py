"""V08: configured stack and object-size limits hold on every growth."""
from nk.core import Broken
from nk.vn import strip, lin, subterms

META = {"level": "other", "technique": "guard dominance: every growth of an operand stack or of an object's field list is reached only through a comparison of the grown size with the host's limit, and the refusing side reports an error and changes nothing",
        "note": "Every store to a stack's capacity, an object's size or a bucket's head in the library is judged, as is every write to the limits themselves. Initial capacities of one or two slots are exempt.",
        "explains": "Growth sites are found from the stores, not by name. A stored capacity must be a constant of at most 2, a shrunken copy of the same stack's capacity, or at most maxStackSize by a branch on every path. A raised object size or a newly linked element needs size < maxFieldsPerObject on every path (or is taken back on every path where the test made afterwards fails). From every branch that finds the limit exceeded all paths record an error before returning and store nothing to the structure. Limits are only stored by initialisation and host setters."}

LIM = {"NKVMStack": ("NKVMLimits", "maxStackSize"), "NKVMObject": ("NKVMLimits", "maxFieldsPerObject")}


def islimit(vn, e, k):
    e = strip(e)
    return e[0] == "L" and vn.lastf(vn.addr(vn.fn.insts[e[1]].o[0])) == ("f",) + k


def within(vn, facts, v, k):
    """facts imply v <= limit"""
    t = lin(v)
    for f in facts:
        if len(f) != 3: continue
        p, a, b = f
        if p in ("ule", "ult", "eq") and islimit(vn, b, k) and lin(a) == t: return True
        if p == "eq" and islimit(vn, a, k) and lin(b) == t: return True
        # a < limit  and  v == a + 1
        if p == "ult" and islimit(vn, b, k):
            x = lin(a)
            if x[0] == t[0] and (t[1] - x[1]) % 2**32 == 1: return True
    return False


def room(vn, facts, base, k):
    """facts imply base.size < limit for the object at base"""
    for f in facts:
        if len(f) != 3: continue
        p, a, b = f
        if not islimit(vn, b, k): continue
        a = strip(a)
        if p == "ult" and size_of(vn, a, base): return True
        if p == "ule" and a[0] == "add" and any(size_of(vn, x, base) for x in a[1:]) and ("c", 1) in a: return True
    return False


def size_of(vn, e, base):
    if e[0] != "L": return False
    a = vn.addr(vn.fn.insts[e[1]].o[0])
    return a[0] == "gep" and a[2] and a[2][-1] == ("f", "NKVMObject", "size") and (a[1], a[2][:-1]) == base


def check(cx, tier):
    mod = cx.mod
    seen = {}
    for fn in mod.fns.values():
        vn = cx.vn(fn.name); P = cx.paths(fn)
        for i in fn.all():
            # the limits themselves
            if i.op == "getelementptr" and i.path and any(s[0] == "f" and s[1] == "NKVMLimits" for s in i.path):
                for u in fn.uses[i.id]:
                    if u.op == "load": continue
                    cx.ok("limit-owner", sample=u.loc())
                    if u.op == "store" and u.o[1] == ["i", i.id]:
                        v = vn.expr(u.o[0])
                        if v == ("c", -1) or v == ("c", 0xffffffff): continue
                        if v[0] == "a" and fn.name.startswith("nkx"): continue
                        cx.bad("limit-owner", u, "a limit set by the host is overwritten", "limit")
                    elif u.op == "call": cx.bad("limit-owner", u, "the address of a host limit is passed to %s" % (u.callee or "a callback"), "limit-escapes")
            if i.op != "store": continue
            a = vn.addr(i.o[1]); f = vn.lastf(a)
            if not f: continue
            k = f[1:3]
            if k == ("NKVMStack", "capacity") and a[2][-1] == f: capacity(cx, fn, vn, P, i, a)
            elif k == ("NKVMObject", "size") and a[2][-1] == f: size(cx, fn, vn, P, i, a)
            elif k == ("NKVMObject", "hashBuckets"): link(cx, fn, vn, P, i, a)
        refusals(cx, fn, vn, P)
        removal(cx, fn, vn, P)
    cx.need("stack-growth", 3); cx.need("field-removed", 1); cx.need("field-link", 1)
    cx.need("refusal", 3); cx.need("limit-owner", 6)


def shrunk(vn, e, a, seen):
    """e is at most the old capacity (or 2)"""
    e = strip(e)
    if e[0] == "c": return 0 <= e[1] <= 2
    if e[0] == "L": return vn.addr(vn.fn.insts[e[1]].o[0]) == a
    if e in seen: return True
    if e[0] == "phi":
        return all(shrunk(vn, vn.expr(v), a, seen | {e}) for v, b in vn.fn.insts[e[1]].o)
    if e[0] in ("lshr", "udiv") and e[2][0] == "c" and e[2][1] >= 0: return shrunk(vn, e[1], a, seen)
    if e[0] == "select": return all(shrunk(vn, x, a, seen) for x in e[2:4])
    return False


def capacity(cx, fn, vn, P, i, a):
    cx.ok("stack-growth", sample=i.loc())
    v = vn.expr(i.o[0]); k = LIM["NKVMStack"]
    if shrunk(vn, v, a, frozenset()): return
    def edge(p, b): return vn.infeasible(p, b) or within(vn, vn.edge_facts(p, b), v, k)
    if within(vn, vn.facts(i), v, k) or P.escape(None, lambda j: j is i, stop_edge=edge) is None: return
    cx.bad("stack-growth", i, "a stack's capacity is set without being compared with the host's stack limit", "capacity")


def size(cx, fn, vn, P, i, a):
    v = vn.expr(i.o[0]); k = LIM["NKVMObject"]
    base = (a[1], a[2][:-1])
    if v[0] == "c" and v[1] == 0: return
    t, c = lin(v)
    if c >= 0x80000000 and len(t) == 1:                 # lowered: exactly when a field is freed
        cx.ok("field-count", sample=i.loc())
        free = lambda j: j.op == "call" and j.callee == "nkiFree"
        if size_of(vn, list(t)[0][0], base) and P.escape(None, lambda j: j is i, stop=lambda j: free(j) or j.op == "store" and vn.expr(j.o[0])[0] == "call"):
            if not P.escape(i, lambda j: j.op == "ret", stop=free) is None:
                cx.bad("field-count", i, "an object's field count is lowered although no field is removed", "lowered")
        return
    if v[0] == "L" and False: return
    # taking back an increment
    cx.ok("field-count", sample=i.loc())
    def edge(p, b): return vn.infeasible(p, b) or room(vn, vn.edge_facts(p, b), base, k) or within(vn, vn.edge_facts(p, b), v, k)
    if room(vn, vn.facts(i), base, k) or within(vn, vn.facts(i), v, k): return
    if P.escape(None, lambda j: j is i, stop_edge=edge) is None: return
    old = v
    for x in subterms(v):
        if size_of(vn, x, base): old = x
    if old != v and P.escape(i, lambda j: j.op == "ret", stop=lambda j: j.op == "store" and vn.addr(j.o[1]) == a and vn.expr(j.o[0]) == old,
                             stop_edge=lambda p, b: within(vn, vn.edge_facts(p, b), v, k)) is None: return
    if old == v and old[0] == "L": return               # puts a value read earlier back
    cx.bad("field-count", i, "an object's field count is raised without being compared with the host's limit", "size")


def link(cx, fn, vn, P, i, a):
    """a new element becomes the head of a bucket"""
    v = vn.expr(i.o[0]); k = LIM["NKVMObject"]
    if v[0] == "c": return
    if not fresh(vn, v): return
    j = [n for n, s in enumerate(a[2]) if s[:1] == ("f",) and s[1:3] == ("NKVMObject", "hashBuckets")][-1]
    base = (a[1], a[2][:j])
    cx.ok("field-link", sample=i.loc())
    def edge(p, b): return vn.infeasible(p, b) or room(vn, vn.edge_facts(p, b), base, k)
    up = lambda x: x.op == "store" and vn.addr(x.o[1]) == ("gep", base[0], base[1] + (("f", "NKVMObject", "size"),))
    if P.escape(i, lambda x: x.op == "ret", stop=up) and P.escape(None, lambda x: x is i, stop=up):
        cx.bad("field-link", i, "a new field is linked into the object without being counted", "uncounted")
    if P.escape(None, lambda x: x is i, stop_edge=edge) is None: return
    cx.bad("field-link", i, "a new field is linked into the object before the field limit was checked", "link")


def removal(cx, fn, vn, P):
    """a field freed on its own (not with its whole object) is no longer counted"""
    def element(e, seen=frozenset()):
        e = strip(e)
        if e in seen: return True
        if e[0] == "L": return slot(vn.addr(vn.fn.insts[e[1]].o[0]), seen | {e})
        if e[0] == "phi": return any(element(vn.expr(v), seen | {e}) for v, b in vn.fn.insts[e[1]].o)
        return False
    def slot(a, seen):
        f = vn.lastf(a)
        if f: return a[2][-1] == f and f[1:] == ("NKVMObjectElement", "next") or f[1:] == ("NKVMObject", "hashBuckets")
        if a[1][0] == "phi" and not a[2]:
            if a[1] in seen: return True
            return any(slot(vn.addr(v), seen | {a[1]}) for v, b in vn.fn.insts[a[1][1]].o)
        return False
    fr = [(j, cx.ms.pointee(fn, j.o[1]) or (element(vn.expr(j.o[1])) and "NKVMObjectElement")) for j in fn.calls("nkiFree")]
    if any(t == "NKVMObject" for j, t in fr): return
    low = lambda x: x.op == "store" and vn.lastf(vn.addr(x.o[1])) == ("f", "NKVMObject", "size")
    for j, t in fr:
        if t != "NKVMObjectElement": continue
        cx.ok("field-removed", sample=j.loc())
        if P.escape(j, lambda x: x.op == "ret", stop=low) and P.escape(None, lambda x: x is j, stop=low):
            cx.bad("field-removed", j, "a field is freed without lowering the object's field count", "kept")


def fresh(vn, e, seen=()):
    if e[0] == "call": return True
    if e[0] == "phi" and e not in seen:
        return any(fresh(vn, vn.expr(v), seen + (e,)) for v, b in vn.fn.insts[e[1]].o)
    return False


def refusals(cx, fn, vn, P):
    for p in fn.rpo:
        for b in fn.succs[p]:
            for f in vn.edge_facts(p, b):
                if len(f) != 3 or f[0] not in ("ult", "ule"): continue
                for s, k in LIM.items():
                    if not islimit(vn, f[1], k): continue
                    if strip(f[2])[0] == "c": continue
                    cx.ok("refusal", sample="%s -> %s" % (fn.blocks[p][-1].loc(), fn.blocks[b][0].ln))
                    t = fn.blocks[p][-1]
                    first = fn.blocks[b][0]
                    err = lambda j: j.op == "call" and (j.callee or "") in errors(cx)
                    if P.escape(first, lambda j: j.op == "ret", stop=err, inclusive=True, stop_edge=lambda x, y: vn.infeasible(x, y)):
                        cx.bad("refusal", t, "exceeding %s is not reported as an error on every path" % k[1], "silent")
                    def writes(j):
                        if j.op != "store": return False
                        g = vn.lastf(vn.addr(j.o[1]))
                        return bool(g) and g[1] in (s, "NKVMObjectElement") and not restores(vn, j)
                    w = P.escape(first, writes, inclusive=True)
                    if w: cx.bad("refusal", w, "the structure is changed although %s was exceeded" % k[1], "changed")


def restores(vn, j):
    v = vn.expr(j.o[0])
    return v[0] == "L" and vn.addr(vn.fn.insts[v[1]].o[0]) == vn.addr(j.o[1])


def errors(cx):
    """functions that record an error on every path"""
    if hasattr(cx, "_errfns"): return cx._errfns
    r = {n for n in cx.mod.fns if n in ("nkiAddError", "nkiAddErrorEx", "nkxAddError", "nkiCompilerAddError")}
    if not r: raise Broken("error recorder not found")
    ch = True
    while ch:
        ch = False
        for n, fn in cx.mod.fns.items():
            if n in r: continue
            if not any((i.callee or "") in r for i in fn.calls()): continue
            if cx.paths(fn).escape(None, lambda i: i.op == "ret", stop=lambda i: i.op == "call" and (i.callee or "") in r) is None: r.add(n); ch = True
    cx._errfns = r
    return r
