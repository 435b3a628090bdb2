"""G04: compacting the machine keeps every reference."""
from nk.core import Broken
from nk.loops import loops, loops_of, exit_edges, index_covers, induction
from nk.vn import strip, is_load_of, subterms
from rules.h02 import T, canon, same_elem, shape, unlinked, cases

META = {"level": "other", "technique": "coverage analysis of the relocation routines: every store that moves a table entry is matched with complete sweeps over each kind of reference holder, path queries on the sweeps, dominating guards at the call sites",
        "note": "Values a host keeps in its own memory without a handle are not references the machine knows and are outside the property. The set of reference holders is the one the collector marks from (stacks, statics, fields, the entry's own index); what the collector itself covers is G01.",
        "explains": "A store that moves an entry of the object or string table to another slot must also empty the old slot, set the entry's own index, and be followed on every path by sweeps over the whole root stack, every coroutine's whole stack, all statics, and key and value of every field of every object, each of which replaces the reference exactly when tag and slot match; nothing else is rewritten. Entries the machine cannot rewrite everywhere (objects with host handles, coroutine objects, pinned strings) are excluded by a check that dominates the move. A table or stack is only cut to a capacity above its highest used position."}

TAB = {"objectTable": ("NKVMObject", "objectTableIndex", "NK_VALUETYPE_OBJECTID"), "stringTable": ("NKVMString", "stringTableIndex", "NK_VALUETYPE_STRING")}
TY = ("f", "NKValue", "u"); PAY = ("f", "NKValue", "u1"); DATA = ("f", "NKVMTable", "u")
WHAT = {"root": "the root stack", "coroutine": "the stacks of all coroutines", "statics": "the static variables", "key": "the keys of all objects' fields", "value": "the values of all objects' fields"}


def slot(vn, a):
    """(table, index) if a is the address of a slot of the object or string table"""
    if a[0] != "gep" or len(a[2]) != 1 or a[2][0][0] != "x" or a[1][0] != "L": return None
    b = vn.addr(vn.fn.insts[a[1][1]].o[0])
    if b[2][-1:] != (DATA,) or len(b[2]) < 2: return None
    t = b[2][-2]
    return (t[2], strip(a[2][0][1])) if t[0] == "f" and t[1] == "NKVM" and t[2] in TAB else None


def moves(vn):
    for s in vn.fn.all():
        if s.op != "store": continue
        d = slot(vn, vn.addr(s.o[1]))
        if d is None: continue
        v = vn.expr(s.o[0])
        if v[0] != "L": continue
        o = slot(vn, vn.addr(vn.fn.insts[v[1]].o[0]))
        if o is None or o[0] != d[0] or o[1] == d[1]: continue
        yield s, d[0], v, o[1], d[1]


def addr_of(vn, e):
    e = strip(e)
    return vn.addr(vn.fn.insts[e[1]].o[0]) if e[0] == "L" else None


def check(cx, tier):
    mod = cx.mod
    for s, f in (("NKVM", "objectTable"), ("NKVM", "stringTable"), ("NKVM", "staticSpace"), ("NKVM", "staticAddressMask"), ("NKVM", "rootExecutionContext"), ("NKVMStack", "values"), ("NKVMStack", "size"),
                 ("NKVMObjectElement", "key"), ("NKVMObjectElement", "value"), ("NKVMObject", "externalHandleCount"), ("NKVMString", "dontGC")):
        if not any(x[0] == f for x in mod.structs.get(s, {"fields": []})["fields"]): raise Broken("%s.%s not found" % (s, f))
    tags = dict(mod.enums["NKValueType"])
    for name in sorted(mod.fns):
        fn = mod.fns[name]
        if not any(i.op == "getelementptr" and i.path and any(st[0] == "f" and (st[1], st[2]) in (("NKVM", "objectTable"), ("NKVM", "stringTable")) for st in i.path) for i in fn.all()): continue
        vn = cx.vn(name)
        for m in moves(vn): moved(cx, fn, vn, tags, *m)
    cuts(cx)
    cx.need("moved", 2); cx.need("cut", 2)


def moved(cx, fn, vn, tags, s, table, V, old, new):
    cx.ok("moved"); P = cx.paths(fn)
    S, idx, tagname = TAB[table]; tag = tags[tagname]
    kind = "an object" if table == "objectTable" else "a string"
    # own index and old slot
    def st(pred): return [q for q in fn.all() if q.op == "store" and pred(q)]
    own = st(lambda q: (lambda a: a[0] == "gep" and a[2][-1:] == (("f", S, idx),) and names(vn, canon(("gep", a[1], a[2][:-1])), V, table, old, new))(vn.addr(q.o[1])))
    if not any(strip(vn.expr(q.o[0])) == new and (fn.dominates(q, s) or P.escape(s, lambda i: i.op == "ret", stop=lambda i: i is q) is None) for q in own): cx.bad("index", s, "%s is moved to another slot but keeps its old index" % kind, table)
    gone = st(lambda q: slot(vn, vn.addr(q.o[1])) == (table, old) and vn.expr(q.o[0]) == ("c", 0))
    if not any(P.escape(s, lambda i: i.op == "ret", stop=lambda i: i is q) is None or fn.dominates(q, s) and fn.dominates(fn.insts[V[1]], q) for q in gone): cx.bad("index", s, "the slot %s is moved out of is not emptied" % kind, table + "-old")
    guards(cx, fn, vn, s, table, V, old, new)
    sites = {}
    writes = {}
    for q in fn.all():
        if q.op == "store":
            a = vn.addr(q.o[1])
            if a[0] == "gep" and PAY in a[2]:
                b = canon(("gep", a[1], a[2][:a[2].index(PAY)]))
                writes.setdefault(shape(vn, b), []).append((q, b))
    for k, qs in writes.items():
        for q, b in qs:
            if b[0] == "al" or b[0] == "gep" and b[1][0] == "al": continue
            cx.ok("rewrite")
            fs = vn.facts(q)
            if strip(vn.expr(q.o[0])) != new: cx.bad("rewrite", q, "a reference to the moved entry is given something else than its new slot", "other"); continue
            if not any(len(f) == 3 and f[0] == "eq" and ("c", tag) in f[1:3] and any(at(vn, x, b, TY) for x in f[1:3]) for f in fs): cx.bad("rewrite", q, "a value is rewritten although it may not refer to %s" % kind, "tag")
            if not any(len(f) == 3 and f[0] == "eq" and old in map(strip, f[1:3]) and any(at(vn, x, b, PAY) for x in f[1:3]) for f in fs): cx.bad("rewrite", q, "a value is rewritten although it may not refer to the moved entry", "slot")
            c = classify(vn, b)
            if c: sites.setdefault(c[0], []).append((q, b, c[1]))
    for c in WHAT:
        got = sites.get(c)
        if not got:
            cx.bad("covered", s, "%s is moved without the references in %s being rewritten" % (kind, WHAT[c]), "%s/%s" % (table, c)); continue
        why = [sweep(cx, fn, vn, P, c, s, q, b, ix, tag, old) for q, b, ix in got]
        if all(why): cx.bad("covered", got[0][0], "not all references in %s are rewritten when %s is moved: %s" % (WHAT[c], kind, why[0]), "%s/%s" % (table, c))
        else: cx.ok("covered")


def names(vn, e, V, table, old, new):
    if same_elem(vn, e, V): return True
    a = addr_of(vn, e)
    o = slot(vn, a) if a else None
    return o is not None and o[0] == table and o[1] in (old, new)


def at(vn, x, b, f):
    """x is a load of member f of the value at b"""
    a = addr_of(vn, x)
    if a is None: return False
    for k, st in enumerate(a[2]):
        if st == f and shape(vn, canon(("gep", a[1], a[2][:k]))) == shape(vn, b): return True
    return False


def classify(vn, b):
    """(class, indexes) of the holder of the value at b"""
    if b[0] != "gep": return None
    if b[2] and b[2][-1] in (("f", "NKVMObjectElement", "key"), ("f", "NKVMObjectElement", "value")):
        return b[2][-1][2], canon(("gep", b[1], b[2][:-1]))
    if len(b[2]) == 1 and b[2][0][0] == "x":
        a = addr_of(vn, b[1])
        if a is None: return None
        if a[2][-1:] == (("f", "NKVM", "staticSpace"),): return "statics", b
        if a[2][-1:] == (("f", "NKVMStack", "values"),):
            if ("f", "NKVM", "rootExecutionContext") in a[2]: return "root", b
            o = addr_of(vn, a[1]) if a[1][0] == "L" else None
            if o is not None and o[2][-1:] == (("f", "NKVMObject", "externalData"),): return "coroutine", b
    return None


def inner(fn, blk):
    ls = loops_of(fn, blk)
    return ls


def sweep(cx, fn, vn, P, c, move, q, b, ix, tag, old):
    """None when the loops around rewriting store q visit every holder of class c and rewrite each match"""
    ls = loops_of(fn, q.blk)
    if not ls: return "they are not swept over"
    h, body = ls[0]
    def differs(p, s):
        for f in vn.edge_facts(p, s):
            if len(f) != 3: continue
            if f[0] == "ne" and ("c", tag) in f[1:3] and any(at(vn, x, b, TY) for x in f[1:3]): return True
            if f[0] == "ne" and old in map(strip, f[1:3]) and any(at(vn, x, b, PAY) for x in f[1:3]): return True
            if f[0] == "in" and at(vn, f[1], b, TY) and tag not in f[2]: return True
            if f[0] == "eq" and any(at(vn, x, b, TY) for x in f[1:3]) and any(x[0] == "c" and x[1] != tag for x in f[1:3]): return True
        return False
    if P.round_trip(h, body, lambda i: i is q, differs): return "a match can be left as it is"
    field = c in ("key", "value")
    if field:
        E = ix
        why = chain(fn, vn, h, body, E)
        if why: return why
    else:
        x = strip(b[2][0][1])
        if c == "statics": r = index_covers(fn, vn, h, body, x, lambda e: strip(e)[0] == "add" and ("c", 1) in strip(e)[1:] and any(is_load_of(vn, strip(y), "NKVM", "staticAddressMask") for y in strip(e)[1:]), lambda e: is_load_of(vn, e, "NKVM", "staticAddressMask"), use=q)
        else:
            sa = addr_of(vn, b[1]); want = shape(vn, ("gep", sa[1], sa[2][:-1] + (("f", "NKVMStack", "size"),)))
            r = index_covers(fn, vn, h, body, x, lambda e: addr_of(vn, e) is not None and shape(vn, addr_of(vn, e)) == want, use=q)
        if r: return r
    depth = 1
    entry = h
    ob = None
    def skip(p, s):
        for f in vn.edge_facts(p, s):
            if len(f) != 3: continue
            for x, y in ((f[1], f[2]), (f[2], f[1])):
                a = addr_of(vn, x)
                if a is None: continue
                last = a[2][-1:]
                if f[0] == "eq" and y == ("c", 0) and (slot(vn, a) or last in ((("f", "NKVMObject", "externalData"),), (("f", "NKVM", "staticSpace"),), (("f", "NKVMStack", "values"),))): return True
                if f[0] == "ne" and c == "coroutine" and last == (("f", "NKVMExternalDataTypeID", "id"),): return True
        return False
    if field:
        if len(ls) < 3: return "the buckets are not swept over"
        h2, body2 = ls[1]
        cell = start_cell(fn, vn, h, body, ix)
        if cell is None: return "a chain is not followed from its bucket"
        k = strip(cell[0]); o = cell[1]
        t = T(cx, "field")
        n = int(str(cx.mod.ftype("NKVMObject", "hashBuckets")).split("[")[-1].rstrip("]")) if "[" in str(cx.mod.ftype("NKVMObject", "hashBuckets")) else None
        r = index_covers(fn, vn, h2, body2, k, lambda e: e[0] == "c" and (n is None or e[1] == n), lambda e: e[0] == "c" and n is not None and e[1] == n - 1)
        if r: return r
        if P.round_trip(h2, body2, lambda i: i.blk == h, skip): return "a bucket can be skipped"
        entry = h2; ob = o; depth = 2
    elif c == "coroutine":
        if len(ls) < 2: return "the objects are not swept over"
        sa = addr_of(vn, b[1]); oa = addr_of(vn, sa[1])
        ob = canon(("gep", oa[1], oa[2][:-1]))
    if ob is not None:
        if len(ls) <= depth: return "the objects are not swept over"
        h3, body3 = ls[depth]
        a = addr_of(vn, ob); sl = slot(vn, a) if a else None
        if sl is None or sl[0] != "objectTable": return "the objects are not taken from the object table"
        r = index_covers(fn, vn, h3, body3, sl[1], lambda e: addr_of(vn, e) is not None and addr_of(vn, e)[2][-2:] == (("f", "NKVM", "objectTable"), ("f", "NKVMTable", "capacity")))
        if r: return r
        if P.round_trip(h3, body3, lambda i: i.blk == entry, skip): return "an object can be skipped"
        entry = h3
    first = fn.blocks[entry][0]
    if P.escape(move, lambda i: i.op == "ret", stop=lambda i: i.blk == entry, stop_edge=skip) is not None: return "the sweep can be left out"
    return None


def chain(fn, vn, h, body, E):
    ph = None
    if E[0] == "phi" and fn.insts[E[1]].blk == h: ph, ptr = fn.insts[E[1]], False
    elif E[0] == "L":
        a = canon(addr_of(vn, E))
        if a[0] == "phi" and fn.insts[a[1]].blk == h: ph, ptr = fn.insts[a[1]], True
    if ph is None: return "the chain is not followed"
    for v, p in ph.o:
        if p not in body: continue
        for e, q in leaves(fn, vn, v, p, ph):
            if ptr and e == ("phi", ph.id):
                # the element was taken out, its successor is in the cell now
                if not any(s.op == "store" and canon(vn.expr(s.o[1])) == e and fn.dominates(s, fn.blocks[q][-1]) for s in fn.all()): return "the chain is not followed"
                continue
            l = e if ptr else (addr_of(vn, e) if e[0] == "L" else None)
            if l is None or l[0] != "gep" or l[2][-1:] != (("f", "NKVMObjectElement", "next"),) or not same_elem(vn, canon(("gep", l[1], l[2][:-1])), E): return "the chain is not followed element by element"
    for p, s in exit_edges(fn, body):
        if fn.blocks[s][-1].op == "unreachable": continue
        if not any(len(f) == 3 and f[0] == "eq" and ("c", 0) in f[1:3] and any(same_elem(vn, x, E) for x in f[1:3]) for f in vn.edge_facts(p, s)): return "the chain can be left before its end"
    return None


def leaves(fn, vn, v, p, ph, seen=None):
    seen = set() if seen is None else seen
    e = canon(vn.expr(v))
    if e[0] == "phi" and e != ("phi", ph.id) and e not in seen:
        seen.add(e)
        for w, q in fn.insts[e[1]].o: yield from leaves(fn, vn, w, q, ph, seen)
    else: yield e, p


def start_cell(fn, vn, h, body, E):
    """(index, object) of the bucket a chain walk starts at"""
    if E[0] == "phi": ph, ptr = fn.insts[E[1]], False
    else: ph, ptr = fn.insts[canon(addr_of(vn, E))[1]], True
    for v, p in ph.o:
        if p in body: continue
        e = canon(vn.expr(v))
        a = e if ptr else (addr_of(vn, e) if e[0] == "L" else None)
        if a is None or a[0] != "gep": return None
        for k, st in enumerate(a[2]):
            if st == ("f", "NKVMObject", "hashBuckets") and k + 1 < len(a[2]): return a[2][k + 1][1], canon(("gep", a[1], a[2][:k]))
    return None


def guards(cx, fn, vn, s, table, V, old, new):
    """entries that cannot be rewritten everywhere are never moved"""
    mod = cx.mod
    def judged(v2, ins, oldx):
        ok = set()
        def entry(a, steps):
            if a is None or a[0] != "gep" or len(a[2]) < len(steps) or a[2][-len(steps):] != steps: return False
            b = canon(("gep", a[1], a[2][:-len(steps)])); o = addr_of(v2, b)
            o = slot(v2, o) if o else None
            return o is not None and o[0] == table and o[1] == oldx
        for f in v2.facts(ins):
            if len(f) != 3: continue
            for x, y in ((f[1], f[2]), (f[2], f[1])):
                a = addr_of(v2, x)
                if f[0] == "eq" and y == ("c", 0):
                    if entry(a, (("f", "NKVMObject", "externalHandleCount"),)): ok.add("handles")
                    if entry(a, (("f", "NKVMString", "dontGC"),)): ok.add("pinned")
                if f[0] == "ne" and entry(a, (("f", "NKVMObject", "externalDataType"), ("f", "NKVMExternalDataTypeID", "id"))):
                    b = addr_of(v2, y)
                    if b is not None and any(st[0] == "f" and st[2] == "internalObjectTypes" for st in b[2]): ok.add("coroutine")
                    if strip(y)[0] == "c": pass
        return ok
    need = {"handles": "an object the host holds a handle to can be moved, and the host's value cannot be rewritten", "coroutine": "a coroutine object can be moved, and the machine's own records of it are not rewritten"} if table == "objectTable" \
        else {"pinned": "a pinned string (a literal in the program) can be moved, and the program is not rewritten"}
    here = judged(vn, s, old)
    missing = set(need) - here
    cx.ok("guard", len(need))
    if not missing: return
    if old[0] != "a":
        for m in missing: cx.bad("guard", s, need[m], m)
        return
    calls = [c for c in mod.callers.get(fn.name, [])]
    if not calls: 
        for m in missing: cx.bad("guard", s, need[m], m)
    for c in calls:
        v2 = cx.vn(c.fn.name)
        left = missing - judged(v2, c, strip(v2.expr(c.o[old[1]])))
        for m in left: cx.bad("guard", c, need[m], m)


def cuts(cx):
    """capacities that are lowered stay above what is used"""
    mod = cx.mod
    for S, F in (("NKVMTable", "capacity"), ("NKVMStack", "capacity")):
        for name in sorted(mod.fns):
            fn = mod.fns[name]
            if not any(i.op == "getelementptr" and i.path and i.path[-1] == ["f", S, F] for i in fn.all()) and not any(i.op == "getelementptr" and i.path and tuple(i.path[-1]) == ("f", S, F) for i in fn.all()): continue
            vn = cx.vn(name)
            for s in fn.all():
                if s.op != "store": continue
                a = vn.addr(s.o[1])
                if a[2][-1:] != (("f", S, F),): continue
                e = strip(vn.expr(s.o[0]))
                if not shrinks(fn, vn, e): continue
                base = canon(("gep", a[1], a[2][:-1]))
                cx.ok("cut")
                why = above(cx, fn, vn, S, base, e, set())
                if why: cx.bad("cut", s, "the capacity can be lowered to or below a position that is in use: %s" % why, F)


def shrinks(fn, vn, e, seen=None):
    seen = set() if seen is None else seen
    if e in seen: return False
    seen.add(e)
    if e[0] in ("lshr", "udiv", "sub"): return True
    if e[0] == "phi": return any(shrinks(fn, vn, strip(vn.expr(v)), seen) for v, p in fn.insts[e[1]].o)
    return False


def above(cx, fn, vn, S, base, e, seen, edge=None):
    """None if every value e can take is the old capacity, a constant of at least one, or was compared to be above what is used"""
    if e in seen: return None
    seen.add(e)
    if e[0] == "c": return None if e[1] >= 1 else "it can become zero"
    if e[0] == "phi":
        d = fn.insts[e[1]]
        for v, p in d.o:
            w = above(cx, fn, vn, S, base, strip(vn.expr(v)), seen, (p, d.blk))
            if w: return w
        return None
    a = addr_of(vn, e)
    if a is not None and a[2][-1:] == (("f", S, "capacity"),): return None
    if edge is None: return "the new capacity is not compared with what is used"
    fs = set(vn.block_facts(edge[0])) | set(vn.edge_facts(*edge))
    for f in fs:
        if len(f) != 3 or f[0] not in ("ult", "ule"): continue
        if strip(f[2]) != e: continue
        x = strip(f[1])
        if used(cx, fn, vn, S, base, x): 
            if f[0] == "ult" or S == "NKVMStack": return None
            return "the highest used position itself is left out"
    return "the new capacity is not compared with what is used"


def used(cx, fn, vn, S, base, x):
    """x is at least the highest used position"""
    if S == "NKVMStack":
        a = addr_of(vn, x)
        return a is not None and a[2][-1:] == (("f", "NKVMStack", "size"),) and canon(("gep", a[1], a[2][:-1])) == base
    # the index of the last non-empty entry found by a full sweep
    if x[0] != "phi": return False
    d = fn.insts[x[1]]
    if found_from_top(cx, fn, vn, d): return True
    for h, body in loops(fn):
        if d.blk != h: continue
        for p in fn.blocks[h]:
            if p.op != "phi" or p is d: continue
            I = ("phi", p.id)
            if index_covers(fn, vn, h, body, I, lambda e: addr_of(vn, e) is not None and addr_of(vn, e)[2][-1:] == (("f", "NKVMTable", "capacity"),)): continue
            # each round: either the entry is empty or the index is taken
            ok = True
            def walk(v, q, seen):
                nonlocal ok
                e = strip(vn.expr(v))
                if e == I: return
                if e == x:
                    fs = set(vn.block_facts(q)) 
                    for s in fn.succs[q]:
                        if s in tgt: fs |= set(vn.edge_facts(q, s))
                    if not any(len(f) == 3 and f[0] == "eq" and ("c", 0) in f[1:3] and any(entry(vn, y, I) for y in f[1:3]) for f in fs): ok = False
                    return
                if e[0] == "phi" and e not in seen:
                    seen.add(e); dd = fn.insts[e[1]]; tgt.add(dd.blk)
                    for w, r in dd.o: walk(w, r, seen)
                    return
                ok = False
            tgt = {h}
            for v, q in d.o:
                if q in body: walk(v, q, set())
            if ok: return True
    return False


def found_from_top(cx, fn, vn, d):
    """d is the index of the first non-empty entry met when going down from the capacity"""
    P = cx.paths(fn); got = False
    for v, p in d.o:
        e = strip(vn.expr(v))
        if e[0] == "c": continue
        good = False
        for h, body in loops(fn):
            def state(a, b, pr): return any(len(f) == 3 and f[0] == pr and ("c", 0) in f[1:3] and any(entry(vn, y, e) for y in f[1:3]) for f in vn.edge_facts(a, b))
            ind = [i for i in fn.blocks[h] if i.op == "phi" and (lambda q: q is not None and q[1] == -1)(induction(fn, vn, i))]
            if not ind or d.blk in body: continue
            if index_covers(fn, vn, h, body, e, lambda x: addr_of(vn, x) is not None and addr_of(vn, x)[2][-1:] == (("f", "NKVMTable", "capacity"),), live_exit=lambda a, b: not state(a, b, "ne")): continue
            if P.round_trip(h, body, lambda i: False, lambda a, b: state(a, b, "eq")): continue
            if all(e2 == e or e2[0] == "c" for e2 in (strip(vn.expr(w)) for w, q in d.o)): good = True
        if not good: return False
        got = True
    return got


def entry(vn, y, I):
    a = addr_of(vn, y)
    if a is None or a[0] != "gep" or len(a[2]) != 1 or a[2][0][0] != "x" or strip(a[2][0][1]) != I: return False
    b = addr_of(vn, a[1])
    return b is not None and b[2][-1:] == (DATA,)
