"""G03: handle count and handle list agree."""
from nk.core import Broken
from nk.heap import Heap
from nk.pwalk import mentions
from nk.vn import lin, strip
from rules.v08 import errors

META = {"level": "other", "technique": "path-sensitive shape analysis: the effect of every path on an object's handle count and on the doubly linked handle list is compared with the list operation the count change calls for",
        "note": "Covers every function that writes the handle count, the list links or the list head, and every release of an object. Different symbolic objects (the object, the list head's target, its successor) are taken to be distinct, which the list invariant itself gives.",
        "explains": "For every path of those functions the final contents of count, next, previous, list head and the neighbours' previous pointers are tracked symbolically. A count going from zero to nonzero must link the object completely, one going to zero must unlink it completely, any other change leaves the list alone; a decrement needs a branch showing the count is not zero, an increment one showing it did not wrap, a count read from a saved state must be followed by the link unless it is tested to be zero. A path that changes nothing in an acquire or release records an error. An object is freed only unlinked, or newly made."}

OBJ = "NKVMObject"
CNT = ("f", OBJ, "externalHandleCount"); NEXT = ("f", OBJ, "nextObjectWithExternalHandles"); PREV = ("f", OBJ, "previousExternalHandleListPtr")
HEAD = ("f", "NKVM", "objectsWithExternalHandles")
CELLS = (CNT, NEXT, PREV, HEAD)


def cell(o, f): return ("addr", o, (f,))


def check(cx, tier):
    mod = cx.mod
    for s, f in ((OBJ, CNT), (OBJ, NEXT), (OBJ, PREV), ("NKVM", HEAD)):
        if not any(x[0] == f[2] for x in mod.structs.get(s, {"fields": []})["fields"]): raise Broken("%s.%s not found" % (s, f[2]))
    for fn in mod.fns.values():
        kinds = set(); frees = []
        for i in fn.all():
            if i.op == "store":
                k = mod.addr_field(fn, i.o[1])
                if k and ("f",) + k in CELLS: kinds.add(k)
            elif i.op == "call":
                for o in i.o:
                    k = mod.addr_field(fn, o)
                    if k and ("f",) + k in CELLS and o[0] == "i" and fn.insts[o[1]].op == "getelementptr" and not (i.callee or "").startswith("llvm."): kinds.add(k)
                if i.callee == "nkiFree" and freed_object(cx, fn, i): frees.append(i)
                if (i.callee or "").startswith("llvm.memset") and cx.ms.pointee(fn, i.o[0]) == OBJ: wiped(cx, fn, i)
        if kinds or frees: paths(cx, fn, kinds, frees)
    cx.need("count-list", 4); cx.need("freed-unlinked", 1); cx.need("error-recorded", 1)


def freed_object(cx, fn, i):
    return cx.ms.pointee(fn, i.o[1]) == OBJ


def wiped(cx, fn, i):
    """clearing an object's fields also clears its links"""
    e = cx.vn(fn.name).expr(i.o[0])
    cx.ok("wiped-fresh", sample=i.loc())
    def fresh(f, e): return e[0] == "call" and (f.insts[e[1]].callee or "") in ("nkiMalloc", "nkiMalloc_real") or e[0] == "call" and "alloc" in (f.insts[e[1]].callee or "").lower()
    if fresh(fn, e): return
    if e[0] == "a":
        for c in cx.mod.callers.get(fn.name, []):
            x = cx.vn(c.fn.name).expr(c.o[e[1]])
            if not fresh(c.fn, x): cx.bad("wiped-fresh", c, "an object that may be on the handle list is cleared", "wiped")
        return
    cx.bad("wiped-fresh", i, "an object that may be on the handle list is cleared", "wiped")


def creation(cx, fn):
    def w(f): return any(i.op == "store" and cx.mod.addr_field(f, i.o[1]) == ("NKVM", "allocations") and cx.vn(f.name).expr(i.o[0]) == ("c", 0) for i in f.all())
    return w(fn) or bool(cx.mod.callers.get(fn.name)) and all(w(c.fn) for c in cx.mod.callers[fn.name])


def paths(cx, fn, kinds, frees):
    vn = cx.vn(fn.name)
    changes = CNT[1:] in kinds and any(i.op == "store" and cx.mod.addr_field(fn, i.o[1]) == CNT[1:] for i in fn.all())
    if kinds == {HEAD[1:]} and creation(cx, fn):
        cx.ok("count-list", sample=fn.name + " (new machine)"); return
    bads = {}
    def bad(i, rule, what, key): bads.setdefault((key,), (i, rule, what, key))
    n = [0]
    fr = {i.id for i in frees}
    def visit(i, st):
        if i.op == "call":
            if (i.callee or "") in errors(cx): st.marks.add("err")
            if i.id in fr: freed(i, st)
        if i.op == "ret" and (kinds - set()): n[0] += 1; final(i, st)
    def freed(i, st):
        o = w.pv(i.o[1], st)
        cx.ok("freed-unlinked") if i.id not in seenf else None
        seenf.add(i.id)
        if o[0] == "v" and "alloc" in (fn.insts[o[1]].callee or "").lower() and not linked_any(st, o): return
        p = st.mem.get(cell(o, PREV), ("ld", cell(o, PREV)))
        if w.eq(st, p, ("c", 0)): return
        cnt = st.mem.get(cell(o, CNT), ("ld", cell(o, CNT)))
        if w.eq(st, cnt, ("c", 0)): return
        if unlink_done(st, o, cleared=False) is None: return
        bad(i, "freed-unlinked", "an object is freed while the handle list may still point to it", "freed")
    seenf = set()
    def linked_any(st, o): return any(v == o and l[2][-1:] in ((HEAD,), (NEXT,)) for l, v in st.mem.items())
    def get(st, l): return st.mem.get(l, ("ld", l))
    def head(st):
        for l in st.mem:
            if l[2] and l[2][-1] == HEAD: return l
        return None
    def changed(st):
        return {l: v for l, v in st.mem.items() if v != ("ld", l) and (l[2] and l[2][-1] in (NEXT, PREV, HEAD) or not l[2] and ptr(l[1]))}
    def ptr(v): return v[0] == "ld" and v[1][2] and v[1][2][-1] in (PREV, NEXT)
    def value(st, c0):
        for p, a, b in st.facts:
            for x, y in ((a, b), (b, a)):
                if p == "eq" and y[0] == "c":
                    tx, cc = lin(x)
                    if tx == lin(c0)[0]: return (y[1] - cc) % 2**32
        return None
    def rng(st, c0, c1):
        """(low, high) of c0 from what is known about it and about c1 = c0 + d"""
        v = value(st, c0)
        if v is not None: return v, v
        lo, hi = w.low(st, c0), w.high(st, c0)
        for f in list(st.facts):
            for x in f[1:]:
                t, c = lin(x)
                if t == lin(c0)[0] and x != c0:
                    l1, h1 = w.low(st, x), w.high(st, x)
                    if l1 == 0 and h1 == 2**32 - 1: continue
                    # x = c0 + c mod 2^32
                    d = c if c < 0x80000000 else c - 2**32
                    if 0 <= l1 - d and h1 - d < 2**32: lo, hi = max(lo, l1 - d), min(hi, h1 - d)
                    elif d > 0 and l1 >= d: lo, hi = max(lo, l1 - d), min(hi, h1 - d)
        return lo, hi
    def link_done(st, o):
        h = head(st)
        if h is None: return "the list head is not touched"
        h0 = ("ld", h)
        if get(st, h) != o: return "the list head does not point to the object"
        if get(st, cell(o, NEXT)) != h0: return "the object does not point to the old head"
        if get(st, cell(o, PREV)) not in (h, ("addr", h[1], h[2])): return "the object's back pointer does not point to the list head"
        if not w.eq(st, h0, ("c", 0)) and get(st, cell(h0, PREV)) != ("addr", o, (NEXT,)): return "the old head's back pointer is not moved"
        return None
    def unlink_done(st, o, cleared=True):
        n0 = ("ld", cell(o, NEXT)); p0 = ("ld", cell(o, PREV))
        if get(st, ("addr", p0, ())) != n0: return "its predecessor still points to it"
        if not w.eq(st, n0, ("c", 0)) and get(st, cell(n0, PREV)) != p0: return "its successor's back pointer is not moved"
        if cleared and (get(st, cell(o, NEXT)) != ("c", 0) or get(st, cell(o, PREV)) != ("c", 0)): return "its own links are not cleared"
        return None
    def final(i, st):
        objs = {l[1] for l in st.mem if l[2] and l[2][-1] == CNT and len(l[2]) == 1}
        ch = changed(st); did = False
        # values are only reported wrong on paths where list or count changed
        for o in sorted(objs, key=repr):
            c = cell(o, CNT); c0 = ("ld", c); c1 = get(st, c)
            lo, hi = rng(st, c0, c1)
            want = None
            d = (lin(c1)[1] - lin(c0)[1]) % 2**32 if lin(c1)[0] == lin(c0)[0] else None
            if c1[0] == "c" and lo == hi: d = (c1[1] - lo) % 2**32
            if c1 == c0: want = "same"
            elif d == 1:
                did = True
                if hi == 2**32 - 1:
                    bad(i, "count-list", "the handle count can wrap to zero", "wrap-up"); continue
                want = "link" if hi == 0 else "same" if lo >= 1 else None
            elif d == 2**32 - 1:
                did = True
                if lo < 1:
                    bad(i, "count-list", "the handle count is lowered on a path where it may already be zero", "wrap-down"); continue
                want = "unlink" if hi == 1 else "same" if lo >= 2 else None
                if want is None:
                    l1, h1 = w.low(st, c1), w.high(st, c1)
                    want = "unlink" if h1 == 0 else "same" if l1 >= 1 else None
            elif d == 0: want = "same"; did = True
            elif c1[0] == "k":
                did = True
                if any(f[0] == "eq" and f[1] == ("v", c1[1]) and f[2] == ("c", 0) for f in st.facts): continue      # the read failed
                wm = [f for f in st.facts if f[1][0] == "a" and f[2] == ("c", 0) and fn.insts[c1[1]].op == "call" and
                      any(x[0] == "a" and x[1] == f[1][1] for x in fn.insts[c1[1]].o)]
                if any(f[0] == "ne" for f in wm): want = "same"
                elif w.eq(st, c1, ("c", 0)): want = "same"
                elif w.low(st, c1) >= 1: want = "link"
            else:
                bad(i, "count-list", "the handle count is set to a value that is not one more or one less", "value"); continue
            if want is None:
                bad(i, "count-list", "the handle list is left alone or changed without knowing whether the count reached zero", "unknown"); continue
            if want == "same":
                mine = [l for l in ch if l[1] == o or l[1] == ("ld", cell(o, PREV)) or l[1] == ("ld", cell(o, NEXT)) or l[2] and l[2][-1] == HEAD]
                if mine and i.id is not None and not (frees and not did): bad(i, "count-list", "the handle list changes although the count does not become or cease to be zero", "extra")
            elif want == "link":
                r = link_done(st, o)
                if r: bad(i, "count-list", "the count becomes nonzero but the object is not put on the handle list: " + r, "link")
            elif want == "unlink":
                r = unlink_done(st, o)
                if r: bad(i, "count-list", "the count becomes zero but the object is not taken off the handle list: " + r, "unlink")
        if ch and not objs and not frees: bad(i, "count-list", "the handle list changes without a look at the handle count", "blind")
        if changes and not did:
            okerr[0] += 1
            if "err" not in st.marks: bad(i, "error-recorded", "a handle request changes nothing and reports nothing", "silent")
    okerr = [0]
    takes = {i.id for i in fn.calls() for o in i.o if cx.mod.addr_field(fn, o) and ("f",) + cx.mod.addr_field(fn, o) in CELLS}
    def rel(e):
        return isinstance(e, tuple) and (e[:1] in (("ld",), ("k",), ("a",)) or e[:1] == ("v",) and e[1] in takes or any(rel(x) for x in e if isinstance(x, tuple)))
    w = Heap(cx, fn, keep=[c[1:] for c in CELLS], interest=lambda l: not l[2] and l[1][0] != "al" or l[2] and l[2][-1] in CELLS, relevant=lambda f: rel(f[1:]))
    if not w.run(visit): raise Broken("path analysis of %s too large" % fn.name)
    if kinds: cx.ok("count-list", max(n[0], 1), sample=fn.name)
    if okerr[0]: cx.ok("error-recorded", okerr[0])
    for i, rule, what, key in bads.values(): cx.bad(rule, i, what, key)
