"""G02: reclaimed objects and strings leave every index."""
from nk.cells import Cells
from nk.core import Broken
from nk.heap import Heap2
from nk.own import own
from nk.pwalk import mentions
from nk.vn import is_load_of, strip
from nk.loops import loops_of, index_covers
from nk.retval import Walk as RetWalk, deep
from nk.stream import Stream
from nk.teardown import teardown

META = {"level": "other", "technique": "path-sensitive shape analysis of the object and string tables: every release, slot, hash chain, hole and cleanup event on every path is matched with the events it requires; interprocedural event summaries",
        "note": "Decided for the object table, the string table, the string hash chains, the hole lists and the external cleanup callback. Functions that only run while the machine is deleted may leave holes and chains behind (they are released as a whole). Distinct symbolic cells are taken to be distinct. The handle list's own shape is G03.",
        "explains": "Every function that frees an object or string, writes a table slot, a hash chain or a hole list, changes a table's capacity or calls an external cleanup is walked on all paths with a symbolic heap. A freed string must have its slot erased under its own index and be unlinked from the chain cell it was found in; a freed object's slot must be erased under the same index; an erased slot gets exactly one hole, holes are only made for empty slots whose old hole is gone, a popped hole's slot is the one that is filled, and a capacity that is not raised rebuilds the list. A cleanup callback is followed by the object's release, comes once per release, is skipped only for objects without type or callback, and runs only where a collection cannot start again. Cells of those indexes left pointing to a released block are reported by the dangling-cell analysis."}

HOLES = ("f", "NKVMTable", "tableHoles"); DATA = ("f", "NKVMTable", "u"); CAP = ("f", "NKVMTable", "capacity")
HIDX = ("f", "NKVMTableHole", "index"); HNEXT = ("f", "NKVMTableHole", "next")
SIDX = ("f", "NKVMString", "stringTableIndex"); SNEXT = ("f", "NKVMString", "nextInHashBucket"); CHAINS = ("f", "NKVM", "stringsByHash")
OIDX = ("f", "NKVMObject", "objectTableIndex"); OEXT = ("f", "NKVMObject", "externalDataType"); OEID = ("f", "NKVMExternalDataTypeID", "id")
CB = "cb:NKVMExternalType.cleanupCallback"
IDX = {"NKVMString": SIDX, "NKVMObject": OIDX}
INVALID = 0xffffffff


def canon(a): return a if a[0] == "addr" else ("addr", a, ())
def cell(o, *f):
    o = canon(o); return ("addr", o[1], o[2] + f)


def check(cx, tier):
    mod = cx.mod
    for f in (HOLES, DATA, CAP, HIDX, HNEXT, SIDX, SNEXT, CHAINS, OIDX):
        if not any(x[0] == f[2] for x in mod.structs.get(f[1], {"fields": []})["fields"]): raise Broken("%s.%s not found" % f[1:])
    R = Rules(cx); R.run()
    loaders(cx, R)
    exclusive(cx, R)
    dangling(cx)
    cx.need("string released", 3); cx.need("object released", 4); cx.need("slot filled", 4); cx.need("slot erased", 6); cx.need("hole made", 5); cx.need("hole taken", 1); cx.need("cleanup called", 1)


def dangling(cx):
    C = Cells(cx).run(); n = 0
    idx = {("NKVMTable", "u"), ("NKVM", "stringsByHash"), ("NKVMString", "nextInHashBucket"), ("NKVM", "objectsWithExternalHandles"), ("NKVMObject", "nextObjectWithExternalHandles"), ("NKVMTable", "tableHoles"), ("NKVMTableHole", "next")}
    for i, text, where, start in C.reports.values():
        w = where or start
        r, s = C.shape(w.fn, w.o[0]) if w.op == "load" else (None, ())
        f = next((x for x in reversed(s) if x[0] not in ("x", "*")), None)
        if f in idx: cx.bad("index-cell", i, "%s (%s.%s, read at %s)" % (text, f[0], f[1], w.loc()), "cell-%s.%s" % f)
    for fn, l, *rest in C.used: n += 1
    cx.ok("cells holding released pointers", n)


def loaders(cx, R):
    """the functions that read a table back from a stream"""
    mod = cx.mod
    for n in sorted(R.relevant_fns() & R.loaders):
        fn = mod.fns[n]; vn = cx.vn(n); P = cx.paths(fn)
        def tab(op, f):
            a = vn.addr(op); return a[2][0] if a[0] == "gep" and a[2][-1:] == (f,) else None
        tabs = {}
        for i in fn.all():
            if i.op == "store" and tab(i.o[1], CAP): tabs.setdefault(tab(i.o[1], CAP), []).append(i)
        calls = lambda k, T: [i for i in fn.calls() if any(e[0] == k and len(e) > 1 and named(vn, i, e[1], T) for e in R.sum.get(i.callee or "", ()))]
        for T, caps in tabs.items():
            holes = []
            for i in fn.all():
                if i.op == "store" and tab(i.o[1], HOLES) == T:
                    d = fn.idef(i.o[0])
                    if d is not None and d.op == "call" and any(c in R.own.fresh for c in mod.cal(d)):
                        xs = [u for u in fn.all() if u.op == "store" and mod.addr_field(fn, u.o[1]) == HIDX[1:] and vn.addr(u.o[1])[1] == vn.expr(i.o[0])]
                        ns = [u for u in fn.all() if u.op == "store" and mod.addr_field(fn, u.o[1]) == HNEXT[1:] and vn.addr(u.o[1])[1] == vn.expr(i.o[0])]
                        if len(xs) != 1 or len(ns) != 1: cx.bad("holes", i, "a hole is added with its index or successor unset", "unset"); continue
                        q = vn.expr(ns[0].o[0])
                        if not (is_load_of(vn, q, "NKVMTable", "tableHoles") and tab(fn.insts[q[1]].o[0], HOLES) == T): cx.bad("holes", ns[0], "adding a hole loses the rest of the list", "cut")
                        holes.append((i, strip(vn.expr(xs[0].o[0]))))
            for i in fn.calls():
                for e in R.sum.get(i.callee or "", ()):
                    if e[0] == "hole" and named(vn, i, e[1], T) and e[2][0] == "a": holes.append((i, strip(vn.expr(i.o[e[2][1]]))))
            def slot(op):
                a = vn.addr(op)
                if a[0] != "gep" or len(a[2]) != 1 or a[2][0][0] != "x" or a[1][0] not in ("L", "call"): return None
                d = fn.insts[a[1][1]]
                if d.op == "load" and tab(d.o[0], DATA) == T or d.op == "call" and any(u.op == "store" and tab(u.o[1], DATA) == T for u in fn.uses[d.id]): return strip(a[2][0][1])
            def empty(x):
                def f(p, b):
                    for q in vn.edge_facts(p, b):
                        if len(q) == 3 and q[0] == "eq" and q[2] == ("c", 0) and q[1][0] == "L" and fn.insts[q[1][1]].op == "load" and slot(fn.insts[q[1][1]].o[0]) == x: return True
                    return False
                return f
            def gone(p, b): return any(len(q) == 3 and q[0] == "eq" and q[2] == ("c", 0) and is_load_of(vn, q[1], "NKVMTable", "tableHoles") and tab(fn.insts[q[1][1]].o[0], HOLES) == T for q in vn.edge_facts(p, b))
            drop = calls("emptied", T) + [i for i in fn.all() if i.op == "store" and tab(i.o[1], HOLES) == T and vn.expr(i.o[0]) == ("c", 0)]
            fills = [i for i in fn.all() if i.op == "store" and slot(i.o[1]) is not None and vn.expr(i.o[0]) != ("c", 0)]
            for i in fills:
                cx.ok("slot filled")
                x = slot(i.o[1])
                zeroed = any(j.op == "call" and (j.callee or "").startswith("llvm.memset") and vn.addr(j.o[0]) == vn.addr(i.o[1]) for j in fn.blocks[i.blk])
                if P.escape(None, lambda j: j is i, stop_edge=empty(x)) and not zeroed: cx.bad("slot", i, "a slot that may be in use is overwritten by the loaded entry", "overwrite")
            W = RetWalk(fn, vn)
            good = None
            for i, x in holes:
                cx.ok("hole made")
                if P.escape(None, lambda j: j is i, stop_edge=empty(x)): cx.bad("holes", i, "a slot is recorded as free although it may be in use", "inuse")
                modes = {f[1] for b in fn.dom()[i.blk] for p in fn.preds[b] if len(fn.preds[b]) == 1 for f in vn.edge_facts(p, b) if len(f) == 3 and f[0] == "eq" and f[2] == ("c", 0) and f[1][0] == "a"}
                other = lambda p, b: any(len(f) == 3 and f[0] == "ne" and f[2] == ("c", 0) and f[1] in modes for f in vn.edge_facts(p, b))
                if P.escape(None, lambda j: j is i, stop=lambda j: j in drop, stop_edge=lambda p, b: gone(p, b) or other(p, b)): cx.bad("holes", i, "holes are recorded on top of the list the table had before", "stale")
                if P.escape(i, lambda j: j in fills, stop=lambda j: False): cx.bad("holes", i, "slots are filled after they were recorded as free", "filled-free")
                ls = loops_of(fn, i.blk)
                if not ls: cx.bad("holes", i, "only one slot is recorded as free", "rebuild"); continue
                h, body = ls[0]
                caps_ = {vn.expr(c.o[0]) for c in caps}
                w = index_covers(fn, vn, h, body, x, lambda e: is_load_of(vn, e, "NKVMTable", "capacity") and tab(fn.insts[e[1]].o[0], CAP) == T or e in caps_, use=i)
                if w: cx.bad("holes", i, "not every empty slot is recorded as free: %s" % w, "cover"); continue
                def full(p, b): return any(len(q) == 3 and q[0] == "ne" and q[2] == ("c", 0) and q[1][0] == "L" and fn.insts[q[1][1]].op == "load" and slot(fn.insts[q[1][1]].o[0]) == x for q in vn.edge_facts(p, b))
                if P.round_trip(h, body, lambda j: j is i, full): cx.bad("holes", i, "an empty slot can be left unrecorded", "cover"); continue
                good = (h, i)
            if good is None and holes: continue
            if not holes: cx.bad("holes", caps[0], "the free slots of a loaded table are never recorded", "rebuild"); continue
            W.visit = lambda j, st: j.blk == good[0]
            for c in caps:
                cx.ok("capacity set")
                wm = {f[1] for b in fn.dom()[c.blk] for p in fn.preds[b] if len(fn.preds[b]) == 1 for f in vn.edge_facts(p, b) if len(f) == 3 and f[0] == "eq" and f[2] == ("c", 0)}
                W.stop_edge = lambda p, b: any(len(f) == 3 and f[0] == "ne" and f[2] == ("c", 0) and f[1][0] == "a" and f[1] in wm for f in vn.edge_facts(p, b))
                r = W.run(c)
                if r is None: raise Broken("path analysis of %s too large" % n)
                if any(v is None or deep(v) != ("c", 0) for _, v, _ in r): cx.bad("holes", c, "a loaded table can be accepted without recording its free slots", "rebuild")


def named(vn, i, loc, T):
    """is the callee's location the table member T here?"""
    loc = canon(loc)
    if loc[1][0] != "a": return False
    if T in loc[2]: return True
    if loc[2]: return False
    a = vn.addr(i.o[loc[1][1]]); return a[0] == "gep" and T in a[2]


def exclusive(cx, R):
    """cleanup callbacks run only where no collection can start"""
    mod = cx.mod; gc = mod.fns.get("nkiVmGarbageCollect")
    if gc is None: raise Broken("collector not found")
    vn = cx.vn(gc.name)
    flags = set()
    for i in gc.all():
        k = mod.addr_field(gc, i.o[1]) if i.op == "store" else None
        if k and vn.expr(i.o[0])[0] == "c" and vn.expr(i.o[0])[1]: flags.add(k)
    def idle(k): return lambda p, b: any(len(f) == 3 and f[0] == "eq" and f[2] == ("c", 0) and is_load_of(vn, f[1], *k) for f in vn.edge_facts(p, b))
    flags = {k for k in flags if not cx.paths(gc).escape(None, lambda i: i.op == "call" and not (i.callee or "").startswith("llvm."), stop_edge=idle(k))}
    sites = [(f, i) for f in mod.fns.values() for i in f.calls() if CB in mod.cal(i)]
    def guarded(fn, site, k, seen):
        v = cx.vn(fn.name)
        on = [i for i in fn.all() if i.op == "store" and mod.addr_field(fn, i.o[1]) == k and v.expr(i.o[0])[0] == "c" and v.expr(i.o[0])[1]]
        off = [i for i in fn.all() if i.op == "store" and mod.addr_field(fn, i.o[1]) == k and i not in on]
        offc = [i for i in fn.calls() if any(c in clears[k] for c in mod.cal(i) if c != fn.name)]
        P = cx.paths(fn)
        if on and not P.escape(None, lambda i: i is site, stop=lambda i: i in on) and not any(P.escape(o, lambda i: i is site, stop=lambda i: i in on) for o in off + offc): return None
        cs = mod.callers.get(fn.name, [])
        if not cs: return site
        for c in cs:
            if (c.fn.name, c.id) in seen: continue
            seen.add((c.fn.name, c.id))
            r = guarded(c.fn, c, k, seen)
            if r is not None: return r
        return None
    clears = {k: mod.may_reach_stores(k) if hasattr(mod, "may_reach_stores") else clearing(cx, k) for k in flags}
    for f, s in sites:
        cx.ok("cleanup only inside a collection", sample=s.loc())
        if not flags: cx.bad("exclusive", s, "a cleanup callback may start a collection that cleans up the same object", "noflag"); continue
        rs = [guarded(f, s, k, set()) for k in sorted(flags)]
        if all(r is not None for r in rs):
            cx.bad("exclusive", rs[0], "a cleanup callback run from here may start a collection that cleans up the same object again", "unguarded")


def clearing(cx, k):
    """functions that leave flag k cleared: a clearing store with no set before it"""
    mod = cx.mod; out = set()
    for f in mod.fns.values():
        v = cx.vn(f.name)
        st = [i for i in f.all() if i.op == "store" and mod.addr_field(f, i.o[1]) == k]
        if any(v.expr(i.o[0]) == ("c", 0) for i in st): out.add(f.name)
    return out


class Rules:
    def __init__(self, cx):
        self.cx = cx; self.mod = cx.mod; self.own = own(cx); self.sum = {}; self.bads = {}; self.cnt = {}
        self.teardown = teardown(cx); self.late = set()

    def relevant_fns(self):
        mod = self.mod; out = set()
        F = {HOLES[1:], SNEXT[1:], CHAINS[1:], CAP[1:]}
        for fn in mod.fns.values():
            for i in fn.all():
                if i.op == "store":
                    k = mod.addr_field(fn, i.o[1])
                    if k in F: out.add(fn.name)
                    if k is None and self.slot_store(fn, i): out.add(fn.name)
                elif i.op == "call":
                    if CB in mod.cal(i): out.add(fn.name)
                    if self.kind(fn, i): out.add(fn.name)
        return out

    def slot_store(self, fn, i):
        a = self.cx.vn(fn.name).addr(i.o[1])
        return a[0] == "gep" and len(a[2]) == 1 and a[2][0][0] == "x" and self.isdata(fn, a[1])

    def isdata(self, fn, b):
        return is_load_of(self.cx.vn(fn.name), b, "NKVMTable", "u") or b[0] == "call" and any(u.op == "store" and self.mod.addr_field(fn, u.o[1]) == DATA[1:] for u in fn.uses[b[1]])

    def kind(self, fn, i):
        """(type, operand) if i frees an object or string directly"""
        if i.callee != "nkiFree": return None
        p = self.cx.ms.pointee(fn, i.o[1])
        if p in IDX: return p
        d = fn.idef(i.o[1])
        if d is not None and d.op == "load":
            a = self.cx.vn(fn.name).addr(d.o[0])
            if a[0] == "gep" and len(a[2]) == 1 and a[2][0][0] == "x" and self.isdata(fn, a[1]): return "entry"
        return None

    def bad(self, i, rule, what, key):
        self.bads.setdefault((i.fn.name, rule, key), (i, rule, what, key))

    def run(self):
        self.loaders = Stream(self.cx).fns
        work = sorted(self.relevant_fns() - self.loaders); todo = list(work); rounds = 0
        while todo:
            rounds += 1
            if rounds > 8: raise Broken("event summaries do not settle")
            nxt = set()
            for n in todo:
                if n in self.loaders: continue
                s = self.function(self.mod.fns[n])
                if s != self.sum.get(n, frozenset()):
                    self.sum[n] = s
                    self.late |= {(c, e[1]) for e in s if e[0] == "stale" for c in self.mod.callers.get(n, []) if c.fn.name not in work}
                    duty = any(e[0] in ("free", "freeclean") for e in s)
                    nxt |= {c.fn.name for c in self.mod.callers.get(n, []) if c.fn.name in work or duty and c.fn.name not in self.teardown | self.loaders}
            todo = sorted(nxt)
        for i, T in self.late: self.after(i, canon(T))
        for (n, rule, key), (i, r, what, k) in self.bads.items(): self.cx.bad(r, i, what, k)
        for (n, r), c in self.cnt.items(): self.cx.ok(r, c, n)

    def after(self, i, T):
        """the caller of a function that leaves the free list stale rebuilds it"""
        fn = i.fn; vn = self.cx.vn(fn.name)
        if fn.name in self.teardown | self.loaders: return
        self.cx.ok("free list rebuilt after a move")
        def reb(j):
            if j.op != "call": return False
            return any(e[0] == "emptied" and (named(vn, j, e[1], m) if (m := next((x for x in T[2] if x[1] == "NKVM"), None)) else False) for e in self.sum.get(j.callee or "", ()))
        if self.cx.paths(fn).escape(i, lambda j: j.op == "ret", stop=reb): self.bad(i, "holes", "the free-slot list is not rebuilt after entries were moved", "rebuild")

    def function(self, fn):
        self.bads = {k: v for k, v in self.bads.items() if k[0] != fn.name}
        for k in [k for k in self.cnt if k[0] == fn.name]: del self.cnt[k]
        w = Walk(self, fn)
        if not w.run(w.visit): raise Broken("path analysis of %s too large" % fn.name)
        for i, r in w.counted: self.cnt[(fn.name, r)] = self.cnt.get((fn.name, r), 0) + 1
        return frozenset(w.summary or ())


class Walk(Heap2):
    def __init__(self, R, fn):
        self.R = R; self.mod = R.mod; self.exits = []; self.summary = None; self.counted = set()
        self.td = fn.name in R.teardown
        def rel(f):
            return True
        Heap2.__init__(self, R.cx, fn, limit=8000, interest=self.interesting, relevant=self.rel)
        self.chainptrs = {i.id for i in fn.all() if i.op == "phi" and self.chainphi(i, set())}

    def chainphi(self, i, seen):
        """a variable that only ever points to chain cells"""
        if i.id in seen: return True
        seen.add(i.id)
        for v, b in i.o:
            d = self.fn.idef(v)
            if d is None: return False
            if d.op == "phi":
                if not self.chainphi(d, seen): return False
            elif d.op == "getelementptr":
                if not any(s in (SNEXT, CHAINS) for s in self.vn.addr(v)[2]): return False
            else: return False
        return True

    def call(self, i, st):
        c = i.callee or ""
        keep = {l: v for l, v in st.mem.items() if not l[2] and l[1][:1] == ("v",) and l[1][1] in self.chainptrs}
        Heap2.call(self, i, st)
        if keep and not c.startswith("llvm."):
            wl = self.vn.ms.call_locs_full(self.fn, i) or []
            if not any(w in (SNEXT, CHAINS) for w in wl): st.mem.update(keep)

    INTEREST = (HOLES, DATA, CAP, HIDX, HNEXT, SIDX, SNEXT, CHAINS, OIDX, OEID)

    def interesting(self, l):
        if not l[2]: return True
        if l[2][-1] in self.INTEREST: return True
        if l[2][-1][0] == "x": return not any(s[0] == "f" and s not in (CHAINS,) for s in l[2])
        if l[2][-1][0] == "f" and l[2][-1][1:] in (("NKVM", "externalTypeCount"), ("NKVM", "externalTypes"), ("NKVMExternalType", "cleanupCallback"), ("NKVMObject", "externalData")): return True
        return False

    def rel(self, f):
        return any(self.relv(x) for x in f[1:])

    def relv(self, e):
        if not isinstance(e, tuple): return False
        if e[:1] in (("ld",), ("k",), ("w",)): return True
        if e[:1] == ("a",): return True
        if e[:1] == ("v",): return self.fn.insts[e[1]].op in ("phi", "call") if isinstance(e[1], int) and e[1] in self.fn.insts else True
        return any(self.relv(x) for x in e if isinstance(x, tuple))

    # -------------------------------------------------------- helpers
    def get(self, st, l): return st.mem.get(l, ("ld", l))

    def table(self, l): return ("addr", l[1], l[2][:-1])

    def slot(self, st, T, x):
        """value of slot x of table T, if its address is in use"""
        d = self.get(st, cell(T, DATA))
        c = canon(d)
        return ("addr", c[1], c[2] + (("x", x),))

    def table_of(self, st, base):
        """table whose data pointer is base"""
        if base[0] == "ld" and base[1][2][-1:] == (DATA,): return self.table(base[1])
        for l, v in st.mem.items():
            if l[2][-1:] == (DATA,) and v == base: return self.table(l)
        return None

    def freshv(self, v):
        if v[0] != "v" or v[1] not in self.fn.insts: return False
        i = self.fn.insts[v[1]]
        return i.op == "call" and any(c in self.R.own.fresh for c in self.mod.cal(i))

    def fact(self, st, p, a, b): return p == "eq" and self.eq(st, a, b)

    def null(self, st, v): return v == ("c", 0) or self.eq(st, v, ("c", 0))

    def cap(self, st, T): return ("ld", cell(T, CAP))

    def count(self, i, rule): self.counted.add((i.id, rule))

    def tables(self, st):
        return {self.table(l) for l in st.mem if l[2][-1:] in ((HOLES,), (DATA,), (CAP,))}

    def place(self, op, st):
        l = self.address(op, st)
        if not l[2] and self.table_of(st, l[1]) is not None: l = ("addr", l[1], (("x", ("c", 0)),))
        return l

    # -------------------------------------------------------- events
    def visit(self, i, st):
        if i.op == "store": self.at_store(i, st)
        elif i.op == "call": self.at_call(i, st)
        elif i.op == "ret": self.at_ret(i, st)
        if i.op in ("store", "call"):
            for m in [m for m in st.marks if m[0] in self.TEXT and m[0] not in ("need-cleanup", "need-zero") and self.done(st, m)]: st.marks.discard(m)

    def at_store(self, i, st):
        l = self.place(i.o[1], st); v = self.pv(i.o[0], st)
        last = l[2][-1] if l[2] else None
        if last == HOLES:
            T = self.table(l); cur = self.get(st, l)
            if self.null(st, v):
                if not self.null(st, cur) and ("emptied", T) not in st.marks and not self.td and not self.newtable(st, T) and not self.sticky(st, T) and cur not in st.env.values(): st.marks.add(("need-zero", T, i.id))
                self.emptied(st, T)
            elif self.isnext(st, v, cur):
                self.count(i, "hole taken"); st.marks.add(("need-use", T, cur, i.id))
            elif self.freshv(v):
                self.count(i, "hole made")
                if self.newtable(st, T): return
                x = st.mem.get(cell(v, HIDX))
                if x is None: self.R.bad(i, "holes", "a hole is added before its index is set", "unset"); return
                n = st.mem.get(cell(v, HNEXT))
                if n is None or not (n == cur or self.null(st, n) and self.null(st, cur) or self.null(st, n) and self.newtable(st, T)): self.R.bad(i, "holes", "adding a hole loses the rest of the list", "cut")
                self.hole(i, st, T, x, True)
            elif v != cur:
                self.R.bad(i, "holes", "the hole list is replaced by something other than a new hole or its own rest", "replace")
        elif last == CAP and self.table(l)[2][-1:] != () or last == CAP:
            T = self.table(l); cur = self.get(st, l)
            grow = v[0] in ("shl", "add", "mul") and v[1] == cur or self.le(st, cur, v) or self.null(st, cur)
            self.count(i, "capacity set")
            if not grow and not self.newtable(st, T): self.stale(i, st, T)
        elif last == SNEXT:
            pass
        elif self.is_slot(l, st):
            T = self.table_of(st, self.base_of(l)); x = l[2][-1][1]
            old = self.get(st, l)
            if self.null(st, v):
                self.count(i, "slot erased")
                if self.null(st, old) or self.newslot(st, T, x) : return
                self.erase(i, st, T, x, old)
            else:
                self.count(i, "slot filled")
                self.fill(i, st, T, x, v)
        # chain unlink: *p = s->next where *p was s
        cur = self.get(st, l)
        if v == self.get(st, cell(cur, SNEXT)) and cur[0] != "c": st.marks.add(("unlinked", cur))
        elif last == SNEXT or last and last[0] == "x" and CHAINS in l[2] or any(self.get(st, k) == cur and False for k in ()):
            # linking at the front or cutting
            if cur != v and not self.null(st, cur) and self.ischain(l, st):
                nx = st.mem.get(cell(v, SNEXT)) if not self.null(st, v) else None
                if nx != cur and not self.td: self.R.bad(i, "chain", "a hash chain loses entries", "cut")

    def ischain(self, l, st):
        if CHAINS in l[2]: return True
        return l[2][-1:] == (SNEXT,) and not self.freshv(l[1]) and not self.newstring(l[1], st)

    def newstring(self, v, st):
        """made on this path: nothing is linked behind it yet"""
        return any(m[0] == "filled" and m[3] == v for m in st.marks)

    def base_of(self, l):
        return l[1] if len(l[2]) == 1 else ("addr", l[1], l[2][:-1])

    def is_slot(self, l, st):
        return len(l[2]) >= 1 and l[2][-1][0] == "x" and self.table_of(st, self.base_of(l)) is not None

    def isnext(self, st, v, cur): return v == self.get(st, cell(cur, HNEXT))

    def newtable(self, st, T):
        """table memory this path set up"""
        d = self.get(st, cell(T, DATA))
        re = self.freshv(d) and any(c in ("nkiRealloc", "nkiReallocArray") for c in self.mod.cal(self.fn.insts[d[1]]))
        return self.freshv(d) and not re and cell(T, HOLES) not in st.mem or self.freshv(T[1])

    def newslot(self, st, T, x):
        d = self.get(st, cell(T, DATA))
        if not self.freshv(d): return False
        i = self.fn.insts[d[1]]
        re = any(c in ("nkiRealloc", "nkiReallocArray") for c in self.mod.cal(i))
        return not re or self.le(st, ("ld", cell(T, CAP)), x)

    def emptied(self, st, T):
        for m in [m for m in st.marks if m[0] in ("sticky-hole", "sticky-empty", "need-use") and m[1] == T]: st.marks.discard(m)
        for m in [m for m in st.marks if m[0] in ("filled", "holes-from") and m[1] == T]: st.marks.discard(m)
        st.marks.add(("emptied", T))

    def sticky(self, st, T): return any(m[0] == "sticky-empty" and m[1] == T for m in st.marks)

    def stale(self, i, st, T):
        if ("rebuilt", T) in st.marks: st.marks.discard(("rebuilt", T)); st.marks.discard(("emptied", T))
        if ("emptied", T) not in st.marks: st.marks.add(("need-empty", T, i.id))

    def erase(self, i, st, T, x, old):
        st.marks.add(("erased", T, x, old))
        if not any(m[0] == "hole" and m[1] == T and m[2] == x for m in st.marks): st.marks.add(("need-hole", T, x, i.id))

    def hole(self, i, st, T, x, direct):
        if direct and not self.null(st, self.get(st, self.slot(st, T, x))) and not (self.newtable(st, T)):
            self.R.bad(i, "holes", "a slot is recorded as free although it may be in use", "inuse")
        if any(m[0] == "hole" and m[1] == T and m[2] == x for m in st.marks): self.R.bad(i, "holes", "a slot is recorded as free twice", "twice")
        need = [m for m in st.marks if m[0] == "need-hole" and m[1] == T and m[2] == x]
        for m in need: st.marks.discard(m)
        st.marks.add(("hole", T, x))
        if need or self.newtable(st, T): return
        if x[0] == "a" and self.mod.callers.get(self.fn.name): return      # judged at the callers
        c = self.cap(st, T)
        if self.le(st, c, x, True) or self.le(st, ("add", c, ("c", 1)), x): st.marks.add(("holes-from", T, 1)); return
        if self.le(st, c, x): st.marks.add(("holes-from", T, 0)); return
        if ("emptied", T) in st.marks: st.marks.add(("rebuilt", T)); return
        if any(m[0] == "erased" and m[1] == T and m[2] == x for m in st.marks): return
        self.R.bad(i, "holes", "a slot that was not just erased or added is recorded as free while its old record may still be on the list", "stale")

    def fill(self, i, st, T, x, v):
        for m in [m for m in st.marks if m[0] == "need-use" and m[1] == T]:
            if x == self.get(st, cell(m[2], HIDX)) or x == ("ld", cell(m[2], HIDX)):
                st.marks.discard(m); st.marks.add(("filled", T, x, v)); return
        if any(m[0] == "hole" and m[1] == T and m[2] == x for m in st.marks): self.R.bad(i, "holes", "a slot is filled while it is recorded as free", "filled-free")
        c = self.cap(st, T)
        if self.eq(st, x, c):
            if any(m == ("holes-from", T, 0) for m in st.marks): self.R.bad(i, "holes", "the slot of the new entry is also recorded as free", "filled-hole")
            if ("rebuilt", T) in st.marks: self.stale(i, st, T)
            st.marks.add(("filled", T, x, v)); return
        self.stale(i, st, T)
        if not self.null(st, self.get(st, self.slot(st, T, x))) and not self.newslot(st, T, x): self.R.bad(i, "slot", "a slot that may be in use is overwritten", "overwrite")
        st.marks.add(("filled", T, x, v))

    def free(self, i, st, kind, o):
        if self.null(st, o): return
        if kind == "entry":
            T = (self.origin(st, o) or (((), (), ()),))[0]
            kind = {"objectTable": "NKVMObject", "stringTable": "NKVMString"}.get(T[2][-1][2] if T[2] else None, kind)
        self.count(i, "string released" if kind == "NKVMString" else "object released" if kind == "NKVMObject" else "entry released")
        if self.freshv(o) and not any(m[0] == "filled" and m[3] == o for m in st.marks): return
        if any(m[0] == "freed" and m[1] == o for m in st.marks): self.R.bad(i, "release", "the same entry is released twice", "twice")
        st.marks.add(("freed", o, kind)); st.marks.add(("need-erase", o, kind, self.origin(st, o), i.id))
        if kind != "NKVMObject": st.marks.add(("need-unlink", o, i.id))
        if kind != "NKVMString" : st.marks.add(("need-cleanup", o, i.id))
        for m in [m for m in st.marks if m[0] == "need-delete" and m[1] == o]: st.marks.discard(m)

    def origin(self, st, o):
        """(table, index) of the slot that holds o"""
        for l, v in list(st.mem.items()) + ([(o[1], o)] if o[0] == "ld" else []):
            if v == o and l[2] and l[2][-1][0] == "x":
                T = self.table_of(st, self.base_of(l))
                if T is not None: return (T, l[2][-1][1])
        return ()

    def at_call(self, i, st):
        c = i.callee or ""
        if c.startswith("llvm.dbg") or c.startswith("llvm.lifetime") or c.startswith("llvm.assume"): return
        k = self.R.kind(self.fn, i)
        if k:
            o = self.pv(i.o[1], st)
            self.free(i, st, k, o)
        if CB in self.mod.cal(i):
            o = self.owner(i, st)
            self.count(i, "cleanup called")
            if o is None: self.R.bad(i, "cleanup", "the cleanup callback is not given the object's own data", "data"); return
            if any(m[0] == "cleaned" and m[1] == o for m in st.marks): self.R.bad(i, "cleanup", "an object's cleanup runs twice", "twice")
            if any(m[0] == "freed" and m[1] == o for m in st.marks): self.R.bad(i, "cleanup", "an object's cleanup runs after its release", "late")
            st.marks.add(("cleaned", o)); st.marks.add(("need-delete", o, i.id))
        if (c.startswith("llvm.memset") or c in ("nkiMemset",)) and i.o:
            a = self.address(i.o[0], st)
            if a[2][-1:] == (CHAINS,) or a[2][-2:] == (CHAINS, ("x", ("c", 0))):
                st.marks.add(("chains-cleared",))
        if len(self.mod.cal(i)) == 1 and c in self.R.sum:
            args = [self.pv(o, st) for o in i.o]
            evs = self.R.sum[c]
            for ev in sorted((e for e in evs if not (e[0] == "freeclean" and ("free",) + e[1:] in evs)), key=repr): self.apply(i, st, self.trans(st, ev, args))

    def owner(self, i, st):
        """object whose data pointer is passed to the callback"""
        for o in i.o[1:]:
            v = self.pv(o, st)
            if v[0] == "ld" and v[1][2][-1:] == (("f", "NKVMObject", "externalData"),):
                return self.norm(("addr", v[1][1], v[1][2][:-1]))
        return None

    def trans(self, st, e, args):
        """a callee's event in terms of this function's current state"""
        if not isinstance(e, tuple): return e
        if e[:1] == ("a",) and len(e) == 2: return args[e[1]] if e[1] < len(args) else ("?",)
        r = tuple(self.trans(st, x, args) for x in e)
        if r[:1] == ("addr",) and isinstance(r[1], tuple) and r[1][:1] == ("addr",): r = ("addr", r[1][1], r[1][2] + r[2])
        if r[:1] == ("ld",): return self.get(st, r[1])
        return r

    def apply(self, i, st, ev):
        if ev[0] == "free": self.free(i, st, ev[1], ev[2])
        elif ev[0] == "freeclean":
            self.free(i, st, ev[1], ev[2])
            for m in [m for m in st.marks if m[0] == "need-cleanup" and m[1] == ev[2]]: st.marks.discard(m)
            if any(m[0] == "cleaned" and m[1] == ev[2] for m in st.marks): self.R.bad(i, "cleanup", "an object's cleanup runs twice", "twice")
        elif ev[0] == "erase":
            T = canon(ev[1]); self.count(i, "slot erased")
            self.erase(i, st, T, ev[2], self.get(st, self.slot(st, T, ev[2])))
        elif ev[0] == "hole": self.count(i, "hole made"); self.hole(i, st, canon(ev[1]), ev[2], False)
        elif ev[0] == "emptied": self.emptied(st, canon(ev[1])); [st.marks.discard(m) for m in [m for m in st.marks if m[0] == "need-empty" and m[1] == canon(ev[1])]]
        elif ev[0] == "rebuilt": st.marks.add(("rebuilt", canon(ev[1])))
        elif ev[0] == "stale": self.stale(i, st, canon(ev[1]))
        elif ev[0] == "unlinked": st.marks.add(("unlinked", ev[1]))
        elif ev[0] == "chains-cleared": st.marks.add(("chains-cleared",))

    def assume(self, t, s, st):
        if not Heap2.assume(self, t, s, st): return False
        for l in [l for l in st.mem if l[2][-1:] == (HOLES,)]:
            T = self.table(l)
            if ("emptied", T) not in st.marks and self.null(st, st.mem[l]): self.emptied(st, T)
        return True

    # -------------------------------------------------------- obligations
    def done(self, st, m):
        if m[0] == "need-erase":
            o = m[1]; T0 = None
            for e in st.marks:
                if e[0] != "erased": continue
                if e[3] == o: return True
                f = IDX.get(m[2])
                for g in ([f] if f else [SIDX, OIDX]):
                    if e[2] in (("ld", cell(o, g)), self.get(st, cell(o, g))): return True
                if m[3] == e[1:3]: return True
            return False
        if m[0] == "need-unlink": return ("unlinked", m[1]) in st.marks or ("chains-cleared",) in st.marks
        if m[0] == "need-hole": return any(e[0] == "hole" and e[1:3] == m[1:3] for e in st.marks)
        if m[0] == "need-cleanup":
            o = m[1]
            if ("cleaned", o) in st.marks or self.td and m[0] == "x": return True
            return self.excused(st, o)
        if m[0] == "need-zero": return self.null(st, self.get(st, cell(m[1], CAP)))
        if m[0] in ("need-use", "sticky-empty", "sticky-hole", "need-empty"): return ("emptied", m[1]) in st.marks
        if m[0] == "need-delete": return any(e[0] == "freed" and e[1] == m[1] for e in st.marks)
        return True

    def excused(self, st, o):
        idc = cell(o, OEXT, OEID)
        ids = {("ld", idc), self.get(st, idc)}
        for p, a, b in st.facts:
            for x, y in ((a, b), (b, a)):
                if p == "eq" and x in ids and y[0] == "c" and y[1] & 0xffffffff == INVALID: return True
                if p == "eq" and y == ("c", 0) and x[0] in ("ld", "k", "w") and mentions(x, ("f", "NKVMExternalType", "cleanupCallback")) and any(mentions(x, d) for d in ids): return True
            if p in ("ule", "ult") and b in ids and mentions(a, ("f", "NKVM", "externalTypeCount")): return True
        return False

    TEXT = {"need-erase": ("release", "an entry is released while its table slot keeps it", "slot"),
            "need-unlink": ("release", "a string is released without being taken out of its hash chain", "chain"),
            "need-hole": ("holes", "an emptied slot is not recorded as free", "nohole"),
            "need-cleanup": ("cleanup", "an object is released without its external cleanup", "skipped"),
            "need-use": ("holes", "a slot taken off the free list is not the one that is filled", "unused"),
            "sticky-empty": ("holes", "holes are taken off the list but the list is not emptied", "partial"),
            "sticky-hole": ("holes", "an emptied slot is not recorded as free", "nohole"),
            "need-zero": ("holes", "the hole list is dropped while it may hold entries", "dropped"),
            "need-empty": ("holes", "the free-slot list is not rebuilt after the table was changed under it", "rebuild"),
            "need-delete": ("cleanup", "an object stays after its cleanup ran, so the cleanup can run again", "kept")}

    def fail(self, st, m):
        if self.td and m[0] in ("need-hole", "sticky-hole", "need-unlink", "need-cleanup", "need-use"): return
        if self.td and m[0] == "need-erase" and m[2] == "NKVMString": return
        r, t, k = self.TEXT[m[0]]
        self.R.bad(self.fn.insts[m[-1]], r, t, k)

    def lost(self, st, m):
        if m[0] not in self.TEXT or self.done(st, m): return
        if m[0] == "need-hole": st.marks.add(("sticky-hole", m[1], m[-1])); return
        if m[0] == "need-use": st.marks.add(("sticky-empty", m[1], m[-1])); return
        if m[0] == "need-unlink": st.marks.add(("sticky-unlink", m[-1])); return
        if m[0] == "need-erase" and self.export(m[1]): return
        self.fail(st, m)

    def export(self, o):
        """can the caller name o?"""
        if not self.mod.callers.get(self.fn.name): return False
        def ent(e):
            if not isinstance(e, tuple): return True
            if e and e[0] in ("v", "k", "w", "o", "al"): return False
            return all(ent(x) for x in e)
        return ent(o)

    def at_ret(self, i, st):
        ev = set()
        anull = {a for p, a, b in st.facts if p == "eq" and b == ("c", 0) and a[0] == "a"}
        for m in sorted(st.marks, key=repr):
            if m[0] == "freed" and self.export(m[1]) and any(n[0] == "need-erase" and n[1] == m[1] for n in st.marks) and not self.erased(st, m[1], m[2]):
                clean = self.done(st, ("need-cleanup", m[1], 0))
                ev.add(("freeclean" if clean and m[2] != "NKVMString" else "free", m[2], m[1]))
            if m[0] == "erased" and self.export(m[1]) and self.export(m[2]): ev.add(("erase", m[1], m[2]))
            if m[0] == "hole" and self.export(m[1]) and self.export(m[2]): ev.add(("hole", m[1], m[2]))
            if m[0] in ("emptied", "rebuilt") and self.export(m[1]): ev.add(m)
            if m[0] == "unlinked" and self.export(m[1]): ev.add(m)
            if m[0] == "chains-cleared": ev.add(m)
        for m in sorted(st.marks, key=repr):
            if m[0] == "sticky-unlink":
                if ("chains-cleared",) not in st.marks and not self.td: self.R.bad(self.fn.insts[m[-1]], *self.TEXT["need-unlink"])
                continue
            if m[0] not in self.TEXT or self.done(st, m): continue
            if m[0] in ("need-erase", "need-unlink", "need-cleanup") and self.export(m[1]): continue
            if m[0] in ("need-empty", "need-hole", "sticky-hole") and self.export(m[1]) and not self.td: ev.add(("stale", m[1])); continue
            self.fail(st, m)
        self.merge(ev, st)

    def erased(self, st, o, kind): return self.done(st, ("need-erase", o, kind, self.origin(st, o)))

    def merge(self, ev, st):
        """events of every returning path; a path on which the entry is known to be missing has them all"""
        nulls = {a for p, a, b in st.facts if p == "eq" and b == ("c", 0)}
        ev = set(ev)
        if self.summary is None: self.summary = ev; self.vac = nulls; return
        vac = lambda e, N: any(mentions(e, n) or ("addr", n, ()) == e[1] for n in N) if len(e) > 1 else False
        # free events are may-events: keep the union, the caller's duties only grow
        keep = {e for e in self.summary | ev if e[0] in ("free", "freeclean", "stale")}
        keep |= {e for e in self.summary if e in ev or vac(e, nulls)} | {e for e in ev if vac(e, self.vac)}
        self.vac &= nulls
        self.summary = keep
