"""S01: nothing read from a saved state is trusted before it is checked."""
from nk.core import Ctx
from nk.index import Idx, F, M, sh, under, ALLOC_N
from nk.loops import loops, exit_edges
from nk.regions import MASK
from nk.stream import Stream
from nk.vn import strip, show
from rules.v03 import World
from rules import h01, m06, v06

META = {"level": "other", "technique": "dataflow of stream-derived values in the loading mode of every stream function: dominating checks on every successful path, linear bounds of every index and buffer they reach",
        "note": "Every function that reads the saved state is analysed with its save/load mode fixed to loading. Judged: each extent taken from the stream (tables and stacks: power of two, not all ones, stack capacity at least one and within the host's limit, size within capacity), the collection interval, "
                "each loaded identifier of a native function or data type (mapped or refused; a missing native function is refused), coroutine states, the marker and version, table slots (seen empty before an entry is put there), counts rebuilt rather than believed, sizes of buffers for loaded text, what is read against the room it is read into, every computed index in these functions, "
                "loops as long as the stream says (each round reads something, or there was room for all of it), the chain of active coroutines (each entry a coroutine object, in the running state, not twice, ending at the main program), results of look-ups, and that no released block stays reachable when a load stops. "
                "The contents of instructions and values are not restricted by loading: jump targets, stack positions, object and string numbers in them are masked or checked where they are used (V01, V03). That a failing read stops the load is S02.",
        "explains": "Removing or weakening a check after a read, testing the old value instead of the loaded one, testing only while saving, or using the value before the test leaves a successful path from the read or the store without the required comparison, which is reported with the field it lets through."}


POW2 = {f: 1 for f in MASK.values() if f[0] == "NKVM"}
POW2.update({("NKVMTable", "capacity"): 0, ("NKVMStack", "capacity"): 0})
BOUNDED = {("NKVMExecutionContext", "coroutineState"): 4}          # below this
REBUILT = (("NKVMObject", "size"),)
NUMBERS = ((("NKVMFunction", "externalFunctionId"), ("NKVMExternalFunctionID", "id")), (("NKVMObject", "externalDataType"), ("NKVMExternalDataTypeID", "id")))


def check(cx, tier):
    W = World(cx); n = 0
    for name in sorted(W.S.fns):
        fn = cx.mod.fns[name]
        ms = W.modes.get(name, ())
        views = [ix for ix in W.views(fn) if not ix.mode or not ix.mode[1]]
        for ix in views:
            L = Load(cx, W, fn, ix)
            if L.reads or ix.mode: n += 1; L.check()
        # whatever is read is used inside the tables it refers to
        for i, own, k in W.sites(fn): W.site(fn, i, own, k)
        W.rooms(fn)
    h = h01.H(cx); h.stores[h01.PAR] = [s for s in h.stores[h01.PAR] if s.fn.name in W.S.fns]; h.clears = set(); h.instores = set(); h.chain = [s for s in h.stores[h01.CUR] if s.fn.name in W.S.fns]
    h01.links(cx, h)
    for name in sorted(W.S.fns):
        fn = cx.mod.fns[name]
        st = [i for i in fn.all() if i.op == "store" and cx.mod.addr_field(fn, i.o[1]) in (v06.I, v06.C, v06.B)]
        if st: v06.one(cx, fn, st, set())
    # a load that stops half-way leaves nothing released behind that deleting the machine would reach
    c2 = Ctx(cx.mod); m06.check(c2, tier)
    cx.ok("released", sum(v for k, v in c2.counts.items() if k[0] in "AB"))
    for k, text in c2.violations:
        if k.split("/")[1] in W.S.fns and not k.startswith("C/"): cx.violations.append(("released/" + k, text))
    cx.ok("function", n)
    for r, k in (("function", 15), ("extent", 8), ("slot", 2), ("bounded", 1), ("rebuilt", 1), ("header", 2), ("number", 2), ("length", 1), ("loop", 4), ("index", 20), ("room", 3), ("chain-loaded", 1), ("counter-store", 1)): cx.need(r, k)


class Load:
    def __init__(self, cx, W, fn, ix):
        self.cx, self.W, self.fn, self.ix, self.vn, self.mod = cx, W, fn, ix, ix.vn, cx.mod
        self.P = cx.paths(fn)
        self.reads = [i for i in W.S.direct if i.fn is fn and i.blk in ix.live and self.reading(i)]
        self.cells = {}
        for i in self.reads:
            a = self.vn.addr(i.o[0]); self.cells.setdefault(a, []).append(i)
        # ways out that report success
        self.out = set(); r = [i for i in fn.all() if i.op == "ret"]
        for x in r:
            e = strip(self.vn.expr(x.o[0])) if x.o else None
            if e is None: self.out |= {(p, x.blk) for p in fn.preds[x.blk]}
            elif e[0] == "phi" and fn.insts[e[1]].blk == x.blk:
                self.out |= {(p, x.blk) for v, p in fn.insts[e[1]].o if self.vn.expr(v) != ("c", 0)}
            elif e != ("c", 0): self.out |= {(p, x.blk) for p in fn.preds[x.blk]}

    def reading(self, i):
        m = self.vn.expr(i.o[-1])
        return m[0] == "c" and m[1] == 0 or m[0] == "a" and self.ix.mode and m[1] == self.ix.mode[0] or m[0] not in ("c", "a")

    def succeeds(self, start, good, stop=lambda i: False):
        """can a load go on from start and report success without passing a good edge?"""
        fn, ix = self.fn, self.ix
        return self.P.escape(start, lambda i: False, stop=stop, stop_edge=lambda p, b: (p, b) in ix.dead or self.vn.infeasible(p, b) or good(p, b),
                             target_edge=lambda p, b: (p, b) in self.out)

    def facts(self, p, b): return [f for f in self.vn.facts_on_edge(p, b) if len(f) == 3]

    def after(self, s, i):
        """does i only happen after s?"""
        return self.P.escape(None, lambda j: j is i, stop=lambda j: j is s, stop_edge=lambda p, b: (p, b) in self.ix.dead) is None

    def values(self, s, v, place):
        """is x the value v (or read back from where s put it)?"""
        fv = self.ix.form(v).key() if v is not None else None
        def same(x, plus=0):
            x = strip(x)
            if plus:
                f = self.ix.form(x)
                if f.c == plus: return F(f.t).key() == fv or f.key() == F({("ld", place): 1}, plus).key()
                return False
            if v is not None and self.ix.form(x).key() == fv: return True
            return x[0] == "L" and sh(self.vn, self.vn.addr(self.fn.insts[x[1]].o[0])) == place and self.after(s, self.fn.insts[x[1]])
        return same

    def pow2(self, p, b, same, plus):
        for f in self.facts(p, b):
            x = strip(f[1])
            if f[0] == "ne" and f[2] == ("c", 0) and x[0] == "call" and self.fn.insts[x[1]].callee == "nkiIsPow2" and same(self.vn.expr(self.fn.insts[x[1]].o[0]), plus): return True
            if f[0] == "eq" and f[2] == ("c", 0) and x[0] == "and":
                for y, z in ((x[1], x[2]), (x[2], x[1])):
                    if same(y, plus) and self.ix.form(z).key() == self.ix.form(y).plus(-1).key(): return True
        return False

    def notmax(self, p, b, same):
        for f in self.facts(p, b):
            if f[0] == "ne" and same(f[1]) and f[2][0] == "c" and f[2][1] % M == M - 1: return True
            if f[0] in ("ult", "ule") and same(f[1]) and f[2][0] == "c" and (f[2][1] % M < M - 1 or f[0] == "ult"): return True
            if f[0] == "ne" and f[2] == ("c", 0) and same(f[1], 1): return True
        return False

    def passes(self, s, good):
        """every successful way through s passes a good edge, before or after"""
        if s is not None and self.P.escape(None, lambda i: i is s, stop_edge=lambda p, b: (p, b) in self.ix.dead or self.vn.infeasible(p, b) or good(p, b)) is None: return True
        return self.succeeds(s, good) is None

    # ------------------------------------------------------------
    def check(self):
        self.extents(); self.slots(); self.fields(); self.header(); self.numbers(); self.lengths(); self.bounded_loops(); self.rooms(); self.missing()

    def stores(self):
        for s in self.fn.all():
            if s.op == "store" and s.blk in self.ix.live:
                a = self.vn.addr(s.o[1])
                if a[1][0] != "al" and a[2] and a[2][-1][0] == "f": yield s, a, a[2][-1][1:3]

    def extents(self):
        cx, fn, vn, ix = self.cx, self.fn, self.vn, self.ix
        caps = {}
        for s, a, f in self.stores():
            if f == ("NKVMStack", "capacity"): caps.setdefault((sh(vn, a[1]), a[2][:-1]), []).append(s)
        for s, a, f in self.stores():
            v = vn.expr(s.o[0]); same = self.values(s, v, sh(vn, a)); key = fn.name + "/" + f[1]
            if v[0] == "c": continue
            if f == v06.I:
                cx.ok("bounded")
                if not self.most(v, s, 1 << 20): cx.bad("bounded", s, "a collection interval of any length is taken from the stream: the instruction budget is only looked at once in that time", key)
            if f in POW2:
                cx.ok("extent")
                if not self.passes(s, lambda p, b: self.pow2(p, b, same, POW2[f])): cx.bad("extent", s, "%s is taken from the stream without a test for a power of two" % f[1], key + "/pow2")
                if POW2[f]:
                    cx.ok("extent")
                    if not self.passes(s, lambda p, b: self.notmax(p, b, same)): cx.bad("extent", s, "%s is taken from the stream and may be all ones" % f[1], key + "/max")
            if f == ("NKVMStack", "capacity"):
                cx.ok("extent", 2)
                if not ix.le(F({}, 1).add(ix.form(v), -1), s.blk): cx.bad("extent", s, "a stack capacity of zero is accepted", key + "/zero")
                lim = [F({ix.norm(("L", i.id)): 1}) for i in fn.all() if i.op == "load" and vn.expr(["i", i.id]) == ("L", i.id) and vn.addr(i.o[0])[2][-1:] == (("f", "NKVMLimits", "maxStackSize"),)]
                if not any(ix.le(ix.form(v), s.blk, n) for n in lim): cx.bad("extent", s, "a stack capacity above the host's limit is accepted", key + "/limit")
                ix.h = {}
            if f == ("NKVMStack", "size"):
                cx.ok("extent")
                cs = [ix.form(vn.expr(c.o[0])) for c in caps.get((sh(vn, a[1]), a[2][:-1]), ())] + [F({("ld", sh(vn, ("gep", a[1], a[2][:-1] + (("f", "NKVMStack", "capacity"),)))): 1})]
                if not any(ix.le(ix.form(v), s.blk, n) for n in cs): cx.bad("extent", s, "a stack size above the capacity is accepted", key + "/size")
                ix.h = {}
        # values put straight into place by the stream
        for i in self.reads:
            a = vn.addr(i.o[0])
            if a[1][0] == "al" or not a[2] or a[2][-1][0] != "f": continue
            f = a[2][-1][1:3]; same = self.values(i, None, sh(vn, a)); key = fn.name + "/" + f[1]
            if f in POW2 or f == ("NKVMStack", "size"):
                cx.ok("extent"); cx.bad("extent", i, "%s is read straight into place" % f[1], key)

    def most(self, v, s, K):
        """a value from the stream is at most K (or made so) by the time of s"""
        ix, fn, vn = self.ix, self.fn, self.vn; e = strip(v)
        if ix.le(ix.form(v), s.blk, F({}, K)): return True
        if e[0] == "phi": return all(ix.dead_edge(p, fn.insts[e[1]].blk) or vn.expr(o)[0] == "c" and vn.expr(o)[1] <= K or ix.le(ix.form(vn.expr(o)), (p, fn.insts[e[1]].blk), F({}, K)) for o, p in ix.incoming(fn.insts[e[1]]))
        if e[0] != "L": return False
        a = vn.addr(fn.insts[e[1]].o[0])
        def put(j): return j.op == "store" and vn.addr(j.o[1]) == a and (vn.expr(j.o[0])[0] == "c" and 0 <= vn.expr(j.o[0])[1] <= K or self.most(vn.expr(j.o[0]), j, K))
        def small(p, b): return (p, b) in ix.dead or vn.infeasible(p, b) or any(f[0] in ("ult", "ule") and strip(f[1])[0] == "L" and vn.addr(fn.insts[strip(f[1])[1]].o[0]) == a and f[2][0] == "c" and 0 <= f[2][1] <= K for f in self.facts(p, b))
        return a in self.cells and all(self.P.escape(i, lambda j: j is s, stop=put, stop_edge=small) is None for i in self.cells[a])

    def slots(self):
        cx, fn, vn, ix = self.cx, self.fn, self.vn, self.ix
        for s in fn.all():
            if s.op != "store" or s.blk not in ix.live: continue
            a = vn.addr(s.o[1])
            if not a[2] or a[2][-1][0] != "x" or strip(vn.expr(s.o[0]))[0] in ("null", "c"): continue
            b = strip(a[1])
            if b[0] != "L": continue
            t = vn.addr(fn.insts[b[1]].o[0])
            if not any(x[0] == "f" and x[1:3] == ("NKVMTable", "u") for x in t[2]): continue
            cx.ok("slot"); at = self.slotkey(a)
            ok = any(f[0] == "eq" and f[2] == ("c", 0) and f[1][0] == "L" and self.slotkey(vn.addr(fn.insts[f[1][1]].o[0])) == at for f in self.vn.block_facts(s.blk) if len(f) == 3)
            if not ok: cx.bad("slot", s, "a loaded entry is put into a slot that was not seen to be empty", fn.name + "/" + show(vn, a)[:50])

    def slotkey(self, a):
        """a table slot: the array by path, the index by value"""
        if not a[2] or a[2][-1][0] == "f": return None
        return (sh(self.vn, ("gep", a[1], a[2][:-1])), self.ix.form(a[2][-1][-1]).key())

    def fields(self):
        cx, fn, vn = self.cx, self.fn, self.vn
        for i in self.reads:
            a = vn.addr(i.o[0])
            if a[1][0] == "al" or not a[2] or a[2][-1][0] != "f": continue
            f = a[2][-1][1:3]; place = sh(vn, a); same = self.values(i, None, place)
            if f in BOUNDED:
                cx.ok("bounded")
                def small(p, b): return any(q[0] == "eq" and same(q[1]) and q[2][0] == "c" and 0 <= q[2][1] < BOUNDED[f] or q[0] in ("ult", "ule") and same(q[1]) and q[2][0] == "c" and q[2][1] % M <= BOUNDED[f] - (q[0] == "ule") for q in self.facts(p, b))
                if self.succeeds(i, small): cx.bad("bounded", i, "%s is read without a check of its range" % f[1], fn.name + "/" + f[1])
            if f in REBUILT:
                cx.ok("rebuilt")
                def put(j): return j.op == "store" and sh(vn, vn.addr(j.o[1])) == place
                if self.succeeds(i, lambda p, b: False, stop=put): cx.bad("rebuilt", i, "%s stays what the stream says" % f[1], fn.name + "/" + f[1])

    def header(self):
        """a marker or version that is compared with what this program writes"""
        cx, fn, vn = self.cx, self.fn, self.vn
        if not any(i.callee == "nkiSerializeInstructions" for i in fn.calls()): return
        for a, rs in self.cells.items():
            if a[1][0] != "al": continue
            for i in rs:
                cx.ok("header")
                def good(p, b):
                    for f in self.facts(p, b):
                        x = strip(f[1])
                        if f[0] != "eq": continue
                        if x[0] == "call" and f[2] == ("c", 0) and self.fn.insts[x[1]].callee in ("nkiMemcmp", "memcmp", "bcmp") and any(vn.addr(o)[1] == a[1] for o in self.fn.insts[x[1]].o[:2] if o[0] in ("i", "a")):
                            n = vn.expr(self.fn.insts[x[1]].o[2]); m = vn.expr(i.o[1])
                            if n[0] == "c" and m[0] == "c" and n[1] >= m[1]: return True
                        if x[0] == "L" and vn.addr(fn.insts[x[1]].o[0]) == a and f[2][0] == "c" and fn.can_reach(i, fn.insts[x[1]]): return True
                    return False
                if self.succeeds(i, good): cx.bad("header", i, "a saved state with another marker or version is accepted", fn.name + "/header")

    def numbers(self):
        """identifiers are mapped or refused before the next entry is looked at"""
        cx, fn, vn, ix = self.cx, self.fn, self.vn, self.ix
        for names in NUMBERS:
            tail = tuple(("f",) + t for t in names)
            # stores of mapped numbers, or reads of raw ones, in a loop over the entries
            hit = [s for s in fn.all() if s.blk in ix.live and (s.op == "store" and vn.addr(s.o[1])[2][-2:] == tail or s.op == "call" and (s.callee or "").startswith("llvm.memcpy") and vn.addr(s.o[0])[2][-1:] == tail[:1])]
            if not hit: continue
            for h, body in loops(fn):
                if h not in ix.live or not any(s.blk in body for s in hit) or any(b2 < body and any(s.blk in b2 for s in hit) for h2, b2 in loops(fn)): continue
                cx.ok("number")
                def numb(x):
                    x = strip(x)
                    return x[0] == "L" and vn.addr(fn.insts[x[1]].o[0])[2][-2:] == tail
                def good(p, b):
                    if (p, b) in ix.dead or vn.infeasible(p, b): return True
                    for f in self.facts(p, b):
                        if f[0] == "eq" and numb(f[1]) and f[2][0] == "c" and f[2][1] % M == M - 1: return True
                        if f[0] == "ult" and numb(f[1]): return True
                        if f[0] == "eq" and f[2] == ("c", 0) and f[1][0] == "L" and vn.addr(fn.insts[f[1][1]].o[0])[2][-1:] and vn.addr(fn.insts[f[1][1]].o[0])[2][-1][0] == "x": return True      # no entry
                    return False
                def valid(p, b):
                    return (p, b) in ix.dead or vn.infeasible(p, b) or any((f[0] == "ne" and f[2][0] == "c" and f[2][1] % M == M - 1 or f[0] == "ult") and numb(f[1]) and any(self.after(s, fn.insts[strip(f[1])[1]]) for s in hit) for f in self.facts(p, b))
                if names is NUMBERS[0] and any(self.P.escape(s, lambda i: False, stop_edge=valid, target_edge=lambda p, b: b == h or (p, b) in self.out) for s in hit if s.op == "store" or self.vn.addr(s.o[1])[2][-1:][0][0] == "x"):
                    cx.bad("number", hit[-1], "a native function that does not exist here is kept", fn.name + "/mapped")
                if self.P.round_trip(h, body, lambda i: False, good): cx.bad("number", hit[0], "an identifier from the stream is kept unchecked", fn.name + "/" + tail[0][2])

    def lengths(self):
        """sizes computed from lengths in the stream do not wrap"""
        cx, fn, vn, ix = self.cx, self.fn, self.vn, self.ix
        for c in fn.all():
            if c.op != "call" or c.callee not in ("nkiMalloc_real", "nkiMalloc") or c.blk not in ix.live: continue
            f = ix.form(vn.expr(c.o[-1]))
            if f.c <= 0 or len(f.t) != 1: continue
            (a, k), = f.t.items()
            if not (a[0] == "L" and vn.addr(fn.insts[a[1]].o[0]) in self.cells or a[0] == "call"): continue
            cx.ok("length")
            def enough(q):
                x, y = ix.form(q[1]), ix.form(q[2])
                if q[0] == "ne": return f.c == 1 and not y.t and x.t == {a: 1} and (y.c - x.c) % M == M - 1
                if q[0] not in ("ult", "ule"): return False
                if x.t == {a: 1} and x.c == 0 and not y.t: return (y.c % M) - (q[0] == "ult") + f.c < M
                # the sum is not below a part of it: it did not wrap
                if y.t == {a: 1} and y.c >= f.c: return x.key() == F({a: 1}).key() or not x.t and x.c >= y.c
                return False
            ok = k == 1 and any(len(q) == 3 and enough(q) for q in vn.block_facts(c.blk))
            if not ok: cx.bad("length", c, "the size of a buffer for loaded data may wrap around", fn.name + "/length")

    def bounded_loops(self):
        """a loop as long as the stream says reads something each time, or there was room for all of it"""
        cx, fn, vn, ix = self.cx, self.fn, self.vn, self.ix
        def tainted(e):
            e = strip(e)
            if e[0] != "L": return False
            a = vn.addr(fn.insts[e[1]].o[0])
            return a in self.cells and any(fn.can_reach(i, fn.insts[e[1]]) for i in self.cells[a])
        for h, body in loops(fn):
            if h not in ix.live: continue
            lim = [f[2] for p, b in exit_edges(fn, body) for f in [q for q in vn.edge_facts(p, b) if len(q) == 3] if f[2][0] == "L"] + [f[1] for p, b in exit_edges(fn, body) for f in [q for q in vn.edge_facts(p, b) if len(q) == 3] if f[1][0] == "L"]
            lim = [x for x in lim if tainted(x)]
            if not lim: continue
            cx.ok("loop")
            def reads(i): return i.op == "call" and (i in self.reads or i.callee in self.W.S.fns)
            if self.P.round_trip(h, body, reads, lambda p, b: (p, b) in ix.dead) is None: continue
            head = fn.blocks[h][0]
            if any(c.op == "call" and c.callee in ALLOC_N and fn.dominates(c, head) and any(ix.form(vn.expr(o)).key() == ix.form(x).key() for o in c.o[-2:] for x in lim) for c in fn.all()): continue
            if any(ix.le(ix.form(x), h, F({ix.norm(("L", i.id)): 1})) for x in lim for i in fn.all() if i.op == "load" and vn.expr(["i", i.id]) == ("L", i.id) and vn.addr(i.o[0])[1][0] != "al" and i.ty == "i32"): continue
            cx.bad("loop", fn.blocks[h][-1], "a loop runs as often as the stream says without reading anything", fn.name + "/loop")

    def rooms(self):
        """what is read fits where it is put"""
        cx, fn, vn, ix = self.cx, self.fn, self.vn, self.ix
        if fn.name.startswith("nkx"): return            # the host's own buffers
        for i in self.reads:
            n = ix.form(vn.expr(i.o[1]))
            if not n.t: continue
            cx.ok("room")
            if not self.fits(ix, vn.expr(i.o[0]), n, i.blk): cx.bad("room", i, "more may be read than there is room for", fn.name + "/room")
        for s in fn.all():
            if s.op != "store" or s.blk not in ix.live: continue
            d = fn.idef(s.o[1])
            if d is None or d.op != "getelementptr" or [x[2] for x in d.path if x[0] == "x"] != ["i8"] or len(d.path[0]) > 3: continue
            a = vn.addr(s.o[1])
            if a[2][-1][0] != "x" or strip(a[2][-1][-1])[0] == "c": continue
            cx.ok("room")
            e = ("gep", a[1], a[2][:-1]) if len(a[2]) > 1 else a[1]
            if not self.fits(ix, e, ix.form(a[2][-1][-1]).plus(1), s.blk): cx.bad("room", s, "a byte is put beyond the buffer", fn.name + "/end")

    def fits(self, ix, e, n, at, depth=0):
        vn, fn = ix.vn, ix.fn; e = strip(e)
        if e[0] == "phi":
            d = fn.insts[e[1]]
            return all(ix.dead_edge(p, d.blk) or vn.expr(v) == ("c", 0) or self.fits(ix, vn.expr(v), n, at, depth) for v, p in ix.incoming(d))
        if e[0] == "gep" and len(e[2]) == 1 and e[2][0][0] == "x": return self.fits(ix, e[1], n.add(ix.form(e[2][0][-1])), at, depth)
        if e[0] == "L" and depth < 3:
            a = vn.addr(fn.insts[e[1]].o[0])
            st = [s for s in fn.all() if s.op == "store" and s.blk in ix.live and vn.addr(s.o[1]) == a and fn.dominates(s, fn.insts[e[1]])]
            if st and a[1][0] in ("a", "al") and not a[2] and self.fits(ix, vn.expr(st[-1].o[0]), n, at, depth + 1): return True
        if e[0] == "call" and fn.insts[e[1]].callee in ("nkiMalloc_real", "nkiMalloc"): return ix.le(n, at, ix.form(vn.expr(fn.insts[e[1]].o[-1])))
        if e[0] == "a" and depth < 3:
            for m in range(len(fn.args) if hasattr(fn, "args") else 8):
                if m == e[1] or not ix.le(n, at, F({("a", m): 1})): continue
                cs = self.W.callers(ix)
                if cs and all(self.fits(v, v.vn.expr(c.o[e[1]]), v.form(v.vn.expr(c.o[m])), c.blk, depth + 1) for c, v in cs): return True
            return False
        q = self.W.extents(ix, e, (), 0) if e[0] in ("L", "call", "phi") else None
        for N, un in q or ():
            es = min(abs(v) for v in n.t.values())
            if ix.le(n, at, F({k: v * es for k, v in N.t.items()}, N.c * es)): return True
        return False

    def missing(self):
        """what a name or value in the stream refers to may not exist"""
        cx, fn, vn, ix = self.cx, self.fn, self.vn, self.ix
        for c in fn.all():
            if c.op != "call" or c.ty != "ptr" or c.blk not in ix.live or not self.nullable(c.callee): continue
            x = ("call", c.id); use = []
            for i in fn.all():
                if i.op in ("load", "store") and i.blk in ix.live and strip(vn.addr(i.o[-1])[1]) == x: use.append(i)
            if not use: continue
            cx.ok("missing")
            for i in use:
                if not any(len(f) == 3 and f[0] == "ne" and strip(f[1]) == x and f[2] == ("c", 0) for f in vn.facts(i)):
                    cx.bad("missing", i, "what %s found is used although it may have found nothing" % c.callee, fn.name + "/" + c.callee); break

    def nullable(self, n):
        fn = self.mod.fns.get(n)
        if fn is None or n in ALLOC_N or "alloc" in n: return False
        vn = self.cx.vn(n)
        def zero(v, d=0):
            e = strip(vn.expr(v))
            if e == ("c", 0) or e[0] == "null": return True
            return e[0] == "phi" and d < 4 and any(zero(o, d + 1) for o, p in fn.insts[e[1]].o)
        return any(i.op == "ret" and i.o and zero(i.o[0]) for i in fn.all())
