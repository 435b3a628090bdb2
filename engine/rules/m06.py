"""M06 - blocks are never used after they were released.

 A  after a release, no path uses the released pointer (or anything computed from it, or a second load of
    the same cell) before it is given a new value
 C  a pointer into an array that may be moved is not used after a call that may move the array"""
from nk.own import own
from nk.vn import PURE, ALLOCATOR_CB, strip, is_load_of
from nk.loops import loops_of
from nk.stream import Stream
from nk.cells import Cells, _sub
from nk.core import Broken

META = {"level": "other", "technique": "use-after-release dataflow: released SSA values, memory cells left holding a released pointer (interprocedural), and pointers into arrays a later call may move",
        "note": "Decided for blocks released through the machine's own allocator. The host's stream reader/writer and allocator callbacks are assumed not to call back into the machine; every other host callback may call any public function except deleting the machine. After a catastrophic failure only what the public functions still read without their failure check is followed.",
        "explains": "A: from every release, every path is followed until the value is redefined; no load, store, call argument or return uses it or anything computed from it. B: the memory cell a released pointer was loaded from must be overwritten, or the block holding it released, before the function returns to the host, before other host code can run, before anything reads it again, and before a catastrophic failure if the cell is still read afterwards; what a function leaves dangling is carried to its callers. C: an SSA pointer into a growable array, or to an object, string or field, is not used after a call that may move or release the block; a push onto a stack with a free slot (counted from the preceding pops) does not move it."}


def derived(fn, i, ids):
    """does i compute an address or value straight from a dangling pointer?"""
    if i.op in ("getelementptr", "bitcast", "freeze", "ptrtoint", "inttoptr"): return i.o[0][0] == "i" and i.o[0][1] in ids
    return False


class Released:
    """rule A"""
    def __init__(self, cx): self.cx = cx; self.mod = cx.mod; self.own = own(cx)

    def check(self, fn, call, op):
        vn = self.cx.vn(fn.name)
        x = vn.expr(op)
        start = set()
        if op[0] == "i":
            # every SSA value with the same value number, defined by now
            for d in fn.all():
                if d.ty == "ptr" and (d.id == op[1] or fn.dominates(d, call) and vn.expr(["i", d.id]) == x and x[0] not in ("c", "null")): start.add(d.id)
        args = {op[1]} if op[0] == "a" else set()
        # a value that is NULL here is no block
        todo = [(call.blk, call.pos + 1, frozenset(start))]; seen = set(); n = 0
        while todo:
            b, p, ids = todo.pop()
            ids = set(ids); stop = False
            for i in fn.blocks[b][p:]:
                if i.op == "phi": continue
                if i.id in ids: ids.discard(i.id)
                if not ids and not args: stop = True; break
                r = self.use(fn, vn, i, ids, args, call, x)
                if r: return i, r
                if derived(fn, i, ids) or i.op == "getelementptr" and i.o[0][0] == "a" and i.o[0][1] in args: ids.add(i.id)
                if i.op == "select" and any(o[0] == "i" and o[1] in ids for o in i.o[1:]): ids.add(i.id)
            if stop: continue
            for s in fn.succs[b]:
                if vn.infeasible(b, s): continue
                nx = set(ids)
                for i in fn.blocks[s]:
                    if i.op != "phi": break
                    v = next((v for v, pb in i.o if pb == b), None)
                    d = v is not None and (v[0] == "i" and v[1] in ids or v[0] == "a" and v[1] in args)
                    if d: nx.add(i.id)
                    else: nx.discard(i.id)
                k = (s, frozenset(nx))
                if k in seen: continue
                seen.add(k); n += 1
                if n > 5000: raise Broken("too many paths after the release in " + fn.name)
                if nx or args: todo.append((s, 0, k[1]))
        return None

    def use(self, fn, vn, i, ids, args, call, x):
        dang = lambda o: o[0] == "i" and o[1] in ids or o[0] == "a" and o[1] in args or o[0] == "cgep" and dang(o[1])
        if i.op == "load" and dang(i.o[0]): return "is read through"
        if i.op == "store":
            if dang(i.o[1]): return "is written through"
            if dang(i.o[0]): return "is stored"
        if i.op in ("call", "invoke"):
            c = i.callee or ""
            if c.startswith("llvm.dbg") or c.startswith("llvm.lifetime"): return None
            if any(dang(o) for o in i.o): return "is passed to %s" % "/".join(self.mod.cal(i))
        if i.op == "ret" and i.o and dang(i.o[0]): return "is returned"
        return None


def check(cx, tier):
    R = Released(cx); O = R.own
    for fn in cx.mod.fns.values():
        for i in fn.calls():
            for op in O.freed_operands(i):
                if op[0] in ("null", "c", "undef"): continue
                r = R.check(fn, i, op)
                cx.ok("A released pointers followed", sample=i.loc())
                if r: cx.bad("A", r[0], "the block released at line %s %s" % (i.ln, r[1]), "released-" + r[1])
    C = Cells(cx).run()
    for i, text, where, start in C.reports.values():
        w = where or start
        f = cx.mod.addr_field(w.fn, w.o[0]) if w.op == "load" else None
        cx.bad("B", i, "%s (a pointer%s released, read at %s)" % (text, " from %s.%s" % f if f else "", w.loc()), "cell-%s" % (".".join(f) if f else text))
    cx.ok("B cells of released pointers followed", len(C.used))
    for n, left in C.sum.items():
        for (k, steps), w in left.items():
            if n.startswith("nkx"):
                f = next((s for s in reversed(steps) if s[0] not in ("x", "*")), ("?", "?"))
                cx.bad("B", cx.mod.fns[n].exits()[0] if cx.mod.fns[n].exits() else w, "%s.%s still holds a released pointer when the host gets control back (released from what was read at %s)" % (f[0], f[1], w.loc()), "left-%s.%s" % f)
    S = Stale(cx, C)
    if not S.pushes or not S.pops: raise Broken("stack push and pop not recognised")
    S.arguments()
    for fn in cx.mod.fns.values(): S.check(fn)
    cx.ok("C arrays that move", len(S._arr), sample=sorted(".".join(k) for k in S._arr))
    cx.need("A released pointers followed", 110); cx.need("B cells of released pointers followed", 80); cx.need("C pointers into movable blocks", 400)


class Stale:
    """rule C: which arrays and which kinds of block may a call release, and who still points into them"""
    KINDS = ("NKVMObject", "NKVMString", "NKVMObjectElement", "NKCompilerStateContext")

    def __init__(self, cx, cells):
        self.cx = cx; self.mod = cx.mod; self.own = own(cx); self.cells = cells
        self.rel = {n: set() for n in self.mod.fns}
        for n, fn in self.mod.fns.items():
            for i in fn.calls():
                for o in self.own.freed_operands(i): self.rel[n] |= self.keys(fn, o)
        # host code may call every public function but the one that ends the machine's life
        self.hostrel = set(); self.direct = {n: set(k) for n, k in self.rel.items()}
        ch = True
        while ch:
            ch = False
            for n, fn in self.mod.fns.items():
                l = len(self.direct[n])
                for i in fn.calls():
                    for c in self.mod.cal(i): self.direct[n] |= self.direct.get(c, set())
                ch = ch or len(self.direct[n]) != l
        ch = True
        while ch:
            ch = False
            h = set().union(*[self.rel[n] for n in self.mod.fns if n.startswith("nkx") and not self.deletes(n)])
            if h != self.hostrel: self.hostrel = h; ch = True
            for n, fn in self.mod.fns.items():
                l = len(self.rel[n])
                for i in fn.calls():
                    self.rel[n] |= self.released(i, False)
                ch = ch or len(self.rel[n]) != l
        self.room_setup()
        self.into = {}          # fn -> keys its result points into
        self.params = {}        # (fn, k) -> keys the argument may point into
        ch = True
        while ch:
            ch = False
            for n, fn in self.mod.fns.items():
                if not (fn.ditypes and fn.ditypes[0].endswith("*")): continue
                k = set()
                for r in fn.exits():
                    if r.o: k |= self.points(fn, r.o[0])
                if k != self.into.get(n, set()): self.into[n] = k; ch = True

    def deletes(self, n):
        """does the function give the machine itself back to the allocator?"""
        fn = self.mod.fns[n]
        return any(("a", 0) == tuple(o[:2]) for i in fn.calls() for c in self.mod.cal(i) if c in ALLOCATOR_CB and "free" in c for o in i.o)

    def arguments(self):
        """what pointer arguments may point into, from every call site"""
        ch = True
        while ch:
            ch = False
            for n, fn in self.mod.fns.items():
                for i in fn.calls():
                    for c in self.mod.cal(i):
                        if c not in self.mod.fns: continue
                        for k, o in enumerate(i.o):
                            if o[0] not in ("i", "a"): continue
                            q = {x for x in self.points(fn, o) if x[0] == "f"}
                            old = self.params.get((c, k), set())
                            if q - old: self.params[(c, k)] = old | q; ch = True

    def keys(self, fn, o):
        out = set()
        for l in self.cells.sources(fn, o):
            k = self.mod.addr_field(fn, fn.insts[l].o[0])
            if k and self.isarray(k): out.add(("f",) + k)
        s = self.cx.ms.pointee(fn, o)
        if s in self.KINDS: out.add(("t", s))
        return out

    def isarray(self, k):
        """is the field ever given the result of an array allocation?"""
        if not hasattr(self, "_arr"):
            A = {"nkiMallocArray", "nkiReallocArray", "nkiRealloc"}
            self._arr = {}
            for f, sts in self.own.owning_fields().items():
                for st in sts:
                    fn = st.fn
                    if any(r[0] == "i" and fn.insts[r[1]].callee in A for r in self.own.roots(fn, st.o[0])): self._arr.setdefault(f, st)
        return k in self._arr

    def exclusive(self, fn):
        """stores that mark the machine as collecting, made only where it was not: until the mark is taken
        back no public function collects again"""
        if not hasattr(fn, "_excl"):
            vn = self.cx.vn(fn.name); fn._excl = []
            for i in fn.all():
                if i.op != "store" or i.o[0][0] != "c" or not i.o[0][1]: continue
                k = self.mod.addr_field(fn, i.o[1])
                if k and any(len(f) == 3 and f[0] == "eq" and f[2] == ("c", 0) and is_load_of(vn, f[1], *k) for f in vn.facts(i)): fn._excl.append(i)
        return fn._excl

    def stream(self, i):
        """a call of the host's reader or writer of a saved state: it does not call back into the machine"""
        if not hasattr(self, "_dir"): self._dir = {(j.fn.name, j.id) for j in Stream(self.cx).direct}
        return (i.fn.name, i.id) in self._dir

    def released(self, i, host=True):
        out = set()
        one = any(i.fn.dominates(s, i) for s in self.exclusive(i.fn))
        for c in self.mod.cal(i):
            out |= (self.direct if one else self.rel).get(c, set())
            if one or c.startswith("cb:") and self.stream(i): continue
            if c.startswith("cb:") and c not in ALLOCATOR_CB: out |= self.hostrel
        return out

    def points(self, fn, op, seen=None):
        """keys of the blocks a pointer value points into"""
        seen = set() if seen is None else seen
        d = fn.idef(op)
        while op[0] == "cgep": op = op[1]; d = fn.idef(op)
        if d is None:
            if op[0] == "a": return set(self.params.get((fn.name, op[1]), ()))
            return set()
        if d.id in seen: return set()
        seen.add(d.id)
        if d.op in ("getelementptr", "bitcast", "freeze"): return self.points(fn, d.o[0], seen)
        if d.op == "select": return self.points(fn, d.o[1], seen) | self.points(fn, d.o[2], seen)
        if d.op == "phi":
            r = set()
            for v, b in d.o: r |= self.points(fn, v, seen)
            return r
        if d.op == "load":
            out = set()
            k = self.mod.addr_field(fn, d.o[0])
            if k and self.isarray(k): out.add(("f",) + k)
            s = self.cx.ms.pointee(fn, op)
            if s in self.KINDS: out.add(("t", s))
            return out
        if d.op == "call":
            out = set()
            for c in self.mod.cal(d): out |= self.into.get(c, set())
            s = self.cx.ms.pointee(fn, op)
            if s in self.KINDS: out.add(("t", s))
            return out
        return set()

    # ---- free slots of the operand stack: a push moves the stack only when there is none left
    SZ = ("NKVMStack", "size"); CAP = ("NKVMStack", "capacity"); VAL = ("f", "NKVMStack", "values"); CTX = ("NKVM", "currentExecutionContext")

    def room_setup(self):
        mod = self.mod
        self.pops = set(); self.down = set(); self.pushes = {}; grows = set()
        loadsz = lambda vn, e: any(is_load_of(vn, x, *self.SZ) for x in _sub(e))
        for n, fn in mod.fns.items():
            vn = self.cx.vn(n); ups = []; downs = []
            for i in fn.all():
                if i.op == "store" and mod.addr_field(fn, i.o[1]) == self.SZ:
                    e = strip(vn.expr(i.o[0]))
                    if e == ("c", 0) or e[0] == "sub" and loadsz(vn, e[1]) or e[0] == "add" and any(x in (("c", -1), ("c", 0xffffffff)) for x in e[1:]): downs.append((i, e))
                    else: ups.append((i, e))
            if ups:
                # the push: one more, and the old block is given up only when the stack is full
                def guarded(c): 
                    for f in vn.facts(c):
                        if len(f) == 3 and f[0] == "eq" and (is_load_of(vn, f[1], *self.CAP) or is_load_of(vn, f[2], *self.CAP)) and (f[2] == ("c", 0) or is_load_of(vn, f[1], *self.SZ) or is_load_of(vn, f[2], *self.SZ)): return True
                    return False
                one = all(e[0] == "add" and ("c", 1) in e[1:] and loadsz(vn, e) for i, e in ups) and len(ups) == 1
                if one and all(guarded(i) for i in fn.calls() if self.VAL in self.released(i) or any(self.VAL in self.keys(fn, o) for o in self.own.freed_operands(i))): self.pushes[n] = 1
                else: grows.add(n)
            elif downs:
                self.down.add(n)
                if any(e[0] in ("add", "sub") and (("c", 1) in e[1:] or ("c", -1) in e[1:] or ("c", 0xffffffff) in e[1:]) for i, e in downs) and len(downs) == 1: self.pops.add(n)
        # functions that only push through the primitive, a bounded number of times
        ch = True
        while ch:
            ch = False
            for n, fn in mod.fns.items():
                if n in self.pushes or n in grows: continue
                k = 0; bad = False; any_ = False
                for i in fn.calls():
                    cs = mod.cal(i)
                    w = [c for c in cs if self.touches(c)]
                    if not w: continue
                    if any(c in self.down for c in w): continue
                    if any(c not in self.pushes for c in w): bad = True; break
                    any_ = True
                    if loops_of(fn, i.blk): bad = True; break
                    k += max(self.pushes[c] for c in w)
                if any_ and not bad: self.pushes[n] = k; ch = True

    def touches(self, c):
        return c.startswith("cb:") and c not in ALLOCATOR_CB or ("f",) + self.SZ in self.cx.ms.mods.get(c, ()) or self.VAL in self.rel.get(c, ())

    def room(self, i, r, switched=False):
        """lower bound on the free slots after instruction i"""
        if i.op != "call": return r
        cs = [c for c in self.mod.cal(i) if self.touches(c) or ("f",) + self.CTX in self.cx.ms.mods.get(c, ())]
        if not cs: return r
        out = []
        for c in cs:
            if c in self.pops: out.append(r if switched else max(1, r))
            elif c in self.down: out.append(r)
            elif c in self.pushes: out.append(max(0, r - self.pushes[c]))
            elif not self.touches(c): out.append(r if switched is not None else 0)
            else: out.append(0)
        return min(out)

    def room_before(self, fn):
        if not hasattr(fn, "_room"):
            inb = {0: 0}; todo = [0]
            while todo:
                b = todo.pop(); r = inb[b]
                for i in fn.blocks[b]: r = self.room(i, r, None)
                for s in fn.succs[b]:
                    v = min(inb.get(s, r), r)
                    if inb.get(s) != v: inb[s] = v; todo.append(s)
            fn._room = inb
        return fn._room

    def switches(self, i): return i.op == "call" and any(("f",) + self.CTX in self.cx.ms.mods.get(c, ()) or c.startswith("cb:") and c not in ALLOCATOR_CB for c in self.mod.cal(i))

    def releases_now(self, i, keys, r):
        hit = self.released(i) & keys
        if hit == {self.VAL}:
            return not all(c in self.pushes and self.pushes[c] <= r for c in self.mod.cal(i) if self.VAL in self.rel.get(c, ()))
        return bool(hit)

    def origins(self, fn):
        """SSA pointers that start out pointing into a releasable block"""
        for i in fn.all():
            if i.ty != "ptr" or i.op not in ("load", "call"): continue
            k = self.points(fn, ["i", i.id])
            if k: yield i, k

    def check(self, fn):
        R = Released(self.cx)
        for o, keys in self.origins(fn):
            self.one(fn, o, keys, R)
            self.cx.ok("C pointers into movable blocks", sample=o.loc())
        for k in range(fn.nargs):
            keys = self.params.get((fn.name, k))
            if keys:
                self.one(fn, None, keys, R, k)
                self.cx.ok("C arguments into movable blocks", sample="%s argument %d" % (fn.name, k))

    def one(self, fn, o, keys, R, arg=None):
        vn = self.cx.vn(fn.name)
        args = () if arg is None else {arg}
        what = "argument %d leads into" % arg if o is None else "a pointer taken at line %s leads into" % o.ln
        if o is None: todo = [(0, 0, frozenset(), None, 0, False)]
        else:
            r0 = self.room_before(fn).get(o.blk, 0)
            for i in fn.blocks[o.blk][:o.pos + 1]: r0 = self.room(i, r0, None)
            todo = [(o.blk, o.pos + 1, frozenset({o.id}), None, r0, False)]
        seen = set()
        while todo:
            b, p, ids, stale, room, sw = todo.pop()
            ids = set(ids); stop = False
            for i in fn.blocks[b][p:]:
                if i.op == "phi": continue
                if i is o: stop = True; break
                ids.discard(i.id)
                if stale is not None:
                    r = R.use(fn, vn, i, ids, args, None, None)
                    if r and not (i.op == "store" and r == "is stored"): 
                        self.cx.bad("C", i, "%s may release the block %s, and the pointer %s afterwards" % ("/".join(self.mod.cal(stale)[:3]), what, r), "stale-%s" % sorted(keys)[0][-1]); return
                if derived(fn, i, ids) or i.op in ("getelementptr", "bitcast") and i.o[0][0] == "a" and i.o[0][1] in args: ids.add(i.id)
                if i.op == "select" and any(x[0] == "i" and x[1] in ids or x[0] == "a" and x[1] in args for x in i.o[1:]): ids.add(i.id)
                if i.op == "call" and stale is None and self.releases_now(i, keys, room) and not any(x[0] == "i" and x[1] in ids for x in self.own.freed_operands(i)): stale = i
                room = self.room(i, room, sw); sw = sw or self.switches(i)
            if stop: continue
            for s in fn.succs[b]:
                if vn.infeasible(b, s): continue
                nx = set(ids)
                for i in fn.blocks[s]:
                    if i.op != "phi": break
                    v = next((v for v, pb in i.o if pb == b), None)
                    if v is not None and (v[0] == "i" and v[1] in ids or v[0] == "a" and v[1] in args): nx.add(i.id)
                    else: nx.discard(i.id)
                k = (s, frozenset(nx), stale and stale.id, room, sw)
                if k in seen or not nx and not args: continue
                seen.add(k); todo.append((s, 0, k[1], stale, room, sw))
