"""Cells left pointing at released blocks: from the load (or call) that yields a released pointer, every
path is followed until the cell is overwritten or the block holding the cell is released."""
from .own import own
from .throw import may_throw
from .core import Broken
from .vn import ALLOCATOR_CB, strip


class Cells:
    def __init__(self, cx, teardown=()):
        self.cx = cx; self.mod = cx.mod; self.own = own(cx); self.sum = {}; self.teardown = teardown
        self.starts = 0; self.reports = {}; self.used = set()

    # ------------------------------------------------------------ addresses
    def shape(self, fn, op, depth=0):
        """(root, steps) of a pointer value: f field, x element, * contents"""
        if op[0] == "cgep":
            r, s = self.shape(fn, op[1], depth); return r, s + self._st(op[2], self.cx.vn(fn.name))
        if op[0] == "a": return ("a", op[1]), ()
        if op[0] == "i":
            d = fn.insts[op[1]]
            if d.op == "getelementptr":
                r, s = self.shape(fn, d.o[0], depth); return r, s + self._st(d.path, self.cx.vn(fn.name))
            if d.op in ("bitcast", "freeze"): return self.shape(fn, d.o[0], depth)
            if d.op == "load":
                r, s = self.shape(fn, d.o[0], depth); return r, s + ("*",)
            return ("i", d.id), ()
        return (op[0], op[1] if len(op) > 1 else None), ()

    def _st(self, path, vn):
        out = []
        for st in path:
            if st[0] == "f": out.append((st[1], st[2]))
            elif not (st[1] in (0, ["c", 0]) or isinstance(st[1], list) and st[1][:2] == ["c", 0]):
                e = strip(vn.expr(st[1])) if isinstance(st[1], list) else ("c", st[1])
                out.append(("x", e))
        return tuple(out)

    def ssa_chain(self, fn, op):
        """SSA pointers the address hangs on"""
        out = []
        while op[0] in ("i", "cgep"):
            if op[0] == "cgep": op = op[1]; continue
            d = fn.insts[op[1]]; out.append(d.id)
            if d.op in ("getelementptr", "bitcast", "freeze", "load"): op = d.o[0]
            else: break
        return out

    # ------------------------------------------------------------ summaries
    def run(self):
        work = list(self.mod.fns); rounds = 0
        while work:
            rounds += 1
            if rounds > 14: raise Broken("dangling cell summaries do not settle")
            nxt = set()
            for n in work:
                new = self.function(self.mod.fns[n])
                if new != self.sum.get(n, {}):
                    self.sum[n] = new
                    for c in self.mod.callers.get(n, []): nxt.add(c.fn.name)
            work = sorted(nxt)
        return self

    def sources(self, fn, op, seen=None):
        """loads a released value may come from"""
        seen = set() if seen is None else seen
        d = fn.idef(op)
        if d is None or d.id in seen: return set()
        seen.add(d.id)
        if d.op == "phi":
            r = set()
            for v, b in d.o: r |= self.sources(fn, v, seen)
            return r
        if d.op in ("bitcast", "freeze"): return self.sources(fn, d.o[0], seen)
        if d.op == "getelementptr" and not self._st(d.path, self.cx.vn(fn.name)): return self.sources(fn, d.o[0], seen)
        if d.op == "select": return self.sources(fn, d.o[1], seen) | self.sources(fn, d.o[2], seen)
        return {d.id} if d.op == "load" else set()

    def function(self, fn):
        self.reports = {k: v for k, v in self.reports.items() if k[0] != fn.name}
        left = {}
        loads = set()
        for i in fn.calls():
            for op in self.own.freed_operands(i): loads |= self.sources(fn, op)
        for l in sorted(loads):
            L = fn.insts[l]
            self.used.add((fn.name, l))
            self.follow(fn, L, L.o[0], self.shape(fn, L.o[0]), left)
        vn = self.cx.vn(fn.name)
        for i in fn.calls():
            for c in self.mod.cal(i):
                for (k, steps), where in self.sum.get(c, {}).items():
                    if k >= len(i.o): continue
                    r, s = self.shape(fn, i.o[k])
                    steps2 = tuple(("x", strip(vn.expr(i.o[st[1][1]]))) if st[0] == "x" and st[1][0] == "a" and st[1][1] < len(i.o) else st for st in steps)
                    self.used.add((fn.name, i.id, k, steps))
                    self.follow(fn, i, i.o[k], (r, s + steps2), left, where)
        return left

    def lift(self, shape):
        """what a caller can make of the cell's name"""
        return tuple(("x", st[1] if st[1][0] in ("a", "c") else ("?",)) if st[0] == "x" else st for st in shape[1])

    def exact(self, shape): return all(st[0] != "x" or st[1] != ("?",) for st in shape[1])

    def phis_in(self, shape, A):
        return {x[1] for st in shape[1] if st[0] == "x" for x in _sub(st[1]) if len(x) == 2 and x[0] in ("phi", "L", "v", "call") and isinstance(x[1], int)} | \
            ({shape[0][1]} if shape[0][0] == "i" else set())

    # ------------------------------------------------------------ one cell
    def follow(self, fn, start, addr, shape, left, where=None):
        vn = self.cx.vn(fn.name)
        isld = start.op == "load"
        A = vn.addr(addr) if isld else None
        chain = set(self.ssa_chain(fn, addr)); cargs = {shape[0][1]} if shape[0][0] == "a" else set()
        names = self.phis_in(shape, A)        # SSA values the cell's name depends on
        local = shape[0][0] == "i" and fn.insts[shape[0][1]].op == "alloca" and "*" not in shape[1]
        lastf = next((st for st in reversed(shape[1]) if st[0] not in ("x", "*")), None)
        aliases0 = frozenset({addr[1]}) if isld and addr[0] == "i" else frozenset()
        todo = [(start.blk, start.pos + 1, frozenset({start.id} if isld else ()), aliases0, not isld, not self.exact(shape))]
        seen = set(); n = 0
        while todo:
            b, p, hold, al, freed, lost = todo.pop()
            hold = set(hold); al = set(al); stop = False
            for i in fn.blocks[b][p:]:
                if i.op == "phi": continue
                if i is start:
                    if not freed: stop = True; break
                    if isld and not lost:
                        self.report(fn, i, "the pointer released earlier is read again from the same place", where, start); stop = True; break
                    if isld: stop = True; break          # another cell of the same kind: it has its own walk
                    hold = set()
                if i.id in hold and i is not start: hold.discard(i.id)
                if i.id in names: lost = True; al = set()
                if i.op == "load" and freed and i is not start and self.same(fn, vn, i.o[0], A, shape, lost, al): hold.add(i.id)
                if i.op == "store" and self.same(fn, vn, i.o[1], A, shape, lost, al) and not (i.o[0][0] == "i" and i.o[0][1] in hold): stop = True; break
                if i.op in ("call", "invoke"):
                    c = i.callee or ""
                    if c.startswith("llvm.dbg") or c.startswith("llvm.lifetime"): continue
                    rel = self.own.freed_operands(i)
                    hit = any(o[0] == "i" and o[1] in hold for o in rel)
                    if hit and i is not start:
                        if freed: self.report(fn, i, "the block is released twice", where, start)
                        freed = True
                    if any(self.contains(fn, o, shape, chain, cargs) for o in rel if not (o[0] == "i" and o[1] in hold)) or self.vmfree(fn, i, shape): stop = True; break
                    if c.startswith("llvm.mem") and self.prefix(self.shape(fn, i.o[0]), shape): stop = True; break
                    if freed and not local and not hit and i is not start:
                        if not lost and self.overwrites(fn, i, shape): stop = True; break
                        if may_throw(self.cx, i) and lastf in self.live_after_failure(): self.report(fn, i, "an allocation failure in %s leaves with the pointer still stored" % self.nm(i), where, start)
                        if self.host(i): self.report(fn, i, "host code runs (%s) with the pointer still stored" % self.nm(i), where, start)
                        if lastf and self.reads(i, lastf): self.report(fn, i, "%s reads such a pointer while the released one is still stored" % self.nm(i), where, start)
                if freed and i.op in ("load", "store", "call") and i is not start and i.op != "call":
                    o = i.o[0] if i.op == "load" else i.o[1]
                    if any(self.via(fn, o, h) for h in hold) : self.report(fn, i, "the released block is used", where, start)
                if i.op == "ret" and freed and not local:
                    if shape[0][0] == "a": left.setdefault((shape[0][1], self.lift(shape) if not lost else tuple(("x", ("?",)) if st[0] == "x" else st for st in shape[1])), where or start)
                    else: self.report(fn, i, "the pointer is still stored when the function returns", where, start)
            if stop or not freed and not hold: continue
            for s in fn.succs[b]:
                if vn.infeasible(b, s): continue
                if not freed and any(len(f) == 3 and f[0] == "eq" and f[2] == ("c", 0) and any(vn.expr(["i", h]) == f[1] for h in hold) for f in vn.edge_facts(b, s)): continue
                nx = set(hold); l2 = lost; na = set(al)
                for i in fn.blocks[s]:
                    if i.op != "phi": break
                    v = next((v for v, pb in i.o if pb == b), None)
                    if v is not None and v[0] == "i" and v[1] in hold: nx.add(i.id)
                    else: nx.discard(i.id)
                    if v is not None and not lost and (v[0] == "i" and v[1] in al or A is not None and vn.addr(v) == A): na.add(i.id)
                    else: na.discard(i.id)
                    if i.id in names or i.id in chain: l2 = True
                k = (s, frozenset(nx), frozenset(na), freed, l2)
                if k in seen: continue
                seen.add(k); n += 1
                if n > 20000: raise Broken("too many states in " + fn.name)
                todo.append((s, 0) + k[1:])
        self.starts += 1

    def nm(self, i): 
        l = self.mod.cal(i)
        return "/".join(l) if len(l) < 4 else "a handler"

    def via(self, fn, op, h):
        while op[0] == "cgep" or op[0] == "i":
            if op[0] == "cgep": op = op[1]; continue
            if op[1] == h: return True
            d = fn.insts[op[1]]
            if d.op not in ("getelementptr", "bitcast", "freeze"): return False
            op = d.o[0]
        return False

    def same(self, fn, vn, op, A, shape, lost, al):
        if op[0] == "i" and op[1] in al: return True
        if lost: return False
        if A is not None and vn.addr(op) == A: return True
        return self.shape(fn, op) == shape and shape[0][0] == "a"

    def prefix(self, a, b): return a[0] == b[0] and b[1][:len(a[1])] == a[1]

    def contains(self, fn, o, shape, chain, cargs):
        """does releasing o release the memory the cell lives in?"""
        if o[0] == "i" and o[1] in chain and fn.insts[o[1]].op != "alloca": return True
        if o[0] == "a" and o[1] in cargs: return True
        s = self.shape(fn, o)
        return "*" in s[1] and self.prefix(s, shape) and len(s[1]) < len(shape[1]) or s[1] == () and s[0] == shape[0] and s[0][0] == "i"

    def vmfree(self, fn, i, shape):
        if not any(c in ALLOCATOR_CB or c == "free" for c in self.mod.cal(i)): return False
        return any(self.prefix(self.shape(fn, o), shape) for o in i.o)

    def overwrites(self, fn, i, shape):
        """does the callee store the cell on all its paths?"""
        vn = self.cx.vn(fn.name)
        for c in self.mod.cal(i):
            f = self.mod.fns.get(c)
            if f is None: return False
            ok = False
            args = [strip(vn.expr(o)) for o in i.o]
            for k, o in enumerate(i.o):
                s = self.shape(fn, o)
                if not self.prefix(s, shape): continue
                rest = shape[1][len(s[1]):]
                tr = []
                for st in rest:
                    if st[0] == "x" and st[1][0] != "c":
                        j = next((j for j, a in enumerate(args) if a == st[1]), None)
                        if j is None: break
                        tr.append(("x", ("a", j)))
                    else: tr.append(st)
                if len(tr) == len(rest) and self.musts(f, k, tuple(tr)): ok = True
            if not ok: return False
        return bool(self.mod.cal(i))

    def musts(self, f, k, steps, depth=0):
        key = (f.name, k, steps)
        m = self.__dict__.setdefault("_musts", {})
        if key in m: return m[key]
        m[key] = False
        if depth > 4: return False
        def hit(i):
            if i.op == "store": return self.shape(f, i.o[1]) == (("a", k), steps)
            if i.op == "call":
                if (i.callee or "").startswith("llvm.mem"): return self.prefix(self.shape(f, i.o[0]), (("a", k), steps))
                return self.overwrites(f, i, (("a", k), steps))
            return False
        ms = self.cx.paths(f).escape(None, lambda i: i.op == "ret", stop=hit)
        m[key] = ms is None and bool(f.exits())
        return m[key]

    def host(self, i):
        """may host code other than the allocator run?"""
        if not hasattr(self, "_host"): self._host = self.mod.may_reach(lambda j, c: c.startswith("cb:") and c not in ALLOCATOR_CB)
        return any(c in self._host or c.startswith("cb:") and c not in ALLOCATOR_CB for c in self.mod.cal(i))

    def reads(self, i, f):
        """may the callee load a pointer from field f?"""
        if not hasattr(self, "_reads"):
            R = {n: set() for n in self.mod.fns}
            for n, fn in self.mod.fns.items():
                for j in fn.all():
                    if j.op == "load":
                        k = self.mod.addr_field(fn, j.o[0])
                        if k: R[n].add(k)
            ch = True
            while ch:
                ch = False
                for n, fn in self.mod.fns.items():
                    l = len(R[n])
                    for j in fn.calls():
                        for c in self.mod.cal(j): R[n] |= R.get(c, set())
                    ch = ch or len(R[n]) != l
            self._reads = R
        return any(f in self._reads.get(c, ()) for c in self.mod.cal(i))

    def live_after_failure(self):
        """fields still read in a machine that failed catastrophically: everything else is refused at the
        public functions' entry, and deleting such a machine gives its blocks back in bulk"""
        if not hasattr(self, "_live"):
            out = set(); fns = set()
            AF = ("NKErrorState", "allocationFailure")
            for n, fn in self.mod.fns.items():
                if not n.startswith("nkx"): continue
                for b, j in self.unguarded(fn, AF, fns): out.add(j)
            todo = list(fns); done = set()
            while todo:
                n = todo.pop()
                if n in done or n not in self.mod.fns: continue
                done.add(n); more = set()
                for b, j in self.unguarded(self.mod.fns[n], AF, more): out.add(j)
                todo += list(more)
            self._live = out
        return self._live

    def unguarded(self, fn, AF, fns):
        """(blk, field) loads of blocks that also run in a failed machine; callees into fns"""
        vn = self.cx.vn(fn.name)
        dead = set()
        for b in fn.rpo:
            for f in vn.block_facts(b) or ():
                if len(f) == 3 and f[0] == "eq" and f[2] == ("c", 0) and any(x[:1] == ("f",) and x[1:] == AF for x in _sub(f[1])): dead.add(b)
                if len(f) == 3 and f[0] == "eq" and f[2] == ("c", 0) and f[1][0] == "call" and "setjmp" in (fn.insts[f[1][1]].callee or ""): dead.add(b)
        for b in fn.rpo:
            if b in dead: continue
            for j in fn.blocks[b]:
                if j.op == "load":
                    k = self.mod.addr_field(fn, j.o[0])
                    if k and j.ty == "ptr": yield b, k
                if j.op == "call":
                    for c in self.mod.cal(j): fns.add(c)

    def report(self, fn, i, text, where, start):
        self.reports.setdefault((fn.name, start.id, text, tuple(where and (where.fn.name, where.id) or ())), (i, text, where, start))


def _sub(e):
    if isinstance(e, tuple):
        yield e
        for x in e: yield from _sub(x)
