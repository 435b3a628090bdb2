"""Ownership vocabulary: which calls create blocks, which release them, which
struct fields hold them."""
from .vn import strip

ALLOC_PRIMS = {"nkiMalloc_real": None, "nkiMallocArray": None, "nkiStrdup": None}
REALLOC = {"nkiRealloc": 1, "nkiReallocArray": 1}
FREE_PRIM = ("nkiFree", 1)


class Own:
    def __init__(self, cx):
        self.cx = cx; self.mod = cx.mod
        self.fresh = set(ALLOC_PRIMS) | set(REALLOC)      # functions returning a block the caller owns
        self.frees = {FREE_PRIM[0]: {FREE_PRIM[1]}}       # fn -> params it always releases
        self._compute()

    # ------------------------------------------------------------ origins
    def roots(self, fn, op, seen=None):
        """root values an operand may be: looks through phi/select/casts"""
        seen = seen if seen is not None else set()
        d = fn.idef(op)
        if d is None: return {tuple(_t(op))}
        if d.id in seen: return set()
        seen.add(d.id)
        if d.op == "phi":
            r = set()
            for v, b in d.o: r |= self.roots(fn, v, seen)
            return r
        if d.op == "select": return self.roots(fn, d.o[1], seen) | self.roots(fn, d.o[2], seen)
        if d.op in ("bitcast", "freeze"): return self.roots(fn, d.o[0], seen)
        if d.op == "getelementptr" and not d.path: return self.roots(fn, d.o[0], seen)
        return {("i", d.id)}

    def is_alloc(self, i):
        return i.op == "call" and (i.callee in self.fresh)

    def freed_operands(self, i):
        """operands released by call i"""
        if i.op != "call": return []
        r = []
        for c in self.mod.cal(i):
            for k in self.frees.get(c, ()):
                if k < len(i.o): r.append(i.o[k])
        return r

    def _compute(self):
        mod = self.mod
        ch = True
        while ch:
            ch = False
            for n, fn in mod.fns.items():
                # fresh results: every non-null returned root is a fresh block not stored anywhere persistent
                if n not in self.fresh and fn.ditypes and fn.ditypes[0].endswith("*"):
                    ok = False; bad = False
                    for r in fn.exits():
                        if not r.o: bad = True; break
                        for root in self.roots(fn, r.o[0]):
                            if root[0] in ("null", "undef") or root == ("c", 0): continue
                            if root[0] == "i" and self.is_alloc(fn.insts[root[1]]) and not self.escapes(fn, fn.insts[root[1]]): ok = True
                            else: bad = True
                    if ok and not bad: self.fresh.add(n); ch = True
                # released parameters
                for k in range(fn.nargs):
                    if k in self.frees.get(n, ()): continue
                    if self._releases_param(fn, k):
                        self.frees.setdefault(n, set()).add(k); ch = True

    def _releases_param(self, fn, k):
        P = self.cx.paths(fn)
        def rel(i): return any(("a", k) == self.roots1(fn, o) for o in self.freed_operands(i))
        if not any(rel(i) for i in fn.all()): return False
        vn = self.cx.vn(fn.name)
        def nulledge(p, b): return any(f[0] == "eq" and f[1] == ("a", k) and f[2] == ("c", 0) for f in vn.edge_facts(p, b) if len(f) == 3)
        return P.escape(None, lambda i: i.op == "ret", stop=rel, stop_edge=nulledge) is None

    def roots1(self, fn, op):
        r = {x for x in self.roots(fn, op) if x[0] not in ("null", "undef")}
        return next(iter(r)) if len(r) == 1 else None

    def escapes(self, fn, alloc):
        """is the block stored into memory other than its own fields / locals?"""
        ids = self.aliases(fn, alloc)
        for x in ids:
            for u in fn.uses[x]:
                if u.op == "store" and u.o[0] == ["i", x]:
                    d = fn.idef(u.o[1])
                    base = self.base(fn, u.o[1])
                    if base is not None and base[0] == "i" and (base[1] in ids or fn.insts[base[1]].op == "alloca"): continue
                    return True
        return False

    def aliases(self, fn, inst):
        ids = {inst.id}; st = [inst.id]
        while st:
            x = st.pop()
            for u in fn.uses[x]:
                if u.op in ("phi", "select", "bitcast", "freeze") or (u.op == "getelementptr" and not u.path):
                    if u.id not in ids: ids.add(u.id); st.append(u.id)
        return ids

    def base(self, fn, op):
        """pointer an address is computed from"""
        while True:
            if op[0] == "cgep": op = op[1]; continue
            d = fn.idef(op)
            if d is None: return tuple(_t(op))
            if d.op in ("getelementptr", "bitcast"): op = d.o[0]; continue
            return ("i", d.id)

    def owning_fields(self):
        """(S,f) -> [store insts] where a fresh block is stored into a struct field"""
        out = {}
        for fn in self.mod.fns.values():
            for i in fn.all():
                if i.op != "store": continue
                k = self.mod.addr_field(fn, i.o[1])
                if not k: continue
                for r in self.roots(fn, i.o[0]):
                    if r[0] == "i" and self.is_alloc(fn.insts[r[1]]):
                        out.setdefault(k, []).append(i)
        return out


def _t(op): return op if len(op) <= 2 else op[:2]


def own(cx):
    if not hasattr(cx, "_own"): cx._own = Own(cx)
    return cx._own
