"""Depth guards: a counter field raised by one only below a constant bound, lowered by one,
and what each function does to it on every path."""
from .cwalk import subst
from .vn import strip


class Guards:
    """counters: {(S,f): bound}; summary(fn) -> set of (return class, net change), return class in '0','1','?','v'"""
    def __init__(self, cx):
        self.cx, self.mod = cx, cx.mod
        self.ups, self.downs, self.other = {}, {}, {}
        for n, fn in self.mod.fns.items():
            for i in fn.all():
                if i.op != "store": continue
                k = self.mod.addr_field(fn, i.o[1])
                if not k: continue
                d = self.step(fn, i, k)
                t = self.ups if d == 1 else self.downs if d == -1 else self.other
                t.setdefault(k, []).append(i)
        self.bounds = {}
        for k, us in self.ups.items():
            if k not in self.downs: continue
            bs = [self.bound(i, k) for i in us]
            if len(us) <= 3 and any(b is not None for b in bs): self.bounds[k] = bs
        self.memo = {}

    def step(self, fn, i, k):
        vn = self.cx.vn(fn.name)
        e = vn.expr(i.o[0])
        return _plain_step(vn, e, i, k)

    def bound(self, i, k):
        vn = self.cx.vn(i.fn.name)
        best = None
        for f in vn.facts(i):
            if len(f) != 3: continue
            p, a, b = f
            if strip(a)[0] == "L" and b[0] == "c" and _loads(vn, a, k) and p in ("ule", "ult", "sle", "slt", "ne"):
                v = b[1] + (1 if p in ("ule", "sle") else 0)    # "ne": never stepped past, as steps are by one from zero
                best = v if best is None else min(best, v)
        return best

    def event(self, i, k):
        if i.op == "store" and self.mod.addr_field(i.fn, i.o[1]) == k:
            if i in self.ups.get(k, ()): return 1
            if i in self.downs.get(k, ()): return -1
        return 0

    def touching(self, k):
        """functions whose own counter effect may be non-zero, by summary fixpoint over non-recursive effects"""
        base = {i.fn.name for i in self.ups.get(k, []) + self.downs.get(k, [])}
        return base

    def summary(self, k, name):
        if (k, name) not in self.memo:
            self.memo[(k, name)] = {("?", 0)}          # assumption inside cycles: balanced
            r, _, _ = self.run(k, name)
            self.memo[(k, name)] = r
        return self.memo[(k, name)]

    def run(self, k, name, limit=60000):
        """-> (summary, {call id: set of net changes before the call}, {ret id: set of net})"""
        fn = self.mod.fns[name]; vn = self.cx.vn(name)
        prim = self.touching(k)
        at, rets, out = {}, {}, set()
        seen = set(); st = [(0, None, (), frozenset(), 0)]
        interesting = self._flags(fn)
        while st:
            b, p, envt, pend, d = st.pop()
            env = dict(envt); new = dict(env)
            for i in fn.blocks[b]:
                if i.op != "phi": break
                new.pop(i.id, None)
                if i.id not in interesting: continue
                for v, q in i.o:
                    if q == p:
                        x = subst(vn.expr(v), env)
                        if x[0] == "c" or x[0] == "call": new[i.id] = x
            kk = (b, p if any(i.op == "phi" for i in fn.blocks[b][:1]) else None, tuple(sorted(new.items())), pend, d)
            if kk in seen: continue
            seen.add(kk)
            if len(seen) > limit: return {("?", None)}, at, rets
            for i in fn.blocks[b]:
                d += self.event(i, k)
                if i.op == "call":
                    at.setdefault(i.id, set()).add(d)
                    if i.callee in prim and i.callee != name:
                        s = self.summary(k, i.callee)
                        ds = {x for _, x in s}
                        if len(ds) == 1: d += ds.pop() or 0
                        else:
                            cls = {}
                            for c, x in s: cls.setdefault(c, set()).add(x)
                            if set(cls) <= {"0", "1"} and all(len(v) == 1 for v in cls.values()):
                                pend = frozenset(q for q in pend if q[0] != i.id) | {(i.id, i.callee)}
                            else: return {("?", None)}, at, rets
                elif i.op == "ret":
                    e = subst(vn.expr(i.o[0]), new) if i.o else None
                    cls = "v" if e is None else str(int(e[1] != 0)) if e[0] == "c" else "?"
                    if not pend:
                        out.add((cls, d)); rets.setdefault(i.id, set()).add(d)
                    else:
                        q = next(iter(pend))
                        if len(pend) == 1 and e and e == ("call", q[0]):
                            for c, x in self.summary(k, q[1]): out.add((c, d + x)); rets.setdefault(i.id, set()).add(d + x)
                        else: out.add((cls, None)); rets.setdefault(i.id, set()).add(None)
            t = fn.blocks[b][-1]
            succs = fn.succs[b]
            if t.op == "br" and t.o and t.t != t.f:
                c = subst(vn.expr(t.o[0]), new)
                if c[0] == "c": succs = [t.t if c[1] else t.f]
            for s in succs:
                if vn.infeasible(b, s): continue
                p2, d2 = pend, d
                if pend:
                    for f in vn.edge_facts(b, s):
                        if len(f) != 3 or f[2] != ("c", 0) or f[0] not in ("eq", "ne"): continue
                        e = strip(subst(f[1], new))
                        for q in pend:
                            if e == ("call", q[0]):
                                want = "1" if f[0] == "ne" else "0"
                                for c, x in self.summary(k, q[1]):
                                    if c == want: d2 += x
                                p2 = p2 - {q}
                st.append((s, b, tuple(sorted(new.items())), p2, d2))
        return out, at, rets

    def _flags(self, fn):
        """phis fed only by constants, calls and other such phis (never by arithmetic)"""
        c = {i.id for b in fn.rpo for i in fn.blocks[b] if i.op == "phi" and (i.ty or "") in ("i1", "i8", "i32")}
        while True:
            bad = set()
            for n in c:
                for v, q in fn.insts[n].o:
                    if v[0] == "i" and v[1] not in c and fn.insts[v[1]].op not in ("call", "load", "icmp", "zext"): bad.add(n)
            if not bad: return c
            c -= bad


def _loads(vn, e, k):
    from .vn import is_load_of
    return is_load_of(vn, strip(e), *k)


def _plain_step(vn, e, i, k):
    e = strip(e)
    if e[0] == "add":
        for x, y in ((e[1], e[2]), (e[2], e[1])):
            if y[0] == "c" and _loads(vn, x, k): return 1 if y[1] == 1 else -1 if y[1] in (-1, 0xffffffff) else None
    if e[0] == "sub" and e[2] == ("c", 1) and _loads(vn, e[1], k): return -1
    return None
