"""Linear bounds for text buffers: shows  F <= 0  for sums over lengths, loop variables and sizes.

All quantities are 32-bit unsigned counts taken as unbounded integers (that the size
passed to an allocation does not wrap is M01's).
"""
from nk.text import Scan, LEN, M, sgn, core
from nk.vn import lin

HUGE = M - 64           # an allocation of this size never succeeds (M01)


class F:
    __slots__ = ("t", "c")
    def __init__(self, t=(), c=0): self.t = {k: v for k, v in dict(t).items() if v}; self.c = c
    def add(self, o, k=1):
        t = dict(self.t)
        for a, v in o.t.items(): t[a] = t.get(a, 0) + k * v
        return F(t, self.c + k * o.c)
    def plus(self, n): return F(self.t, self.c + n)
    def key(self): return (frozenset(self.t.items()), self.c)
    def triv(self): return self.c <= 0 and all(v <= 0 for v in self.t.values())
    def __repr__(self): return " + ".join(["%d*%s" % (v, k) for k, v in self.t.items()] + [str(self.c)])


class Fits(Scan):
    def __init__(self, cx, vn):
        Scan.__init__(self, cx, vn); self.axioms = []; self.h = {}

    # ------------------------------------------------------------ forms
    def length(self, e):
        """length of the text at pointer expression e"""
        if e[0] == "gep":
            k = self.key(e)
            if k and not k[1] and k[2] == 0: e = k[0]
        if e[0] == "g":
            i = self.mod.globals.get(e[1], {}).get("init")
            if isinstance(i, dict) and "str" in i: return F({}, len(i["str"].split("\0")[0]))
        return F({("len", e): 1})

    def form(self, e):
        r = F()
        def go(x, k):
            nonlocal r
            if x[0] == "c": r = r.plus(k * (sgn(x[1] % M) if -M < x[1] < M else x[1])); return
            if x[0] == "add": go(x[1], k); go(x[2], k); return
            if x[0] == "sub" and x[1][0] == "c": r = r.plus(k * (x[1][1] % M)); go(x[2], -k); return
            if x[0] == "sub": go(x[1], k); go(x[2], -k); return
            if x[0] == "mul" and x[1][0] == "c": go(x[2], k * x[1][1]); return
            if x[0] == "mul" and x[2][0] == "c": go(x[1], k * x[2][1]); return
            if x[0] in ("zext", "trunc", "sext"): go(x[1], k); return
            if x[0] == "ptrtoint":
                kk = self.key(x[1])
                if kk:
                    r = r.add(F({("ptr", kk[0]): 1}), k).plus(k * kk[2])
                    for t, c in kk[1]: r = r.add(F({t: sgn(c)}), k)
                    return
            if x[0] == "call":
                d = self.fn.insts[x[1]]
                if d.callee in LEN: r = r.add(self.length(self.vn.expr(d.o[0])), k); return
            r = r.add(F({x: 1}), k)
        if core(e)[0] == "c": return F({}, core(e)[1] % M)
        go(e, 1)
        return r

    def offset(self, key):
        r = F({}, key[2])
        for t, c in key[1]: r = r.add(self.form(t), sgn(c))
        return r

    # ------------------------------------------------------------ capacity
    def capacity(self, base, depth=0):
        """form of the number of bytes at base, or None"""
        fn = self.fn
        if base[0] == "al":
            i = fn.insts[base[1]]
            return F({}, i.asz) if i.asz else None
        if base[0] == "call":
            i = fn.insts[base[1]]; E = lambda k: self.form(self.vn.expr(i.o[k]))
            if i.callee == "nkiMalloc_real": return E(-1)
            if i.callee == "malloc": return E(-1)
            if i.callee == "nkiRealloc": return E(-1)
            if i.callee == "nkiStrdup": return self.length(self.vn.expr(i.o[-1])).plus(1)
            if i.callee in ("nkiMallocArray", "nkiReallocArray"):
                a, b = [self.vn.expr(o) for o in i.o[-2:]]
                return self.form(("mul", a, b))
            return None
        if base[0] == "L" and depth < 3:
            # a pointer kept in memory: what this function stored there
            a = self.place(self.vn.addr(fn.insts[base[1]].o[0])); vals = []
            for i in fn.all():
                if i.op == "store" and i.o[0][0] in ("i", "a", "null", "g", "cgep") and self.place(self.vn.addr(i.o[1])) == a: vals.append((i, self.vn.expr(i.o[0])))
            vals = [v for v in vals if fn.can_reach(v[0], fn.insts[base[1]])]
            if len(vals) == 1 and fn.dominates(vals[0][0], fn.insts[base[1]]):
                e = vals[0][1]; k = self.key(e)
                if k and not k[1] and k[2] == 0: return self.capacity(k[0], depth + 1)
        return None

    def place(self, e, depth=0):
        """an address by the path it is reached through, whatever version of memory it was read from"""
        if not isinstance(e, tuple) or depth > 10: return e
        if len(e) == 2 and e[0] == "L": return ("ld", self.place(self.vn.addr(self.fn.insts[e[1]].o[0]), depth + 1))
        return tuple(self.place(x, depth + 1) for x in e)

    # ------------------------------------------------------------ proofs
    def known(self, pt):
        out = list(self.axioms)
        for i in self.fn.calls("fread"):
            out.append(F({("call", i.id): 1}).add(self.form(self.vn.expr(i.o[2])), -1))
        for f in self.facts(pt):
            if len(f) != 3: continue
            if f[0] in ("ult", "ule"): out.append(self.form(f[1]).add(self.form(f[2]), -1).plus(1 if f[0] == "ult" else 0))
            elif f[0] == "eq":
                g = self.form(f[1]).add(self.form(f[2]), -1)
                out.append(g); out.append(F().add(g, -1))
        return out

    def subst(self, f, b, p):
        val = {}
        for i in self.fn.blocks[b]:
            if i.op != "phi": break
            v = next((v for v, q in i.o if q == p), None)
            if v is None: continue
            e = self.vn.expr(v)
            val[("phi", i.id)] = self.rel(e) if i.ty == "ptr" and self.root(("phi", i.id)) is not None else e
        r = F({}, f.c)
        for a, k in f.t.items():
            if a in val: r = r.add(F({}, val[a][1] % M) if val[a][0] == "c" else self.form(val[a]), k)
            elif a[0] == "len" and a[1] in val: r = r.add(self.length(val[a[1]]), k)
            else: r = r.add(F({a: k}))
        return r

    def dead_edge(self, p, b): return self.vn.infeasible(p, b)

    def blocks_of(self, f):
        out = set()
        for a in f.t:
            x = a[1] if a[0] == "len" else a
            if isinstance(x, tuple) and x[0] == "phi": out.add(self.fn.insts[x[1]].blk)
        return out

    def cut(self, f, pt):
        """texts known to have been emptied on the way"""
        p = pt[0] if isinstance(pt, tuple) else pt
        for a, k in list(f.t.items()):
            if a[0] == "len" and k > 0:
                for i in self.fn.all():
                    if i.op == "store" and self.vn.expr(i.o[0]) == ("c", 0) and self.key(self.vn.expr(i.o[1])) == (a[1], frozenset(), 0) and i.blk in self.fn.dom()[p]:
                        f = f.add(F({a: 1}), -k); break
        return f

    def le(self, f, pt, cap=None, depth=0):
        """f - cap <= 0 at pt"""
        if cap is not None and not cap.t and cap.c % M >= HUGE: return True
        if cap is not None and not cap.t and cap.c < 0: return False
        g = f if cap is None else f.add(cap, -1)
        g = self.cut(g, pt)
        if g.triv(): return True
        K = self.known(pt)
        for x in K:
            h = g.add(x, -1)
            if h.triv(): return True
        for x in K:
            if not any(g.t.get(a, 0) * v > 0 for a, v in x.t.items()): continue
            h = g.add(x, -1)
            for y in K:
                if y is not x and h.add(y, -1).triv(): return True
        hk = (g.key()[0], None if cap is None else cap.key()[0])
        if hk in self.h:
            if g.c <= self.h[hk]: return True
            return self.between(f, g, pt, cap, depth)
        if depth > 10: return False
        for a in g.t:
            if a[0] == "select" or a[0] == "len" and a[1][0] == "select":
                s = a if a[0] == "select" else a[1]
                def rep(x, v): return x.add(F({a: 1}), -x.t[a]).add(self.form(v) if a is s else self.length(v), x.t[a]) if a in x.t else x
                if all(self.le(rep(f, v), pt, None if cap is None else rep(cap, v), depth + 1) for v in s[2:4]): return True
        bl = self.blocks_of(f) | (self.blocks_of(cap) if cap is not None else set())
        if not bl: return False
        b = max(bl, key=lambda x: sum(1 for y in bl if y in self.fn.dom()[x]))
        sav = dict(self.h)
        self.h[hk] = g.c
        ok = all(self.dead_edge(p, b) or self.le(self.subst(f, b, p), (p, b), None if cap is None else self.subst(cap, b, p), depth + 1) for p in self.fn.preds[b])
        if ok: return True
        self.h = sav
        return self.between(f, g, pt, cap, depth)

    def between(self, f, g, pt, cap, depth):
        # an intermediate bound: x <= r for another loop variable of the same loop
        for a, v in g.t.items():
            if v != 1 or a[0] != "phi": continue
            d = self.fn.insts[a[1]]
            for i in self.fn.blocks[d.blk]:
                if i.op != "phi": break
                r = ("phi", i.id)
                if r == a or i.ty != d.ty: continue
                q = F({a: 1, r: -1})
                have = self.h.get((q.key()[0], None), -1) >= 0
                if depth > 4 and not have: continue
                sav = dict(self.h)
                if (have or self.le(q, d.blk, None, depth + 4)) and self.le(f.add(q, -1), pt, cap, depth + 1): return True
                self.h = sav
        return False
