"""Linear bounds for computed indexes: shows  0 <= index < extent  from comparisons, masks and loop induction."""
import copy, re
from math import gcd
from .fits import Fits, F
from .text import M
from .vn import strip, lin
from .regions import COUNT, MASK, CAP

ALLOC_N = ("nkiMallocArray", "nkiReallocArray")
EXTENT = {("NKVMFunctionCallbackData", "arguments"): ("NKVMFunctionCallbackData", "argumentCount"),
          ("NKCompilerStateContext", "loopContextFixups"): ("NKCompilerStateContext", "loopContextFixupCount")}
# numbers handed out by a function: below the count (the invalid number is tested for)
RESULT = {"nkxVmRegisterExternalFunction": (0, ("NKVM", "externalFunctionCount"))}
# which slot an entry is in is kept in the entry
OWN = {("NKVMString", "stringTableIndex"): "stringTable", ("NKVMObject", "objectTableIndex"): "objectTable", ("NKVMTableHole", "index"): None}
# where the compiler writes next: at most one past the end of what it writes to
CURSOR = {("NKCompilerState", "instructionWriteIndex"): (("NKCompilerState", "vm"), ("NKVM", "instructionAddressMask")),
          ("NKCompilerState", "staticVariableCount"): (("NKCompilerState", "vm"), ("NKVM", "staticAddressMask"))}


def sh(vn, a, d=0):
    """an address by the path it is reached through, whatever version of memory it was read from"""
    if not isinstance(a, tuple) or d > 12: return a
    if len(a) == 2 and a[0] == "L": return ("ld", sh(vn, vn.addr(vn.fn.insts[a[1]].o[0]), d + 1))
    return tuple(sh(vn, x, d) for x in a)


class Idx(Fits):
    def __init__(self, cx, vn, mode=None):
        """mode: (number of the parameter that says whether state is saved or loaded, its truth)"""
        dead = set()
        if mode:
            for b in vn.fn.rpo:
                for s in vn.fn.succs[b]:
                    for f in vn.edge_facts(b, s):
                        if len(f) == 3 and f[1] == ("a", mode[0]) and f[2][0] == "c" and ((f[0] == "eq") == (f[2][1] == 0)) == mode[1] and f[0] in ("eq", "ne"): dead.add((b, s))
            vn = copy.copy(vn); vn._facts = None; vn._inf = {}; vn.dead = dead
        Fits.__init__(self, cx, vn); self.mod = cx.mod; self.hyps = []; self.mode = mode; self.scale = 1; self.dead = dead; self.exact = False
        self.live = {0}; st = [0]
        while st:
            b = st.pop()
            for s in vn.fn.succs[b]:
                if (b, s) not in dead and s not in self.live: self.live.add(s); st.append(s)

    def tidy(self, f):
        """divide out a common factor"""
        g = 0
        for v in f.t.values(): g = gcd(g, v)
        return F({k: v // g for k, v in f.t.items()}, -((-f.c) // g)) if g > 1 else f

    def dead_edge(self, p, b): return (p, b) in self.dead or p not in self.live or self.vn.infeasible(p, b)

    def incoming(self, d): return [(v, p) for v, p in d.o if p in self.live and (p, d.blk) not in self.dead]

    def gate(self, p, b): return (p, b) in self.dead

    # atoms: memory of the machine is named by its path, locals by version
    def norm(self, x):
        if x[0] == "L" and not self.exact:
            a = self.vn.addr(self.fn.insts[x[1]].o[0])
            if a[1][0] == "al" and all(s[0] == "f" for s in a[2]): return self.cell(x, a)
            if a[2] and a[2][-1][0] == "f" or a[1][0] != "al": return ("ld", sh(self.vn, a))
        if x[0] == "phi" and self.mode:
            vs = {self.vn.expr(v) for v, p in self.incoming(self.fn.insts[x[1]])} - {x}
            if len(vs) == 1: return ("val", vs.pop())
        return x

    def quiet(self, i):
        """a stream call while saving: the memory it is given is only read"""
        return self.mode is not None and self.mode[1] and i.callee is None and i.o and self.vn.expr(i.o[-1]) == ("a", self.mode[0]) and i.ty == "i8" and len(i.o) == 4

    def touches(self, a):
        """instructions that may change the local cell at a: stores and calls that are given its address"""
        if not hasattr(self, "_t"): self._t = {}
        if a in self._t: return self._t[a]
        fn, vn = self.fn, self.vn; st, ca, raw = [], [], False
        for i in fn.all():
            if i.blk not in self.live: continue
            if i.op == "store":
                b = vn.addr(i.o[1])
                if b[1] == a[1] and (b[2][:len(a[2])] == a[2] or a[2][:len(b[2])] == b[2]): st.append(i)
                e = vn.expr(i.o[0])
                if e == a[1] or e[0] == "gep" and e[1] == a[1]: raw = True
            elif i.op == "call" and not self.quiet(i):
                for o in (i.o[:1] if (i.callee or "").startswith("llvm.mem") else i.o):
                    if o[0] not in ("i", "a", "g", "cgep"): continue
                    e = vn.expr(o)
                    if e == a[1] or e[0] == "gep" and e[1] == a[1] and (e[2][:len(a[2])] == a[2] or a[2][:len(e[2])] == e[2]): ca.append(i); break
        self._t[a] = (st, ca, raw)
        return self._t[a]

    def cell(self, x, a):
        """one name for all reads of a local between two changes; what was stored when there is only one change"""
        st, ca, raw = self.touches(a)
        if raw: return x
        fn = self.fn; L = fn.insts[x[1]]
        if len(st) == 1 and not ca and fn.dominates(st[0], L):
            e = self.vn.expr(st[0].o[0])
            if e[0] != "L" or self.vn.addr(fn.insts[e[1]].o[0]) != a: return ("val", e)
        if not hasattr(self, "_rep"): self._rep = {}
        if x in self._rep: return self._rep[x]
        P = self.cx.paths(fn); best = x
        for i in fn.all():
            if i.op != "load" or i is L or not fn.dominates(i, L) or self.vn.addr(i.o[0]) != a: continue
            y = self.vn.expr(["i", i.id])
            if y[0] != "L" or y == x: continue
            if any(fn.can_reach(i, k) and P.escape(k, lambda j: j is L, stop=lambda j: j is i, stop_edge=self.gate) is not None for k in st + ca): continue
            best = y; break
        if best == x:
            for i in fn.all():
                if i.op != "phi" or not fn.dominates(i, L) or not self.mirrors(i, a): continue
                if any(fn.can_reach(i, k) and P.escape(k, lambda j: j is L, stop=lambda j: j is i, stop_edge=self.gate) is not None for k in st + ca): continue
                best = ("phi", i.id); break
        self._rep[x] = best
        return best

    def mirrors(self, d, a):
        """a merged value that is always what the local cell holds at that point"""
        fn, vn = self.fn, self.vn
        for v, p in self.incoming(d):
            j = fn.idef(v)
            if j is not None and j.op == "load" and vn.addr(j.o[0]) == a and j.blk == p: continue
            w = [i for i in fn.blocks[p] if i.op == "store" and vn.addr(i.o[1]) == a]
            if not w or vn.expr(w[-1].o[0]) != vn.expr(v): return False
        return True

    def form(self, e):
        r = F()
        def go(x, k):
            nonlocal r
            while x[0] in ("zext", "trunc", "sext", "freeze"): x = x[1]
            if x[0] == "c": r = r.plus(k * (sg(x[1]))); return
            if x[0] == "add": go(x[1], k); go(x[2], k); return
            if x[0] == "sub": go(x[1], k); go(x[2], -k); return
            if x[0] == "mul" and x[1][0] == "c" and 0 <= x[1][1] < M: go(x[2], k * x[1][1]); return
            if x[0] == "mul" and x[2][0] == "c" and 0 <= x[2][1] < M: go(x[1], k * x[2][1]); return
            if x[0] == "shl" and x[2][0] == "c" and x[2][1] < 8: go(x[1], k << x[2][1]); return
            x = self.norm(x)
            if x[0] == "val": go(x[1], k); return
            if x[0] == "call" and self.fn.insts[x[1]].callee in ("nkiStrlen", "strlen"):
                r = r.add(F({x: 1}), k); return
            r = r.add(F({x: 1}), k)
        e0 = e
        while e0[0] in ("zext", "sext", "freeze"): e0 = e0[1]
        if e0[0] == "c": return F({}, e0[1] % M if e0[1] < M else e0[1])
        go(e, 1)
        return r

    def atoms(self, g):
        """axioms about the atoms of g"""
        out = []
        for a in list(g.t):
            if a[0] == "and":
                for x in a[1:]: out.append(F({a: 1}).add(self.form(x), -1))
            elif a[0] == "call" and self.fn.insts[a[1]].callee in RESULT and any(len(f) == 3 and f[0] == "ne" and f[1] == a and f[2][0] == "c" and f[2][1] % M == M - 1 for f in self.facts(self.at)):
                q, f = RESULT[self.fn.insts[a[1]].callee]; b = sh(self.vn, self.vn.expr(self.fn.insts[a[1]].o[q]))
                out.append(F({a: 1, ("ld", ("gep", b, (("f",) + f,))): -1}, 1))
            elif a[0] == "urem": out.append(F({a: 1}).add(self.form(a[2]), -1).plus(1))
            elif a[0] == "or":
                k = next((x[1] for x in a[1:] if x[0] == "c"), None); y = next((x for x in a[1:] if x[0] != "c"), None)
                if k == 1 and y is not None and y[0] == "shl" and y[2][0] == "c": out.append(self.form(y).plus(1).add(F({a: 1}), -1)); out.append(F({a: 1}).add(self.form(y), -1).plus(-1))
                else:
                    for x in a[1:]: out.append(F({}).add(self.form(x)).add(F({a: 1}), -1))
            elif a[0] in ("L", "phi"):
                t = self.descends(a)
                if t is not None: out.append(F({a: 1}).add(t, -1))
                if self.exact and a[0] == "L":
                    x = self.vn.addr(self.fn.insts[a[1]].o[0])
                    if x[2] and x[2][-1] == ("f", "NKVMStack", "indexMask"):
                        for i in self.fn.all():
                            if i.op == "load" and self.vn.addr(i.o[0]) == ("gep", x[1], x[2][:-1] + (("f", "NKVMStack", "capacity"),)) and self.vn.expr(["i", i.id])[0] == "L": out.append(F({a: 1, self.vn.expr(["i", i.id]): -1}, 1))
            elif a[0] in ("lshr", "udiv"): out.append(F({a: 1}).add(self.form(a[1]), -1))
            elif a[0] == "ld":
                f = a[1]
                if f[0] == "gep" and f[2] and f[2][-1][0] == "f":
                    k = f[2][-1][1:3]; pre = f[2][:-1]
                    if k == ("NKVMStack", "size"): out.append(F({a: 1, ("ld", ("gep", f[1], pre + (("f", "NKVMStack", "capacity"),))): -1}))
                    if k in OWN:
                        t = self.own_table(k, f, pre)
                        if t is not None: out.append(F({a: 1, t: -1}, 1))
                    if k in CURSOR:
                        v, m = CURSOR[k]
                        out.append(F({a: 1, ("ld", ("gep", ("ld", ("gep", f[1], pre + (("f",) + v,))), (("f",) + m,))): -1}, -1))
                    if k == ("NKVMStack", "indexMask"): out.append(F({a: 1, ("ld", ("gep", f[1], pre + (("f", "NKVMStack", "capacity"),))): -1}, 1))
        return out

    def descends(self, x):
        """a local that is set once and from then on only counted down, never below nothing: what it started as"""
        if x[0] == "phi":
            cs = {self.vn.addr(i.o[1]) for i in self.fn.all() if i.op == "store"}
            a = next((a for a in cs if a[1][0] == "al" and not a[2] and self.mirrors(self.fn.insts[x[1]], a)), None)
            if a is None: return None
        else: a = self.vn.addr(self.fn.insts[x[1]].o[0])
        if a[1][0] != "al" or a[2]: return None
        st, ca, raw = self.touches(a)
        if raw or ca: return None
        top = None
        for i in st:
            e = self.vn.expr(i.o[0])
            if e[0] in ("add", "sub"):
                L = next((y for y in e[1:] if y[0] == "L"), None) or next((y for y in e[1:] if y[0] == "phi"), None); f = self.form(e)
                if L is not None and (self.mirrors(self.fn.insts[L[1]], a) if L[0] == "phi" else self.vn.addr(self.fn.insts[L[1]].o[0]) == a) and f.c == -1 and f.key() == self.form(L).plus(-1).key() and self.simple(F({}, 1).add(self.form(L), -1), i.blk): continue
            if top is not None: return None
            top = self.form(e)
        return top

    def own_table(self, k, f, pre):
        """the capacity of the table an entry that knows its own index is in (only when it is one the function names)"""
        t = OWN[k]
        for x in self.capnames():
            if t is None or any(s[0] == "f" and s[2] == t for s in x[1][2]) or len(x[1][2]) == 1: return x
        return None

    def capnames(self):
        if not hasattr(self, "_cn"):
            self._cn = []
            for i in self.fn.all():
                if i.op == "getelementptr":
                    b = self.vn.addr(["i", i.id])
                    for k, st in enumerate(b[2]):
                        if st == ("f", "NKVMTable", "u") or st == ("f", "NKVMTable", "capacity"):
                            n = ("ld", sh(self.vn, ("gep", b[1], b[2][:k] + (("f", "NKVMTable", "capacity"),))))
                            if n not in self._cn: self._cn.append(n)
        return self._cn

    def small(self, f):
        """may f be read as the integer it looks like, without wrapping?"""
        return all(v >= 0 for v in f.t.values()) and f.c >= 0

    def known(self, pt):
        self.at = pt
        out = list(self.axioms) + list(self.hyps)
        for f in self.facts(pt):
            if len(f) != 3: continue
            p, a, b = f
            if p in ("ult", "ule", "slt", "sle"):
                A, B = self.form(a), self.form(b)
                if p[0] == "s" and not (A.t == {} and A.c >= 0 or self.small(A) and self.small(B)) : continue
                if len(A.t) > 1 and not all(v < 0 for v in list(A.t.values())[1:]) and sum(1 for v in A.t.values() if v > 0) > 1: continue   # a sum may wrap
                if A.c > 8: continue
                if not self.small(B):
                    # wraps when it would be negative
                    if not self.simple(F({k: -v for k, v in B.t.items()}, -B.c), pt): continue
                out.append(A.add(B, -1).plus(1 if p[1:] == "lt" else 0))
            elif p == "eq":
                g = self.form(a).add(self.form(b), -1)
                out.append(g); out.append(F().add(g, -1))
            elif p == "ne":
                for x, y in ((a, b), (b, a)):
                    if y == ("c", 0):
                        A = self.form(x)
                        if self.small(A): out.append(F({}, 1).add(A, -1))
        pb = pt[0] if isinstance(pt, tuple) else pt
        for h in self.stored(pb): out.append(h); out.append(F().add(h, -1))
        ks = {o.key() for o in out}
        for o in list(out):
            for y in self.atoms(o):
                if y.key() not in ks: ks.add(y.key()); out.append(y)
        out = [self.tidy(o) for o in out]
        if self.scale != 1: out += [F({k: v * self.scale for k, v in o.t.items()}, o.c * self.scale) for o in out]
        return out

    def chain(self, g, K, d):
        if g.triv(): return True
        if d == 0: return False
        a = next((a for a in sorted(g.t, key=str) if g.t[a] > 0), None)
        if a is None: return any(self.chain(g.add(x, -1), K, 0) for x in K)
        return any(self.chain(g.add(x, -(g.t[a] // x.t[a])), K, d - 1) for x in K if x.t.get(a, 0) > 0 and g.t[a] % x.t[a] == 0)

    def stored(self, b):
        """machine fields that hold, at b, what the function put there on every way"""
        if not hasattr(self, "_st"): self._st = {}
        if b in self._st: return self._st[b]
        self._st[b] = []
        fn, vn, P = self.fn, self.vn, self.cx.paths(self.fn)
        by = {}
        for i in fn.all():
            if i.op != "store" or i.blk not in self.live or not (i.o[0][0] == "i" and fn.insts[i.o[0][1]].ty == "i32" or i.o[0][0] == "c" and i.o[0][-1] == 32 or i.o[0][0] == "a"): continue
            a = vn.addr(i.o[1])
            if a[1][0] == "al" or not a[2] or a[2][-1][0] != "f": continue
            by.setdefault(("ld", sh(vn, a)), []).append(i)
        end = fn.blocks[b][0]
        for k, st in by.items():
            last = [s for s in st if P.escape(s, lambda j: j is end, stop=lambda j: j in st, stop_edge=self.gate, inclusive=False)]
            if len(last) != 1 or P.escape(None, lambda j: j is end, stop=lambda j: j is last[0], stop_edge=self.gate): continue
            v = self.form(vn.expr(last[0].o[0]))
            if k not in v.t: self._st[b].append(F({k: 1}).add(v, -1))
        return self._st[b]

    def simple(self, g, pt):
        """g <= 0 from a single non-zero test or comparison with a constant"""
        if g.triv(): return True
        for f in self.facts(pt):
            if len(f) != 3: continue
            p, a, b = f
            if p == "ne" and ("c", 0) in (a, b):
                A = self.form(a if b == ("c", 0) else b)
                if g.add(F({}, 1).add(A, -1), -1).triv(): return True
            if p in ("ult", "ule") and (a[0] == "c" or self.small(self.form(b))) and self.small(self.form(a)) and self.small(self.form(b)):
                if g.add(self.form(a).add(self.form(b), -1).plus(1 if p == "ult" else 0), -1).triv(): return True
        return False

    def cut(self, f, pt): return f

    def le(self, f, pt, cap=None, depth=0):
        g = f if cap is None else f.add(cap, -1)
        if g.triv(): return True
        self.at = pt
        sav = self.axioms
        self.axioms = sav + self.atoms(g)
        for x in list(self.axioms[len(sav):]): self.axioms += [y for y in self.atoms(x) if y not in self.axioms]
        try:
            if Fits.le(self, f, pt, cap, depth): return True
            if depth == 0 and self.chain(g, self.known(pt), 4): return True
            # i != n with i <= n
            if depth < 6:
                for q in self.facts(pt):
                    if len(q) == 3 and q[0] == "ne":
                        for x, y in ((q[1], q[2]), (q[2], q[1])):
                            d = self.form(x).add(self.form(y), -1).plus(1)
                            if d.key() == g.key() and Fits.le(self, g.plus(-1), pt, None, depth + 2): return True
            return False
        finally: self.axioms = sav


def sg(c):
    c %= 1 << 64
    if c >= 1 << 63: return c - (1 << 64)
    return c - M if M // 2 <= c < M else c


def under(ix, e, N, pt, es=1, more=None):
    """0 <= e and (e + 1) * es <= N at pt (with `more` given: e * es + more <= N)"""
    e0 = ix.form(e)
    if any(a[0] == "val" for a in e0.t): return False
    lhs = F({k: v * es for k, v in e0.t.items()}, e0.c * es)
    lhs = lhs.plus(es) if more is None else lhs.add(more)
    ix.scale = es
    try: ok = ix.le(lhs, pt, N)
    finally: ix.scale = 1; ix.h = {}
    if not ok: return False
    if not ix.small(e0): ok = ix.le(F().add(e0, -1), pt)
    ix.h = {}
    return ok


def inside(ix, e, ext, pt):
    return any(under(ix, e, N, pt, es) for N, es in ext)


def every_way(ix, i, idx, ext, grown):
    """on every way to instruction i the index is inside: shown by a test passed on the
    way, or by the array having been reallocated on the way with room for it"""
    fn = ix.fn; P = ix.cx.paths(fn)
    pts = {}
    def good(p): 
        if p not in pts: pts[p] = inside(ix, idx, ext, p)
        return pts[p]
    room = {c.id for c, e in grown if inside(ix, idx, e, c.blk)}
    def stop(j): return j.id in room
    def stop_edge(p, b): return (p, b) in ix.dead or good((p, b))
    return P.escape(None, lambda j: j is i, stop=stop, stop_edge=stop_edge) is None
