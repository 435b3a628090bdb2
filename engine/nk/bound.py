"""Is an index below the current extent of what it indexes?  Extents are address-of-extent expressions
(field address) with the way they bound: count (index < load), mask (index <= load), or a constant."""
import re
from .vn import strip, lin, norm
from .loops import induction, loops_of
from .cwalk import subst
from .regions import COUNT, MASK, CAP


def strip2(e):
    """casts that keep an unsigned value below 2^32"""
    while e and e[0] in ("zext", "freeze") or e and e[0] == "trunc" and e[1][0] in ("zext",): e = e[1]
    return e


class Ext:
    """a set of alternative bounds, all of the same storage"""
    def __init__(self, counts=(), masks=(), const=None):
        self.counts = frozenset(counts)     # addresses: load < allocated
        self.masks = frozenset(masks)       # addresses: load + 1 <= allocated, power of two minus one
        self.const = const
        self.exprs = ()                     # expressions equal to the number of elements

    def show(self): return "%s%s%s" % (sorted(map(str, self.counts)), sorted(map(str, self.masks)), self.const)


def extent_of_array(cx, fn, vn, base):
    """extent of the array a pointer expression addresses, or None when it is not one of the machine's arrays"""
    m = cx.mod
    b = strip2(base)
    if b[0] == "L":
        a = vn.addr(fn.insts[b[1]].o[0])
        if a[0] == "gep" and a[2]:
            steps = list(a[2])
            if steps[-1][0] != "f": return None
            k = steps[-1][1:3]
            if k not in COUNT and k not in MASK and len(steps) >= 2 and steps[-2][0] == "f" and steps[-2][1:3] in COUNT:
                steps = steps[:-1]; k = steps[-1][1:3]
            if k in COUNT or k in MASK:
                pre = tuple(steps[:-1])
                cs, ms = [], []
                if k in COUNT: cs.append(("gep", a[1], pre + (("f",) + COUNT[k],)))
                if k in CAP: cs.append(("gep", a[1], pre + (("f",) + CAP[k],)))
                if k in MASK: ms.append(("gep", a[1], pre + (("f",) + MASK[k],)))
                return Ext(cs, ms)
        return None
    return None


def fixed_size(cx, fn, a):
    """constant number of elements when the last field step of the GEP is an array field / global / local array"""
    m = cx.mod
    st = [s for s in a[2]]
    for j in range(len(st) - 1, -1, -1):
        if st[j][0] == "f":
            t = m.ftype(st[j][1], st[j][2])
            g = re.search(r"\[(\d+)\]", t or "")
            return int(g.group(1)) if g and j < len(st) - 1 else None
    return None


class Bound:
    def __init__(self, cx): self.cx = cx

    def is_count(self, vn, x, ext):
        x = strip2(x)
        if x in ext.exprs: return True
        return x[0] == "L" and vn.addr(vn.fn.insts[x[1]].o[0]) in ext.counts

    def is_mask(self, vn, x, ext):
        x = strip2(x)
        return x[0] == "L" and vn.addr(vn.fn.insts[x[1]].o[0]) in ext.masks

    def lt(self, vn, ins, e, ext, depth=0, facts=None):
        """e < extent at ins"""
        e = strip2(e)
        if depth > 5: return False
        fs = vn.facts(ins) if facts is None else facts
        if e[0] == "c":
            if ext.const is not None: return 0 <= e[1] < ext.const
            if e[1] == 0 and ext.masks: return True
        if e[0] == "and":
            for x in e[1:]:
                if self.is_mask(vn, x, ext): return True
                if ext.const is not None and x[0] == "c" and 0 <= x[1] < ext.const: return True
        if e[0] == "urem" and self.le_ext(vn, e[2], ext): return True
        for f in fs:
            if len(f) != 3: continue
            p, a, b = f
            if strip2(a) == e and p in ("ult", "ule") :
                if p == "ult" and self.le_ext(vn, b, ext): return True
                if p == "ule" and self.lt_quick(vn, b, ext, fs): return True
                if p == "ult" and strip2(b)[0] not in ("c",) and strip2(b) != e and depth < 3 and self.lt(vn, ins, b, ext, depth + 3, fs): return True
            if strip2(a) == e and p == "eq" and self.lt_quick(vn, b, ext, fs): return True
            if strip2(b) == e and p == "eq" and self.lt_quick(vn, a, ext, fs): return True
        if self.lt_quick(vn, e, ext, fs): return True
        if e[0] == "phi": return self.phi_lt(vn, ins, e, ext, depth, fs)
        if e[0] in ("add", "sub"):
            t, c = lin(e)
            if c == 0xffffffff and len(t) == 1 and list(t)[0][1] == 1:
                x = list(t)[0][0]
                # x - 1 with x != 0 and x <= extent
                if nonzero(fs, x):
                    if self.le(vn, ins, x, ext, depth + 1, fs): return True
        if e[0] == "select": return all(self.lt(vn, ins, x, ext, depth + 1, fs) for x in e[2:4])
        return False

    def lt_quick(self, vn, b, ext, fs):
        """b is extent-1 with a non-zero extent, or a constant below"""
        b = strip2(b)
        if b[0] == "c" and ext.const is not None: return 0 <= b[1] < ext.const
        if self.is_mask(vn, b, ext): return True
        if b[0] in ("add", "sub"):
            t, c = lin(b)
            if c == 0xffffffff and len(t) == 1:
                x, k = list(t)[0]
                if k == 1 and self.is_count(vn, x, ext) and (nonzero(fs, x) or x in getattr(ext, "nonzero", ())): return True
        return False

    def le_ext(self, vn, b, ext):
        b = strip2(b)
        if self.is_count(vn, b, ext): return True
        if ext.const is not None and b[0] == "c": return 0 <= b[1] <= ext.const
        if b[0] in ("add", "sub"):
            t, c = lin(b)
            if len(t) == 1:
                x, k = list(t)[0]
                if k == 1 and c == 1 and self.is_mask(vn, x, ext): return True
        if b[0] in ("lshr", "udiv") and self.le_ext(vn, b[1], ext): return True
        return False

    def le(self, vn, ins, x, ext, depth, fs):
        """x <= extent"""
        if self.le_ext(vn, x, ext) or self.lt(vn, ins, x, ext, depth, fs): return True
        x = strip2(x)
        for f in fs:
            if len(f) == 3 and strip2(f[1]) == x and f[0] in ("ule", "ult") and self.le_ext(vn, f[2], ext): return True
        if x[0] == "phi":
            d = vn.fn.insts[x[1]]
            ind = induction(vn.fn, vn, d)
            if ind and ind[1] == -1: return self.le_ext(vn, ind[0], ext)
            # counts down inside other arithmetic: every incoming value is an earlier smaller value or the extent
        return False

    def phi_lt(self, vn, ins, e, ext, depth, fs):
        fn = vn.fn
        d = fn.insts[e[1]]
        ind = induction(fn, vn, d)
        if ind:
            init, step = ind
            if step == 1 and init[0] == "c" and init[1] >= 0:
                for f in fs:
                    if len(f) == 3 and f[0] == "ne" and (f[1] == e and self.le_ext(vn, f[2], ext) or f[2] == e and self.le_ext(vn, f[1], ext)):
                        if init[1] == 0: return True
            if step == -1:
                # counts down from extent-1, stops before wrapping (any test that excludes the wrapped value)
                b = strip2(init)
                if self.lt_quick(vn, b, ext, fs | {("ne", c, ("c", 0)) for c in self.count_exprs(vn, ext)} if True else fs) and stops_at_wrap(fs, e): return True
            if step in (1, -1): return False
        if depth > 3: return False
        ok = True
        for v, p in d.o:
            x = vn.expr(v)
            if x == e: continue
            if x[0] == "phi" and x[1] in self._open: continue
            self._open.add(e[1])
            try:
                if not self.lt(vn, None, x, ext, depth + 1, vn.facts_on_edge(p, d.blk)): ok = False
            finally: self._open.discard(e[1])
            if not ok: break
        return ok
    _open = set()

    def count_exprs(self, vn, ext):
        r = set()
        for i in vn.fn.all():
            if i.op == "load" and vn.addr(i.o[0]) in ext.counts: r.add(vn.expr(["i", i.id]))
        return r | set(ext.exprs)


def nonzero(fs, x):
    x0 = strip2(x)
    for f in fs:
        if len(f) != 3: continue
        a, b = strip2(f[1]), strip2(f[2])
        if f[0] == "ne" and (a == x0 and b == ("c", 0) or b == x0 and a == ("c", 0)): return True
        if f[0] in ("ult", "slt") and b == x0 and (f[0] == "ult" or a[0] == "c" and a[1] >= 0): return True
        if f[0] in ("ule", "sle") and b == x0 and a[0] == "c" and a[1] > 0: return True
    return False


def stops_at_wrap(fs, e):
    for f in fs:
        if len(f) != 3: continue
        if f[0] == "ne" and f[1] == e and f[2][0] == "c" and f[2][1] in (-1, 0xffffffff): return True
        if f[0] in ("sle", "slt", "ule", "ult") and f[2] == e: return True      # stays at or above something
    return False


def gep_index(a):
    """(address of array start, index expr) of the last variable step, or None"""
    steps = a[2]
    for j in range(len(steps) - 1, -1, -1):
        if steps[j][0] != "f": return ("gep", a[1], steps[:j]), steps[j][-1], steps[j + 1:]
    return None
