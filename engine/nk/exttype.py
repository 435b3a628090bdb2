"""Facts about external (host) types attached to script objects."""
from .vn import strip, is_load_of
from .ir import *

ODATA = ("NKVMObject", "externalData"); OTYPE = ("NKVMObject", "externalDataType")


class Ext:
    def __init__(self, cx):
        self.cx, self.mod = cx, cx.mod
        self.data = self._getters(ODATA)
        self.type = self._getters(OTYPE)

    def _getters(self, fld):
        """functions that look up the object behind a value argument and return its field, writing nothing"""
        r = {}; mod = self.mod
        ch = True
        while ch:
            ch = False
            for n, fn in mod.fns.items():
                if n in r or fn.ret == "void": continue
                vn = self.cx.vn(n)
                src = []; ok = True
                for i in fn.all():
                    if i.op == "load" and fld in [(s[1], s[2]) for s in vn.addr(i.o[0])[2] if s[0] == "f"]: src.append(i)
                    if i.op == "call" and i.callee in r: src.append(i)
                    if i.op == "call" and (i.callee or "").startswith("llvm.memcpy") and fld in [(s[1], s[2]) for s in vn.addr(i.o[1])[2] if s[0] == "f"]: src.append(i)
                    if i.op == "store" and fld in [(s[1], s[2]) for s in vn.addr(i.o[1])[2] if s[0] == "f"]: ok = False
                if not src or not ok: continue
                rets = [x for x in fn.exits() if x.o]
                if not rets or not all(self._from(fn, x.o[0], src, set()) for x in rets): continue
                if not any(self._hit(fn, x.o[0], src, set()) for x in rets): continue
                # the argument the object comes from: the one whose pointee is a script value
                ks = [k for k in range(fn.nargs) if self.cx.ms.pointee(fn, ["a", k]) == "NKValue"]
                if len(ks) != 1: continue
                r[n] = ks[0]; ch = True
        return r

    def _writers(self, fn, al, src, seen):
        """what a local holds: (field read | value operand) list"""
        vn = self.cx.vn(fn.name)
        if ("al", al) in seen: return
        seen.add(("al", al))
        for i in fn.all():
            if i.op == "store" and vn.addr(i.o[1])[1] == ("al", al): yield i.o[0]
            elif i.op == "call" and (i.callee or "").startswith("llvm.memcpy") and vn.addr(i.o[0])[1] == ("al", al):
                if i in src: yield ["src"]
                else:
                    a = vn.addr(i.o[1])
                    if a[1][0] == "al": yield from self._writers(fn, a[1][1], src, seen)
                    elif a[1][0] in ("g", "cg"): yield ["c", 0]
                    else: yield ["?"]

    def _vals(self, fn, op, src, seen):
        """leaves of a value: ["src"] for the field, operands otherwise"""
        d = fn.idef(op)
        if op[0] in ("src", "?") or d is None: yield op; return
        if d in src: yield ["src"]; return
        if d.id in seen: return
        seen.add(d.id)
        if d.op == "phi": vs = [v for v, b in d.o]
        elif d.op == "select": vs = d.o[1:]
        elif d.op == "load":
            a = self.cx.vn(fn.name).addr(d.o[0])
            if a[1][0] != "al": yield ["?"]; return
            vs = list(self._writers(fn, a[1][1], src, seen))
        else: yield ["?"]; return
        for v in vs: yield from self._vals(fn, v, src, seen)

    def _from(self, fn, op, src, seen): return all(l[0] in ("src", "c", "null", "zero", "undef") for l in self._vals(fn, op, src, set()))

    def _hit(self, fn, op, src, seen): return any(l[0] == "src" for l in self._vals(fn, op, src, set()))

    # ------------------------------------------------------------ queries
    def wanted(self, vn, e):
        """-> field path when e is a registered type id kept by the machine"""
        e = strip(e)
        if e[0] == "L":
            p = tuple((s[1], s[2]) for s in vn.addr(vn.fn.insts[e[1]].o[0])[2] if s[0] == "f")
            if ("NKVM", "internalObjectTypes") in p: return p
            src = self.copied(vn, vn.fn.insts[e[1]])
            if src and ("NKVM", "internalObjectTypes") in src: return src + tuple(x for x in p if x not in src)
        if e[0] == "a" or e[0] == "L": return ("arg", e)
        return None

    def copied(self, vn, ld):
        """the field path a local was filled from, when it is filled once"""
        a = vn.addr(ld.o[0])
        if a[1][0] != "al": return None
        ws = []
        for i in vn.fn.all():
            if i.op == "store" and vn.addr(i.o[1])[1] == a[1]: ws.append((i, i.o[0]))
            elif i.op == "call" and (i.callee or "").startswith("llvm.memcpy") and vn.addr(i.o[0])[1] == a[1]: ws.append((i, None))
            elif i.op == "call" and not (i.callee or "").startswith("llvm.") and any(vn.addr(o)[1] == a[1] for o in i.o if vn.expr(o)[0] in ("gep", "al")): return None
        if len(ws) != 1 or not vn.fn.dominates(ws[0][0], ld): return None
        i, v = ws[0]
        if v is None: p = vn.addr(i.o[1])[2]
        else:
            e = strip(vn.expr(v))
            if e[0] != "L": return None
            p = vn.addr(vn.fn.insts[e[1]].o[0])[2]
        return tuple((s[1], s[2]) for s in p if s[0] == "f")

    def tid(self, vn, e):
        """('val', argument address) or ('ob', object) whose external type e is"""
        e = strip(e)
        if e[0] == "call":
            c = vn.fn.insts[e[1]]
            if c.callee in self.type: return ("val", vn.addr(c.o[self.type[c.callee]]), c)
        if e[0] == "L":
            a = vn.addr(vn.fn.insts[e[1]].o[0])
            fs = [(s[1], s[2]) for s in a[2] if s[0] == "f"]
            if OTYPE in fs: return ("ob", base(a, OTYPE), vn.fn.insts[e[1]])
        return None

    def pid(self, vn, e):
        e = strip(e)
        if e[0] == "call":
            c = vn.fn.insts[e[1]]
            if c.callee in self.data: return ("val", vn.addr(c.o[self.data[c.callee]]), c)
        if e[0] == "L":
            a = vn.addr(vn.fn.insts[e[1]].o[0])
            fs = [(s[1], s[2]) for s in a[2] if s[0] == "f"]
            if ODATA in fs: return ("ob", base(a, ODATA), vn.fn.insts[e[1]])
        return None

    def types(self, vn, x, facts):
        """registered type ids the object that data pointer x came from is known to have"""
        s = self.pid(vn, x)
        if s is None: return []
        r = []
        for f in facts:
            if len(f) != 3 or f[0] != "eq": continue
            for a, b in ((f[1], f[2]), (f[2], f[1])):
                t = self.tid(vn, a)
                if t is None or t[0] != s[0] or t[1] != s[1]: continue
                if not self.steady(vn, s[1], t[2], s[2]): continue
                w = self.wanted(vn, b)
                if w: r.append(w)
        return r

    def steady(self, vn, addr, a, b):
        """the value at a local address is not written between the two reads"""
        if len(addr) != 3 or addr[1][0] != "al": return True
        first, last = (a, b) if vn.fn.can_reach(a, b) else (b, a)
        for i in vn.fn.all():
            w = i.op == "store" and vn.addr(i.o[1])[1] == addr[1] or i.op == "call" and (i.callee or "").startswith("llvm.mem") and vn.addr(i.o[0])[1] == addr[1]
            if w and self.cx.paths(vn.fn).escape(first, lambda j: j is i, stop=lambda j: j is last) is not None and \
                    self.cx.paths(vn.fn).escape(i, lambda j: j is last, stop=lambda j: j is first) is not None: return False
        return True


def base(a, fld):
    """the address expression up to the member fld"""
    k = [n for n, s in enumerate(a[2]) if s[0] == "f" and (s[1], s[2]) == fld][0]
    return (a[1], tuple(a[2][:k]))


def ext(cx):
    if not hasattr(cx, "_ext"): cx._ext = Ext(cx)
    return cx._ext
