"""The instruction tables: handler, name and declared stack effect per opcode."""
from .core import Broken
from .vn import strip
from .loops import loops_of, induction


class Ops:
    def __init__(self, cx):
        mod = cx.mod; self.cx = cx
        self.real = mod.E("NK_OPCODE_REALCOUNT"); self.padded = mod.E("NK_OPCODE_PADDEDCOUNT")
        self.names = {}
        for k, v in mod.enums["NKOpcode"]:
            if k.startswith("NK_OP_"): self.names[v] = k
        # the handler table: the array an indirect call's target is loaded from
        self.handler_table = None; self.dispatch = []
        for fn in mod.fns.values():
            for i in fn.calls():
                if i.callee is not None or i.cv is None: continue
                d = fn.idef(i.cv)
                if d is None or d.op != "load": continue
                g = mod.addr_global(fn, d.o[0])
                if g and any(c.startswith("nkiOpcode_") for c in mod.cal(i)):
                    self.handler_table = g; self.dispatch.append(i)
        if not self.handler_table: raise Broken("handler table not found")
        self.offset_table = next((g for g in mod.globals if g.split(":")[-1] == "nkiCompilerStackOffsetTable"), None)
        self.name_table = next((g for g in mod.globals if g.split(":")[-1] == "nkiOpcodeNameTable"), None)
        if not self.offset_table or not self.name_table: raise Broken("instruction tables not found")
        self.handlers = self.collect(self.handler_table)
        self.offsets = self.collect(self.offset_table)
        self.opnames = self.collect(self.name_table)

    def length(self, g):
        t = self.cx.mod.globals[g]["ty"]
        return int(t[1:].split(" ")[0])

    def collect(self, g):
        """index -> [(value operand, store inst or None)]; loop stores are expanded"""
        mod = self.cx.mod; out = {}
        init = mod.globals[g].get("init")
        if isinstance(init, list) and init and init != ["zero"]:
            for k, v in enumerate(init):
                if v != ["zero"] and v != ["null"]: out.setdefault(k, []).append((v, None))
        for fn in mod.fns.values():
            vn = None
            for i in fn.all():
                if i.op != "store" or mod.addr_global(fn, i.o[1]) != g: continue
                vn = vn or self.cx.vn(fn.name)
                a = vn.addr(i.o[1])
                ix = [s[1] for s in a[2] if s[0] == "x"]
                if not ix: out.setdefault(0, []).append((i.o[0], i)); continue
                e = ix[-1]
                while e[0] in ("zext", "sext", "trunc"): e = e[1]
                if e[0] == "c": out.setdefault(e[1], []).append((i.o[0], i)); continue
                rng = self.range(fn, vn, e, i)
                if rng is None: out.setdefault(None, []).append((i.o[0], i)); continue
                for k in range(*rng): out.setdefault(k, []).append((i.o[0], i))
        return out

    def range(self, fn, vn, e, at):
        if e[0] != "phi": return None
        ind = induction(fn, vn, fn.insts[e[1]])
        if not ind or ind[0][0] != "c" or ind[1] != 1: return None
        for f in vn.facts(at):
            if len(f) == 3 and f[0] in ("ult", "slt") and f[1] == e and f[2][0] == "c": return (ind[0][1], f[2][1])
            if len(f) == 3 and f[0] in ("ule", "sle") and f[1] == e and f[2][0] == "c": return (ind[0][1], f[2][1] + 1)
            if len(f) == 3 and f[0] == "ne" and f[1] == e and f[2][0] == "c": return (ind[0][1], f[2][1])
        return None

    def handler(self, k):
        l = self.handlers.get(k)
        return l[-1][0][1] if l and l[-1][0][0] == "fn" else None

    def offset(self, k):
        l = self.offsets.get(k)
        if not l: return 0
        v = l[-1][0]
        return v[1] if v[0] == "c" else (0 if v[0] == "zero" else None)


def bounded(vn, ins, e, n):
    """is the unsigned value of e certainly < n at ins?"""
    x = e
    while x[0] in ("zext", "trunc"): x = x[1]
    if x[0] == "c": return 0 <= x[1] < n
    if x[0] == "and":
        for y in x[1:]:
            if y[0] == "c" and 0 <= y[1] < n: return True
    if x[0] == "urem" and x[2][0] == "c" and 0 < x[2][1] <= n: return True
    if x[0] == "lshr" and x[2][0] == "c":
        pass
    fs = vn.facts(ins)
    for f in fs:
        if len(f) == 3 and f[1] in (x, e) and f[2][0] == "c":
            if f[0] == "ult" and f[2][1] <= n or f[0] == "ule" and f[2][1] < n: return True
            if f[0] in ("slt", "sle") and (f[2][1] + (f[0] == "sle")) <= n:
                # needs a lower bound
                if any(len(g) == 3 and g[2] == f[1] and g[0] in ("sle", "slt") and g[1][0] == "c" and g[1][1] >= (0 if g[0] == "sle" else -1) for g in fs): return True
        if f[0] == "in" and f[1] in (x, e): return all(0 <= v < n for v in f[2])
    # an induction variable that starts at a small constant and stays below a constant
    return False
