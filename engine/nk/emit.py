"""Instruction emission in the compiler: which words are codes, which operands."""
from .core import Broken
from .vn import state_before, strip


def operand_ops(cx, O):
    """codes whose handler consumes the following word: they step the instruction pointer by one"""
    mod = cx.mod; out = set()
    for k in O.names:
        h = O.handler(k)
        if h is None: continue
        fn = mod.fns[h]; vn = cx.vn(h)
        for i in fn.all():
            if i.op == "store" and mod.addr_field(fn, i.o[1]) == ("NKVMExecutionContext", "instructionPointer"):
                e = vn.expr(i.o[0])
                if e[0] == "add" and ("c", 1) in e[1:]: out.add(k)
    return out


class Emit:
    """per direct emitter function: the list of (call, kind, value expr)"""
    ADD = "nkiCompilerAddInstruction"

    def __init__(self, cx, O):
        self.cx = cx; self.O = O; mod = cx.mod
        if self.ADD not in mod.fns: raise Broken("instruction writer not found")
        self.operands = operand_ops(cx, O)
        self.words = {}          # call id (fn, inst id) -> ("code", op) / ("data", expr)
        self.problems = []
        self.direct = {c.fn.name for c in mod.callers[self.ADD]}
        for n in self.direct: self._scan(mod.fns[n])

    def word(self, fn, call):
        """value of the instruction word passed by reference"""
        vn = self.cx.vn(fn.name)
        st = state_before(vn, call)
        b = vn.expr(call.o[1])
        b = b if b[0] == "gep" else ("gep", b, ())
        best = None
        for a, v in st.items():
            if a[1] == b[1] and a[2][:len(b[2])] == b[2] and ("f", "NKInstruction", "u") in a[2]: best = v
        return best

    def const_args(self, fn, k, seen=None):
        """set of constants a parameter may be, or None"""
        seen = seen or set()
        if (fn.name, k) in seen: return set()
        seen.add((fn.name, k))
        if fn.name in self.cx.mod.addr_taken: return None
        out = set()
        for c in self.cx.mod.callers[fn.name]:
            r = self.values(c.fn, c.o[k], seen)
            if r is None: return None
            out |= r
        return out

    def values(self, fn, op, seen=None):
        if op[0] == "c": return {op[1]}
        if op[0] == "a": return self.const_args(fn, op[1], seen)
        d = fn.idef(op)
        if d is None: return None
        if d.op in ("zext", "sext", "trunc", "bitcast", "freeze"): return self.values(fn, d.o[0], seen)
        seen = seen or set()
        if d.op in ("phi", "select"):
            if (fn.name, "i", d.id) in seen: return set()
            seen.add((fn.name, "i", d.id))
            out = set()
            for v in ([v for v, b in d.o] if d.op == "phi" else d.o[1:]):
                r = self.values(fn, v, seen)
                if r is None: return None
                out |= r
            return out
        if d.op == "load":
            g = self.cx.mod.addr_global(fn, d.o[0])
            if g and self.cx.mod.globals[g].get("const"): return set(flat(self.cx.mod.globals[g]["init"]))
        return None

    def expr_values(self, fn, e):
        if e is None: return None
        if e[0] == "c": return {e[1]}
        if e[0] == "a": return self.const_args(fn, e[1])
        if e[0] in ("zext", "trunc", "sext"): return self.expr_values(fn, e[1])
        if e[0] in ("phi", "v", "L", "call"): return self.values(fn, ["i", e[1]])
        if e[0] == "select":
            a, b = self.expr_values(fn, e[2]), self.expr_values(fn, e[3])
            return None if a is None or b is None else a | b
        return None

    def _scan(self, fn):
        """walk the paths with the decoder's state: expecting a code or an operand"""
        IN = {0: {"code"}}
        work = [0]; done = {}
        while work:
            b = work.pop(0)
            st = frozenset(IN[b])
            if done.get(b) == st: continue
            done[b] = st
            s = set(st)
            for i in fn.blocks[b]:
                if i.op == "call" and i.callee and (i.callee == self.ADD or i.callee in self.direct):
                    if i.callee != self.ADD:
                        if "operand" in s: self.problems.append((i, "an instruction is emitted where the operand of the previous one is expected"))
                        s = {"code"}; continue
                    w = self.word(fn, i)
                    n = set()
                    if "code" in s:
                        vals = self.expr_values(fn, w)
                        self.words[(fn.name, i.id)] = ("code", vals, w)
                        if vals is None: n.add("code")
                        else:
                            for v in vals: n.add("operand" if v in self.operands else "code")
                            if not vals: n.add("code")
                    if "operand" in s:
                        if self.words.get((fn.name, i.id), ("data",))[0] == "code":
                            self.problems.append((i, "the same word is an instruction code on one path and an operand on another"))
                        self.words[(fn.name, i.id)] = ("data", None, w); n.add("code")
                    s = n
                elif i.op == "ret" and "operand" in s:
                    self.problems.append((i, "an instruction that takes an operand word is emitted without one"))
            for x in fn.succs[b]:
                o = IN.setdefault(x, set())
                if not s <= o or x not in done:
                    o |= s; work.append(x)


def flat(v):
    if isinstance(v, list):
        if len(v) >= 2 and v[0] == "c": yield v[1]; return
        if v == ["zero"]: yield 0; return
        for x in v: yield from flat(x)
