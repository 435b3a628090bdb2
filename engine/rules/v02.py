"""V02: every instruction moves the operand stack as declared."""
from nk.core import Broken
from nk.ops import Ops
from nk.stackfx import StackFx, ZERO, ladd, lshow, sgn
from nk.vn import lin, state_before, strip

META = {"level": "other", "technique": "path-sensitive symbolic stack-effect summaries of every instruction handler over the compiler IR (linear expressions, loop counters as induction hypotheses) compared with the declared effect table and the calling convention",
        "note": "Covers every handler and every path on which no error is recorded, including loops and context switches. Values written to the slots are not judged (R02); the compiler's side of the bookkeeping is C02's.",
        "explains": "For each instruction code the handler is taken from the evaluated dispatch table. A worklist over the handler's paths tracks the change of each execution context's stack depth as a linear expression; calls are replaced by callee summaries; paths that record an error are dropped; context switches move to another level. Handlers with a declared non-variable effect must have exactly that effect on every path; the operand-dependent ones must have exactly the form of their convention, with the operand read from the stated stack position."}

VARIABLE = {"NK_OP_POPN", "NK_OP_CALL", "NK_OP_RETURN", "NK_OP_COROUTINE_CREATE", "NK_OP_COROUTINE_YIELD", "NK_OP_COROUTINE_RESUME"}


def check(cx, tier):
    mod = cx.mod
    O = Ops(cx); F = StackFx(cx)
    for k in range(O.real):
        nm = O.names.get(k)
        h = O.handler(k)
        if nm is None or h is None: continue
        fn = mod.fns[h]
        sm = F.summary(h, ())
        if sm is None: raise Broken("no stack effect for " + h)
        where = Entry(fn)
        if nm not in VARIABLE:
            off = O.offset(k) or 0
            exp = (0, ((0, (frozenset(), off % (1 << 32))),) if off else ())
            if not sm: cx.ok("static-effect"); continue      # never succeeds
            for s in sm:
                cx.ok("static-effect", sample="%s %s: %s" % (nm, h, off))
                if norm(s) != exp:
                    cx.bad("static-effect", where, "%s: a path changes the stack by %s but %d is declared" % (nm, text(cx, h, s), off), "%s:%s" % (nm, text(cx, h, s)))
        else:
            V = Var(cx, F, fn)
            for s in sm:
                cx.ok("operand-dependent-effect", sample="%s %s" % (nm, text(cx, h, s)))
                w = V.judge(nm, norm(s), O.offset(k) or 0)
                if w: cx.bad("operand-dependent-effect", where, "%s: a path changes the stack by %s; %s" % (nm, text(cx, h, s), w), "%s:%s" % (nm, text(cx, h, s)))
            missing = V.missing(nm, [norm(s) for s in sm])
            if missing: cx.bad("operand-dependent-effect", where, "%s: no path %s" % (nm, missing), "%s:missing" % nm)
    hostcall(cx, F, O)
    cx.need("static-effect", 30)
    cx.need("operand-dependent-effect", 9)


class Entry:
    def __init__(self, fn): self.fn = fn
    def loc(self): return "%s:%s %s" % ((self.fn.file or "?").split("/")[-1], self.fn.line, self.fn.name)


def norm(s): return (s[0], tuple((l, e) for l, e in s[1] if e != ZERO))


def text(cx, h, s):
    vn = cx.vn(h)
    return "{" + "; ".join("%s%s" % ("" if l == 0 else ("context %+d: " % l), lshow(vn, e)) for l, e in s[1]) + "}" + ("" if s[0] == 0 else " leaving in context %+d" % s[0])


class Var:
    def __init__(self, cx, F, fn):
        self.cx = cx; self.F = F; self.fn = fn; self.vn = cx.vn(fn.name); self.mod = cx.mod

    # stack position (relative to entry depth) a nkiValueToInt argument was read from; None if unknown
    def pos(self, call):
        a = self.fn.idef(call.o[1])
        while a is not None and a.op in ("bitcast", "freeze"): a = self.fn.idef(a.o[0])
        if a is None or a.op != "call": return None
        sts = self.F.log.get(a.id)
        if not sts or len(sts) != 1: return None
        (lv, ef), = sts
        if lv != 0: return None
        d = dict(ef).get(0, ZERO)
        if a.callee == "nkiVmStackPop": return ladd(d, (frozenset(), 1), -1)
        if a.callee == "nkiVmStackPeek":
            # index = size - c
            x = lin(self.vn.expr(a.o[1]))
            sz = [(t, c) for t, c in x[0] if t[0] == "L" and self.mod.addr_field(self.fn, self.fn.insts[t[1]].o[0]) == ("NKVMStack", "size")]
            if len(sz) != 1 or sz[0][1] != 1: return None
            rest = ladd(x, (frozenset({sz[0]}), 0), -1)
            ld = self.fn.insts[sz[0][0][1]]
            return ladd(d, rest)         # d: depth now; size read at the same depth (checked by value numbering)
        return None

    def toint(self, t):
        if t[0] != "call": return None
        c = self.fn.insts[t[1]]
        return c if c.callee == "nkiValueToInt" else None

    def split(self, e):
        """terms -> {('int', pos): coef} plus others"""
        r = {}; other = []
        for t, c in e[0]:
            i = self.toint(t)
            if i is None: other.append((t, sgn(c)))
            else: r.setdefault(sgn(c), []).append((i, self.pos(i)))
        return r, other, sgn(e[1])

    def judge(self, nm, s, off):
        self.F.execute(self.fn.name, {})
        lv, ef = s; d = dict(ef)
        z = d.get(0, ZERO)
        TOP = (frozenset(), (1 << 32) - 1)
        ints, other, k = self.split(z)
        def at_top(l): return all(p is None or p == TOP for i, p in l)
        if nm == "NK_OP_POPN":
            if lv or set(d) - {0} or other or k != -1 or list(ints) != [-1] or len(ints[-1]) != 1: return "expected: the operand popped plus that many values"
            if not at_top(ints[-1]): return "the count must be the topmost value"
        elif nm == "NK_OP_CALL":
            if lv or set(d) - {0}: return "a call stays in its context"
            if list(ints) != [-1] or len(ints[-1]) != 1: return "the argument count must be taken off exactly once"
            if not at_top(ints[-1]): return "the argument count must be the topmost value"
            if not other:
                if k != -1: return "a native call must take function, arguments and count and leave one result"
            elif len(other) == 1 and other[0][1] == 1 and other[0][0][0] in ("phi", "call"):
                if k != 1: return "a script call must leave function and arguments and push its return frame of three values minus the count"
            else: return "unexpected terms"
        elif nm == "NK_OP_RETURN":
            want = -4 if lv == 0 else -5
            if other or k != want or list(ints) != [-1] or len(ints[-1]) != 2: return "expected: context count, frame, arguments, function replaced by the result"
            ps = [p for i, p in ints[-1]]
            if None not in ps:
                first = [i for i, p in ints[-1] if p == TOP]
                if len(first) != 1: return "the context count must be the topmost value"
                second = [(i, p) for i, p in ints[-1] if p != TOP]
                C = lin(self.vn.expr(["i", first[0].id]))
                exp = ladd((frozenset(), -4 % (1 << 32)), C, -1)
                if second[0][1] != exp: return "the argument count is not read from the frame"
            if lv == -1:
                if set(d) != {0, -1} or d[-1] != (frozenset(), 1): return "the resumer must get exactly one value"
            elif set(d) != {0}: return "unexpected context"
        elif nm == "NK_OP_COROUTINE_CREATE":
            if lv: return "creating a coroutine must stay in the creating context"
            if other or k != -1 or list(ints) != [-1] or len(ints[-1]) != 1: return "expected: function, arguments and count replaced by the coroutine"
            if not at_top(ints[-1]): return "the count must be the topmost value"
            if set(d) - {0, 1}: return "unexpected context"
            # before the call into it, the new stack holds function, arguments and count
            for i in self.fn.calls():
                if "nkiOpcode_call" not in self.mod.cal(i): continue
                for st in self.F.log.get(i.id, ()):
                    e = dict(st[1]).get(st[0], ZERO)
                    self.cx.ok("coroutine-start")
                    if st[0] != 1 or ladd(e, (ints[-1] and lin(self.vn.expr(["i", ints[-1][0][0].id]))), -1) != (frozenset(), 2):
                        return "the new context must hold function, arguments and count when it is started (has %s)" % lshow(self.vn, e)
        elif nm == "NK_OP_COROUTINE_YIELD":
            if lv != -1 or d != {0: (frozenset(), (1 << 32) - 1), -1: (frozenset(), 1)}: return "a yield must move exactly one value to the resumer"
        elif nm == "NK_OP_COROUTINE_RESUME":
            if lv == 0:
                if d != {0: (frozenset(), (1 << 32) - 1)}: return "resuming a finished coroutine must leave one value"
            elif lv == 1:
                if d.get(0) != (frozenset(), (1 << 32) - 2) or d.get(1, ZERO) not in (ZERO, (frozenset(), 1)) or set(d) - {0, 1}: return "resume must take two values and pass on at most one"
            else: return "unexpected context"
        return None

    def missing(self, nm, states):
        lv = {s[0] for s in states}
        if nm == "NK_OP_COROUTINE_RESUME" and 1 not in lv: return "switches to the coroutine"
        if nm == "NK_OP_COROUTINE_YIELD" and lv != {-1}: return "switches to the resumer"
        if nm == "NK_OP_RETURN" and lv != {0, -1}: return "handles both a call's and a coroutine's return"
        if nm == "NK_OP_COROUTINE_RESUME":
            r = {dict(s[1]).get(1, ZERO) for s in states if s[0] == 1}
            if r != {ZERO, (frozenset(), 1)}: return "distinguishes a fresh from a yielded coroutine"
        if not states: return "succeeds"
        return None


def hostcall(cx, F, O):
    """C code that starts a script call pushes function, arguments and count, and takes the result"""
    mod = cx.mod
    call = next((O.handler(k) for k, n in O.names.items() if n == "NK_OP_CALL"), None)
    for c in mod.callers.get(call, []):
        fn = c.fn
        if fn.name in {O.handler(k) for k in O.names} or c.callee is None: continue
        vn = cx.vn(fn.name)
        F.execute(fn.name, {})
        for st in F.log.get(c.id, ()):
            e = dict(st[1]).get(0, ZERO)
            cx.ok("host-call-frame", sample="%s: %s" % (fn.name, lshow(vn, e)))
            # constant part 2, one term: the argument count (which is also what is pushed last)
            cnt = None
            for i in fn.calls():
                if "nkiVmStackPushInt" in mod.cal(i) and fn.dominates(i, c): cnt = i
            ok = sgn(e[1]) == 2 and len(e[0]) == 1
            if ok and cnt is not None: ok = ladd(e, lin(vn.expr(cnt.o[1])), -1) == (frozenset(), 2)
            if not ok:
                cx.bad("host-call-frame", c, "the call is started with a stack change of %s instead of function, arguments and count" % lshow(vn, e), "pre")
    cx.need("host-call-frame", 1)
