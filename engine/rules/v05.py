"""V05: script arithmetic cannot trap or be undefined."""
from nk.core import Broken
from nk.vn import show, strip

META = {"level": "other", "technique": "guard dominance over the compiler IR: every division, remainder, signed no-wrap operation and float-to-integer conversion needs path facts excluding the faulting operands",
        "note": "Covers every integer division/remainder in the library, every operation the compiler may assume not to overflow whose operand derives from script values, and every float-to-integer conversion. Float results are not judged.",
        "explains": "Divisions with non-constant divisor: no path from the function's entry may reach them without passing an edge that establishes divisor != 0 and, for signed ones, (divisor != -1 or dividend != INT_MIN). Signed add/sub/mul carrying the no-signed-wrap flag whose operand is, through data flow, a script value (value payload, converted value, parsed literal) are undefined on overflow and reported unless a dominating comparison bounds them. Conversions need a dominating ordered comparison on both sides."}

MIN = {8: -128, 16: -32768, 32: -2147483648, 64: -(1 << 63)}
PARSERS = {"atol", "atoi", "strtol", "atoll"}


def signed(c, w=32):
    c &= (1 << w) - 1
    return c - (1 << w) if c >> (w - 1) else c


def width(i): return int(i.ty[1:]) if i.ty and i.ty[0] == "i" else 32


def check(cx, tier):
    mod = cx.mod
    fnames = {mod.fns[n].name for n in mod.fns}
    for fn in mod.fns.values():
        vn = cx.vn(fn.name)
        for i in fn.all():
            if i.op in ("udiv", "urem", "sdiv", "srem"): division(cx, fn, vn, i)
            elif i.op in ("add", "sub", "mul", "shl") and i.nsw: overflow(cx, fn, vn, i)
            elif i.op in ("fptosi", "fptoui"): conversion(cx, fn, vn, i)
            elif i.op in ("shl", "lshr", "ashr") : shift(cx, fn, vn, i)
    cx.need("divisor-guarded", 4)
    cx.need("conversion-bounded", 1)
    # the instructions that do script arithmetic are all analysed
    from nk.ops import Ops
    O = Ops(cx)
    inv = {n: O.handler(k) for k, n in O.names.items()}
    for n in ("NK_OP_ADD", "NK_OP_SUBTRACT", "NK_OP_MULTIPLY", "NK_OP_DIVIDE", "NK_OP_MODULO", "NK_OP_NEGATE"):
        if inv.get(n) not in mod.fns: raise Broken("no handler for " + n)
        cx.ok("arithmetic-handler", sample=inv[n])


def zero_guard(vn, x):
    def f(p, b):
        for ft in vn.edge_facts(p, b):
            if len(ft) != 3 or ft[1] != x and ft[2] != x: continue
            if ft[0] == "ne" and ft[1] == x and ft[2] == ("c", 0): return True
            if ft[0] == "eq" and ft[1] == x and ft[2][0] == "c" and ft[2][1] != 0: return True
            if ft[0] in ("ugt", "sgt") and ft[1] == x and ft[2][0] == "c" and ft[2][1] >= 0: return True
            if ft[0] in ("uge", "sge") and ft[1] == x and ft[2][0] == "c" and ft[2][1] > 0: return True
            if ft[0] in ("ult", "slt") and ft[2] == x and ft[1][0] == "c" and ft[1][1] >= 0: return True
            if ft[0] in ("ule", "sle") and ft[2] == x and ft[1][0] == "c" and ft[1][1] > 0: return True
        return False
    return f


def over_guard(vn, x, y, w):
    """x / y cannot be INT_MIN / -1"""
    def ne(ft, e, v):
        if ft[1][0] == "sext": ft = (ft[0], ft[1][1], ft[2])
        if ft[2][0] == "sext": ft = (ft[0], ft[1], ft[2][1])
        if ft[1] != e or ft[2][0] != "c": 
            if ft[2] == e and ft[1][0] == "c" and ft[0] in ("slt", "sle"):
                c = signed(ft[1][1], w)
                return v < c or ft[0] == "slt" and v == c       # c < e
            return False
        c = signed(ft[2][1], w)
        if ft[0] == "ne": return c == v
        if ft[0] == "eq": return c != v
        if ft[0] == "sgt": return v <= c
        if ft[0] == "sge": return v < c
        if ft[0] == "slt": return v >= c
        if ft[0] == "sle": return v > c
        return False
    def f(p, b):
        for ft in vn.edge_facts(p, b):
            if len(ft) != 3: continue
            if ne(ft, y, -1) or ne(ft, x, MIN[w]): return True
        return False
    return f


def division(cx, fn, vn, i):
    d = vn.expr(i.o[1])
    w = width(i)
    if d[0] == "c":
        if d[1] == 0: cx.bad("divisor-guarded", i, "division by the constant zero", "const0")
        if i.op[0] == "s" and signed(d[1], w) == -1: 
            if not guarded(cx, fn, vn, i, over_guard(vn, vn.expr(i.o[0]), ("x",), w)): cx.bad("quotient-guarded", i, "%s by -1 may overflow" % i.op, "m1")
        return
    cx.ok("divisor-guarded", sample="%s %s" % (i.loc(), i.op))
    if not guarded(cx, fn, vn, i, zero_guard(vn, d)):
        cx.bad("divisor-guarded", i, "%s by %s can be reached with a zero divisor" % (i.op, sh(vn, d)), i.op)
    if i.op[0] == "s":
        x = vn.expr(i.o[0])
        cx.ok("quotient-guarded", sample="%s %s" % (i.loc(), i.op))
        if x[0] == "c" and signed(x[1], w) != MIN[w]: return
        if not guarded(cx, fn, vn, i, over_guard(vn, x, d, w)):
            cx.bad("quotient-guarded", i, "%s of %s by %s can be reached with INT_MIN and -1" % (i.op, sh(vn, x), sh(vn, d)), i.op)


def guarded(cx, fn, vn, i, edge):
    P = cx.paths(fn)
    return P.escape(None, lambda j: j is i, stop_edge=lambda p, b: vn.infeasible(p, b) or edge(p, b)) is None


def sh(vn, e):
    try: return show(vn, e)
    except Exception: return str(e)


def script_derived(cx, fn, vn, op, seen=None):
    """does the operand hold a value scripts choose?"""
    seen = seen if seen is not None else set()
    d = fn.idef(op)
    if d is None: return False
    if d.id in seen: return False
    seen.add(d.id)
    if d.op == "load":
        k = cx.mod.addr_field(fn, d.o[0])
        if k and k[0] in ("NKValue", "NKInstruction"): return True
        b = fn.idef(d.o[0])
        if b is not None and b.op == "alloca":
            for u in fn.uses[b.id]:
                if u.op == "store" and u.o[1] == ["i", b.id] and script_derived(cx, fn, vn, u.o[0], seen): return True
        return False
    if d.op == "call":
        return d.callee in PARSERS or d.callee in ("nkiValueToInt",)
    if d.op == "phi": return any(script_derived(cx, fn, vn, v, seen) for v, b in d.o)
    if d.op in ("select",): return any(script_derived(cx, fn, vn, v, seen) for v in d.o[1:])
    if d.op in ("trunc", "sext", "zext", "add", "sub", "mul", "freeze", "bitcast"): return any(script_derived(cx, fn, vn, v, seen) for v in d.o)
    return False


def overflow(cx, fn, vn, i):
    if not any(script_derived(cx, fn, vn, o) for o in i.o): 
        cx.ok("signed-arithmetic-not-from-scripts"); return
    w = width(i)
    cx.ok("script-arithmetic-wraps")
    # counting loops over a script-chosen number: bounded by a comparison in the right direction
    x, y = vn.expr(i.o[0]), vn.expr(i.o[1])
    if y[0] == "c" and i.op in ("add", "sub"):
        k = signed(y[1], w) * (1 if i.op == "add" else -1)
        for ft in vn.facts(i):
            if len(ft) != 3: continue
            if k < 0 and (ft[0] in ("sgt", "sge") and ft[1] == x and ft[2][0] == "c" and signed(ft[2][1], w) - abs(k) > MIN[w] or ft[0] in ("slt", "sle") and ft[2] == x and ft[1][0] == "c"): return
            if k > 0 and (ft[0] == "slt" and ft[1] == x and k == 1 or ft[0] == "sgt" and ft[2] == x and k == 1): return
    cx.bad("script-arithmetic-wraps", i, "signed %s on a script value is undefined when it overflows" % i.op, i.op)


def shift(cx, fn, vn, i):
    y = vn.expr(i.o[1])
    if y[0] == "c": return
    if not script_derived(cx, fn, vn, i.o[1]): return
    cx.ok("shift-amount")
    w = width(i)
    for ft in vn.facts(i):
        if len(ft) == 3 and ft[1] == y and ft[2][0] == "c" and (ft[0] == "ult" and ft[2][1] <= w or ft[0] == "ule" and ft[2][1] < w): return
    if y[0] == "and" and any(z[0] == "c" and z[1] < w for z in y[1:3]): return
    cx.bad("shift-amount", i, "shift by a script value that is not bounded", i.op)


def conversion(cx, fn, vn, i):
    x = vn.expr(i.o[0])
    w = width(i)
    lo, hi = (MIN[w], -MIN[w]) if i.op == "fptosi" else (0, 1 << w)
    cx.ok("conversion-bounded", sample=i.loc())
    num = up = down = False; negs = []
    for ft in vn.facts(i):
        if len(ft) != 3: continue
        p = ft[0]
        if not (p.startswith("f") or p.startswith("!f")): continue
        a, b = ft[1], ft[2]
        neg = p[0] == "!"
        q = p.lstrip("!")[1:]                 # oge, ult, ...
        if q in ("ord", "uno"):
            if (q == "ord") != neg and x in (a, b): num = True
            continue
        if a == x and b == x:
            if (q == "oeq" and not neg) or (q == "une" and neg): num = True
            continue
        o, r = q[0], q[1:]
        if b == x and a[0] == "fp": a, b = b, a; r = {"lt": "gt", "le": "ge", "gt": "lt", "ge": "le"}.get(r, r)
        if a != x or b[0] != "fp": continue
        c = b[1]
        if neg:
            r = {"lt": "ge", "le": "gt", "gt": "le", "ge": "lt", "eq": "ne", "ne": "eq"}[r]
            o = "u" if o == "o" else "o"
        if o == "o": num = True
        if r == "lt" and c <= hi or r == "le" and c < hi: up = True
        if r == "ge" and c >= lo or r == "gt" and c >= lo - 1: down = True
    if not (num and up and down):
        miss = [t for t, v in (("not-a-number", num), ("too large", up), ("too small", down)) if not v]
        cx.bad("conversion-bounded", i, "float to integer conversion is reached with values that are " + ", ".join(miss), i.op)
