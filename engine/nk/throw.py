"""Which functions may leave by longjmp (catastrophic failure), and under
which constant-argument conditions."""
JB = ("NKVM", "catastrophicFailureJmpBuf")


def arms_itself(mod, fn):
    return any(i.op == "store" and mod.addr_field(fn, i.o[1]) == JB for i in fn.all())


def is_setjmp(c): return c is not None and "setjmp" in c
def is_longjmp(c): return c is not None and "longjmp" in c


def argfacts(vn, ins):
    return frozenset(f for f in vn.facts(ins) if f[0] in ("eq", "ne") and len(f) == 3 and f[1][0] == "a" and f[2][0] == "c")


def contradicts(facts, call, vn):
    for p, a, c in facts:
        if a[1] >= len(call.o): continue
        e = vn.expr(call.o[a[1]])
        if e[0] == "c":
            if p == "eq" and e[1] != c[1] or p == "ne" and e[1] == c[1]: return True
        elif c[1] == 0 and e[0] in ("al", "fn", "g") and p == "eq": return True
        elif c[1] == 0 and e[0] == "gep" and e[1][0] == "al" and p == "eq": return True
        if p == "eq" and ("ne", e, c) in vn.facts(call): return True
        if p == "ne" and ("eq", e, c) in vn.facts(call): return True
    return False


def summaries(cx):
    """fn name -> list of argument-condition sets under which it may throw out"""
    if hasattr(cx, "_throws"): return cx._throws
    mod = cx.mod
    S = {}
    work = []
    arm = {n for n, f in mod.fns.items() if arms_itself(mod, f)}
    for n, f in mod.fns.items():
        for i in f.calls():
            if is_longjmp(i.callee):
                if n in arm: continue
                S.setdefault(n, set()).add(argfacts(cx.vn(n), i)); work.append(n)
    while work:
        n = work.pop()
        for i in mod.callers.get(n, []):
            f = i.fn
            if f.name in arm: continue
            vn = cx.vn(f.name)
            conds = {c for c in S[n] if not contradicts(c, i, vn)}
            if not conds: continue
            new = argfacts(vn, i)
            cur = S.setdefault(f.name, set())
            if not any(c <= new for c in cur):
                cur.add(new); work.append(f.name)
    cx._throws = S
    cx._arming = arm
    return S


def may_throw(cx, call):
    """may this call instruction leave its caller by longjmp?"""
    S = summaries(cx)
    if is_longjmp(call.callee): return True
    vn = cx.vn(call.fn.name)
    for c in cx.mod.cal(call):
        for cond in S.get(c, ()):
            if not contradicts(cond, call, vn): return True
    return False
