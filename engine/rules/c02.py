"""C02: scopes and jumps are closed on every path through the compiler."""
from nk.core import Broken, Ctx
from nk.vn import strip, is_load_of, base_of
from nk.ops import Ops
from nk.emit import Emit
from nk.flow import Flow, lin, CS, CT
from rules.v08 import errors
from rules.c03 import Fail, nodetype, emitters as exprs
from nk.text import fold

META = {"level": "other", "technique": "path-sensitive typestate analysis of the code generator with per-outcome procedure summaries to a fixpoint: open scopes, unpatched jumps, the frame depth reached by the generated code",
        "note": "Follows the current scope, the jumps emitted without a target and the counted frame depth on every path of every routine that generates code; that the declared depth change of each instruction is what it does when run is V02's. Statements after a return are not followed.",
        "explains": "scope-restored: every path of every generating routine leaves the current scope as it found it (or, for the routines that open or close scopes, by the same number on each path), including the failing ones. jump-patched: on every path reported as compiled each placeholder has been given the position reached there and does not lead to the jump that skips the alternative. jump-depth: the frame is equally deep at a jump, also one of a break, and where it lands. break-patched: a loop's scope is not closed while break jumps recorded in it wait for a target. frame-restored, frame-uniform: nothing is left on the frame when a scope closes; a statement leaves the frame as it found it and an expression adds one value. jump-offset: the distance stored for a jump is target - slot - 2 everywhere. break-unwinds, scope-unwinds, return-discards, variable-slot: the amounts popped or addressed follow from the frame the compiler counted. operator-effect: the instructions emitted for a syntax-tree node turn its operands into one value."}


def check(cx, tier):
    mod = cx.mod
    O = Ops(cx); E = Emit(cx, O)
    errs = errors(cx)
    f = Fail(Ctx(mod)); f.judge("nkiCompilerCompileScript")
    F = Flow(cx, E, O, errs, f.fns)
    if not F.emitters or not F.patchers() or not F.fixers: raise Broken("jump emitters or patchers not found")
    roots = ["nkiCompilerCompileScript"] + sorted(F.axiom)
    built = [n for n in sorted(mod.addr_taken) if n in F.touch and mod.fns[n].ret == "i8" and len(mod.fns[n].ditypes) == 3]
    if not F.solve(roots + [(n, ((1, a),)) for n in built for a in range(4)]): raise Broken("no fixpoint")
    for (kind, fn, n, key), (i, msg) in sorted(F.reports.items(), key=repr):
        if kind == "limit": raise Broken("too many paths in %s" % fn)
        cx.bad(kind, i, msg, "%s:%s" % (fn, key))
    scopes(cx, F, roots)
    frames(cx, F, exprs(cx))
    bad = {(k[1], k[2]) for k in F.reports}
    for (kind, fn, n), i in sorted(F.sites.items(), key=repr):
        rule = {"jump": "jump-patched", "back": "jump-depth", "patch": "jump-depth", "fix": "break-patched", "break": "jump-patched", "body": "function-frame"}.get(kind)
        if rule and (fn, n) not in bad: cx.ok(rule, sample="%s (%s)" % (i.loc(), kind))
    offsets(cx, F)
    unwinds(cx, F, O, E)
    breaks(cx, F)
    inherited(cx, F)
    effects(cx, F, O, E)
    styled(cx, F, built)
    cx.need("scope-restored", 25); cx.need("jump-patched", 7); cx.need("jump-depth", 6); cx.need("break-patched", 5); cx.need("frame-inherited", 1); cx.need("frame-uniform", 10)
    cx.need("jump-offset", 4); cx.need("break-unwinds", 1); cx.need("scope-unwinds", 1); cx.need("return-discards", 1); cx.need("variable-slot", 3); cx.need("operator-effect", 34); cx.need("function-frame", 1)


def scopes(cx, F, roots):
    by = {}
    for (n, a), r in F.memo.items(): by.setdefault(n, []).append((a, r))
    for n, rs in sorted(by.items()):
        fn = cx.mod.fns[n]; at = fn.blocks[0][0]
        nets = [sorted({o[1] for o in r}) for a, r in rs]
        if any(len(x) > 1 for x in nets): cx.bad("scope-restored", at, "whether a scope is left open depends on the path taken through this routine", "mixed:" + n); continue
        if any(x and x[0] for x in nets) and (n in roots or n in F.judged): cx.bad("scope-restored", at, "the routine does not leave the scope current on entry", "net:" + n); continue
        cx.ok("scope-restored", sample="%s: %s" % (n, ["%+d" % x[0] if x else "no return" for x in nets][:3]))


def frames(cx, F, em):
    """one effect on the frame per routine; statements none, expressions one value"""
    for n in sorted({k[0] for k in F.memo}):
        if n in em or n in F.axiom or n in F.mod.addr_taken or n not in F.emitting or cx.mod.fns[n].ret != "i8": continue
        fn = cx.mod.fns[n]
        eff = sorted({o[2] for k, r in F.memo.items() if k[0] == n for o in r if not o[4] and o[0] != "0" and o[2] is not None})
        stmts = F.breaks(n)
        if len(eff) > 1: cx.bad("frame-uniform", fn.blocks[0][0], "the generated code leaves %s values on the frame, depending on the path taken" % " or ".join(map(str, eff)), "mixed:" + n)
        elif eff and eff[0] not in (0, 1): cx.bad("frame-uniform", fn.blocks[0][0], "the generated code leaves %d values on the frame" % eff[0], "eff:" + n)
        else: cx.ok("frame-uniform", sample="%s: %s" % (n, eff))
    top = [o[2] for k, r in F.memo.items() if k[0] == "nkiCompilerCompileScript" for o in r if not o[4] and o[0] != "0" and o[2] is not None]
    if any(top): cx.bad("frame-uniform", cx.mod.fns["nkiCompilerCompileScript"].blocks[0][0], "a compiled script leaves values on the frame", "script")


# ---------------------------------------------------------------- distances
def slot_of(cx, vn, a):
    """the instruction position an address into the program stands for"""
    fn = vn.fn
    if a[0] == "gep" and a[1][0] == "call" and not any(s[0] == "x" for s in a[2]):
        c = fn.insts[a[1][1]]; g = cx.mod.fns.get(c.callee or "")
        if g is None: return None
        gv = cx.vn(g.name)
        rs = [i for i in g.all() if i.op == "ret" and i.o]
        if len(rs) != 1: return None
        b = gv.addr(rs[0].o[0]); xs = [s[1] for s in b[2] if s[0] == "x"] if b[0] == "gep" else []
        if len(xs) != 1 or not is_load_of(gv, strip(b[1]), "NKVM", "instructions"): return None
        x = unmask(cx, gv, xs[0])
        return strip(vn.expr(c.o[x[1]])) if x[0] == "a" else None
    xs = [s[1] for s in a[2] if s[0] == "x"] if a[0] == "gep" else []
    return unmask(cx, vn, xs[0]) if len(xs) == 1 else None


def unmask(cx, vn, e):
    """an instruction position with the wrap-around mask of the program taken off"""
    e = strip(e)
    if e[0] == "and":
        for a, b in ((e[1], e[2]), (e[2], e[1])):
            if is_load_of(vn, strip(b), "NKVM", "instructionAddressMask"): return strip(a)
    return e


def offsets(cx, F):
    """distance = target - slot of the literal - 2"""
    for fn, i, l, p, t in F.patch_sites:
        vn = cx.vn(fn.name)
        a = vn.addr(i.o[1])
        x = slot_of(cx, vn, a)
        at = lin(x) if x else {}
        ok = at.get(p) == 1 and set(at) <= {p, None} and set(l) <= {p, t, None} and l[t] == 1 and l.get(None, 0) + at.get(None, 0) == -2
        slot = at.get(None, 0)
        if not ok: cx.bad("jump-offset", i, "the distance stored for a jump is not target - slot - 2", "patch:" + fn.name)
        else: cx.ok("jump-offset", sample="%s: slot + %d" % (i.loc(), slot))
        for n, (k, c, e, r) in sorted(F.emitters.items()):
            g = cx.mod.fns[n]
            if e.get(("a", k)) != 1 or e.get(r) != -1 or set(e) - {("a", k), r, None} or e.get(None, 0) + slot != -2:
                cx.bad("jump-offset", c, "the distance emitted with a jump is not target - slot - 2", "emit:" + n)
            elif any(g.can_reach(x, g.insts[r[1]]) for x in g.calls() if (x.callee or "") in F.emitting):
                cx.bad("jump-offset", c, "the position of the jump is read after instructions have been emitted", "late:" + n)
            else: cx.ok("jump-offset", sample=c.loc())
    # distances written by hand
    for n in sorted(F.touch):
        fn = cx.mod.fns[n]; vn = cx.vn(n)
        for i in fn.all():
            if i.op != "store" or any(i is x[1] for x in F.patch_sites): continue
            a = vn.addr(i.o[1])
            if a[0] != "gep" or not any(s[0] == "f" and s[1] == "NKInstruction" for s in a[2]) or is_alloca(fn, a[1]): continue
            l = lin(strip(vn.expr(i.o[0])))
            ws = [x for x in l if x and F.windex(vn, x)]
            if len(ws) < 2: continue
            x = slot_of(cx, vn, a)
            at = lin(x) if x else {}
            tot = dict(l)
            for k, v in at.items(): tot[k] = tot.get(k, 0) + v
            tot = {k: v for k, v in tot.items() if v}
            pos = [k for k in tot if k]
            w = [k for k in at if k and F.windex(vn, k)]
            ok = len(pos) == 1 and tot[pos[0]] == 1 and F.windex(vn, pos[0]) and tot.get(None) == -2 and w
            # the slot: the word written just before the position was read, the jump just after it
            if ok:
                ld = fn.insts[w[0][1]]
                lits = [c for c in fn.calls() if fn.dominates(c, ld) and (c.callee or "") in F.emitting]
                ps = [c for c in lits if "PushLiteralInt" in c.callee]
                last = [c for c in ps if not any(fn.dominates(c, d) for d in ps if d is not c)]
                after = [c for c in lits if last and c is not last[0] and fn.dominates(last[0], c)]
                ok = bool(last) and all(c.callee == "nkiCompilerAddInstructionSimple" for c in after) and at.get(None) == -1 - len(after)
            if not ok: cx.bad("jump-offset", i, "the distance stored for a jump is not target - slot - 2", "hand:" + n)
            else: cx.ok("jump-offset", sample=i.loc())


def is_alloca(fn, e):
    return e and e[0] in ("alloca", "local", "stack") or (e and e[0] == "i" and fn.insts[e[1]].op == "alloca")


# ---------------------------------------------------------------- amounts
def literal(cx, F, fn, i):
    """the operand a literal instruction emitted just before i carries"""
    blk = fn.blocks[i.blk]
    k = blk.index(i)
    for j in reversed(blk[:k]):
        if j.op == "call":
            if j.callee in F.E.direct: return j
            return None
    return None


def unwinds(cx, F, O, E):
    mod = cx.mod
    named = {v: k for k, v in O.names.items()}
    def op(n):
        if "NK_OP_" + n in named: return named["NK_OP_" + n]
        if n in named: return named[n]
        raise Broken("instruction %s not found" % n)
    popn, ret = op("POPN"), op("RETURN")
    slots = {op("STACKPEEK"), op("STACKPOKE")}
    for n in sorted(F.touch):
        fn = mod.fns[n]; vn = cx.vn(n)
        for i in fn.calls():
            c = F.opcode(fn, i)
            if c not in {popn, ret} | slots: continue
            lit = literal(cx, F, fn, i)
            if lit is None or len(lit.o) < 2: continue
            e = strip(vn.expr(lit.o[1])); l = lin(e)
            own_ = lambda x: x and is_load_of(vn, x, CT, "stackFrameOffset")
            def base(x): return base_of(vn.addr(fn.insts[x[1]].o[0]), CT, "stackFrameOffset")
            cur = lambda x: own_(x) and base(x) is not None and is_load_of(vn, base(x), CS, "context")
            if c == ret:
                ok = len([x for x in l if x]) == 2 and l.get(None, 0) == -3 and any(cur(x) and l[x] == 1 for x in l if x) and any(x and l[x] == -1 and is_load_of(vn, x, "NKVMFunction", "argumentCount") for x in l)
                if ok: cx.ok("return-discards", sample=i.loc())
                else: cx.bad("return-discards", i, "a return does not discard exactly the values above the return pointer (counted frame - arguments - 3)", "return:" + n)
            elif c in slots:
                ok = len([x for x in l if x]) == 2 and l.get(None, 0) == 0 and any(cur(x) and l[x] == -1 for x in l if x) and any(x and l[x] == 1 and is_load_of(vn, x, CT + "Variable", "position") for x in l)
                if ok: cx.ok("variable-slot", sample=i.loc())
                else: cx.bad("variable-slot", i, "a variable's slot is not addressed as its position below the frame counted here", "slot:%s" % n)
            elif any(own_(x) for x in l):
                to = [x for x in l if own_(x) and l[x] == -1]; fro = [x for x in l if cur(x) and l[x] == 1]
                ok = len(to) == 1 and len(fro) == 1 and set(l) <= {to[0], fro[0], None} and l.get(None, 0) == 0
                if ok: ok = receives(cx, F, fn, vn, i, base(to[0]))
                if ok: cx.ok("break-unwinds", sample=i.loc())
                else: cx.bad("break-unwinds", i, "a jump out of a loop does not take exactly what was added since the loop's scope (the one that receives the jump) off the frame", "break:" + n)
            elif e[0] == "phi":
                m = counts(cx, F, fn, vn, i, lit, e)
                if m is None: cx.ok("scope-unwinds", sample=i.loc())
                else: cx.bad("scope-unwinds", i, m, "scope:" + n)
    # where a variable lives
    for n in sorted(F.touch):
        fn = mod.fns[n]; vn = cx.vn(n)
        for i in fn.all():
            if i.op == "store" and mod.addr_field(fn, i.o[1]) == (CT + "Variable", "position"):
                l = lin(strip(vn.expr(i.o[0])))
                fs = [x for x in l if x and is_load_of(vn, x, CT, "stackFrameOffset")]
                if not fs: continue
                if len(l) == 2 and l.get(None) == -1 and l[fs[0]] == 1 and not any(fn.can_reach(fn.insts[fs[0][1]], c) and fn.can_reach(c, i) and (c.callee or "") in F.emitting for c in fn.calls()): cx.ok("variable-slot", sample=i.loc())
                else: cx.bad("variable-slot", i, "a new variable does not get the slot on top of the frame", "pos:" + n)


def breaks(cx, F):
    """every recorded jump is recorded in a slot of its own, and patched once"""
    mod = cx.mod
    CNT = (CT, "loopContextFixupCount"); LST = (CT, "loopContextFixups")
    for n in sorted(F.touch | set(F.fixers)):
        fn = mod.fns[n]; vn = cx.vn(n)
        # recording
        for i in fn.all():
            if i.op != "store": continue
            a = vn.addr(i.o[1])
            if a[0] == "gep" and not a[2]: a = strip(a[1])
            if a[0] != "gep" and strip(a)[0] in ("L", "call"): a = ("gep", strip(a), (("x", ("c", 0)),))
            if a[0] != "gep" or not a[2] or a[2][-1][0] != "x" or len(a[2]) != 1: continue
            b = strip(a[1])
            new = [j for j in fn.all() if j.op == "store" and mod.addr_field(fn, j.o[1]) == LST]
            if not (is_load_of(vn, b, *LST) or any(strip(vn.expr(j.o[0])) == b for j in new)): continue
            cs_ = [j for j in fn.all() if j.op == "store" and mod.addr_field(fn, j.o[1]) == CNT]
            if not cs_: continue
            if fn.insts[i.id].o[0][0] == "c": continue
            l = lin(strip(a[2][-1][1])); ok = False
            for j in cs_:
                c = lin(strip(vn.expr(j.o[0])))
                old = [x for x in c if x and is_load_of(vn, x, *CNT) and c[x] == 1]
                if len(old) == 1 and set(c) == {old[0], None} and c[None] == 1:
                    idx = {k: v for k, v in l.items() if v}
                    ok = idx == {old[0]: 1} or any(len(idx) == 2 and x and idx.get(x) == 1 and idx.get(None) == -1 and is_load_of(vn, x, *CNT) and fn.dominates(j, fn.insts[x[1]]) for x in idx) 
            if ok: cx.ok("break-patched", sample=i.loc())
            else: cx.bad("break-patched", i, "the jump of a break is not recorded in a slot of its own", "slot:" + n)
    for n in sorted(F.fixers):
        fn = mod.fns[n]; vn = cx.vn(n)
        for i in fn.calls():
            if i.callee not in F.patchers(): continue
            p, t = F.patchers()[i.callee]
            w = strip(vn.expr(i.o[p])); g = strip(vn.expr(i.o[t])); msg = None
            if not F.windex(vn, g): msg = "break statements do not continue at the position reached here"
            elif w[0] != "L": msg = "the jump patched here is not one recorded for a break statement"
            else:
                a = vn.addr(fn.insts[w[1]].o[0])
                if a[0] != "gep" or not a[2] or a[2][-1][0] != "x": msg = "the jump patched here is not one recorded for a break statement"
                else:
                    idx = {k: v for k, v in lin(strip(a[2][-1][1])).items() if v}
                    msg = every(cx, fn, vn, i, idx, CNT)
            if msg: cx.bad("break-patched", i, msg, "fix:" + n)
            else: cx.ok("break-patched", sample=i.loc())


def every(cx, fn, vn, i, idx, CNT):
    """the loop around i uses every index below the count"""
    from nk.loops import loops_of, exit_edges
    L = loops_of(fn, i.blk)
    if not L: return "only one of the recorded break statements is given a target"
    body = L[0][1]
    atom = [k for k in idx if k]
    if len(atom) != 1 or idx[atom[0]] != 1: return "the break statements patched are not the ones recorded"
    x = atom[0]; off = idx.get(None, 0)
    inloop = [j for b in body for j in fn.blocks[b]]
    if is_load_of(vn, x, *CNT) or x[0] == "phi" and off == -1:
        # counts down: the element below the count, which is stored back
        down = [j for j in inloop if j.op == "store" and cx.mod.addr_field(fn, j.o[1]) == CNT]
        ok = off == -1 and (x[0] == "phi" or any({k: v for k, v in lin(strip(vn.expr(j.o[0]))).items() if v} == {x: 1, None: -1} for j in down))
        for p, q in exit_edges(fn, body):
            ok = ok and any(len(f) == 3 and (f[0] in ("eq",) and f[2] == ("c", 0) or f[0] == "ule" and f[2] == ("c", 0) or f[0] == "ult" and f[2] == ("c", 1)) and (strip(f[1]) == x or is_load_of(vn, strip(f[1]), *CNT)) for f in vn.edge_facts(p, q))
        return None if ok else "some recorded break statements may be left without a target"
    if x[0] == "phi" and off == 0:
        ok = any(strip(vn.expr(v)) == ("c", 0) for v, b in fn.insts[x[1]].o) and any(lin(strip(vn.expr(v))) == {x: 1, None: 1} for v, b in fn.insts[x[1]].o)
        for p, q in exit_edges(fn, body):
            ok = ok and any(len(f) == 3 and (f[0] == "uge" and strip(f[1]) == x and is_load_of(vn, strip(f[2]), *CNT) or f[0] == "ule" and strip(f[2]) == x and is_load_of(vn, strip(f[1]), *CNT) or f[0] == "eq" and x in (strip(f[1]), strip(f[2]))) for f in vn.edge_facts(p, q))
        return None if ok else "some recorded break statements may be left without a target"
    return "the break statements patched are not the ones recorded"


def inherited(cx, F):
    """a scope starts at the frame depth of the scope it is opened in"""
    mod = cx.mod
    for n in sorted(F.touch):
        fn = mod.fns[n]; vn = cx.vn(n)
        for i in fn.all():
            if i.op != "store" or mod.addr_field(fn, i.o[1]) != (CS, "context"): continue
            v = strip(vn.expr(i.o[0]))
            if v[0] != "call": continue
            par = [strip(vn.expr(j.o[0])) for j in fn.all() if j.op == "store" and mod.addr_field(fn, j.o[1]) == (CT, "parent")]
            par = [x for x in par if is_load_of(vn, x, CS, "context")]
            if not par: continue
            st = [j for j in fn.all() if j.op == "store" and mod.addr_field(fn, j.o[1]) == (CT, "stackFrameOffset") and fn.can_reach(j, i)]
            ok = False
            for j in st:
                x = strip(vn.expr(j.o[0]))
                if x[0] == "phi":
                    ys = [strip(vn.expr(v)) for v, q in fn.insts[x[1]].o]
                    ys = [y for y in ys if y != ("c", 0)]
                    x = ys[0] if len(set(ys)) == 1 else x
                elif x[0] == "select": x = strip(x[2]) if strip(x[3]) == ("c", 0) else x
                b = base_of(vn.addr(fn.insts[x[1]].o[0]), CT, "stackFrameOffset") if is_load_of(vn, x, CT, "stackFrameOffset") else None
                extra = [f for f in vn.facts(j) if f not in vn.facts(i) and not (f[0] == "ne" and len(f) == 3 and f[2] == ("c", 0) and (strip(f[1]) in par or is_load_of(vn, strip(f[1]), CT, "parent")))]
                if b is not None and (strip(b) in par or is_load_of(vn, strip(b), CT, "parent")) and not extra: ok = True
            if ok: cx.ok("frame-inherited", sample=i.loc())
            else: cx.bad("frame-inherited", i, "a scope opened here does not start at the frame depth of the scope around it", "inherit:" + n)


def receives(cx, F, fn, vn, i, scope):
    """scope is the innermost loop scope, and the one whose break list takes the jump"""
    mod = cx.mod
    lists = [j for j in fn.all() if j.op == "store" and mod.addr_field(fn, j.o[1]) in ((CT, "loopContextFixups"), (CT, "loopContextFixupCount"))]
    if not lists: return False
    for j in lists:
        b = base_of(vn.addr(j.o[1]), CT, mod.addr_field(fn, j.o[1])[1])
        if b is None or strip(b) != strip(scope): return False
    if not any(f[0] == "ne" and len(f) == 3 and f[2] == ("c", 0) and is_load_of(vn, strip(f[1]), CT, "isLoopContext") and strip(base_of(vn.addr(fn.insts[strip(f[1])[1]].o[0]), CT, "isLoopContext")) == strip(scope) for f in vn.facts(i)): return False
    s = strip(scope)
    if s[0] != "phi": return False
    for v, b in fn.insts[s[1]].o:
        x = strip(vn.expr(v))
        if is_load_of(vn, x, CS, "context"): continue
        if is_load_of(vn, x, CT, "parent") and strip(base_of(vn.addr(fn.insts[x[1]].o[0]), CT, "parent")) == s: continue
        return False
    return True


def counts(cx, F, fn, vn, i, lit, e):
    """the number popped when a scope closes is the number of variables it declared on the frame"""
    d = fn.insts[e[1]]
    head = d.blk
    if not any(strip(vn.expr(v)) == ("c", 0) for v, b in d.o): return "the count of variables taken off the frame does not start at zero"
    # every way around the loop
    res = []
    lim = [0]
    def walk(b, prev, val, flags, seen):
        lim[0] += 1
        if lim[0] > 5000: return
        for j in fn.blocks[b]:
            if j.op != "phi" or b == head: continue
            for v, q in j.o:
                if q == prev:
                    l = lin(strip(vn.expr(v)))
                    val = dict(val); val[("phi", j.id)] = value(l, val)
        for x in fn.succs[b]:
            fl = set(flags)
            for f in vn.edge_facts(b, x):
                if len(f) == 3 and f[0] in ("eq", "ne") and f[2] == ("c", 0):
                    y = strip(f[1])
                    for m in ("doNotPopWhenOutOfScope", "isGlobal"):
                        if is_load_of(vn, y, CT + "Variable", m): fl.add((m, f[0]))
            if any((m, "eq") in fl and (m, "ne") in fl for m, k in fl): continue
            if x == head:
                for v, q in d.o:
                    if q == b: res.append((value(lin(strip(vn.expr(v))), val), fl))
            elif x not in seen and fn.can_reach(fn.blocks[x][0], fn.blocks[head][-1]): walk(x, b, val, fl, seen | {x})
    def value(l, val):
        r = l.get(None, 0)
        for k, v in l.items():
            if k is None: continue
            if k == ("phi", d.id): r += 0 if v == 1 else 999
            elif k in val and val[k] is not None: r += v * val[k]
            elif k[0] in ("zext", "icmp"): return None
            else: return None
        return r
    walk(head, None, {}, set(), {head})
    if not res: return None
    for v, fl in res:
        keep = ("doNotPopWhenOutOfScope", "ne") in fl or ("isGlobal", "ne") in fl
        known = keep or {("doNotPopWhenOutOfScope", "eq"), ("isGlobal", "eq")} <= fl
        if v is None: return None
        if not known: return "a variable is counted without asking whether the scope has to take it off the frame" if v else "a variable that lives on the frame may not be taken off it when its scope closes"
        if keep and v: return "a variable that is not on this scope's frame is taken off it when the scope closes"
        if not keep and v != 1: return "a variable on the frame is not taken off it when its scope closes"
    # emitted unless there is nothing to pop
    for f in vn.facts(i):
        if len(f) == 3 and any(strip(x) == e for x in f[1:]) and f not in (("ne", e, ("c", 0)), ("ugt", e, ("c", 0)), ("ult", ("c", 0), e)): return "variables are taken off the frame only for some counts"
    return None


# ---------------------------------------------------------------- one value per syntax-tree node
def effects(cx, F, O, E):
    mod = cx.mod
    toks = {v: k for k, v in mod.enums["NKTokenType"]}
    prec = mod.fns.get("nkiCompilerGetPrecedence")
    if prec is None: raise Broken("operator precedence table not found")
    binary = {t for t in toks for r in (fold(cx, prec, {0: {t}}),) if r and any((x & 0xffffffff) != 0xffffffff for x in r)}
    for n in sorted(F.axiom):
        fn = mod.fns[n]; vn = cx.vn(n)
        for i in fn.calls():
            k = F.opcode(fn, i)
            if k is None or not effect_of(O, k) or len(i.o) < 3 or i.o[2][:2] != ["c", 0]: continue
            if any(j.op == "store" and mod.addr_field(fn, j.o[1]) == (CT, "stackFrameOffset") and fn.can_reach(i, j) for j in fn.all()): continue
            cx.bad("operator-effect", i, "the frame is not told what %s adds or takes off" % O.names.get(k, k), "told:%s:%s" % (n, k))
        ld = {i.id for i in fn.all() if i.op == "load" and nodetype(vn, ("L", i.id)) and own_node(vn, i)}
        sw = [i for i in fn.all() if i.op == "switch" and nodetype(vn, strip(vn.expr(i.o[0])))]
        if len([i for i in sw if len(i.cases) > 8]) != 1 or not {strip(vn.expr(i.o[0])) for i in sw if len(i.cases) > 8} <= {("L", x) for x in ld}:
            eff = {o[2] for k, r in F.memo.items() if k[0] == n for o in r if not o[4] and o[0] != "0" and o[2] is not None}
            if eff - {1}: cx.bad("operator-effect", fn.blocks[0][0], "the instructions emitted here leave %s values on the frame instead of one" % " or ".join(map(str, sorted(eff))), "one:" + n)
            else: cx.ok("operator-effect", sample="%s: %s" % (n, sorted(eff)))
            continue
        for T in sorted(toks):
            r = F.effect(n, T, ld)
            eff = {t - k for k, t in r if t is not None}
            if not eff: continue
            name = toks[T]
            if F.deltas:
                extra = -1 if name == "NK_TOKENTYPE_FUNCTIONCALL_WITHSELF" else 0
                if F.deltas != {(extra, (("L", 1), ("call", -1)))} and all(len(d[1]) == 2 and {x[0] for x in d[1]} == {"L", "call"} for d in F.deltas):
                    cx.bad("operator-effect", fn.blocks[0][0], "a call does not take its arguments%s off the counted frame" % (" and the object it is called on" if extra else ""), "call:" + name); continue
            calls = any(t is None for k, t in r)
            at = fn.blocks[0][0]
            if calls: ok = True
            elif T in binary: ok = eff == {-1} or eff == {-1, 0} and any(k[0] == 0 for k in r) or {k for k, t in r} == {1} and eff == {0}
            else: ok = eff in ({-1}, {0}, {1}, {0, 1})
            if ok: cx.ok("operator-effect", sample="%s: %s" % (name, sorted(eff)))
            else: cx.bad("operator-effect", at, "the instructions emitted for %s do not turn its operands into one value (change of the frame: %s)" % (name, sorted(eff)), "eff:%s" % name)


def styled(cx, F, built):
    """functions built into the language: arguments in, one value out"""
    mod = cx.mod
    for n in built:
        fn = mod.fns[n]
        for a in range(4):
            r = F.memo.get((n, ((1, a),)), ())
            eff = {o[2] for o in r if not o[4] and o[0] != "0" and o[2] is not None}
            if not eff: continue
            if eff == {1 - a}: cx.ok("operator-effect", sample="%s with %d arguments: %s" % (n, a, sorted(eff)))
            else: cx.bad("operator-effect", fn.blocks[0][0], "called with %d arguments, the frame changes by %s instead of %d" % (a, sorted(eff), 1 - a), "styled:%s:%d" % (n, a))


def effect_of(O, k):
    d = O.offset(k)
    return d or 0


def own_node(vn, i):
    a = vn.addr(i.o[0])
    t = base_of(a, "NKToken", "type")
    if t is None: return False
    b = base_of(vn.addr(vn.fn.insts[strip(t)[1]].o[0]), "NKExpressionAstNode", "opOrValue")
    return b is not None and strip(b)[0] == "a"
