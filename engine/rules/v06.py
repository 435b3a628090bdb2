"""V06: the instruction budget is charged for every instruction and nothing runs after an error."""
from nk.core import Broken
from nk.ops import Ops
from nk.pwalk import PWalk
from nk.vn import lin, strip
from rules.v08 import errors

META = {"level": "other", "technique": "path-sensitive order dataflow over the instruction countdown, the interval and the budget, and a must-pass analysis of the no-pending-error test before every instruction execution",
        "note": "Every call through the handler table, every direct handler call from outside a handler, and every store to the countdown, the interval and the remaining budget is judged. The cost of one instruction and of host callbacks is not bounded by this property.",
        "explains": "Invariant 1 <= countdown <= interval is assumed at entry and shown again at each return and host call of every function that stores either field (and the fields' addresses never leave). On every path to a dispatch the countdown was decremented; if it reached zero the budget is unlimited or was at least the interval and was reduced by it. A path that returns without dispatching records an error or saw one. Every execution is separated from entry, from an earlier execution and from any call that can record an error by a branch that found no pending error; functions executing without that test hand the obligation to their callers, up to the public interface."}

I = ("NKGarbageCollectionInfo", "gcInterval"); C = ("NKGarbageCollectionInfo", "gcCountdown"); B = ("NKVM", "instructionsLeftBeforeTimeout")
FI, FC, FB = ("f",) + I, ("f",) + C, ("f",) + B
ONE = ("c", 1)


def check(cx, tier):
    mod = cx.mod; ops = Ops(cx)
    budget(cx, ops)
    pending(cx, ops)
    cx.need("dispatch-charged", 1); cx.need("counter-store", 5); cx.need("error-test", 3)


# ---------------------------------------------------------------- budget
def budget(cx, ops):
    mod = cx.mod
    disp = {(d.fn.name, d.id) for d in ops.dispatch}
    for fn in mod.fns.values():
        stores = []; hot = any((fn.name, i.id) in disp for i in fn.calls())
        for i in fn.all():
            if i.op == "getelementptr" and i.path and any(s[0] == "f" and (s[1], s[2]) in (I, C, B) for s in i.path):
                for u in fn.uses[i.id]:
                    if u.op == "load": continue
                    if u.op == "store" and u.o[1] == ["i", i.id]: stores.append(u); continue
                    cx.bad("counter-store", u, "the address of an instruction counter is handed to %s, which may store any value" % (u.callee or "a callback" if u.op == "call" else u.op), "escapes")
        if stores or hot: one(cx, fn, stores, {i.id for i in fn.calls() if (fn.name, i.id) in disp})


def inv(pw, st, fresh):
    i, c = st.mem[FI], st.mem[FC]
    return [("ule", ONE, i), ("ule", ONE, c), ("ule", c, i)]


def one(cx, fn, stores, disp):
    vn = cx.vn(fn.name); ids = {u.id for u in stores}
    initial = {k for u in stores for k in [(vn.lastf(vn.addr(u.o[1])))[1:]] if vn.expr(u.o[0])[0] == "c"} >= {I, B} or \
        wipes(fn, vn)
    problems = {}
    counted = [0]
    def holds(pw, st):
        i, c = st.mem[FI], st.mem[FC]
        return pw.le(st, ONE, i) and pw.le(st, ONE, c) and pw.le(st, c, i)
    def bad(i, rule, what, key): problems[(i.id, key)] = (i, rule, what, key)
    def visit(i, st):
        pw = w
        if i.op == "store" and i.id in ids:
            k = vn.lastf(vn.addr(i.o[1]))[1:]
            v = pw.val(i.o[0], st)
            if k == C and pw.le(st, ONE, st.mem[FC]) and lin(v) == lin(("add", st.mem[FC], ("c", -1))):
                st.marks.add(("dec", v))
            elif k == C: st.marks.add(("reset", v))
            elif k == B:
                old = st.mem[FB]
                if v[0] == "c" and (v[1] == 0 or initial): pass
                elif v[0] == "a" and fn.name.startswith("nkx"): pass
                else:
                    t = lin(("sub", old, v))
                    amt = v[2] if v[0] == "sub" and v[1] == old else None
                    if amt is None:
                        bad(i, "counter-store", "the remaining budget is stored a value that is neither the host's setting nor the old value reduced", "budget"); return
                    if not pw.le(st, amt, old):
                        bad(i, "counter-store", "the remaining budget is reduced below zero on a path where it was not compared first", "wrap"); return
                    if not pw.ne(st, old, ("c", -1)):
                        bad(i, "counter-store", "an unlimited budget is reduced and so becomes limited", "limited"); return
                    st.marks.add(("charge", amt, tuple(sorted([old], key=repr))))
        if i.op == "call":
            c = i.callee or ""
            if i.id in disp:
                counted[0] += 1
                dec = [m for m in st.marks if m[0] == "dec"]
                if not dec: bad(i, "dispatch-charged", "an instruction is executed without being counted", "uncounted")
                for _, v in dec:
                    if pw.ne(st, v, ("c", 0)): continue
                    if not pw.eq(st, v, ("c", 0)):
                        bad(i, "dispatch-charged", "an instruction is executed although the countdown was not tested for zero", "untested"); continue
                    if unlimited(pw, st): continue
                    ch = [m for m in st.marks if m[0] == "charge"]; rs = [m for m in st.marks if m[0] == "reset"]
                    if not ch:
                        bad(i, "dispatch-charged", "the countdown ran out and an instruction is executed without charging the budget", "free")
                    elif not any(pw.le(st, r[1], h[1]) for h in ch for r in rs):
                        bad(i, "dispatch-charged", "the next interval is longer than what the budget was charged", "short")
                if not holds(pw, st): bad(i, "counter-invariant", "instructions run with a countdown outside 1..interval", "inv")
                st.marks.add(("ran",))
            elif any(x.startswith("cb:") for x in cx.mod.cal(i)) or touches(cx, i):
                if not holds(pw, st): bad(i, "counter-invariant", "the host or another function is called while the countdown is outside 1..interval", "inv")
            if c in errors(cx): st.marks.add(("err",))
        if i.op == "ret":
            if not holds(pw, st): bad(i, "counter-invariant", "the function returns with a countdown outside 1..interval (zero wraps to four billion uncharged instructions)", "inv")
            if disp and ("ran",) not in st.marks and ("err",) not in st.marks and not saw_error(pw, st):
                bad(i, "dispatch-charged", "execution stops without an error being recorded", "silent")
    w = PWalk(cx, fn, (I, C, B), None if initial else inv)
    if not w.run(visit): raise Broken("path analysis of %s too large" % fn.name)
    for u in stores: cx.ok("counter-store", sample=u.loc())
    if disp: cx.ok("dispatch-charged", counted[0], sample=fn.name)
    for i, rule, what, key in problems.values(): cx.bad(rule, i, what, key)


def unlimited(pw, st):
    """the path found the budget to be the no-limit value"""
    for f in st.facts:
        for a, b in ((f[1], f[2]), (f[2], f[1])):
            if f[0] == "eq" and b == ("c", -1) and a in (("m",) + FB, ) or f[0] == "eq" and b == ("c", -1) and a[0] == "k" and a[-1] == FB: return True
    return False


def saw_error(pw, st):
    for f in st.facts:
        if f[0] == "ne" and f[2] == ("c", 0) and f[1][0] == "v":
            d = pw.fn.insts[f[1][1]]
            if d.op == "call" and d.callee in testers(pw.cx): return True
            if d.op == "load" and pw.cx.mod.addr_field(pw.fn, d.o[0]) == ERR: return True
    return False


def wipes(fn, vn):
    """fills in a machine from scratch"""
    return any(i.op == "call" and (i.callee or "").startswith("llvm.memset") and vn.addr(i.o[0]) == ("gep", ("a", 0), ()) for i in fn.calls())


def touches(cx, i):
    if not hasattr(cx, "_ctouch"):
        t = set()
        for fn in cx.mod.fns.values():
            for j in fn.all():
                if j.op in ("load", "store"):
                    if cx.mod.addr_field(fn, j.o[0] if j.op == "load" else j.o[1]) in (I, C): t.add(fn.name)
        cx._ctouch = cx.mod.may_reach(lambda j, c: c in t) | t
    return any(c in cx._ctouch for c in cx.mod.cal(i))


# ---------------------------------------------------------------- errors
ERR = ("NKErrorState", "firstError")


def testers(cx):
    """functions that return 0 only when no error is pending"""
    if hasattr(cx, "_testers"): return cx._testers
    r = set(); ch = True
    while ch:
        ch = False
        for n, fn in cx.mod.fns.items():
            if n in r or any(i.op == "store" for i in fn.all()) or fn.ret == "void": continue
            vn = cx.vn(n)
            if any(i.callee not in r for i in fn.calls()): continue
            if not any(i.op == "load" and cx.mod.addr_field(fn, i.o[0]) == ERR for i in fn.all()) and not fn.calls(): continue
            ok = [True]; any_ = [False]
            def visit(i, st):
                if i.op != "ret" or not i.o: return
                v = pw.val(i.o[0], st)
                while v[0] in ("trunc", "zext"): v = v[1]
                any_[0] = True
                if v[0] == "c" and v[1]: return
                if v[0] == "v" and pw.fn.insts[v[1]].callee in r: return
                if v[0] == "icmp" and v[1] == "ne" and v[3] == ("c", 0) and iserr(v[2]): return
                if v[0] == "c" and any(f[0] == "eq" and f[2] == ("c", 0) and iserr(f[1]) for f in st.facts): return
                if v[0] == "icmp" and any(f[0] == "eq" and f[2] == ("c", 0) and iserr(f[1]) for f in st.facts): return
                ok[0] = False
            def iserr(e):
                if e[0] != "v": return False
                d = pw.fn.insts[e[1]]
                return d.op == "load" and cx.mod.addr_field(pw.fn, d.o[0]) == ERR or d.op == "call" and d.callee in r
            pw = PWalk(cx, fn, (), limit=200)
            if pw.run(visit) and ok[0] and any_[0]: r.add(n); ch = True
    cx._testers = r
    return r


def clean(cx, vn, p, b):
    for f in vn.edge_facts(p, b):
        if len(f) == 3 and f[0] == "eq" and f[2] == ("c", 0):
            e = strip(f[1])
            if e[0] == "call" and vn.fn.insts[e[1]].callee in testers(cx): return True
            if e[0] == "L" and vn.lastf(vn.addr(vn.fn.insts[e[1]].o[0])) == ("f",) + ERR: return True
    return False


def pending(cx, ops):
    mod = cx.mod
    if not testers(cx): raise Broken("no function tests for pending errors")
    handlers = {v[0][1] for l in ops.handlers.values() for v in l if v[0][0] == "fn"}
    disp = {(d.fn.name, d.id) for d in ops.dispatch}
    rec = {n for n in mod.fns if any(i.op == "store" and mod.addr_field(fn, i.o[1]) == ERR for fn in [mod.fns[n]] for i in fn.all())}
    dirty_fns = mod.may_reach(lambda j, c: c in rec or c.startswith("cb:") and "malloc" not in c.lower() and "free" not in c.lower()) | rec
    needs = {}          # function -> the execution inside it that is not tested for
    work = True
    while work:
        work = False
        for fn in mod.fns.values():
            vn = cx.vn(fn.name); P = cx.paths(fn)
            def execu(i):
                if i.op != "call": return False
                if (fn.name, i.id) in disp: return True
                if fn.name in handlers: return (i.callee or "") in needs and i.callee not in handlers
                return (i.callee or "") in needs or (i.callee or "") in handlers
            ex = [i for i in fn.calls() if execu(i)]
            if not ex: continue
            def dirties(i):
                return execu(i) or i.op == "call" and any(c in dirty_fns or c.startswith("cb:") for c in mod.cal(i)) and (i.callee or "") not in testers(cx)
            ce = lambda p, b: vn.infeasible(p, b) or clean(cx, vn, p, b)
            for d in fn.calls():
                if not dirties(d): continue
                e = P.escape(d, execu, stop_edge=ce)
                if e: cx.bad("error-test", e, "an instruction may be executed although %s at line %s recorded an error" % (d.callee or "a callback", d.ln), "after-%s" % (d.callee or "callback"))
            if fn.name not in handlers and fn.name not in needs:
                e = P.escape(None, execu, stop_edge=ce)
                if e: needs[fn.name] = e; work = True
    for fn in mod.fns.values():
        for i in fn.calls():
            if (fn.name, i.id) in disp or (i.callee or "") in needs or (i.callee or "") in handlers and fn.name not in handlers: cx.ok("error-test", sample=i.loc())
    for n, e in needs.items():
        if not mod.callers.get(n) and n not in mod.addr_taken or n.startswith("nkx"):
            cx.bad("error-test", e, "%s runs instructions without testing whether an error is pending" % n, "entry")
