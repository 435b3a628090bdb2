"""S02: every failed stream operation is noticed and reported."""
from nk.core import Broken
from nk.retval import Walk, deep
from nk.stream import Stream, full_path

META = {"level": "other", "technique": "must-check path analysis over the compiler IR: for every stream call, all paths on which it failed are enumerated (following the values that feed the returned flag) and must report failure without another stream operation",
        "note": "Covers every call of the host's stream callback and every call of a routine that hands its result on, from the innermost item up to the public entry point, including data callbacks of external types and subsystems.",
        "explains": "Stream calls are the calls through the writer pointer; a routine returning a flag that contains one is itself a stream call at its call sites. From each stream call every path consistent with a zero result is walked to the function's exits: it must return the constant 0 (or the failed result itself) and pass no further stream call. Routines called through data callbacks cannot return a result: their failing paths must set the failure flag of the serialization state, and after each data callback every path on which the flag may be set must report failure."}


def check(cx, tier):
    mod = cx.mod
    S = Stream(cx)
    cbfns = set()
    for i in S.callbacks: cbfns |= {c for c in mod.cal(i) if c in mod.fns}
    # functions used as data callbacks: their address is taken and they take no writer
    for n in sorted(S.fns):
        fn = mod.fns[n]
        public = n.startswith("nkx")
        for i in S.calls(fn): site(cx, S, fn, i)
    for i in S.callbacks: callback(cx, S, i)
    # the public entry point and the per-item routines are part of what was judged
    if not any(n.startswith("nkx") and n in S.checked for n in S.fns): raise Broken("public save/load entry point not found")
    cx.need("stream-result-checked", 60)
    cx.need("callback-result-checked", 3)


def site(cx, S, fn, i):
    vn = cx.vn(fn.name)
    r = ("call", i.id)
    cx.ok("stream-result-checked", sample=i.loc())
    def success(p, b):
        for f in vn.edge_facts(p, b):
            if len(f) != 3 or deep(f[1]) != r or f[2][0] != "c": continue
            if f[0] == "ne" and f[2][1] == 0: return True
            if f[0] == "eq" and f[2][1] != 0: return True
            if f[0] in ("ugt",) : return True
        return False
    hits = []
    others = set(S.calls(fn)) - {i}
    def visit(j, mk):
        if j in others or j is i: return ("again", j.id)
        if j.op == "store" and j.o[0][0] == "c" and j.o[0][1] and S.is_flag(fn, j.o[1]): return ("flag",)
        if j.op == "call" and j.callee in ("__assert_fail", "abort"): return True
        return False
    W = Walk(fn, vn, success, visit)
    res = W.run(i)
    if res is None: raise Broken("too many paths after %s" % i.loc())
    void = fn.ret != "i8"
    # a result the host's callback may ignore has to be remembered as well
    hostcalled = i in S.direct and fn.name.startswith("nkx")
    for ret, v, mk in res:
        ag = [m for m in mk if m[0] == "again"]
        if ag:
            # the result may have been folded into a variable that is tested later: only when that test comes first is it fine
            cx.bad("stream-result-checked", i, "a failed %s is followed by another stream operation" % what(i), "again:%s:%d" % (what(i), nth(fn, i, S)))
            break
    for ret, v, mk in res:
        if any(m[0] == "again" for m in mk): continue
        if void or hostcalled:
            if ("flag",) not in mk:
                cx.bad("stream-result-checked", i, "a failed %s leaves no trace for the save or load that runs the callback" % what(i), "flag:%s:%d" % (what(i), nth(fn, i, S)))
                break
        if not void:
            x = deep(v)
            if x == ("c", 0) or x == r: continue
            if zero_by_facts(vn, ret, x): continue
            cx.bad("stream-result-checked", i, "a failed %s may be reported as success" % what(i), "ret:%s:%d" % (what(i), nth(fn, i, S)))
            break


def zero_by_facts(vn, ret, x):
    return any(len(f) == 3 and f[0] == "eq" and deep(f[1]) == x and f[2] == ("c", 0) for f in vn.facts(ret))


def what(i): return i.callee or "stream call"


def nth(fn, i, S):
    return [j.id for j in S.calls(fn) if what(j) == what(i)].index(i.id)


def callback(cx, S, i):
    fn = i.fn; vn = cx.vn(fn.name)
    cx.ok("callback-result-checked", sample=i.loc())
    if not S.flags:
        cx.bad("callback-result-checked", i, "a stream failure inside the data callback cannot be seen by the caller", "noflag"); return
    def success(p, b):
        for f in vn.edge_facts(p, b):
            if len(f) == 3 and f[0] == "eq" and f[2] == ("c", 0):
                x = deep(f[1])
                if x[0] == "L" and S.is_flag(fn, fn.insts[x[1]].o[0]): return True
        return False
    others = set(S.calls(fn))
    def visit(j, mk):
        if j in others or j is i: return ("again", j.id)
        if j.op == "call" and (j.callee in ("__assert_fail", "abort") or "longjmp" in (j.callee or "")): return True
        return False
    res = Walk(fn, vn, success, visit).run(i)
    if res is None: raise Broken("too many paths after %s" % i.loc())
    for ret, v, mk in res:
        if any(m[0] == "again" for m in mk) or deep(v or ("c", 0)) != ("c", 0):
            cx.bad("callback-result-checked", i, "a stream failure inside the data callback does not stop the save or load", "cb:%d" % [j.id for j in S.callbacks if j.fn is fn].index(i.id))
            break
