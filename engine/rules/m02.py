"""M02: every public entry point arms its own recovery point before anything
can fail, and restores the caller's on every way out."""
from nk.core import Broken
from nk.throw import JB, arms_itself, is_setjmp, is_longjmp, may_throw, summaries
from nk.vn import is_load_of, base_of, show

META = {"level": "other", "technique": "typestate dataflow on the recovery-point field over every public entry point and every arming function",
        "note": "Every function that arms a recovery point and every nkx* entry point is judged on all CFG paths; calls that may longjmp come from the resolved call graph. Host callbacks are assumed to fail only through nkx* calls, which recover themselves.",
        "explains": "For each public (nkx*) function and each internal function that installs a recovery point: forward dataflow of the recovery-point field (entry value / local buffer stored / armed by setjmp) over all CFG paths. Obligations: no call that may longjmp is reached in a public function unless armed and unless the machine was tested not to have failed already; every return restores the entry value."}


def states(cx, fn, vn):
    """per block input state of the recovery field: set of abstract values"""
    mod = cx.mod
    inn = {0: frozenset(["E"])}
    events = {}

    def step(b, st, rec=None):
        for i in fn.blocks[b]:
            if rec is not None: rec[i.id] = st
            if i.op == "load" and mod.addr_field(fn, i.o[0]) == JB:
                saved.setdefault(i.id, set()).update(st)
            if i.op == "store" and mod.addr_field(fn, i.o[1]) == JB:
                v = i.o[0]
                e = vn.expr(v)
                d = fn.idef(v)
                if e[0] in ("al", "gep") and _al(e) is not None: st = frozenset([("S", _al(e))])
                else:
                    s = origin(v)
                    st = s if s else frozenset(["X"])
            elif i.op == "call" and is_setjmp(i.callee):
                a = _al(vn.expr(i.o[0]))
                st = frozenset(("A", x[1]) if isinstance(x, tuple) and x[0] == "S" and x[1] == a else x for x in st)
        return st

    def origin(v, seen=()):
        """recovery states a stored value was read in"""
        d = fn.idef(v)
        if d is None or d.id in seen: return None
        if d.op == "load" and mod.addr_field(fn, d.o[0]) == JB: return frozenset(saved.get(d.id, ()))
        if d.op == "phi":
            r = set()
            for x, b in d.o:
                if x[0] == "undef": continue
                o = origin(x, seen + (d.id,))
                if o is None: return frozenset(["X"])
                r |= o
            return frozenset(r)
        if d.op == "load":
            # saved in a local variable that was not promoted
            a = vn.addr(d.o[0])
            r = set(); hit = False
            for s in fn.all():
                if s.op == "store" and vn.addr(s.o[1]) == a:
                    o = origin(s.o[0], seen + (d.id,))
                    if o is None: return None
                    r |= o; hit = True
            return frozenset(r) if hit else None
        return None

    saved = {}
    ch = True; n = 0
    while ch and n < 50:
        ch = False; n += 1
        for b in fn.rpo:
            if b not in inn: continue
            out = step(b, inn[b])
            for s in fn.succs[b]:
                new = inn.get(s, frozenset()) | out
                if new != inn.get(s): inn[s] = new; ch = True
    rec = {}
    for b in fn.rpo:
        if b in inn: step(b, inn[b], rec)
    return rec


def _al(e):
    if e[0] == "al": return e[1]
    if e[0] == "gep": return _al(e[1])
    return None


def check(cx, tier):
    mod = cx.mod
    summaries(cx)
    public = 0; armed = 0
    for n, fn in sorted(mod.fns.items()):
        arms = arms_itself(mod, fn)
        pub = n.startswith("nkx")
        if not pub and not arms: continue
        vn = cx.vn(n)
        public += pub; armed += arms
        rec = states(cx, fn, vn)
        for i in fn.calls():
            if not may_throw(cx, i): continue
            st = rec.get(i.id, frozenset())
            cx.ok("armed-before-failing-call", 1, "%s -> %s" % (i.loc(), i.callee or mod.cal(i)[:2]))
            name = i.callee or ",".join(mod.cal(i)[:3])
            for s in sorted(map(str, st)):
                if s == "E":
                    if pub: cx.bad("armed-before-failing-call", i, "%s can run out of memory here but no recovery point of this call is armed" % name, "E:" + name)
                elif s.startswith("('S'"):
                    cx.bad("armed-before-failing-call", i, "%s can run out of memory after the recovery buffer was installed but before setjmp filled it" % name, "S:" + name)
                elif s == "X":
                    cx.bad("armed-before-failing-call", i, "%s can run out of memory while the recovery pointer is something else than this call's buffer" % name, "X:" + name)
            if pub and any(isinstance(x, tuple) and x[0] == "A" for x in st):
                ok = any(p == "eq" and b == ("c", 0) and is_load_of(vn, _s(a), "NKErrorState", "allocationFailure") for p, a, b in f3(vn.facts(i)))
                cx.ok("no-operation-after-failure", 1, i.loc())
                if not ok:
                    cx.bad("no-operation-after-failure", i, "%s is reached on a machine that already failed catastrophically" % name, name)
        for i in fn.exits():
            st = rec.get(i.id, frozenset())
            if not arms: continue
            cx.ok("restored-on-return", 1, i.loc())
            if st - {"E"}:
                # report the paths: predecessors whose state is not E
                src = [fn.blocks[p][-1] for p in fn.preds[i.blk] if rec.get(fn.blocks[p][-1].id, frozenset()) - {"E"}]
                at = src[0] if src else i
                cx.bad("restored-on-return", at, "returns without putting the caller's recovery point back", "ret%d" % sum(1 for _ in src) if False else "ret")
    cx.need("armed-before-failing-call", 60)
    cx.need("restored-on-return", 50)
    cx.notes.append("%d public functions, %d functions arming a recovery point" % (public, armed))
    if public < 40: raise Broken("public API not found")


def _s(e):
    while e[0] in ("zext", "sext", "trunc"): e = e[1]
    return e


def f3(facts): return [f for f in facts if len(f) == 3 and f[0] in ("eq", "ne", "ult", "ule", "slt", "sle")]
