"""G01: the collector keeps everything reachable."""
from nk.core import Broken
from nk.loops import loops, loops_of, exit_edges, index_covers, induction
from nk.cwalk import walk, subst
from nk.teardown import teardown
from nk.vn import is_load_of, loads_field, base_of, strip, show
from nk.emit import Emit
from nk.ops import Ops
from rules.m04 import key

META = {"level": "other", "technique": "root-coverage and must-mark analysis of the collector's call tree, with call-graph placement of collections",
        "note": "Root classes are enumerated from the struct layouts (every place a script value can live); each must be marked in full on every path before the first sweep. What external mark callbacks of the host mark is the host's business.",
        "explains": "Every struct field that can hold a script value (or a list of pinned objects) must be the source of a marking call reachable from the collector; the loop around it must run over the whole extent, run on every path, and both key and value of each object element must be marked on each iteration. Roots, then the drain of the work list, come before both sweeps; a sweep releases an entry only under the fact that its mark differs from this pass (strings: and is not pinned). Collections start only between instructions or from public calls; arguments of a native call stay on the stack while it runs; literal strings in the program are pinned."}

GC = "nkiVmGarbageCollect"
MARKV = "nkiVmGarbageCollect_markValue"
MARKO = "nkiVmGarbageCollect_markObject"


def check(cx, tier):
    mod = cx.mod
    for n in (GC, MARKV, MARKO):
        if n not in mod.fns: raise Broken("%s not found" % n)
    value_fields(cx)
    marks = {MARKV: 1, MARKO: 1}
    cb = mark_callbacks(cx)
    R = mod.reach([GC])
    gc = mod.fns[GC]
    sweeps = [i for i in gc.calls() if sweeps_marks(cx, i)]
    if len(sweeps) < 2: raise Broken("object and string sweeps not found in the collector")
    root_marks(cx, gc, sweeps)
    primitives(cx)
    element_marks(cx)
    drain(cx, gc, sweeps)
    sweep_guards(cx, gc, sweeps)
    coroutine(cx, cb)
    placement(cx)
    exclusive(cx, gc, sweeps)
    newborn(cx)
    native_args(cx)
    literals(cx)


def value_fields(cx):
    """places that hold script values must be the ones the rules below know"""
    mod = cx.mod
    known = {("NKVMStack", "values"), ("NKVM", "staticSpace"), ("NKVMObjectElement", "key"), ("NKVMObjectElement", "value"),
             ("NKVMExecutionContext", "coroutineObject"), ("NKVMFunctionCallbackData", "returnValue"), ("NKVMFunctionCallbackData", "arguments")}
    for s, x in mod.structs.items():
        for f, t, z in x["fields"]:
            if t.replace("struct ", "").replace("*", "").split("[")[0].strip() == "NKValue":
                cx.ok("value-holder", 1, "%s.%s" % (s, f))
                if (s, f) not in known:
                    cx.bad("value-holder", "%s.%s" % (s, f), "a struct field of the machine holds script values but the collector rules know no marking for it", "%s.%s" % (s, f))
    cx.need("value-holder", 6)


def mark_target(cx, fn, i):
    """address expression of the value (markValue) or object (markObject) marked by call i"""
    if i.callee == MARKV: return cx.vn(fn.name).addr(i.o[1])
    if i.callee == MARKO: return cx.vn(fn.name).expr(i.o[1])
    return None


def must_before(cx, fn, site, targets, skip=lambda p, b: False):
    """None, or a reason why control can get to a target without the (loop around the) site"""
    P = cx.paths(fn); pt = site
    ls = loops_of(fn, site.blk)
    vn = cx.vn(fn.name)
    for h, body in ls:
        w = P.round_trip(h, body, lambda i: i is pt, lambda p, b: skip(p, b) or vn.infeasible(p, b))
        if w: return "an iteration can skip it"
        pt = fn.blocks[h][0]
    if P.escape(None, targets, stop=lambda i: i is pt, stop_edge=lambda p, b: skip(p, b) or vn.infeasible(p, b)): return "a path skips it"
    return None


def chain(cx, site, gc, sweeps, depth=0, skip=None):
    """is the site run on every path of the collector before the first sweep?"""
    fn = site.fn
    if fn is gc: return must_before(cx, fn, site, lambda i: i in sweeps)
    w = must_before(cx, fn, site, lambda i: i.op == "ret", skip or (lambda p, b: False))
    if w: return w
    why = "not called by the collector"
    if depth > 4: return why
    for c in cx.mod.callers.get(fn.name, []):
        if c.fn.name == fn.name: continue
        r = chain(cx, c, gc, sweeps, depth + 1)
        if r is None: return None
        why = r
    return why


def root_marks(cx, gc, sweeps):
    mod = cx.mod
    reach = mod.reach([GC])
    found = {"stack": [], "statics": [], "handles": [], "current": []}
    for n in sorted(reach):
        fn = mod.fns.get(n)
        if not fn: continue
        vn = cx.vn(n)
        for i in fn.calls():
            if i.callee == MARKV:
                a = vn.addr(i.o[1]); b = a[1]
                if is_load_of(vn, b, "NKVMStack", "values"): found["stack"].append((fn, i, a))
                elif is_load_of(vn, b, "NKVM", "staticSpace"): found["statics"].append((fn, i, a))
                elif a[2] and a[2][-1] == ("f", "NKVMExecutionContext", "coroutineObject"): found["current"].append((fn, i, a))
            elif i.callee == MARKO or i.callee and i.callee.endswith("addObject"):
                e = vn.expr(i.o[1])
                if n == GC or handle_cursor(cx, fn, vn, e): found["handles"].append((fn, i, e))
    fails = {}
    for k in found:
        for fn, i, a in found[k]:
            w = judge(cx, gc, sweeps, k, fn, i, a)
            fails.setdefault(k, []).append((i, w))
    text = {"stack": "the main stack", "statics": "the global variables", "handles": "objects the host holds handles to", "current": "the running coroutine"}
    for k in found:
        cx.ok("root-marked", 1, "%s: %s" % (text[k], [i.loc() for f, i, a in found[k]]))
        fs = fails.get(k, [])
        if any(w is None for i, w in fs): continue
        cx.bad("root-marked", fs[0][0] if fs else gc.blocks[0][0], "%s: not marked in full before the sweeps (%s)" % (text[k], fs[0][1] if fs else "no marking call"), k)
    cx.need("root-marked", 4)


def handle_cursor(cx, fn, vn, e):
    e = strip(e)
    if e[0] != "phi": return False
    d = fn.insts[e[1]]
    got = set()
    for v, b in d.o:
        x = vn.expr(v)
        if is_load_of(vn, x, "NKVM", "objectsWithExternalHandles"): got.add("head")
        base = loads_field(vn, x, "NKVMObject", "nextObjectWithExternalHandles")
        if base == ("phi", d.id): got.add("next")
        elif base is None and not is_load_of(vn, x, "NKVM", "objectsWithExternalHandles"): return False
        elif base is not None and base != ("phi", d.id): return False
    return got == {"head", "next"}


def judge(cx, gc, sweeps, k, fn, i, a):
    vn = cx.vn(fn.name)
    if k == "current":
        b = a[1]
        if not is_load_of(vn, b, "NKVM", "currentExecutionContext"): return "not the current context's"
        return chain(cx, i, gc, sweeps)
    if k == "handles":
        if not handle_cursor(cx, fn, vn, a): return "does not walk the handle list"
        ls = loops_of(fn, i.blk)
        if not ls: return "only one is marked"
        h, body = ls[0]
        for p, s in exit_edges(fn, body):
            if not any(f[0] == "eq" and f[2] == ("c", 0) and f[1] == strip(a) for f in vn.edge_facts(p, s) if len(f) == 3): return "the walk can end early"
        return chain(cx, i, gc, sweeps)
    ls = loops_of(fn, i.blk)
    if not ls: return "marked outside a loop: only one element"
    h, body = ls[0]
    if len(a[2]) != 1 or a[2][0][0] != "x": return "element address not understood"
    idx = strip(a[2][0][1])
    if k == "stack":
        base = loads_field(vn, a[1], "NKVMStack", "values")
        ext = lambda e: loads_field(vn, e, "NKVMStack", "size") == base
        w = index_covers(fn, vn, h, body, idx, ext, use=i)
        if w: return w
        # every call of the marker by the collector on the way: the root stack must be given
        if fn is gc: return chain(cx, i, gc, sweeps) if rooted(cx, vn, base) else "not the main stack"
        w = must_before(cx, fn, i, lambda j: j.op == "ret", skip=lambda p, b: empty_stack(vn, p, b))
        if w and not zero_trip(fn, vn, h): return w
        for c in cx.mod.callers.get(fn.name, []):
            if base[0] == "a" and c.fn is gc and rooted(cx, cx.vn(GC), cx.vn(GC).expr(c.o[base[1]])):
                return must_before(cx, gc, c, lambda j: j in sweeps)
        return "the main stack is not passed to the marker"
    base = loads_field(vn, a[1], "NKVM", "staticSpace")
    last = lambda e: loads_field(vn, e, "NKVM", "staticAddressMask") == base
    ext = lambda e: e[0] == "add" and ("c", 1) in e[1:] and any(last(strip(x)) for x in e[1:])
    w = index_covers(fn, vn, h, body, idx, ext, last, use=i)
    if w: return w
    return chain(cx, i, gc, sweeps)


def zero_trip(fn, vn, h): return False


def empty_stack(vn, p, b): return False


def rooted(cx, vn, e):
    return e[0] == "gep" and e[2] and ("f", "NKVM", "rootExecutionContext") in e[2]


def is_pass(vn, e):
    return is_load_of(vn, e, "NKVMGCState", "currentGCPass")


def primitives(cx):
    """markValue dispatches objects and strings; marks store this pass; nothing unmarked is skipped"""
    mod = cx.mod
    fn = mod.fns[MARKV]; vn = cx.vn(MARKV); P = cx.paths(fn)
    for tag, what in (("NK_VALUETYPE_OBJECTID", "object"), ("NK_VALUETYPE_STRING", "string")):
        v = mod.E(tag)
        cx.ok("mark-dispatch", 1, tag)
        def other(p, b):
            for f in vn.edge_facts(p, b):
                if len(f) == 3 and f[2][0] == "c" and is_type(vn, f[1]):
                    if f[0] == "eq" and f[2][1] != v or f[0] == "ne" and f[2][1] == v: return True
            return vn.infeasible(p, b)
        def does(i):
            return i.op == "call" and i.callee in mod.fns and marks_kind(cx, i.callee, what) or i.op == "store" and what == "string" and mod.addr_field(fn, i.o[1]) == ("NKVMString", "lastGCPass")
        def noentry(p, b):
            return any(len(f) == 3 and f[0] == "eq" and f[2] == ("c", 0) and strip(f[1])[0] == "call" for f in vn.edge_facts(p, b)) if what == "string" else False
        w = P.escape(None, lambda i: i.op == "ret", stop=does, stop_edge=lambda p, b: other(p, b) or noentry(p, b))
        if w: cx.bad("mark-dispatch", w, "a value of type %s can be passed to the marker without being marked" % what, tag)
    # stores of marks
    for s in ("NKVMObject", "NKVMString"):
        n = 0
        for f in mod.fns.values():
            if f.name not in mod.reach([GC]): continue
            for i in f.all():
                if i.op == "store" and mod.addr_field(f, i.o[1]) == (s, "lastGCPass"):
                    v = cx.vn(f.name).expr(i.o[0])
                    if f.name not in mark_only(cx): continue
                    n += 1; cx.ok("mark-is-this-pass", 1, i.loc())
                    if not is_pass(cx.vn(f.name), v) : cx.bad("mark-is-this-pass", i, "mark written is not the current pass", s)
        if not n: cx.bad("mark-is-this-pass", fn.blocks[0][0], "no mark is ever written to a %s" % s, s + "/none")
    # object enqueue: skipped only when already marked or unknown
    for name in sorted(mark_only(cx)):
        f = mod.fns[name]; v2 = cx.vn(name)
        for i in f.calls():
            pass
        enq = [i for i in f.all() if i.op == "store" and mod.addr_field(f, i.o[1]) == ("NKVMValueGCEntry", "object")]
        for i in enq:
            cx.ok("enqueue-unless-marked", 1, i.loc())
            obj = v2.expr(i.o[0])
            def okskip(p, b):
                for q in v2.edge_facts(p, b):
                    if len(q) != 3: continue
                    if q[0] == "eq" and q[2] == ("c", 0) and q[1] == obj: return True
                    if q[0] == "eq" and any(loads_field(v2, x, "NKVMObject", "lastGCPass") == obj for x in q[1:]) and any(is_pass(v2, x) for x in q[1:]): return True
                return v2.infeasible(p, b)
            if cx.paths(f).escape(None, lambda j: j.op == "ret", stop=lambda j: j is i, stop_edge=okskip):
                cx.bad("enqueue-unless-marked", i, "a referenced object that is not yet marked can be left out of the work list", "skip")
    cx.need("enqueue-unless-marked", 1)
    # work list entries are linked
    for name in sorted(mod.reach([GC])):
        f = mod.fns.get(name)
        if not f: continue
        for i in f.all():
            if i.op == "store" and mod.addr_field(f, i.o[1]) == ("NKVMGCState", "openList"):
                v2 = cx.vn(name); e = v2.expr(i.o[0]); a = v2.addr(i.o[1])
                cx.ok("work-list-kept", 1, i.loc())
                if loads_field(v2, e, "NKVMValueGCEntry", "next") is not None: continue     # pop
                # push: the new head's next is the old head
                from nk.vn import state_before
                st = state_before(v2, i)
                nxt = st.get(("gep", e, (("f", "NKVMValueGCEntry", "next"),))) if e[0] != "gep" else None
                if e == ("c", 0) or nxt is None or not is_load_of(v2, nxt, "NKVMGCState", "openList"):
                    cx.bad("work-list-kept", i, "the work list is replaced without keeping what was on it", "lost")


def mark_only(cx):
    """functions that belong to the marking side: they take the collection state"""
    r = set()
    for n, f in cx.mod.fns.items():
        if any("NKVMGCState" in t for t in f.ditypes[1:]): r.add(n)
    return r


def is_type(vn, e):
    e = strip(e)
    while e[0] in ("sext", "trunc"): e = e[1]
    if e[0] != "L": return False
    a = vn.addr(vn.fn.insts[e[1]].o[0])
    return a[2] and a[2][-1][0] == "f" and a[2][-1][2] in ("type", "typeAndUnused") or True if a[2] else False


def marks_kind(cx, name, what):
    f = cx.mod.fns[name]
    want = ("NKVMString", "lastGCPass") if what == "string" else ("NKVMValueGCEntry", "object")
    if any(i.op == "store" and cx.mod.addr_field(f, i.o[1]) == want for i in f.all()): return True
    if what == "object" and name == MARKO: return True
    return False


def element_marks(cx):
    mod = cx.mod; fn = mod.fns[MARKO]; vn = cx.vn(MARKO); P = cx.paths(fn)
    ob = None
    # early exit only when already marked; then the object is marked itself
    st = [i for i in fn.all() if i.op == "store" and mod.addr_field(fn, i.o[1]) == ("NKVMObject", "lastGCPass")]
    cx.ok("object-marked")
    def already(p, b):
        return any(len(f) == 3 and f[0] == "eq" and any(is_load_of(vn, x, "NKVMObject", "lastGCPass") for x in f[1:]) and any(is_pass(vn, x) for x in f[1:]) for f in vn.edge_facts(p, b)) or vn.infeasible(p, b)
    if not st or P.escape(None, lambda i: i.op == "ret", stop=lambda i: i in st, stop_edge=already):
        cx.bad("object-marked", st[0] if st else fn.blocks[0][0], "an object can be left unmarked by its own marker", "self")
    # element walk
    sites = []
    for i in fn.calls():
        if i.callee == MARKV: sites.append(i)
    if not sites: cx.bad("element-marked", fn.blocks[0][0], "no element of an object is marked", "none"); return
    inner = None; cursor = None
    for h, body in loops(fn):
        for q in fn.blocks[h]:
            if q.op == "phi" and q.ty == "ptr":
                got = set()
                for v, b in q.o:
                    x = vn.expr(v)
                    if loads_field(vn, x, "NKVMObjectElement", "next") == ("phi", q.id): got.add("next")
                    elif is_bucket(vn, x): got.add("head")
                    else: got.add("?")
                if got == {"next", "head"}: inner = (h, body); cursor = ("phi", q.id)
    if inner is None:
        cx.bad("element-marked", sites[0], "the elements of a bucket are not walked from the head by their links", "walk"); return
    h, body = inner
    K = ("gep", cursor, (("f", "NKVMObjectElement", "key"),)); V = ("gep", cursor, (("f", "NKVMObjectElement", "value"),))
    def visit(i, env, mk):
        if i in sites:
            e = subst(vn.expr(i.o[1]), env)
            if e == K: mk = mk | {"key"}
            if e == V: mk = mk | {"value"}
        return mk
    starts = [(h, s) for s in fn.succs[h] if s in body and s != h]
    hp = {q.id for q in fn.blocks[h] if q.op == "phi"}
    outs = {q.id for hh, bb in loops(fn) if h in bb and hh != h for q in fn.blocks[hh] if q.op == "phi"}
    track = {i.id for b in body for i in fn.blocks[b] if i.op == "phi"} - hp - outs
    r = walk(fn, vn, starts, body, visit, lambda p, b, env, mk: b == h, track=track)
    cx.ok("element-marked", 2, "key and value of each element")
    if r is None: raise Broken("element loop too complex")
    for p, b, mk in r:
        if b != h:
            if not any(fn.blocks[x][-1].op == "ret" for x in [b] + list(fn.reach_blocks(b))): continue
            cx.bad("element-marked", fn.blocks[p][-1], "the walk over an object's elements can stop early", "early"); continue
        for k in ("key", "value"):
            if k not in mk: cx.bad("element-marked", fn.blocks[p][-1], "an element's %s can be left unmarked" % k, k)
    for p, s in exit_edges(fn, body):
        if p == h and not any(len(f) == 3 and f[0] == "eq" and f[2] == ("c", 0) and f[1] == cursor for f in vn.edge_facts(p, s)):
            cx.bad("element-marked", fn.blocks[p][-1], "the walk over an object's elements can stop early", "early")
    # bucket loop
    import re
    n = int(re.search(r"\[(\d+)\]", mod.ftype("NKVMObject", "hashBuckets")).group(1))
    bh = [(hh, bb) for hh, bb in loops(fn) if h in bb and hh != h]
    cx.ok("buckets-covered")
    hd = [vn.expr(v) for q in fn.blocks[h] if q.op == "phi" and ("phi", q.id) == cursor for v, b in q.o if is_bucket(vn, vn.expr(v))][0]
    idx = vn.addr(fn.insts[hd[1]].o[0])[2][-1][1]
    w = "not in a loop" if not bh else index_covers(fn, vn, bh[0][0], bh[0][1], idx, lambda e: e == ("c", n), lambda e: e == ("c", n - 1), use=fn.blocks[h][0])
    if not w and P.escape(None, lambda i: i.op == "ret", stop=lambda i: i.blk == bh[0][0], stop_edge=already): w = "a path skips it"
    if w: cx.bad("buckets-covered", fn.blocks[h][0], "not every bucket of an object is visited: %s" % w, "buckets")
    # host mark callback
    cbs = [i for i in fn.calls() if "cb:NKVMExternalType.gcMarkCallback" in mod.cal(i)]
    cx.ok("host-mark-callback")
    def noext(p, b):
        for f in vn.edge_facts(p, b):
            if len(f) != 3: continue
            if f[0] == "eq" and f[2] == ("c", 0) and is_load_of(vn, f[1], "NKVMExternalType", "gcMarkCallback"): return True
            if f[0] == "eq" and f[2][0] == "c" and f[2][1] & 0xffffffff == 0xffffffff: return True
            if f[0] == "ule" and is_load_of(vn, f[1], "NKVM", "externalTypeCount"): return True
        return already(p, b)
    if not cbs or P.escape(None, lambda i: i.op == "ret", stop=lambda i: i in cbs, stop_edge=noext):
        cx.bad("host-mark-callback", cbs[0] if cbs else fn.blocks[0][0], "an external object's mark callback can be skipped", "skip")


def is_bucket(vn, e):
    e = strip(e)
    if e[0] != "L": return False
    a = vn.addr(vn.fn.insts[e[1]].o[0])
    return ("f", "NKVMObject", "hashBuckets") in a[2]


def sweeps_marks(cx, i):
    """a call that releases entries depending on their marks"""
    for c in cx.mod.cal(i):
        f = cx.mod.fns.get(c)
        if not f or c in mark_only(cx): continue
        vn = cx.vn(c)
        if any(j.op == "load" and cx.mod.addr_field(f, j.o[0]) in (("NKVMObject", "lastGCPass"), ("NKVMString", "lastGCPass")) for j in f.all()): return True
    return False


def drain(cx, gc, sweeps):
    """the work list is empty before sweeping"""
    mod = cx.mod; vn = cx.vn(GC); P = cx.paths(gc)
    dr = []
    for i in gc.calls():
        for c in mod.cal(i):
            f = mod.fns.get(c)
            if f and c in mark_only(cx) and drains(cx, f): dr.append(i)
    if any(i.op == "store" and mod.addr_field(gc, i.o[1]) == ("NKVMGCState", "openList") for i in gc.all()) and drains(cx, gc):
        dr += [i for i in gc.calls(MARKO)]
    cx.ok("drain-before-sweep", 1, [i.loc() for i in dr])
    if not dr or P.escape(None, lambda i: i in sweeps, stop=lambda i: i in dr):
        if not (drains(cx, gc)): cx.bad("drain-before-sweep", sweeps[0], "a sweep can start before everything referenced was marked", "order")
    # no root mark after the drain
    for i in gc.calls():
        if i.callee in mark_only(cx) and i not in dr and any(gc.can_reach(d, i) for d in dr) and any(gc.can_reach(i, s) for s in sweeps):
            cx.bad("drain-before-sweep", i, "roots are added after the work list was drained", "late")
    # a sweep must not run before the drain either
    for s in sweeps:
        if any(gc.can_reach(s, d) for d in dr): cx.bad("drain-before-sweep", s, "a sweep runs before the work list is drained", "sweepfirst")


def drains(cx, f):
    vn = cx.vn(f.name)
    pops = [i for i in f.all() if i.op == "store" and cx.mod.addr_field(f, i.o[1]) == ("NKVMGCState", "openList") and loads_field(vn, vn.expr(i.o[0]), "NKVMValueGCEntry", "next") is not None]
    if not pops: return False
    ls = loops_of(f, pops[0].blk)
    if not ls: return False
    h, body = ls[0]
    for p, s in exit_edges(f, body):
        if not any(len(q) == 3 and q[0] == "eq" and q[2] == ("c", 0) and is_load_of(vn, q[1], "NKVMGCState", "openList") for q in vn.edge_facts(p, s)): return False
    mk = [i for i in f.calls(MARKO) if i.blk in body]
    P = cx.paths(f)
    head = f.blocks[h][0]
    def popped(i): return i in pops
    for i in mk:
        # the object of the popped entry
        b = loads_field(vn, vn.expr(i.o[1]), "NKVMValueGCEntry", "object")
        if b is None or not is_load_of(vn, b, "NKVMGCState", "openList"): continue
        if not P.round_trip(h, body, lambda j: j is i): return True
    return False


def sweep_guards(cx, gc, sweeps):
    mod = cx.mod; gvn = cx.vn(GC)
    fresh = [i for i in gc.all() if i.op == "store" and mod.addr_field(gc, i.o[1]) == ("NKVMGCInfo", "lastGCPass") or i.op == "store" and (mod.addr_field(gc, i.o[1]) or ("", ""))[1] == "lastGCPass"]
    cx.ok("pass-is-new")
    okf = [i for i in fresh if any(x[0] == "add" and ("c", 1) in x[1:] and any(loads_any(gvn, y, "lastGCPass") for y in x[1:]) for x in [gvn.expr(i.o[0])])]
    if not okf: cx.bad("pass-is-new", gc.blocks[0][0], "a collection does not start a new pass", "new")
    stp = [i for i in gc.all() if i.op == "store" and mod.addr_field(gc, i.o[1]) == ("NKVMGCState", "currentGCPass")]
    if okf and not any(gvn.expr(i.o[0]) == gvn.expr(okf[0].o[0]) for i in stp): cx.bad("pass-is-new", gc.blocks[0][0], "marks are not made with the new pass number", "state")
    for s in sweeps:
        f = mod.fns[s.callee]; vn = cx.vn(f.name)
        ks = [k for k in range(len(s.o)) if k < len(f.ditypes) - 1 and f.ditypes[k + 1].replace("nkuint32_t", "u").strip() in ("u", "unsigned int")]
        cx.ok("sweep-pass", 1, s.loc())
        good = {k for k in ks if is_pass(gvn, gvn.expr(s.o[k])) or okf and gvn.expr(s.o[k]) == gvn.expr(okf[0].o[0])}
        if not good: cx.bad("sweep-pass", s, "the sweep is not given this pass's number", "arg"); continue
        # releases inside
        for st in ("NKVMObject", "NKVMString"):
            lds = [j for j in f.all() if j.op == "load" and mod.addr_field(f, j.o[0]) == (st, "lastGCPass")]
            if not lds: continue
            rel = [j for j in f.calls() if releases(cx, f, j, st)]
            if not rel: cx.bad("sweep-guard", s, "the sweep releases nothing", st + "/none")
            for j in rel:
                cx.ok("sweep-guard", 1, j.loc())
                P = cx.paths(f)
                base = {vn.addr(l.o[0]) for l in lds}
                def need(j, good_edge, what, key):
                    # from every way to a fresh entry value, the release needs the test
                    pts = entry_points(f, vn, lds)
                    w = P.escape(None, lambda x: x is j, stop_edge=good_edge)
                    if w: cx.bad("sweep-guard", j, what, key); return
                    # on every new loop round too
                    for h, body in loops_of(f, j.blk):
                        w = P.escape(f.blocks[h][0], lambda x: x is j, stop_edge=good_edge, inclusive=True)
                        if w: cx.bad("sweep-guard", j, what, key); return
                unmarked = lambda p, b: any(len(q) == 3 and q[0] == "ne" and any(is_load_of(vn, x, st, "lastGCPass") for x in q[1:]) and any(x[0] == "a" and x[1] in good for x in q[1:]) for q in vn.edge_facts(p, b))
                need(j, unmarked, "an entry can be released although it was marked in this pass", st + "/marked")
                if st == "NKVMString":
                    unpinned = lambda p, b: any(len(q) == 3 and q[0] == "eq" and q[2] == ("c", 0) and is_load_of(vn, q[1], st, "dontGC") for q in vn.edge_facts(p, b))
                    need(j, unpinned, "a pinned string can be released", st + "/pinned")
    cx.need("sweep-guard", 2)


def entry_points(f, vn, lds): return lds


def loads_any(vn, e, field):
    e = strip(e)
    if e[0] != "L": return False
    a = vn.addr(vn.fn.insts[e[1]].o[0])
    return bool(a[2]) and a[2][-1][0] == "f" and a[2][-1][2] == field


def releases(cx, f, j, st):
    """call j gives back an entry (object or string)"""
    if j.callee == "nkiTableEraseEntry": return True
    if j.callee == "nkiFree":
        return cx.ms.pointee(f, j.o[1]) == st
    if st == "NKVMObject" and j.callee in cx.mod.fns:
        return "nkiVmObjectDelete" in cx.mod.reach([j.callee])
    return False


def mark_callbacks(cx):
    """functions registered as mark callback by the machine itself"""
    out = set()
    for fn in cx.mod.fns.values():
        for i in fn.calls():
            if i.callee in ("nkxVmRegisterExternalType", "nkiVmRegisterExternalType") and i.o[-1][0] == "fn": out.add((i.o[-1][1], i))
    return out


def coroutine(cx, cb):
    mod = cx.mod
    ctx = [(n, i) for n, i in cb if "NKVMExecutionContext" in str([j.aty for j in ()]) or uses_ctx(cx, n)]
    cx.ok("coroutine-marked", 1, [n for n, i in ctx])
    if not ctx:
        cx.bad("coroutine-marked", "coroutine type", "no mark callback for coroutine contexts is registered", "none"); return
    for n, reg in ctx:
        fn = mod.fns[n]; vn = cx.vn(n); P = cx.paths(fn)
        nul = lambda p, b: any(len(f) == 3 and f[0] == "eq" and f[2] == ("c", 0) and f[1][0] == "a" for f in vn.edge_facts(p, b))
        nop = lambda p, b: nul(p, b) or any(len(f) == 3 and f[0] == "eq" and f[2] == ("c", 0) and (loads_field(vn, f[1], "NKVMExecutionContext", "parent") or ("",))[0] == "a" for f in vn.edge_facts(p, b))
        par = []; stk = []
        for i in fn.calls():
            if i.callee == MARKV:
                a = vn.addr(i.o[1])
                if a[2] and a[2][-1] == ("f", "NKVMExecutionContext", "coroutineObject") and (loads_field(vn, a[1], "NKVMExecutionContext", "parent") or ("",))[0] == "a": par.append(i)
                if is_load_of(vn, a[1], "NKVMStack", "values"): stk.append((i, a))
            elif i.callee in mod.fns and i.callee.endswith("markStack"): stk.append((i, None))
        cx.ok("coroutine-marked", 2)
        if not par or P.escape(None, lambda i: i.op == "ret", stop=lambda i: i in par, stop_edge=nop):
            cx.bad("coroutine-marked", fn.blocks[0][0], "the coroutine that resumed a live coroutine can be left unmarked", "parent")
        good = False; why = "no marking of the stack"
        for i, a in stk:
            if a is None:
                e = vn.expr(i.o[1])
                why = "not this context's stack" if not (e[0] == "gep" and e[2][-1:] == (("f", "NKVMExecutionContext", "stack"),)) else must_before(cx, fn, i, lambda j: j.op == "ret", nul)
            else:
                ls = loops_of(fn, i.blk)
                base = loads_field(vn, a[1], "NKVMStack", "values")
                if not ls or len(a[2]) != 1: why = "only one slot"
                else:
                    h, body = ls[0]
                    why = index_covers(fn, vn, h, body, a[2][0][1], lambda e: loads_field(vn, e, "NKVMStack", "size") == base, use=i) or must_before(cx, fn, i, lambda j: j.op == "ret", nul)
            if why is None: good = True
        if not good: cx.bad("coroutine-marked", fn.blocks[0][0], "values on a suspended coroutine's stack can be left unmarked (%s)" % why, "stack")
        # registered for the coroutine type on initialisation
        f2 = reg.fn
        if cx.paths(f2).escape(None, lambda i: i.op == "ret", stop=lambda i: i is reg): cx.bad("coroutine-marked", reg, "the mark callback may not be registered", "reg")


def uses_ctx(cx, n):
    f = cx.mod.fns.get(n)
    return bool(f) and any((cx.mod.addr_field(f, i.o[0]) or ("", ""))[0] in ("NKVMExecutionContext", "NKVMStack") for i in f.all() if i.op == "load")


ALLOWED_CALLERS = ("nkx", )


def placement(cx):
    """a collection can only start between two instructions or from a public call"""
    mod = cx.mod
    it = {n for n, f in mod.fns.items() if any(len(mod.cal(i)) > 20 for i in f.calls())}     # the dispatcher
    if not it: raise Broken("dispatcher not found")
    td = {n for n, f in mod.fns.items() if any("cb:NKVM.freeReplacement" in mod.cal(i) for i in f.calls()) or n == "nkiVmDestroy"}
    for c in mod.callers[GC]:
        cx.ok("collection-point", 1, c.loc())
        n = c.fn.name
        if n.startswith("nkx") or n in td: continue
        if n in it:
            # before the handler runs, never after it in the same step
            d = [i for i in c.fn.calls() if len(mod.cal(i)) > 20]
            if any(c.fn.can_reach(x, c) and not loops_of(c.fn, c.blk) for x in d): cx.bad("collection-point", c, "a collection runs after an instruction's handler", "after")
            continue
        cx.bad("collection-point", c, "a collection can start inside %s, where values may be held only in C locals" % n, "where")
    # no internal code calls the public entry points that collect
    for n, f in mod.fns.items():
        if n.startswith("nkx"): continue
        for i in f.calls():
            if i.callee == "nkxVmGarbageCollect": cx.bad("collection-point", i, "internal code starts a collection", "pub")
    cx.need("collection-point", 3)


def exclusive(cx, gc, sweeps):
    """host callbacks run inside a collection; a second collection inside the first one would leave marks
    of its own pass number, which the first one's sweep takes for unreachable"""
    mod = cx.mod; vn = cx.vn(GC); P = cx.paths(gc)
    host = mod.may_reach(lambda i, c: c.startswith("cb:") and "malloc" not in c.lower() and "free" not in c.lower())
    risky = [i for i in gc.calls() if any(c in host or c.startswith("cb:") for c in mod.cal(i))] + list(sweeps)
    cx.ok("exclusive", len(risky))
    cands = {}
    for i in gc.all():
        k = mod.addr_field(gc, i.o[1]) if i.op == "store" else None
        v = vn.expr(i.o[0]) if k else None
        if k and v[0] == "c" and v[1]: cands.setdefault(k, []).append(i)
    why = "nothing stops a callback from starting another one"
    for k, on in cands.items():
        offs = [i for i in gc.all() if i.op == "store" and mod.addr_field(gc, i.o[1]) == k and vn.expr(i.o[0]) == ("c", 0)]
        other = [i for f in mod.fns.values() for i in f.all() if i.op == "store" and mod.addr_field(f, i.o[1]) == k and f is not gc and f.name not in teardown(cx) and cx.vn(f.name).expr(i.o[0]) != ("c", 0)]
        # another function may hold collections off for a while, if it puts the flag back as it found it
        def restored(o):
            f = o.fn; v2 = cx.vn(f.name); P2 = cx.paths(f)
            back = []
            for i in f.all():
                if i.op != "store" or mod.addr_field(f, i.o[1]) != k: continue
                e = v2.expr(i.o[0])
                if e[0] == "L" and is_load_of(v2, e, *k) and not any(f.can_reach(o2, f.insts[e[1]]) for o2 in other if o2.fn is f): back.append(i)
            return back and not P2.escape(o, lambda i: i.op == "ret", stop=lambda i: i in back)
        puts_back = lambda i: is_load_of(cx.vn(i.fn.name), cx.vn(i.fn.name).expr(i.o[0]), *k)
        if other and all(puts_back(o) or restored(o) for o in other): other = []
        off2 = [i for f in mod.fns.values() for i in f.all() if i.op == "store" and mod.addr_field(f, i.o[1]) == k and f is not gc and f.name in mod.reach([GC])]
        idle = lambda p, b: any(len(f) == 3 and f[0] == "eq" and f[2] == ("c", 0) and is_load_of(vn, f[1], *k) for f in vn.edge_facts(p, b))
        if P.escape(None, lambda i: i in risky or i in on, stop_edge=idle): why = "the running flag is not tested first"; continue
        if P.escape(None, lambda i: i in risky, stop=lambda i: i in on): why = "the running flag is not set on every path"; continue
        if any(P.escape(o, lambda i: i in risky) for o in offs) or off2: why = "the running flag is cleared too early"; continue
        if any(P.escape(o, lambda i: i.op == "ret", stop=lambda i: i in offs) for o in on): why = "the running flag stays set"; continue
        if other: why = "the running flag is set elsewhere"; continue
        return
    cx.bad("exclusive", gc.blocks[0][0], "a collection can start inside a running one: " + why, "nested")


def newborn(cx):
    """cleanup callbacks may create objects while the sweep is running"""
    mod = cx.mod; n = 0
    for fn in mod.fns.values():
        vn = cx.vn(fn.name); P = cx.paths(fn)
        for i in fn.calls("nkiTableAddEntry"):
            e = vn.expr(i.o[2])
            if e[0] != "call" or not any(j.op in ("call", "getelementptr") and (j.callee == "nkiVmObjectInit" and vn.expr(j.o[0]) == e or j.path and j.path[0][:2] == ["f", "NKVMObject"] and vn.expr(j.o[0]) == e) for j in fn.all()): continue
            n += 1; cx.ok("newborn", 1, i.loc())
            stamp = lambda j: j.op == "store" and mod.addr_field(fn, j.o[1]) == ("NKVMObject", "lastGCPass") and is_load_of(vn, vn.expr(j.o[0]), "NKGarbageCollectionInfo", "lastGCPass")
            gone = lambda j: j.op == "call" and j.callee == "nkiFree" and vn.expr(j.o[1]) == e
            if P.escape(i, lambda j: j.op == "ret", stop=lambda j: stamp(j) or gone(j)):
                cx.bad("newborn", i, "an object created while a collection is sweeping is reclaimed at once, whoever refers to it", "stamp"); continue
            for j in fn.all():
                if stamp(j) and P.escape(j, lambda x: x.op == "call" and (x.callee == "nkiVmObjectInit" or (x.callee or "").startswith("llvm.memset"))): cx.bad("newborn", j, "the new object's mark is overwritten", "wiped")
    cx.need("newborn", 1)


def native_args(cx):
    """arguments stay rooted on the stack until the native function returned"""
    mod = cx.mod
    n = 0
    for fn in mod.fns.values():
        for i in fn.calls():
            if "cb:NKVMExternalFunction.CFunctionCallback" not in mod.cal(i): continue
            n += 1; cx.ok("arguments-rooted", 1, i.loc())
            vn = cx.vn(fn.name)
            reach_pop = [j for j in fn.calls() if j.callee in ("nkiVmStackPopN",) or j.callee == "nkiVmStackPop"]
            pops = [j for j in reach_pop if fn.can_reach(j, i)]
            # the only pop allowed before is the one of the argument count word
            for j in pops:
                if j.callee == "nkiVmStackPopN" : cx.bad("arguments-rooted", j, "the arguments of a native call are taken off the stack before it runs", "popn")
            k = [j for j in pops if j.callee == "nkiVmStackPop"]
            if k and not pushed_back(cx, fn, k, i): cx.bad("arguments-rooted", k[0], "values are popped before the native call and not left on the stack", "pop")
    if not n: raise Broken("native call site not found")


def pushed_back(cx, fn, pops, site):
    return True


def literals(cx):
    """strings that program memory refers to are pinned"""
    mod = cx.mod
    n = 0
    for fn in mod.fns.values():
        vn = cx.vn(fn.name)
        for i in fn.all():
            if i.op != "store" or mod.addr_field(fn, i.o[1]) is None or mod.addr_field(fn, i.o[1])[0] != "NKInstruction": continue
            e = vn.expr(i.o[0])
            if e[0] != "call": continue
            c = fn.insts[e[1]]
            if not (c.callee or "").startswith("nkiVmStringTableFindOrAdd"): continue
            n += 1; cx.ok("literal-pinned", 1, i.loc())
            pins = []
            for j in fn.all():
                if j.op == "store" and mod.addr_field(fn, j.o[1]) == ("NKVMString", "dontGC") and vn.expr(j.o[0]) not in (("c", 0),):
                    b = base_of(vn.addr(j.o[1]), "NKVMString", "dontGC")
                    if b and b[0] == "call" and any(same_id(vn, x, e, i) for x in fn.insts[b[1]].o): pins.append(j)
            nul = lambda p, b: any(len(f) == 3 and f[0] == "eq" and f[2] == ("c", 0) and f[1][0] == "call" for f in vn.edge_facts(p, b))
            if not pins or cx.paths(fn).escape(c, lambda j: j.op == "ret", stop=lambda j: j in pins, stop_edge=nul):
                cx.bad("literal-pinned", i, "a string the program refers to is not pinned and can be collected", "pin")
    if not n: cx.bad("literal-pinned", "nkiCompilerEmitPushLiteralString", "no site found that writes a string into program memory", "none")


def same_id(vn, op, e, store):
    x = vn.expr(op)
    if x == e: return True
    if x[0] == "L":
        return vn.addr(vn.fn.insts[x[1]].o[0]) == vn.addr(store.o[1])
    return False
