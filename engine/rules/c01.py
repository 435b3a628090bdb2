"""C01: no source text can overflow the host's stack through nesting."""
from nk.core import Broken
from nk.guard import Guards
from nk.cwalk import walk, subst
from nk.vn import strip

META = {"level": "other", "technique": "call-graph cycles (function pointers resolved) cut by a path-sensitive depth-guard balance analysis",
        "note": "Recursion that leaves the machine through a host callback (native function calling back into the machine) is the host's own nesting and not bounded here. Stack use per guarded level is not measured; the limit itself must be a constant of at most 4096.",
        "explains": "A depth guard is a counter raised by one only under a constant bound. For every function that touches it, each path from entry to return must change it by zero (correlating the guard's result with the branch taken). Every cycle of the call graph must contain a call made while the counter is held; a cycle without one may only be entered after a guarded walk of the same tree finished and the error count was found zero. Frames of run-time size are refused."}
LIMIT = 4096


def sccs(nodes, succ):
    idx, low, onst, st, out = {}, {}, set(), [], []
    n = [0]

    def go(v):
        work = [(v, iter(succ(v)))]
        idx[v] = low[v] = n[0]; n[0] += 1; st.append(v); onst.add(v)
        while work:
            u, it = work[-1]
            for w in it:
                if w not in idx:
                    idx[w] = low[w] = n[0]; n[0] += 1; st.append(w); onst.add(w)
                    work.append((w, iter(succ(w)))); break
                elif w in onst: low[u] = min(low[u], idx[w])
            else:
                work.pop()
                if work: low[work[-1][0]] = min(low[work[-1][0]], low[u])
                if low[u] == idx[u]:
                    c = set()
                    while True:
                        w = st.pop(); onst.discard(w); c.add(w)
                        if w == u: break
                    out.append(c)
    for v in nodes:
        if v not in idx: go(v)
    return out


def check(cx, tier):
    mod = cx.mod
    G = Guards(cx)
    succ = lambda n: {c for i in mod.fns[n].calls() for c in mod.cal(i) if c in mod.fns}
    cyc = [c for c in sccs(sorted(mod.fns), succ) if len(c) > 1 or next(iter(c)) in succ(next(iter(c)))]
    if not cyc: raise Broken("no recursion found: the parser and the syntax tree walks are expected to recurse")
    # counters whose functions are called from the cycles
    allc = set().union(*cyc)
    ks = [k for k in list(G.ups) if k in G.downs and used_as_guard(G, k, allc)]
    held = {}
    for k in ks:
        guard(cx, G, k, allc)
        prim = G.touching(k)
        for n, fn in mod.fns.items():
            if n in prim or not any(i.callee in prim for i in fn.calls()): continue
            r, at, rets = G.run(k, n)
            cx.ok("balance", 1, n)
            for rid, ds in rets.items():
                if ds - {0}:
                    bad = sorted(x for x in ds - {0} if x is not None)
                    cx.bad("balance", fn.insts[rid] if False else ret_site(fn, rid), "%s can return with the depth counter changed by %s (nesting that was left is still counted, or the reverse)" % (n, bad or "an unknown amount"), "net")
            if (not rets) and r: cx.bad("balance", fn.blocks[0][0], "cannot follow the depth counter through %s" % n, "net")
            for i in fn.calls():
                d = at.get(i.id)
                if i.callee in prim and d and (None in d or min(d) < 1) and all(x is not None and x < 0 for _, x in G.summary(k, i.callee)):
                    cx.bad("balance", i, "%s lowers the depth counter on a path where it does not hold it" % n, "lower")
                if d and None not in d and min(d) >= 1: held[(n, i.id)] = k
    for c in cyc:
        rest = lambda n, c=c: {x for i in mod.fns[n].calls() if (n, i.id) not in held for x in mod.cal(i) if x in c}
        cx.ok("cycle", 1, sorted(c))
        for r in sccs(sorted(c), rest):
            n0 = next(iter(r))
            if len(r) == 1 and n0 not in rest(n0): continue
            w = tree_bounded(cx, G, held, ks, r)
            if w is None: cx.ok("walk-after-guarded-walk", 1, sorted(r)); continue
            site = next(i for n in sorted(r) for i in mod.fns[n].calls() if (n, i.id) not in held and set(mod.cal(i)) & r)
            cx.bad("cycle", site, "recursion without a depth guard: %s (%s)" % (" -> ".join(sorted(r)), w), "unguarded")
    for n, fn in mod.fns.items():
        for i in fn.all():
            if i.op == "alloca":
                cx.ok("fixed-frames")
                if i.blk != 0 or i.o and i.o[0][0] != "c": cx.bad("fixed-frames", i, "stack memory of run-time size", "alloca")
            elif i.op == "call" and i.callee in ("alloca", "__builtin_alloca"): cx.bad("fixed-frames", i, "stack memory of run-time size", "alloca")
    cx.need("balance", 15); cx.need("cycle", 4); cx.need("guard", 1)
    cx.notes.append("call-graph cycles: %s" % [sorted(c) for c in cyc])


def ret_site(fn, rid):
    return next(i for i in fn.all() if i.id == rid)


def used_as_guard(G, k, allc):
    """a bounded counter raised and lowered in, or by helpers called from, the recursive functions"""
    if k not in G.bounds: return False
    up, dn = {i.fn.name for i in G.ups[k]}, {i.fn.name for i in G.downs[k]}
    near = allc | {i.callee for n in allc for i in G.mod.fns[n].calls()}
    return bool(up & near) and bool(dn & near)


def guard(cx, G, k, allc):
    for i in G.ups[k]:
        b = G.bound(i, k)
        cx.ok("guard", 1, "%s.%s < %s at %s" % (k[0], k[1], b, i.loc()))
        if b is None or b > LIMIT: cx.bad("guard", i, "the nesting depth %s.%s is raised without a usable upper bound" % k, "bound")
        # refusing must be an error
        fn = i.fn
        errs = always_err(cx)
        s = G.summary(k, fn.name)
        if not {c for c, x in s if x == 0} <= {"0"} or not {c for c, x in s if x == 1} <= {"1"}:
            cx.bad("guard", i, "%s: the result does not tell whether the depth was raised (%s)" % (fn.name, sorted(map(str, s))), "result")
        P = cx.paths(fn)
        r = P.escape(None, lambda j: j.op == "ret", stop=lambda j: j is i or j.op == "call" and j.callee in errs)
        if r: cx.bad("guard", r, "%s can refuse without recording an error, so compilation would silently go on" % fn.name, "silent")
    for i in G.other.get(k, []):
        e = cx.vn(i.fn.name).expr(i.o[0])
        if e == ("c", 0) and i.fn.name not in cx.mod.reach(allc): continue
        cx.bad("guard", i, "the nesting depth %s.%s is overwritten" % k, "overwrite")


def always_err(cx):
    """functions that record an error on every returning path"""
    if hasattr(cx, "_aerr"): return cx._aerr
    mod = cx.mod
    S = {"nkiAddErrorEx"} & set(mod.fns)
    if not S: raise Broken("nkiAddErrorEx not found")
    ch = True
    while ch:
        ch = False
        for n, fn in mod.fns.items():
            if n in S or not any(i.callee in S for i in fn.calls()): continue
            if not cx.paths(fn).escape(None, lambda j: j.op == "ret", stop=lambda j: j.op == "call" and j.callee in S):
                S.add(n); ch = True
    cx._aerr = S
    return S


def tree_bounded(cx, G, held, ks, r):
    """None when every entry into the unguarded cycle r is made (a) on a syntax tree that a guarded
    walker has just traversed completely, (b) under the fact that no error was recorded since."""
    mod = cx.mod
    W = guarded_walkers(cx, G, held, ks)
    entries = [i for n in r for i in mod.callers.get(n, []) if i.fn.name not in r]
    if not entries: return "never entered"
    for n in r:
        w = only_children(cx, mod.fns[n], r)
        if w: return w
    for i in entries:
        fn = i.fn; vn = cx.vn(fn.name)
        chk = [f for f in vn.facts(i) if len(f) == 3 and f[0] == "eq" and f[2] == ("c", 0) and error_count(cx, fn, f[1])]
        if not chk: return "entered at %s without checking that the tree passed a guarded walk" % i.loc()
        root = tree_root(vn, i)
        ok = False
        for j in fn.calls():
            if j.callee in W and fn.dominates(j, i) and root is not None and any(same(vn, j, a, root) for a in range(len(j.o))):
                # the error count is read after the walk
                for f in chk:
                    c = strip(f[1])
                    d = fn.insts[c[1]] if c[0] in ("call", "L") else None
                    if d is not None and fn.dominates(j, d): ok = True
        if not ok: return "entered at %s on a tree no guarded walk has bounded" % i.loc()
    return None


def same(vn, j, a, root):
    return vn.expr(j.o[a]) == root


def tree_root(vn, i):
    """the tree handed over: a node pointer, or a pointer to a variable holding one"""
    for a in i.o:
        e = vn.expr(a)
        if e[0] in ("al",):
            # value stored in the local before the call
            from nk.vn import state_before
            st = state_before(vn, i)
            v = lookup(st, ("gep", e, ()))
            if v is not None: return v
    for a in i.o:
        t = i.fn.insts[a[1]] if a[0] == "i" else None
        e = vn.expr(a)
        if t is not None and t.op in ("call", "load", "phi") and "NKVM" not in (t.ty or ""): return e
    return None


def lookup(st, a):
    if isinstance(st, dict): return st.get(a)
    return None


def error_count(cx, fn, e):
    e = strip(e)
    if e[0] == "call":
        c = fn.insts[e[1]].callee
        f = cx.mod.fns.get(c)
        if not f: return False
        vn = cx.vn(c)
        return all(i.op != "ret" or bool(i.o) and strip(vn.expr(i.o[0]))[0] in ("L", "phi", "c", "add") for i in f.all()) and \
            any("rror" in (k[1] if k else "") for i in f.all() if i.op == "load" for k in [cx.mod.addr_field(f, i.o[0])])
    vn = cx.vn(fn.name)
    if e[0] == "L":
        k = cx.mod.addr_field(fn, fn.insts[e[1]].o[0])
        return bool(k) and "rror" in k[1]
    return False


def child_of(cx, fn, vn, e):
    """is e the child link (or its address) of a node: load/gep of NKExpressionAstNode.children[...]"""
    e = strip(e)
    if e[0] == "L":
        d = fn.insts[e[1]]
        a = vn.addr(d.o[0])
        return any(st[0] == "f" and st[2] == "children" for st in a[2])
    if e[0] == "gep": return any(st[0] == "f" and st[2] == "children" for st in e[2])
    return False


def only_children(cx, fn, r):
    vn = cx.vn(fn.name)
    for i in fn.calls():
        if i.callee in r:
            if not any(child_of(cx, fn, vn, vn.expr(a)) for a in i.o): return "the recursion at %s does not descend to a child of its own node" % i.loc()
    return None


def guarded_walkers(cx, G, held, ks):
    """functions that on every path not cut by the guard visit both children of their node (recursively
    or through another guarded walker), each visit made while the counter is held"""
    mod = cx.mod
    cand = {n for n, fn in mod.fns.items() if any(i.callee == n and (n, i.id) in held for i in fn.calls())}
    W = set(cand)
    while True:
        drop = set()
        for n in W:
            if not complete(cx, G, ks, mod.fns[n], W): drop.add(n)
        if not drop: return W
        W -= drop


def complete(cx, G, ks, fn, W):
    vn = cx.vn(fn.name)
    prim = set().union(*(G.touching(k) for k in ks)) if ks else set()
    par = [("a", k) for k in range(8)]

    def child_idx(e, env):
        e = strip(subst(e, env))
        if e[0] != "L": return None
        a = subst(vn.addr(fn.insts[e[1]].o[0]), env)
        if a[1] not in par or not any(s[0] == "f" and s[2] == "children" for s in a[2]): return None
        return child_const(a[2])

    bad = []

    def visit(i, env, mk):
        if i.op == "ret":
            if not {0, 1} <= mk: bad.append(i)
            return None
        if i.op == "call" and i.callee in W:
            for a in i.o:
                c = child_idx(vn.expr(a), env)
                if c is not None: mk = mk | {c}
        return mk

    def edge(p, b, env, mk):
        for f in vn.edge_facts(p, b):
            if len(f) != 3 or f[2] != ("c", 0) or f[0] != "eq": continue
            c = child_idx(f[1], env)
            if c is not None: mk = mk | {c}                          # no such child
            e = strip(f[1])
            if e[0] == "a": return None                              # no node
            if e[0] == "call" and fn.insts[e[1]].callee in prim: return None   # refused: an error is recorded
        return mk
    r = walk(fn, vn, [(None, 0)], None, visit, lambda p, b, env, mk: False, edge=edge)
    return r is not None and not bad


def child_const(steps):
    """constant index into children[] (0 when absent)"""
    v = 0; seen = False
    for s in steps:
        if s[0] == "f":
            seen = s[2] == "children"; v = 0 if seen else v
        elif seen:
            x = s[-1]
            if isinstance(x, tuple):
                if x[0] != "c": return None
                x = x[1]
            v += x
    return v
