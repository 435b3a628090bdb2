"""M05: working memory is released on every path."""
from nk.core import Broken
from nk.leak import Leak, ALLOC_PRIMS, REALLOC
from nk.own import own
from nk.loops import loops_of, exit_edges
from nk.vn import strip, is_load_of, show
from nk.teardown import teardown

META = {"level": "other", "technique": "path-sensitive typestate analysis of block ownership (obtained / handed over / released), with ownership summaries of every routine",
        "note": "A block counts as handed over as soon as it is stored into a structure that outlives the routine; that the structure's own destruction releases it is decided by the member rules here and by M04.",
        "explains": "For every call that yields a block, text, token or syntax-tree node the caller owns, every path to a return must release it, return it or hand it over; constants merged along the path, null tests and the answers of pure predicates rule out impossible paths. A call that answers failure must leave nothing in its out-parameters. Releasing a structure must release, or move away, what its members own; replacing an owning member must first release the old content; an element unlinked from a list must be released or stored."}

ALIASES = {  # members that refer to blocks owned elsewhere
    ("NKVMObject", "externalData"): "owned by the object's external type (M03)",
    ("NKVM", "currentExecutionContext"): "owned by the coroutine object",
    ("NKCompilerState", "currentToken"): "cursor into the token list of the caller",
    ("NKVM", "objectsWithExternalHandles"): "objects are owned by the object table",
    ("NKVMObject", "nextObjectWithExternalHandles"): "objects are owned by the object table",
    ("NKVMExecutionContext", "parent"): "owned by the coroutine object",
}


QUIET = {"nkiFree", "nkiMalloc_real", "nkiMallocArray", "nkiRealloc", "nkiReallocArray", "nkiStrdup", "nkiVmGarbageCollect"}


def base_addr(a, k):
    """the structure a member's address lies in"""
    if a[0] == "gep" and a[2]:
        st = list(a[2])
        while st and st[-1][0] != "f": st.pop()
        if st and tuple(st[-1][1:]) == tuple(k):
            st.pop()
            return strip(a[1]) if not st else ("gep", strip(a[1]), tuple(st))
    return None


def has_index(b):
    return b[0] == "gep" and any(s[0] != "f" for s in b[2])


def flags(vn, p, b):
    """what an edge says about parameters and local flags being zero"""
    return {(f[0], f[1]) for f in vn.edge_facts(p, b) if len(f) == 3 and f[0] in ("eq", "ne") and f[2] == ("c", 0) and f[1][0] == "a"}


def escape(cx, fn, start, target, stop, stop_edge):
    """a path from start to the target that meets no stop; tests of one parameter agree along the path"""
    vn = cx.vn(fn.name)
    seen = set(); work = [(0, 0, frozenset())] if start is None else [(start.blk, start.pos + 1, frozenset())]
    while work:
        b, pos, kn = work.pop()
        blocked = False
        for i in fn.blocks[b][pos:]:
            if i is target: return i
            if stop(i): blocked = True; break
        if blocked: continue
        for s in fn.succs[b]:
            if vn.infeasible(b, s) or stop_edge(b, s): continue
            fl = flags(vn, b, s)
            if any((("ne" if o == "eq" else "eq"), e) in kn for o, e in fl): continue
            k = (s, 0, kn | fl)
            if k not in seen: seen.add(k); work.append(k)
    return None


class R:
    def __init__(self, cx):
        self.cx = cx; self.mod = cx.mod; self.L = Leak(cx); self.O = own(cx)
        self.fields()
        self._deep = {}

    # ------------------------------------------------------------ which members own blocks
    def fields(self):
        """(S, f) -> a store of a fresh block; elements: (S, f) whose block holds owned pointers (or structs with owning members)"""
        self.own = {}; self.elems = {}
        for n, fn in self.mod.fns.items():
            vn = self.cx.vn(n)
            for i in fn.all():
                if i.op != "store": continue
                fresh = False; par = None
                for r in self.O.roots(fn, i.o[0]):
                    if r[0] == "i" and fn.insts[r[1]].op == "call" and fn.insts[r[1]].callee in self.L.fresh: fresh = True
                    if r[0] == "a": par = r[1]
                if par is not None and not fresh:
                    for c in self.mod.callers.get(n, []):
                        if par < len(c.o) and any(r[0] == "i" and c.fn.insts[r[1]].op == "call" and c.fn.insts[r[1]].callee in self.L.fresh for r in self.O.roots(c.fn, c.o[par])): fresh = True
                        # a fresh block reached through out-parameters (local cell)
                if not fresh: continue
                ks = self.keys(fn, i.o[1])
                if not ks: continue
                k = ks[0]
                if k[0] == "f": self.own.setdefault(k[1:], i)
                for k in ks:
                    if k[0] == "*": self.elems.setdefault(k[1:], i)

    def keys(self, fn, op):
        """chain of what an address denotes, innermost member first: ('f',S,f), then ('*',S,f) for each block it lies in"""
        out = []; first = True
        while op is not None and len(out) < 4:
            d = fn.idef(op) if op[0] != "cgep" else None
            if d is None: break
            if d.op == "getelementptr":
                fs = [st for st in d.path if st[0] == "f"]
                if fs and not out: out.append(("f", fs[-1][1], fs[-1][2]))
                op = d.o[0]; continue
            if d.op == "bitcast": op = d.o[0]; continue
            if d.op == "load":
                k = self.mod.addr_field(fn, d.o[0])
                if k: out.append(("*",) + tuple(k))
                break
            break
        return out

    def link(self, s, f):
        """the member links elements of one list, or is a second reference to one"""
        t = (self.mod.ftype(s, f) or "").split("[")[0]
        return t.replace("struct ", "").replace("*", "").strip() == s or f in ("last", "lastError", "previous")

    # ------------------------------------------------------------ what a value is read from
    def derives(self, fn, op, depth=0, seen=None):
        """members on the way from memory to this pointer"""
        seen = set() if seen is None else seen
        if op[0] != "i" or op[1] in seen or depth > 12: return set()
        seen.add(op[1]); d = fn.insts[op[1]]
        if d.op == "load":
            k = self.mod.addr_field(fn, d.o[0])
            return ({tuple(k)} if k else set()) | self.derives(fn, d.o[0], depth + 1, seen)
        if d.op in ("getelementptr", "bitcast", "freeze"): return self.derives(fn, d.o[0], depth + 1, seen)
        if d.op == "phi":
            r = set()
            for v, _ in d.o: r |= self.derives(fn, v, depth + 1, seen)
            return r
        if d.op == "select": return self.derives(fn, d.o[1], depth + 1, seen) | self.derives(fn, d.o[2], depth + 1, seen)
        if d.op == "call" and d.callee in self.mod.fns:          # accessor
            f = self.mod.fns[d.callee]; r = set()
            for e in f.exits():
                if e.o: r |= self.derives(f, e.o[0], depth + 4, set())
            return r
        return set()

    def deep(self, n, depth=0):
        """members whose content the routine releases, itself or through what it calls"""
        if n in self._deep: return self._deep[n]
        self._deep[n] = set(); r = set()
        fn = self.mod.fns.get(n)
        if fn is not None:
            for i in fn.calls():
                for o in self.O.freed_operands(i): r |= self.derives(fn, o)
                c = i.callee
                if c in self.mod.fns and c not in QUIET and depth < 8: r |= self.deep(c, depth + 1)
        self._deep[n] = r
        return r

    def made(self, n, depth=0):
        """members the routine, or what it calls, fills with new blocks"""
        key = ("m", n)
        if key in self._deep: return self._deep[key]
        self._deep[key] = set(); r = set()
        fn = self.mod.fns.get(n)
        if fn is not None:
            for i in fn.all():
                if i.op == "store":
                    k = self.mod.addr_field(fn, i.o[1])
                    if k and tuple(k) in self.own and any(q[0] == "i" and fn.insts[q[1]].op == "call" and fn.insts[q[1]].callee in self.L.fresh for q in self.O.roots(fn, i.o[0])): r.add(tuple(k))
                elif i.op == "call" and i.callee in self.mod.fns and i.callee not in QUIET and depth < 6: r |= self.made(i.callee, depth + 1)
        self._deep[key] = r
        return r

    def nested(self, s):
        """members of a structure and of the structures that lie in it: (S, f)"""
        out = {(s, f) for f in self.byS.get(s, ())}
        st = self.mod.structs.get(s)
        for f, t, z in (st["fields"] if st else ()):
            if t.startswith("struct ") and "*" not in t and "[" not in t: out |= self.nested(t[7:])
        return out

    def loads(self, fn, op, k, depth=0, seen=None):
        """loads of member k the value comes from"""
        seen = set() if seen is None else seen
        if op[0] != "i" or op[1] in seen or depth > 12: return set()
        seen.add(op[1]); d = fn.insts[op[1]]
        if d.op == "load":
            f = self.mod.addr_field(fn, d.o[0])
            return ({d.id} if f and tuple(f) == k else set()) | self.loads(fn, d.o[0], k, depth + 1, seen)
        if d.op in ("getelementptr", "bitcast", "freeze"): return self.loads(fn, d.o[0], k, depth + 1, seen)
        if d.op == "phi":
            r = set()
            for v, _ in d.o: r |= self.loads(fn, v, k, depth + 1, seen)
            return r
        if d.op == "select": return self.loads(fn, d.o[1], k, depth + 1, seen) | self.loads(fn, d.o[2], k, depth + 1, seen)
        return set()

    def of(self, fn, lid, k, base):
        """the load reads the member of the structure base (or an element of an array of them)"""
        if base is None: return True
        vn = self.cx.vn(fn.name)
        a = vn.addr(fn.insts[lid].o[0])
        b = base_addr(a, k)
        if b is None or has_index(b) or has_index(base): return True
        return b == base

    def chain(self, vn, base):
        """the structure and what it was reached through"""
        out = set()
        for _ in range(8):
            base = strip(base); out.add(base)
            if base[0] == "gep": base = base[1]
            elif base[0] == "L": base = vn.addr(vn.fn.insts[base[1]].o[0])
            else: break
        return out

    def releases(self, fn, j, k, base=None, via=None):
        if j.op != "call": return False
        for o in self.O.freed_operands(j):
            if k in self.derives(fn, o):
                ls = self.loads(fn, o, k)
                if not ls or any(self.of(fn, l, k, base) for l in ls): return True
        c = j.callee
        if c not in self.mod.fns or c in QUIET or k not in self.deep(c): return False
        via = base if via is None else via
        if via is None: return True
        vn = self.cx.vn(fn.name); ch = self.chain(vn, via)
        return any(strip(vn.expr(o)) in ch for o in j.o if o[0] in ("i", "a"))

    def moved(self, fn, j, k, base=None):
        """the member's content is stored somewhere else"""
        if j.op != "load" or self.mod.addr_field(fn, j.o[0]) is None or tuple(self.mod.addr_field(fn, j.o[0])) != k: return False
        if not self.of(fn, j.id, k, base): return False
        return any(u.op == "store" and u.o[0] == ["i", j.id] or u.op == "phi" or u.op == "ret" or
                   u.op == "call" and ["i", j.id] in self.O.freed_operands(u) for u in fn.uses.get(j.id, ()))

    def absent(self, fn, vn, p, b, k, evs):
        """edge on which the member is known to hold nothing, or a loop that releases its elements ends"""
        for f in vn.edge_facts(p, b):
            if len(f) == 3 and f[0] in ("eq", "ule") and f[2] == ("c", 0) and k in self.of_expr(fn, vn, f[1]): return True
        for h, body in loops_of(fn, p):
            if b not in body and any(e.blk in body for e in evs): return True
        return False

    def of_expr(self, fn, vn, e):
        e = strip(e)
        if e[0] == "L": return self.derives(fn, ["i", e[1]])
        if e[0] == "phi": return self.derives(fn, ["i", e[1]])
        return set()


def check(cx, tier):
    r = R(cx); mod = cx.mod; L = r.L
    td = teardown(cx)
    # 1. what a routine obtains
    for n, fn in sorted(mod.fns.items()):
        if n in ALLOC_PRIMS or n in REALLOC or n in ("nkiFree", "nkiMalloc", "nkxMalloc"): continue
        for i, nm in L.sources(fn):
            if n in L.fresh and not fn.exits(): continue
            at = L.lost(fn, i, nm)
            cx.ok("obtained-released", 1, "%s: %s" % (i.loc(), i.callee))
            if at is not None:
                cx.bad("obtained-released", i, "what %s yields here is neither released, handed over nor returned on a path that returns at line %s" % (i.callee, at.ln), "%s/%s" % (n, i.callee))
    cx.need("obtained-released", 120)
    # 2. a failing call leaves nothing
    for n in sorted({a for a, k in L.outs() if mod.fns[a].ret != "void"}):
        at = L.dirty(n)
        cx.ok("failure-leaves-nothing", 1, n)
        if at is not None: cx.bad("failure-leaves-nothing", at, "%s can answer failure and leave a block its caller does not release" % n, n)
    cx.need("failure-leaves-nothing", 2)
    members(cx, r, td)
    replaced(cx, r, td)
    unlinked(cx, r, td)
    locals_(cx, r)
    cleanups(cx, r)


def members(cx, r, td):
    mod = cx.mod; byS = r.byS = {}
    for (s, f) in r.own:
        if (s, f) not in ALIASES and (not r.link(s, f) or "[" in (mod.ftype(s, f) or "")): byS.setdefault(s, set()).add(f)
    n = 0
    for name, fn in sorted(mod.fns.items()):
        vn = cx.vn(name); P = cx.paths(fn)
        for i in fn.calls():
            if i.callee != "nkiFree": continue
            x = i.o[1]; ex = strip(vn.expr(x))
            S = set()
            p = cx.ms.pointee(fn, x)
            if p: S.add(p)
            for g in fn.all():
                if g.op == "getelementptr" and g.path and g.path[0][0] == "f" and strip(vn.expr(g.o[0])) == ex: S.add(g.path[0][1])
            for s in sorted(S):
                for k in sorted(r.nested(s)):
                    f = k[1]
                    d = fn.idef(x)
                    fresh = d is not None and d.op == "call" and d.callee in r.L.fresh
                    base = ex if k[0] == s else None
                    evs = [j for j in fn.all() if j is not i and r.releases(fn, j, k, base, ex)]
                    ev = set(evs)
                    if fresh and not any(j.op == "store" and tuple(mod.addr_field(fn, j.o[1]) or ()) == k or
                                         j.op == "call" and j.callee in mod.fns and any(strip(vn.expr(o)) == ex for o in j.o) and k in r.made(j.callee) for j in fn.all()): continue
                    def stop(j): return j in ev or r.moved(fn, j, k, base)
                    def edge(p, b):
                        if r.absent(fn, vn, p, b, k, evs): return True
                        return any(len(q) == 3 and q[0] == "eq" and q[2] == ("c", 0) and q[1][0] == "L" and owned_flag(mod, fn, vn, q[1], s) for q in vn.edge_facts(p, b))
                    cx.ok("members-released", 1, "%s: %s.%s" % (i.loc(), s, f)); n += 1
                    st = d
                    if d is None or d.op == "load":
                        ls = [h for h, body in loops_of(fn, i.blk) if d is not None and d.blk in body]
                        st = fn.blocks[ls[0]][0] if ls else None
                    if escape(cx, fn, st, i, stop, edge) is not None:
                        cx.bad("members-released", i, "a %s is released here without releasing what its %s holds" % (s, f), "%s/%s.%s" % (name, s, f))
            # the block a member holds, whose elements own blocks
            for k in sorted(r.derives(fn, x)):
                if k not in r.elems or mod.addr_field(fn, fn.idef(x).o[0] if fn.idef(x) is not None and fn.idef(x).op == "load" else x) is None: continue
                if fn.idef(x).op != "load" or tuple(mod.addr_field(fn, fn.idef(x).o[0])) != k: continue
                elements(cx, r, fn, vn, P, i, k)
    cx.need("members-released", 8)


def owned_flag(mod, fn, vn, e, s):
    d = fn.insts[e[1]]
    k = mod.addr_field(fn, d.o[0])
    return k is not None and k[0] == s and (mod.ftype(*k) or "").replace("const ", "") in ("nkbool", "nkuint8_t", "unsigned char")


def elements(cx, r, fn, vn, P, i, k, depth=0):
    """before the array a member holds is released, its elements are"""
    def rel(j):
        if j.op != "call" or j is i: return False
        if any(tuple(k) in r.derives(fn, o) and fn.idef(o) is not None and deref(r, fn, o, k) for o in r.O.freed_operands(j)): return True
        return any(c in r.mod.fns and c != "nkiFree" and elem_release(r, c, k) for c in r.mod.cal(j) or ())
    evs = [j for j in fn.all() if rel(j)]; ev = set(evs)
    cx.ok("elements-released", 1, "%s: %s.%s[]" % (i.loc(), k[0], k[1]))
    if not evs and depth < 2 and cx.mod.callers.get(fn.name) and fn.nargs and fn.ditypes[1:] and any(k[0] in t for t in fn.ditypes[1:] if k[0] != "NKVM"):
        for c in cx.mod.callers[fn.name]:
            elements(cx, r, c.fn, cx.vn(c.fn.name), cx.paths(c.fn), c, k, depth + 1)
        return
    if escape(cx, fn, None, i, lambda j: j in ev, lambda p, b: r.absent(fn, vn, p, b, k, evs)) is not None:
        cx.bad("elements-released", i, "the array %s.%s holds is released here although the blocks its elements own are not" % k, "%s/%s.%s[]" % (fn.name, k[0], k[1]))


def deref(r, fn, o, k):
    """the operand is an element of (or lies behind) the array, not the array itself"""
    d = fn.idef(o)
    while d is not None and d.op in ("bitcast", "freeze"): d = fn.idef(d.o[0])
    if d is None or d.op != "load": return True
    a = r.mod.addr_field(fn, d.o[0])
    return a is None or tuple(a) != tuple(k)


def elem_release(r, n, k, depth=0):
    fn = r.mod.fns.get(n)
    key = ("e", n, k)
    if key in r._deep: return r._deep[key]
    r._deep[key] = False
    res = False
    for j in fn.calls():
        for o in r.O.freed_operands(j):
            if tuple(k) in r.derives(fn, o) and deref(r, fn, o, k): res = True
        if depth < 3 and any(c in r.mod.fns and c != "nkiFree" and elem_release(r, c, k, depth + 1) for c in r.mod.cal(j) or ()): res = True
    r._deep[key] = res
    return res


def replaced(cx, r, td):
    """a member that owns a block is given another one (or none)"""
    mod = cx.mod
    for name, fn in sorted(mod.fns.items()):
        vn = cx.vn(name); P = cx.paths(fn)
        if name in td: continue
        for i in fn.all():
            if i.op != "store": continue
            k = mod.addr_field(fn, i.o[1])
            if not k or tuple(k) not in r.own or r.link(*k) or tuple(k) in ALIASES: continue
            k = tuple(k)
            if made_here(r, fn, i.o[1]): continue
            a = vn.addr(i.o[1])
            b = a[1] if a[0] == "gep" else a
            if b[0] == "call" and fn.insts[b[1]].callee in r.L.fresh: continue                 # a new structure
            if b[0] == "al": continue                                                          # a local structure: rule 1
            roots = r.O.roots(fn, i.o[0])
            if any(q[0] == "i" and fn.insts[q[1]].op == "call" and fn.insts[q[1]].callee in REALLOC for q in roots): continue
            if any(q[0] == "i" and fn.insts[q[1]].op == "load" and r.derives(fn, ["i", q[1]]) & {k} for q in roots): continue      # taken from the same list
            cx.ok("replaced-released", 1, "%s: %s.%s" % (i.loc(), k[0], k[1]))
            sb = base_addr(a, k)
            evs = [j for j in fn.all() if r.releases(fn, j, k, sb)]; ev = set(evs)
            way = r.derives(fn, i.o[1])
            def stop(j):
                if j in ev or r.moved(fn, j, k, sb): return True
                if j.op != "store" or j is i: return False
                if vn.addr(j.o[1]) == a: return True
                kk = mod.addr_field(fn, j.o[1])                  # the structure it lies in is a new one
                return kk is not None and tuple(kk) in way and any(q[0] == "i" and fn.insts[q[1]].op == "call" and fn.insts[q[1]].callee in r.L.fresh and
                                                                    fn.insts[q[1]].callee not in REALLOC for q in r.O.roots(fn, j.o[0]))
            def edge(p, b):
                if r.absent(fn, vn, p, b, k, evs): return True
                return any(len(q) == 3 and q[0] == "eq" and q[2] == ("c", 0) and q[1][0] == "L" and owned_flag(mod, fn, vn, q[1], k[0]) for q in vn.edge_facts(p, b))
            hit = escape(cx, fn, None, i, stop, edge)
            if hit is None: continue
            if initializer(cx, r, fn, i, k, b): continue
            cx.bad("replaced-released", i, "%s.%s is overwritten here on a path that has not released what it held" % k, "%s/%s.%s" % (name, k[0], k[1]))
    cx.need("replaced-released", 12)


def made_here(r, fn, op, depth=0):
    """the address lies in something this routine has just made"""
    d = fn.idef(op)
    while d is not None and depth < 8:
        if d.op in ("getelementptr", "bitcast", "load"): op = d.o[0]; d = fn.idef(op); depth += 1; continue
        return d.op == "call" and d.callee in r.L.fresh
    return False


def initializer(cx, r, fn, i, k, base, depth=0):
    """the routine sets up a structure its callers have just created (or emptied)"""
    if base[0] != "a" or depth > 4: return False
    P = cx.paths(fn)
    # nothing of the member is looked at before
    if any(j.op == "load" and cx.mod.addr_field(fn, j.o[0]) == k and P.escape(j, lambda q: q is i) is not None for j in fn.all()): return False
    cs = cx.mod.callers.get(fn.name, [])
    if not cs: return False
    for c in cs:
        if base[1] >= len(c.o): return False
        vn = cx.vn(c.fn.name)
        e = vn.addr(c.o[base[1]]); e = strip(e)
        b = e[1] if e[0] == "gep" else e
        if b[0] in ("al",): continue
        if b[0] == "call":
            ci = c.fn.insts[b[1]]
            if ci.callee in r.L.fresh or ci.callee is None or ci.callee not in cx.mod.fns or ci.callee.startswith("nkx"): continue
            return False
        if b[0] in ("v", "phi", "a") and c.fn.name.startswith("nkx") and (b[0] != "a" or cx.ms.pointee(c.fn, list(b)) not in ("NKVM", "NKCompilerState")): continue                   # the host's own structure
        evs = {j for j in c.fn.all() if r.releases(c.fn, j, k)}
        if evs and cx.paths(c.fn).escape(None, lambda j: j is c, stop=lambda j: j in evs) is None: continue
        if b[0] == "L" and made_here(r, c.fn, c.o[base[1]]): continue
        if b[0] == "a" and initializer(cx, r, c.fn, c, k, b, depth + 1): continue
        return False
    return True


def unlinked(cx, r, td):
    """an element taken out of a list"""
    mod = cx.mod
    for name, fn in sorted(mod.fns.items()):
        vn = cx.vn(name)
        if name in td: continue
        for i in fn.all():
            if i.op != "store": continue
            d = fn.idef(i.o[0])
            if d is None or d.op != "load": continue
            k = mod.addr_field(fn, d.o[0])
            if not k: continue
            if mod.ftype(*k).replace("struct ", "").replace("*", "").strip() != k[0]: continue
            da = vn.addr(d.o[0])
            if da[0] != "gep": continue
            p = strip(da[1])
            if p[0] != "L" or vn.addr(fn.insts[p[1]].o[0]) != vn.addr(i.o[1]): continue
            names = frozenset(j.id for j in fn.all() if j.op in ("load", "phi") and strip(vn.expr(["i", j.id])) == p)
            hk = mod.addr_field(fn, i.o[1])
            if hk is not None and tuple(hk) in ALIASES: continue
            if any(j.op == "call" and fn.dominates(j, i) and any(strip(vn.expr(o)) == p and any(c in mod.fns and r.L.takes(c, kk) for c in mod.cal(j) or ()) for kk, o in enumerate(j.o)) for j in fn.all()): continue
            cx.ok("unlinked-released", 1, "%s: %s" % (i.loc(), k[0]))
            at = r.L.lost(fn, i, names)
            if at is not None: cx.bad("unlinked-released", i, "the %s taken out of the list here is lost on a path that returns at line %s" % (k[0], at.ln), "%s/%s" % (name, k[0]))
    cx.need("unlinked-released", 4)


def locals_(cx, r):
    """a list a routine keeps in a local structure is empty, or released, when it returns"""
    mod = cx.mod; n = 0
    for name, fn in sorted(mod.fns.items()):
        vn = cx.vn(name)
        for a in fn.all():
            if a.op != "alloca" or not (a.aty or "").startswith("struct "): continue
            s = a.aty[7:]
            st = mod.structs.get(s)
            if not st: continue
            for f, t, z in st["fields"]:
                if not t.endswith("*") or not t.startswith("struct ") or r.link(s, f): continue
                el = t[7:].rstrip("* ")
                if el not in mod.structs or not any(t2.replace(" ", "") == ("struct" + el + "*") for _, t2, _ in mod.structs[el]["fields"]): continue
                if el in ("NKVM", "NKVMExecutionContext") or s in ("NKVMExecutionContext", "NKVM", "NKToken", "NKExpressionAstNode"): continue
                k = (s, f); addr = ("gep", ("al", a.id), (("f", s, f),))
                uses = [j for j in fn.all() if j.op == "call" and any(o == ["i", a.id] for o in j.o) and fills(cx, r, j, k, a)]
                if not uses: continue
                n += 1; cx.ok("local-list-released", 1, "%s: %s.%s" % (a.loc(), s, f))
                def stop(j):
                    return j.op == "call" and j.callee in mod.fns and any(o == ["i", a.id] for o in j.o) and empties(cx, r, j.callee, k)
                def edge(p, b):
                    return any(len(q) == 3 and q[0] == "eq" and q[2] == ("c", 0) and strip(q[1])[0] in ("L", "phi") and reads(vn, fn, q[1], addr) for q in vn.edge_facts(p, b))
                for j in uses:
                    for t_ in fn.exits():
                        if escape(cx, fn, j, t_, stop, edge) is not None:
                            cx.bad("local-list-released", j, "the elements collected in the local %s.%s are lost on a path that returns at line %s" % (s, f, t_.ln), "%s/%s.%s" % (name, s, f)); break
    cx.need("local-list-released", 3)


def cleanups(cx, r):
    """the machine's own object types: the cleanup routine releases the data of the object"""
    mod = cx.mod
    slot = set()                                    # (routine, parameter) that ends up as a type's cleanup routine
    for fn in mod.fns.values():
        for i in fn.all():
            if i.op == "store" and i.o[0][0] == "a" and tuple(mod.addr_field(fn, i.o[1]) or ()) == ("NKVMExternalType", "cleanupCallback"): slot.add((fn.name, i.o[0][1]))
    ch = True
    while ch:
        ch = False
        for fn in mod.fns.values():
            for i in fn.calls():
                for k, o in enumerate(i.o):
                    if (i.callee, k) in slot and o[0] == "a" and (fn.name, o[1]) not in slot: slot.add((fn.name, o[1])); ch = True
    for fn in mod.fns.values():
        for i in fn.calls():
            for k, o in enumerate(i.o):
                if (i.callee, k) in slot and o[0] == "fn" and o[1] in mod.fns:
                    c = mod.fns[o[1]]
                    cx.ok("type-cleanup-releases", 1, c.name)
                    if 2 not in r.O.frees.get(c.name, ()):
                        cx.bad("type-cleanup-releases", i, "%s, which cleans up objects of this type, does not release their data on every path" % c.name, c.name)
    cx.need("type-cleanup-releases", 1)


def reads(vn, fn, e, addr):
    e = strip(e)
    if e[0] == "L": return vn.addr(fn.insts[e[1]].o[0]) == addr
    if e[0] == "phi": return any(reads(vn, fn, vn.expr(v), addr) for v, _ in fn.insts[e[1]].o if vn.expr(v) != e)
    return False


def fills(cx, r, j, k, a):
    """the call may put an element into the list"""
    c = j.callee
    if c not in cx.mod.fns: return False
    return fills_fn(cx, r, c, k, set())


def fills_fn(cx, r, n, k, seen):
    if n in seen or n in QUIET: return False
    seen.add(n)
    fn = cx.mod.fns[n]
    for i in fn.all():
        if i.op == "store" and tuple(cx.mod.addr_field(fn, i.o[1]) or ()) == k and i.o[0][0] != "null" and k not in r.derives(fn, i.o[0]): return True
        if i.op == "call" and i.callee in cx.mod.fns and fills_fn(cx, r, i.callee, k, seen): return True
    return False


def empties(cx, r, n, k):
    """the routine releases the whole list"""
    fn = cx.mod.fns[n]
    evs = [j for j in fn.all() if j.op == "call" and any(k in r.derives(fn, o) for o in r.O.freed_operands(j))]
    if not evs: return any(i.callee in cx.mod.fns and i.callee != n and i.callee not in QUIET and empties(cx, r, i.callee, k) for i in fn.calls() if i.callee not in ("nkiAddError",)) if len(fn.blocks) < 40 else False
    vn = cx.vn(n)
    for t in fn.exits():
        if escape(cx, fn, None, t, lambda j: False, lambda p, b: any(len(q) == 3 and q[0] == "eq" and q[2] == ("c", 0) and k in r.of_expr(fn, vn, q[1]) for q in vn.edge_facts(p, b))) is not None: return False
    return True
