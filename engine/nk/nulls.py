"""Which pointer values may be null, and where they are used as if they were not."""
from .vn import strip, subterms

LIBC_NULL = {"strchr", "strrchr", "strstr", "fopen", "malloc", "realloc", "calloc", "popen", "opendir", "getenv"}


class Nulls:
    """fields: set of (struct, field) whose loads may be null; slots: set of (struct, field, ...) element loads"""
    def __init__(self, cx, fields, slot_fields, never=()):
        self.cx = cx; self.mod = cx.mod
        self.fields = set(fields); self.slots = set(slot_fields)
        self.never = set(never)
        self.nullfn = {}                    # function -> set of conditions (argument facts) under which null is returned
        self._returns()
        self._params()

    # ------------------------------------------------------------------
    def isnull(self, fs, e):
        for f in fs:
            if len(f) == 3 and f[2] == ("c", 0) and f[1] == e:
                if f[0] == "ne": return False
                if f[0] == "eq": return True
        return None

    def nonnull(self, vn, fs, e):
        if self.isnull(fs, e) is False: return True
        # equal to something known not to be null
        for f in fs:
            if len(f) == 3 and f[0] == "eq" and e in (f[1], f[2]):
                o = f[2] if f[1] == e else f[1]
                if o[0] in ("al", "fn", "g") or self.isnull(fs, o) is False: return True
                if o[0] == "gep" and o[2] and o[2][-1][0] == "f": return True
        return False

    def maybe(self, vn, e, fs, seen=frozenset()):
        """reason why e may be null given facts fs, or None"""
        if e == ("c", 0): return "null"
        if self.nonnull(vn, fs, e): return None
        k = e[0]
        if k == "call":
            i = vn.fn.insts[e[1]]
            for c in self.mod.cal(i):
                if c in self.nullfn:
                    for cond in self.nullfn[c]:
                        if not contradicted(vn, i, cond): return "result of %s" % c
                if c in LIBC_NULL and c not in self.never: return "result of %s" % c
                if c.startswith("cb:") and (i.ty or "") == "ptr" and not c.endswith(".mallocReplacement"): return "result of host callback %s" % c[3:]
            return None
        if k == "L":
            a = vn.addr(vn.fn.insts[e[1]].o[0])
            r = self.load_null(a)
            return r
        if k == "phi":
            if e in seen: return None
            d = vn.fn.insts[e[1]]
            if d.op != "phi": return None
            for v, p in d.o:
                if vn.infeasible(p, d.blk) or p not in live(vn): continue
                if self.other_way(vn, d, p, fs): continue
                r = self.maybe(vn, vn.expr(v), vn.facts_on_edge(p, d.blk), seen | {e})
                if r: return r
            return None
        if k == "select":
            c = e[1]
            for x, t in ((e[2], True), (e[3], False)):
                r = self.maybe(vn, x, frozenset(fs) | vn.cond_facts(c, t), seen)
                if r: return r
            return None
        if k == "al": return None
        return None

    def other_way(self, vn, d, p, fs):
        """do the facts fs (at a use dominated by phi d) rule out that control came to d from p?"""
        dom = vn.fn.dom()
        for f in vn.facts_on_edge(p, d.blk):
            if len(f) != 3 or f[0] not in ("eq", "ne"): continue
            neg = ("ne" if f[0] == "eq" else "eq", f[1], f[2])
            if neg in fs and all(x[0] not in ("L", "phi", "v", "call") or len(x) != 2 or not isinstance(x[1], int) or vn.fn.insts[x[1]].blk in dom[d.blk] and vn.fn.insts[x[1]].blk != d.blk
                                 for t in f[1:] for x in subterms(t)): return True
        # a sibling merge known not to hold the constant it has on this way in
        for s in vn.fn.blocks[d.blk]:
            if s.op != "phi": break
            for v, q in s.o:
                if q != p: continue
                c = vn.expr(v)
                if c[0] != "c": continue
                for f in fs:
                    if len(f) == 3 and f[1] == ("phi", s.id) and f[2][0] == "c":
                        if f[0] == "ne" and f[2] == c or f[0] == "eq" and f[2] != c: return True
        return False

    def load_null(self, a):
        if a[0] != "gep" or not a[2]: return None
        st = a[2]
        if st[-1][0] == "f":
            if st[-1][1:3] in self.fields: return "%s.%s" % st[-1][1:3]
            return None
        # element of a pointer array
        for s in reversed(st):
            if s[0] == "f":
                return "empty slot of %s.%s" % s[1:3] if s[1:3] in self.slots else None
        b = a[1]
        return None

    # ------------------------------------------------------------------
    def _returns(self):
        mod = self.mod
        ch = True
        while ch:
            ch = False
            for n, fn in mod.fns.items():
                if fn.ret != "ptr" or n in self.never: continue
                vn = self.cx.vn(n)
                for r in fn.exits():
                    if not r.o: continue
                    conds = set()
                    self._null_conds(vn, vn.expr(r.o[0]), vn.facts(r), argfacts(vn.facts(r)), conds, frozenset())
                    cur = self.nullfn.setdefault(n, set()) if conds else self.nullfn.get(n, set())
                    for c in conds:
                        if not any(x <= c for x in cur):
                            cur.add(c); ch = True
        self.nullfn = {k: v for k, v in self.nullfn.items() if v}

    def _null_conds(self, vn, e, fs, cond, out, seen):
        if e == ("c", 0): out.add(frozenset(cond)); return
        if self.nonnull(vn, fs, e): return
        if e[0] == "phi" and e not in seen:
            d = vn.fn.insts[e[1]]
            if d.op == "phi":
                for v, p in d.o:
                    if vn.infeasible(p, d.blk) or p not in live(vn): continue
                    f = vn.facts_on_edge(p, d.blk)
                    self._null_conds(vn, vn.expr(v), f, frozenset(cond) | argfacts(f), out, seen | {e})
                return
        if e[0] == "select":
            for x, t in ((e[2], True), (e[3], False)):
                self._null_conds(vn, x, frozenset(fs) | vn.cond_facts(e[1], t), cond, out, seen)
            return
        if e[0] == "a":
            return          # passes a parameter through: judged where it is called
        if self.maybe(vn, e, fs): out.add(frozenset(cond))

    # ------------------------------------------------------------------
    def derefs(self, fn, vn):
        """(inst, pointer expr, how): places that need a pointer not to be null"""
        for i in fn.all():
            if i.op in ("load", "store"):
                a = vn.addr(i.o[0 if i.op == "load" else 1])
                if a[2] and a[2][0][0] == "x" and a[2][0][1][0] != "c": continue      # an element: governed by the array's extent
                yield i, a[1], "accessed"
                # pointers loaded in the middle of a path are separate loads already
            elif i.op in ("call", "invoke"):
                c = i.callee
                if c is None:
                    if i.cv is not None: yield i, vn.expr(i.cv), "called"
                    continue
                for n in mem_args(c, len(i.o)):
                    if n < len(i.o): yield i, strip_gep(vn, i.o[n]), "passed to " + c
                for n, cs in self.needs.get(c, {}).items():
                    if n < len(i.o) and any(not contradicted(vn, i, k) for k in cs): yield i, strip_gep(vn, i.o[n]), "passed to %s, which uses it unchecked" % c

    def _params(self):
        """needs[f][parameter] = argument conditions under which it is dereferenced on some path without a check"""
        self.needs = {}
        mod = self.mod
        ch = True
        while ch:
            ch = False
            for n, fn in mod.fns.items():
                vn = self.cx.vn(n); cur = self.needs.setdefault(n, {})
                for i, p, how in self.derefs(fn, vn):
                    if p[0] != "a": continue
                    k = frozenset(f for f in argfacts(vn.facts(i)) if f[1] != p); l = cur.setdefault(p[1], set())
                    if any(x <= k for x in l): continue
                    if self.unproved(fn, vn, i, p, param=True): l.add(k); ch = True

    def unproved(self, fn, vn, i, p, param=False):
        fs = vn.facts(i)
        if param:
            if self.nonnull(vn, fs, p): return None
        r = "parameter" if param else self.maybe(vn, p, fs)
        if not r: return None
        # path-sensitive second opinion: every path from the definition passes a test
        P = self.cx.paths(fn)
        start = vn.fn.insts[p[1]] if p[0] in ("L", "call", "phi", "v") else None
        def edge(a, b):
            if vn.infeasible(a, b): return True
            f = vn.edge_facts(a, b)
            return self.nonnull(vn, f, p) or self.nonnull(vn, vn.close(frozenset(f)), p)
        if P.escape(start, lambda j: j is i, stop_edge=edge) is None: return None
        if p[0] == "L" and self.tested(fn, vn, i, p): return None
        return r

    # ------------------------------------------------------------------
    def testers(self):
        """functions that return a constant when a nullable field (of their first argument's struct) or an
        argument is null: name -> [("field", S, f) or ("arg", n), constant]"""
        if hasattr(self, "_testers"): return self._testers
        T = {}
        for n, fn in self.mod.fns.items():
            if fn.ret == "ptr" or len(fn.insts) > 120: continue
            vn = self.cx.vn(n)
            cands = {}
            for b in fn.rpo:
                for s in fn.succs[b]:
                    for f in vn.edge_facts(b, s):
                        if len(f) != 3 or f[0] != "eq" or f[2] != ("c", 0): continue
                        e = f[1]
                        if e[0] == "a" and fn.ditypes and "*" in (fn.ditypes[e[1] + 1] or ""): cands.setdefault(("arg", e[1]), []).append(f)
                        if e[0] == "L":
                            a = vn.addr(fn.insts[e[1]].o[0])
                            if a[0] == "gep" and a[1] == ("a", 0) and len(a[2]) == 1 and a[2][0][0] == "f" and a[2][0][1:3] in self.fields:
                                cands.setdefault(("field",) + a[2][0][1:3], []).append(f)
            for k, fs in cands.items():
                v = self.value_when(fn, vn, {x for x in fs})
                if v is not None: T.setdefault(n, []).append((k, v))
        self._testers = T
        return T

    def value_when(self, fn, vn, null):
        """the constant returned on every path on which the tested pointer is null"""
        from .retval import Walk, deep
        neg = {("ne", f[1], f[2]) for f in null}
        outs = Walk(fn, vn, stop_edge=lambda p, b: any(f in neg for f in vn.edge_facts(p, b))).run()
        if not outs: return None
        vs = {deep(v) if v else None for r, v, m in outs}
        if len(vs) != 1: return None
        v = vs.pop()
        if v and v[0] == "icmp" and self.decided(v, neg) is not None: return self.decided(v, neg)
        return v[1] if v and v[0] == "c" else None

    def decided(self, e, neg):
        """value of a comparison of the null pointer itself"""
        for f in neg:
            if e[2] == f[1] and e[3] == f[2] or e[3] == f[1] and e[2] == f[2]: return {"eq": 1, "ne": 0}.get(e[1])
        return None

    def tested(self, fn, vn, i, p):
        """every path to i since the field was last written passes a branch on a tester's result that excludes null"""
        a = vn.addr(fn.insts[p[1]].o[0])
        f = vn.lastf(a)
        if f is None or not a[2] or a[2][-1] != f: return False
        loc = f
        P = self.cx.paths(fn); T = self.testers()
        ld = fn.insts[p[1]]
        def writes(j):
            if j.op == "store": return vn.loc_alias(vn.abs_loc(vn.addr(j.o[1])), loc)
            if j.op == "call": return any(vn.loc_alias(w, loc) for w in vn.ms.call_locs_full(fn, j))
            return False
        def excl(b, s):
            """tester call instructions whose outcome on this edge excludes null"""
            r = []
            for g in vn.facts_on_edge(b, s) if False else vn.edge_facts(b, s):
                if len(g) != 3 or g[0] not in ("eq", "ne") or g[2][0] != "c": continue
                e = g[1]
                while e[0] in ("zext", "trunc", "sext"): e = e[1]
                if e[0] != "call": continue
                c = fn.insts[e[1]]
                for k, v in T.get(c.callee or "", ()):
                    same = g[2][1] == v or v == -1 and g[2][1] in (1, 0xff, 0xffffffff)
                    if same == (g[0] == "eq"): continue
                    if k[0] == "field" and vn.expr(c.o[0]) == (("gep", a[1], a[2][:-1]) if len(a[2]) > 1 else a[1]) and k[1:] == loc[1:]: r.append(c)
                    if k[0] == "arg":
                        x = vn.expr(c.o[k[1]])
                        if x[0] == "L" and vn.addr(fn.insts[x[1]].o[0]) == a: r.append(c)
            return r
        starts = [None] + [j for j in fn.all() if writes(j)]
        for s in starts:
            def edge(b, t):
                if vn.infeasible(b, t): return True
                return any(P.escape(s, lambda j: j is fn.blocks[b][-1], stop=lambda j: j is c) is None for c in excl(b, t))
            if P.escape(s, lambda j: j is i, stop=lambda j: j is not s and writes(j), stop_edge=edge) is not None: return False
        return True


def live(vn):
    """blocks reachable without infeasible edges"""
    if not hasattr(vn, "_live"):
        seen = {0}; st = [0]
        while st:
            b = st.pop()
            for s in vn.fn.succs[b]:
                if s not in seen and not vn.infeasible(b, s): seen.add(s); st.append(s)
        vn._live = seen
    return vn._live


def argfacts(fs):
    return frozenset(f for f in fs if len(f) == 3 and f[0] in ("eq", "ne") and f[1][0] == "a" and f[2][0] == "c")


def contradicted(vn, call, conds):
    for p, a, c in conds:
        if a[1] >= len(call.o): continue
        e = vn.expr(call.o[a[1]])
        if e[0] == "c" and (p == "eq") != (e[1] == c[1]): return True
        if c[1] == 0 and p == "eq" and (e[0] in ("al", "fn", "g") or e[0] == "gep"): return True
        for f in vn.facts(call):
            if len(f) == 3 and f[1] == e and f[2] == c and f[0] != p and f[0] in ("eq", "ne"): return True
    return False


def strip_gep(vn, op):
    e = vn.expr(op)
    return e[1] if e[0] == "gep" else e


MEM = {"memcpy": (0, 1), "memmove": (0, 1), "memset": (0,), "strlen": (0,), "strcmp": (0, 1), "strcpy": (0, 1), "strncpy": (0, 1),
       "strcat": (0, 1), "memcmp": (0, 1), "sprintf": (0, 1), "fwrite": (0, 3), "fread": (0, 3), "fclose": (0,), "atoi": (0,), "atol": (0,),
       "atof": (0,), "strtol": (0,), "strchr": (0,), "fseek": (0,), "ftell": (0,)}


def mem_args(c, n):
    if c.startswith("llvm.memcpy") or c.startswith("llvm.memmove"): return (0, 1)
    if c.startswith("llvm.memset"): return (0,)
    return MEM.get(c, ())
