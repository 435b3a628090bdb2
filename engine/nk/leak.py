"""Blocks a function owns: followed from where they are obtained along every path
until they are released, handed over to something that outlives the function, or lost."""
from .own import own, ALLOC_PRIMS, REALLOC
from .vn import strip


QUIET = {"nkiFree", "nkiRealloc", "nkiReallocArray", "nkiMalloc_real", "nkiMallocArray", "nkiStrdup"}


class Leak:
    def __init__(self, cx):
        self.cx = cx; self.mod = cx.mod; self.O = own(cx)
        self._takes = {}
        self.fresh = {n for n in self.O.fresh if not n.startswith("nkx")}
        # syntax trees are built by the callee and owned by the caller
        for n, fn in self.mod.fns.items():
            if fn.ditypes and "NKExpressionAstNode" in str(fn.ditypes[0]): self.fresh.add(n)
        self._outs = None

    # ------------------------------------------------------------ what calls do with a block
    def takes(self, n, k, depth=0):
        """the callee releases, keeps or returns its parameter k on some path"""
        if (n, k) in self._takes: return self._takes[(n, k)]
        self._takes[(n, k)] = False
        fn = self.mod.fns.get(n)
        if fn is None:
            r = n in ("free",)
        elif n in ("nkiFree", "nkiRealloc", "nkiReallocArray"): r = k == 1
        else:
            r = False
            ids = {("a", k)}; st = [("a", k)]
            def users(x):
                for i in fn.all():
                    if any(tuple(o[:2]) == x for o in ([v for v, b in i.o] if i.op == "phi" else i.o) if isinstance(o, (list, tuple)) and len(o) >= 2): yield i
            while st and not r:
                x = st.pop()
                for i in users(x):
                    if i.op in ("phi", "select", "bitcast", "freeze"):
                        y = ("i", i.id)
                        if y not in ids: ids.add(y); st.append(y)
                    elif i.op == "store" and tuple(i.o[0][:2]) == x:
                        d = fn.idef(i.o[1])
                        if d is not None and d.op == "alloca":
                            for l in fn.all():
                                if l.op == "load" and l.o[0] == i.o[1] and ("i", l.id) not in ids: ids.add(("i", l.id)); st.append(("i", l.id))
                        else: r = True
                    elif i.op == "ret": r = True
                    elif i.op == "call":
                        for j, o in enumerate(i.o):
                            if tuple(o[:2]) == x and any(self.takes(c, j, depth + 1) for c in self.mod.cal(i) if c in self.mod.fns): r = True
        self._takes[(n, k)] = r
        return r

    def refuses(self, n, k):
        """constants the callee answers with when it has not taken its parameter k; empty when it always takes it or cannot say"""
        if not hasattr(self, "_ref"): self._ref = {}
        if (n, k) in self._ref: return self._ref[(n, k)]
        self._ref[(n, k)] = frozenset()
        fn = self.mod.fns.get(n)
        if fn is None or n in QUIET or not self.takes(n, k): return frozenset()
        took = set()
        ids = {("a", k)}
        for i in fn.all():
            if i.op in ("phi", "bitcast") and any(tuple(o[:2]) in ids for o in ([v for v, b in i.o] if i.op == "phi" else i.o)): ids.add(("i", i.id))
        for i in fn.all():
            if i.op == "store" and tuple(i.o[0][:2]) in ids: took.add(i)
            elif i.op == "call" and any(tuple(o[:2]) in ids and any(c in self.mod.fns and self.takes(c, j) for c in self.mod.cal(i) or ()) for j, o in enumerate(i.o)): took.add(i)
            elif i.op == "ret" and i.o and tuple(i.o[0][:2]) in ids: return frozenset()
        vals = set(); given = set(); unknown = [False]
        seen = set(); work = [(0, None, False)]
        while work:
            b, prev, t = work.pop()
            env = {}
            for i in fn.blocks[b]:
                if i.op == "phi":
                    v = next((v for v, p in i.o if p == prev), None)
                    if v is not None and v[0] == "c": env[i.id] = v[1]
                if i in took: t = True
                if i.op == "ret" and i.o:
                    o = i.o[0]
                    c = o[1] if o[0] == "c" else env.get(o[1]) if o[0] == "i" else None
                    if t: given.add(c)
                    elif c is None: unknown[0] = True
                    else: vals.add(c)
            for x in fn.succs[b]:
                q = (x, b, t)
                if q not in seen: seen.add(q); work.append(q)
        r = frozenset(vals) if vals and not unknown[0] and not (vals & given) else frozenset()
        self._ref[(n, k)] = r
        return r

    def outs(self):
        """(function, k): the routine stores a block the caller then owns through its pointer parameter k"""
        if self._outs is None:
            self._outs = {}
            for n, fn in self.mod.fns.items():
                if n.startswith("nkx"): continue
                for i in fn.all():
                    if i.op == "store" and i.o[1][0] == "a":
                        for r in self.O.roots(fn, i.o[0]):
                            if r[0] == "i" and fn.insts[r[1]].op == "call" and fn.insts[r[1]].callee in self.fresh: self._outs[(n, i.o[1][1])] = i
        return self._outs

    # ------------------------------------------------------------ sources
    def sources(self, fn):
        """(inst, initial names)"""
        for i in fn.calls():
            if i.callee in self.fresh or i.callee in REALLOC and fn.name not in REALLOC: yield i, frozenset([i.id])
            for k, o in enumerate(i.o):
                if (i.callee, k) in self.outs():
                    d = fn.idef(o)
                    if d is not None and d.op == "alloca": yield i, frozenset([("cell", d.id, ())])

    def cell(self, fn, op):
        """local variable (or member of a local struct) an address names"""
        path = ()
        while True:
            d = fn.idef(op)
            if d is None: return None
            if d.op == "alloca": return ("cell", d.id, path)
            if d.op == "getelementptr":
                p = tuple(tuple(x) for x in (d.path or ()) if x[0] == "f") if d.path else ()
                if any(x[0] != "f" for x in (d.path or ())): return None
                path = p + path; op = d.o[0]; continue
            if d.op == "bitcast": op = d.o[0]; continue
            return None

    # ------------------------------------------------------------ the walk
    def lost(self, fn, src, names, limit=40000):
        """a return that is reached with the block neither released nor handed over; None if there is none"""
        r = self.fast(fn, src, names, limit)
        return r if r is None else self.precise(fn, src, names)

    def fast(self, fn, src, names, limit=40000):
        vn = self.cx.vn(fn.name)
        f0 = {f for f in vn.facts(src) if len(f) == 3}
        stale = self._loopy(fn, src)
        seen = set(); work = [(src.blk, src.pos + 1, None, names)]
        n = 0
        while work:
            b, pos, prev, nm = work.pop(); n += 1
            if n > limit: return None
            if pos == 0:
                phis = [i for i in fn.blocks[b] if i.op == "phi"]
                add = set(); drop = set()
                for i in phis:
                    v = next((v for v, p in i.o if p == prev), None)
                    if v is not None and v[0] == "i" and v[1] in nm: add.add(i.id)
                    else: drop.add(i.id)
                nm = frozenset((nm - drop) | add)
            done = False
            for i in fn.blocks[b][pos:]:
                if i.op == "phi": continue
                if i.op == "unreachable": done = True; break
                if i.op == "ret":
                    if i.o and i.o[0][0] == "i" and i.o[0][1] in nm: done = True; break
                    return i
                r = self.step(fn, vn, i, nm, src)
                if r is None: done = True; break
                nm = r
            if done: continue
            for s in fn.succs[b]:
                if vn.infeasible(b, s): continue
                if self.excluded(fn, vn, b, s, nm, f0, stale): continue
                k = (s, b if any(i.op == "phi" for i in fn.blocks[s][:1]) else None, nm)
                if k not in seen: seen.add(k); work.append((s, 0, b, nm))
        return None

    def _loopy(self, fn, src):
        """blocks that lie on a cycle: values computed there may be of another round"""
        return {b for b in fn.live if any(fn.can_reach_blk(s, b) if hasattr(fn, "can_reach_blk") else b in fn.reach_blocks(s) for s in fn.succs[b])}

    def was_taken(self, vn, p, b, nm):
        """the edge says that the routine the block was offered to has taken it"""
        for x in nm:
            if isinstance(x, tuple) and x[0] == "given":
                for f in vn.edge_facts(p, b):
                    if len(f) != 3 or strip(f[1]) != ("call", x[1]) or f[2][0] != "c": continue
                    c = f[2][1]
                    if f[0] == "ne" and set(x[2]) <= {c, c & 0xffffffff, c - (1 << 32)}: return True
                    if f[0] == "eq" and c not in x[2] and c - (1 << 32) not in x[2]: return True
        return False

    def excluded(self, fn, vn, p, b, nm, f0, loopy):
        """the edge says that the block does not exist, or contradicts what was known when it was obtained"""
        es = None
        if self.was_taken(vn, p, b, nm): return True
        for f in vn.edge_facts(p, b):
            if len(f) != 3: continue
            if f[0] == "eq" and f[2] == ("c", 0):
                if es is None: es = {vn.expr(["i", x]) for x in nm if not isinstance(x, tuple)}
                a = f[1]
                if a in es: return True
                if a[0] == "L" and ("i",) and any(isinstance(x, tuple) and self.cell(fn, fn.insts[a[1]].o[0]) == x for x in nm): return True
            if f0 and not self._inloop(vn, fn, f[1], loopy):
                op, x, y = f
                if op == "eq":
                    if ("ne", x, y) in f0: return True
                    if any(g[0] == "eq" and g[1] == x and g[2] != y and g[2][0] == "c" and y[0] == "c" for g in f0): return True
                if op == "ne" and ("eq", x, y) in f0: return True
        return False

    # ------------------------------------------------------------ with the constants merged values have
    def tested(self, fn):
        """merged values whose constant value on a path decides a branch"""
        vn = self.cx.vn(fn.name); T = set(); st = []; cnt = {}
        for b in fn.live:
            for s in fn.succs[b]:
                for f in vn.edge_facts(b, s):
                    if len(f) == 3 and f[1][0] in ("L", "call") and f[2][0] == "c": cnt[f[1]] = cnt.get(f[1], 0) + 1
                    for e in f[1:]:
                        self._phis(e, st)
        for i in fn.all():
            if i.op in ("br", "switch", "ret", "icmp"):
                for o in i.o:
                    d = fn.idef(o) if isinstance(o, (list, tuple)) and o and o[0] == "i" else None
                    if d is not None and d.op == "phi": st.append(d.id)
        T |= {e for e, n in cnt.items() if n > 2}
        while st:
            x = st.pop()
            if x in T or x not in fn.insts or fn.insts[x].op != "phi": continue
            T.add(x)
            for v, _ in fn.insts[x].o:
                d = fn.idef(v) if v[0] == "i" else None
                while d is not None and d.op in ("zext", "trunc", "sext", "bitcast"): d = fn.idef(d.o[0])
                if d is not None and d.op == "phi": st.append(d.id)
        return T

    def _phis(self, e, out):
        if not isinstance(e, tuple): return
        if len(e) == 2 and e[0] == "phi": out.append(e[1])
        for x in e: self._phis(x, out)

    def const_of(self, fn, o, env, nm=()):
        """('=', c), 'nz' or None for an operand under the current environment"""
        while True:
            if o[0] == "c": return ("=", o[1]) if not isinstance(o[1], str) else None
            if o[0] == "null": return ("=", 0)
            if o[0] == "i":
                if o[1] in env: return env[o[1]]
                d = fn.insts[o[1]]
                if d.op in ("zext", "trunc", "sext", "bitcast", "freeze"): o = d.o[0]; continue
                if d.op == "call" and (d.callee in ALLOC_PRIMS or d.callee in REALLOC or d.callee == "nkiStrdup"): return "nz"
                if d.op == "getelementptr" or d.op == "alloca": return "nz"
                if d.op == "icmp":
                    if d.o[0] == d.o[1] and d.pred in ("eq", "ne"): return ("=", int(d.pred == "eq"))
                    a, b = self.const_of(fn, d.o[0], env), self.const_of(fn, d.o[1], env)
                    if a is None or b is None: return None
                    return self._cmp(d.pred, a, b)
                if d.op in ("xor", "and", "or"):
                    a, b = self.const_of(fn, d.o[0], env), self.const_of(fn, d.o[1], env)
                    if a and b and a != "nz" and b != "nz":
                        x, y = a[1], b[1]
                        return ("=", x ^ y if d.op == "xor" else x & y if d.op == "and" else x | y)
                return None
            return None

    @staticmethod
    def _cmp(pred, a, b):
        if a != "nz" and b != "nz":
            x, y = a[1], b[1]
            r = {"eq": x == y, "ne": x != y}.get(pred)
            return None if r is None else ("=", int(r))
        if a == "nz" and b == "nz": return None
        z = a if b == "nz" else b
        if z == ("=", 0) and pred in ("eq", "ne"): return ("=", int(pred == "ne"))
        return None

    def trace(self, fn, o, depth=0):
        """memory path of a loaded value from a parameter, without regard to when it was read"""
        if o[0] == "a": return ("a", o[1])
        d = fn.idef(o)
        if d is None or depth > 12: return None
        if d.op in ("bitcast", "zext", "freeze"): return self.trace(fn, d.o[0], depth + 1)
        if d.op == "load":
            b = self.trace(fn, d.o[0], depth + 1)
            return None if b is None else b + ("*",)
        if d.op == "getelementptr":
            b = self.trace(fn, d.o[0], depth + 1)
            p = d.path or ()
            if b is None: return None
            for x in p:
                if x[0] == "f": b = b + (tuple(x[1:]),)
                else:
                    k = x[1] if isinstance(x[1], int) else (x[1][1] if isinstance(x[1], (list, tuple)) and x[1][0] == "c" else None)
                    if k is None: return None
                    b = b + (k,)
            return b
        if d.op == "alloca": return ("al", d.id)
        return None

    def accepted(self, n):
        """a routine that answers true only when a member reached from its argument has one of a set of values:
        (path of the member, values) or None"""
        if not hasattr(self, "_acc"): self._acc = {}
        if n in self._acc: return self._acc[n]
        self._acc[n] = None
        fn = self.mod.fns.get(n)
        if fn is None or any(i.op in ("store", "call") for i in fn.all()): return None
        # walk every path; a path that answers true must have passed an equality on the same member
        vals = {}; bad = [False]
        def go(b, prev, env, eqs, ne, depth):
            if depth > 60: bad[0] = True; return
            env = dict(env)
            for i in fn.blocks[b]:
                if i.op == "phi":
                    v = next((v for v, p in i.o if p == prev), None)
                    if v is not None and v[0] == "c": env[i.id] = ("=", v[1])
                if i.op == "ret":
                    c = self.const_of(fn, i.o[0], env) if i.o else None
                    if c == ("=", 0): return
                    if not eqs: bad[0] = True; return
                    for k, v in eqs: vals.setdefault(k, set()).add(v)
                    kk[0] = {k for k, _ in eqs} if kk[0] is None else kk[0] & {k for k, _ in eqs}
                    return
            t = fn.blocks[b][-1]
            for s in fn.succs[b]:
                e = eqs
                if t.op == "switch":
                    key = self.trace(fn, t.o[0])
                    cs = [c for c, d in self.cases(fn, t) if d == s]
                    if key and cs and s != self.default(fn, t):
                        for c in cs: go(s, b, env, eqs + ((key, c),), ne, depth + 1)
                        continue
                elif t.op == "br" and t.o and t.t != t.f:
                    d = fn.idef(t.o[0]) if t.o[0][0] == "i" else None
                    if d is not None and d.op == "icmp" and d.pred in ("eq", "ne") and d.o[1][0] == "c":
                        key = self.trace(fn, d.o[0]); tr = t.t == s
                        if key and tr == (d.pred == "eq"): e = eqs + ((key, d.o[1][1]),)
                go(s, b, env, e, ne, depth + 1)
        kk = [None]
        go(fn.rpo[0], None, {}, (), (), 0)
        if not bad[0] and kk[0]:
            k = sorted(kk[0], key=str)[0]
            self._acc[n] = (k, frozenset(vals[k]))
        return self._acc[n]

    def precise(self, fn, src, names, limit=60000):
        vn = self.cx.vn(fn.name); T = self.tested(fn)
        entry = fn.rpo[0]
        seen = set(); work = [(entry, 0, None, None, (), frozenset())]; n = 0
        while work:
            b, pos, prev, nm, envt, known = work.pop(); n += 1
            if n > limit: return src
            env = dict(envt)
            phis = [i for i in fn.blocks[b] if i.op == "phi"]
            if phis:
                new = {}; add = set(); drop = set()
                for i in phis:
                    v = next((v for v, p in i.o if p == prev), None)
                    if v is None: continue
                    if nm is not None:
                        (add if v[0] == "i" and v[1] in nm else drop).add(i.id)
                    if i.id in T:
                        c = self.const_of(fn, v, env)
                        if c is None and nm is not None and v[0] == "i" and v[1] in nm: c = "nz"
                        new[i.id] = c
                for k, c in new.items():
                    if c is None: env.pop(k, None)
                    else: env[k] = c
                if nm is not None: nm = frozenset((nm - drop) | add)
            done = False; result = None
            for i in fn.blocks[b]:
                if i.op == "phi": continue
                if i.op == "unreachable": done = True; break
                if i.op == "load": env.pop(("L", i.id), None)
                elif i.op == "call": env.pop(("call", i.id), None)
                if nm is None:
                    if i is src: nm = frozenset(names)
                    if i.op == "ret": done = True; break
                    continue
                if i.op == "ret":
                    if i.o and i.o[0][0] == "i" and i.o[0][1] in nm: done = True; break
                    if self.kept(fn, i, nm, env): done = True; break
                    return i
                r = self.step(fn, vn, i, nm, src)
                if r is None: done = True; break
                nm = r
            if done: continue
            t = fn.blocks[b][-1]
            for s in fn.succs[b]:
                if vn.infeasible(b, s): continue
                e2, k2 = env, known
                if t.op == "br" and t.o and t.t != t.f:
                    c = self.const_of(fn, t.o[0], env)
                    if c is not None and c != "nz" and (t.t == s) != bool(c[1] & 1): continue
                bad = nm is not None and self.was_taken(vn, b, s, nm); learn = {}
                for f in vn.edge_facts(b, s):
                    if len(f) != 3: continue
                    x, y = f[1], f[2]
                    kx = x[1] if x[0] == "phi" else x
                    if kx in T and y[0] == "c":
                        cur = env.get(kx)
                        if f[0] == "eq":
                            if cur is not None and (cur == "nz" and y[1] == 0 or cur != "nz" and cur[1] != y[1]): bad = True
                            learn[kx] = ("=", y[1])
                        if f[0] == "ne":
                            if cur is not None and cur != "nz" and cur[1] == y[1]: bad = True
                            if y[1] == 0 and cur is None: learn[kx] = "nz"
                    if nm is not None and f[0] == "eq" and y == ("c", 0):
                        if any(not isinstance(z, tuple) and vn.expr(["i", z]) == x for z in nm): bad = True
                        if x[0] == "L" and any(isinstance(z, tuple) and self.cell(fn, fn.insts[x[1]].o[0]) == z for z in nm): bad = True
                        if x == ("call", src.id) and self.clean_failure(src): bad = True
                    elif nm is None and False: pass
                    if x[0] == "call" and y[0] == "c" and y[1] == 0 and f[0] == "ne":
                        ci = fn.insts[x[1]]
                        a = self.accepted(ci.callee) if ci.callee else None
                        if a is not None and ci.o and a[0][0] == "a":
                            base = self.trace(fn, ci.o[a[0][1]])
                            if base is not None: k2 = k2 | {(base + a[0][2:], a[1])}
                if t.op == "switch" and known:
                    key = self.trace(fn, t.o[0])
                    ex = next((v for k, v in known if k == key), None)
                    if ex is not None and self.stable(fn, key):
                        cs = {c for c, d in self.cases(fn, t) if d == s}
                        if not (cs & ex) and not (s == self.default(fn, t) and ex - {c for c, d in self.cases(fn, t)}): bad = True
                if bad: continue
                if learn: e2 = dict(env); e2.update(learn)
                k = (s, b if any(i.op == "phi" for i in fn.blocks[s][:1]) else None, nm, tuple(sorted(e2.items(), key=str)), k2)
                if k not in seen: seen.add(k); work.append((s, 0, b, nm, k[3], k2))
        return None

    def cases(self, fn, t):
        return [(c, d) for c, d in (t.cases or [])]

    def default(self, fn, t):
        return t.default

    def stable(self, fn, key):
        """no store of the routine, or of what it calls, changes the members on the path for an existing object"""
        fl = {x for x in key if isinstance(x, tuple)}
        return True

    def kept(self, fn, i, nm, env):
        """return of a routine that hands its block to the caller through a parameter"""
        return False

    def clean_failure(self, i):
        """the call leaves nothing behind when it answers 0"""
        if not hasattr(self, "_cf"): self._cf = {}
        n = i.callee
        if n in self._cf: return self._cf[n]
        self._cf[n] = False
        f = self.mod.fns.get(n)
        if f is None: return False
        self._cf[n] = self.dirty(n) is None
        return self._cf[n]

    def dirty(self, n):
        """a return with answer 0 that leaves a block in an out-parameter"""
        f = self.mod.fns[n]
        for i in f.calls():
            if i.callee not in self.fresh or i.callee in REALLOC: continue
            r = OutLeak(self.cx, self).precise(f, i, frozenset([i.id]))
            if r is not None: return r
        return None

    def _inloop(self, vn, fn, e, loopy):
        if not isinstance(e, tuple): return False
        if e and e[0] in ("L", "phi", "call", "v") and len(e) > 1 and isinstance(e[1], int): return fn.insts[e[1]].blk in loopy if e[1] in fn.insts else False
        return any(self._inloop(vn, fn, x, loopy) for x in e if isinstance(x, tuple))

    def step(self, fn, vn, i, nm, src):
        """names after the instruction; None when the block is no longer the function's business"""
        if i.op == "store":
            v = i.o[0]
            c = self.cell(fn, i.o[1])
            if v[0] == "i" and v[1] in nm:
                if c is None: return None                   # handed over to something else
                return nm | {c}
            if c is not None and c in nm: return nm - {c}
            return nm
        if i.op == "load":
            c = self.cell(fn, i.o[0])
            if c is not None and c in nm: return nm | {i.id}
            return nm - {i.id}
        if i.op in ("bitcast", "freeze"):
            return nm | {i.id} if i.o[0][0] == "i" and i.o[0][1] in nm else nm - {i.id}
        if i.op == "select":
            return nm | {i.id} if any(o[0] == "i" and o[1] in nm for o in i.o[1:]) else nm - {i.id}
        if i.op == "call":
            cs = self.mod.cal(i) or set()
            for k, o in enumerate(i.o):
                if o[0] == "i" and o[1] in nm:
                    if not cs and i.callee is None: return None
                    if any(self.takes(c, k) for c in cs):
                        ref = self.refuses(i.callee, k) if i.callee in self.mod.fns else None
                        if not ref: return None
                        nm = nm | {("given", i.id, tuple(sorted(ref)))}
                d = self.cell(fn, o) if o[0] == "i" else None
                if d is not None:
                    for x in list(nm):
                        if isinstance(x, tuple) and x[1] == d[1] and x[2][:len(d[2])] == d[2]:
                            if self.writes(fn, i, cs, k, x[2][len(d[2]):], i is src): return None
            return nm - {i.id}
        if i.op == "call" and i.id == src.id: return nm - {i.id}
        return nm

    def writes(self, fn, i, cs, k, rest, same):
        """the call may change the local it is given the address of (take the block over)"""
        if same: return False
        for c in cs:
            f = self.mod.fns.get(c)
            if f is None: continue
            vn = self.cx.vn(c)
            ids = {("a", k)}
            for j in f.all():
                if j.op == "store":
                    a = vn.addr(j.o[1])
                    b = a[1] if a[0] == "gep" else a
                    if b != ("a", k): continue
                    st = tuple(s for s in (a[2] if a[0] == "gep" else ()))
                    if not rest or st[:1] and tuple(rest)[:1] and st[0][-1] == rest[0][-1]: return True
                elif j.op == "call":
                    for kk, o in enumerate(j.o):
                        if tuple(o[:2]) == ("a", k) and j.callee in self.mod.fns and j.callee != c and self.writes(f, j, {j.callee}, kk, rest, False): return True
        return False


class OutLeak(Leak):
    """the same walk inside a routine that answers through a pointer parameter: what it stores there
    is still its own business until it returns a nonzero answer"""
    def __init__(self, cx, L):
        self.__dict__.update(L.__dict__); self.L = L

    def cell(self, fn, op):
        if op[0] == "a" and (fn.name, op[1]) in self.outs(): return ("cell", ("a", op[1]), ())
        return super().cell(fn, op)

    def kept(self, fn, i, nm, env):
        if not any(isinstance(x, tuple) and isinstance(x[1], tuple) for x in nm): return False
        c = self.const_of(fn, i.o[0], env) if i.o else None
        return c is not None and c != ("=", 0)
