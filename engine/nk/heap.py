"""PWalk whose memory is every cell reached through symbolic pointers: ("ld", addr) is what addr held
on entry.  Cells of different symbolic objects are kept apart (callers state why that is right)."""
from .loops import induction
from .pwalk import PWalk, State, mentions


class Heap(PWalk):
    def __init__(self, cx, fn, keep=(), limit=20000, interest=lambda l: True, relevant=None):
        PWalk.__init__(self, cx, fn, (), None, limit)
        self.interest = interest; self.relevant = relevant
        self.keep = set(keep)        # (S,f) cells that survive calls which cannot write them

    def address(self, op, st):
        """("addr", base value, steps)"""
        if op[0] == "cgep":
            b = self.address(op[1], st); return ("addr", b[1], b[2] + tuple(tuple(s[:3]) if s[0] == "f" else ("x", ("c", s[1]) if isinstance(s[1], int) else s[1]) for s in op[2]))
        if op[0] == "i":
            d = self.fn.insts[op[1]]
            if d.op == "getelementptr":
                if op[1] in st.env and st.env[op[1]][0] == "addr": return st.env[op[1]]
                b = self.address(d.o[0], st)
                return ("addr", b[1], b[2] + self.steps(d, st))
            if d.op == "alloca": return ("addr", ("al", d.id), ())
            if d.op == "bitcast": return self.address(d.o[0], st)
            v = self.val(op, st)
            if v[0] == "addr": return v
            return ("addr", v, ())
        return ("addr", self.val(op, st) if op[0] != "g" else ("g", op[1]), ())

    def steps(self, d, st):
        out = []
        for s in d.path:
            if s[0] == "f": out.append(tuple(s[:3]))
            else:
                x = s[1]
                v = self.val(x, st) if isinstance(x, list) else ("c", x)
                if v != ("c", 0) or out: out.append(("x", v))
        return tuple(out)

    def loc(self, op, st=None): return None
    def place(self, op, st): return self.address(op, st)

    def step(self, i, st, visit):
        if i.op == "getelementptr":
            b = self.address(i.o[0], st)
            st.env[i.id] = ("addr", b[1], b[2] + self.steps(i, st))
            return visit(i, st)
        if i.op == "load":
            if visit(i, st) is False: return False
            l = self.place(i.o[0], st)
            if not self.interest(l): self.fresh(i, st); return None
            if l not in st.mem: st.mem[l] = ("ld", l)
            st.env[i.id] = st.mem[l]
            return None
        if i.op == "store":
            if visit(i, st) is False: return False
            l = self.place(i.o[1], st)
            if not self.interest(l): return None
            st.mem[l] = self.pv(i.o[0], st)
            return None
        return PWalk.step(self, i, st, visit)

    def pv(self, op, st):
        """value of an operand, pointers normalised"""
        if op[0] == "cgep" or op[0] == "i" and self.fn.insts[op[1]].op in ("getelementptr", "alloca"):
            return self.norm(self.address(op, st))
        return self.norm(self.val(op, st))

    def norm(self, v):
        return v[1] if v[0] == "addr" and not v[2] and v[1][0] != "al" else v

    def call(self, i, st):
        c = i.callee or ""
        if c.startswith("llvm.dbg") or c.startswith("llvm.lifetime") or c.startswith("llvm.assume"): return
        wl = self.vn.ms.call_locs_full(self.fn, i) if not c.startswith("llvm.") else self.vn.ms.write_locs(self.fn, i.o[0])
        passed = [self.address(o, st) for o in i.o if o[0] in ("cgep", "i")] if self.keep else []
        for k in list(st.mem) + [p for p in passed if p not in st.mem and self.interest(p)]:
            f = next((s for s in reversed(k[2]) if s[0] == "f"), None)
            l = f if f else ("raw",)
            if not self.interest(k): continue
            if any(self.vn.loc_alias(w, l) for w in wl or []):
                if f and f[1:] in self.keep and k not in passed: continue
                nv = ("k", i.id, k)
                st.facts = {x for x in st.facts if not mentions(x, nv)}
                st.mem[k] = nv


def subst(e, m):
    if not isinstance(e, tuple): return e
    if e in m: return m[e]
    r = tuple(subst(x, m) for x in e)
    return m.get(r, r)


def ops(o):
    """SSA values an operand names"""
    if not isinstance(o, (list, tuple)) or not o: return []
    if o[0] == "i": return [o[1]]
    if o[0] == "cgep": return ops(o[1]) + [x for s in o[2] if s[0] == "x" and isinstance(s[1], list) for x in ops(s[1])]
    return []


class Heap2(Heap):
    """Heap that keeps what is known across loop iterations: at a loop header the values of the header's
    variables are renamed, together with everything known about them; cells the loop writes through
    unchanging addresses are renamed too.  `events` (in st.marks, tuples) are renamed along; lost(st, ev)
    is called for events about values that can no longer be named."""
    def __init__(self, cx, fn, **kw):
        Heap.__init__(self, cx, fn, **kw)
        self.loop = {}
        for b in fn.rpo:
            for s in fn.succs[b]:
                if fn.dominates(fn.blocks[s][0], fn.blocks[b][-1]): self.loop.setdefault(s, set()).update(self._body(s, b))
        self.livein = self.liveness()
        self.ups = self.rising()
        self.stored = {}
        for h, body in self.loop.items():
            S = set()
            for b in body:
                for i in fn.blocks[b]:
                    if i.op == "store":
                        k = cx.mod.addr_field(fn, i.o[1]); S.add(("f",) + k if k else ("raw",))
                    if i.op == "call": S.add(("call", i.id))
            self.stored[h] = S

    def rising(self):
        r = set()
        for h in self.loop:
            for i in self.fn.blocks[h]:
                if i.op == "phi":
                    n = induction(self.fn, self.vn, i)
                    if n is not None and n[1] == 1: r.add(i.id)
        return r

    def liveness(self):
        fn = self.fn; use = {}; df = {}; phiuse = {}
        for b in fn.rpo:
            u = set(); d = set()
            for i in fn.blocks[b]:
                if i.op == "phi":
                    d.add(i.id)
                    for v, q in i.o:
                        for x in ops(v): phiuse.setdefault(q, set()).add(x)
                    continue
                for o in i.o:
                    for x in ops(o):
                        if x not in d: u.add(x)
                for st in i.path or ():
                    for x in ops(st[1]) if st[0] == "x" and isinstance(st[1], list) else ():
                        if x not in d: u.add(x)
                d.add(i.id)
            use[b] = u; df[b] = d
        inn = {b: set() for b in fn.rpo}; ch = True
        while ch:
            ch = False
            for b in reversed(fn.rpo):
                o = set(phiuse.get(b, ()))
                for s in fn.succs[b]: o |= inn.get(s, set())
                n = use[b] | (o - df[b])
                if n != inn[b]: inn[b] = n; ch = True
        for b in fn.rpo:      # values a phi of the successor takes from here stay visible while entering it
            pass
        return inn, phiuse

    def prune(self, b, s, st):
        inn, phiuse = self.livein
        keep = inn[s] | phiuse.get(b, set()) | {i.id for i in self.fn.blocks[s] if i.op == "phi"}
        st.env = {k: v for k, v in st.env.items() if k in keep}
        names = set()
        def syms(e):
            if not isinstance(e, tuple): return
            if len(e) == 2 and e[0] in ("v", "w", "o", "k") or e[:1] in (("w",), ("o",), ("k",)): names.add(e); 
            for x in e: syms(x)
        for v in st.env.values(): syms(v)
        for k in keep: names.add(("v", k))
        for m in st.marks: syms(m)
        def ok(e):
            if not isinstance(e, tuple): return True
            if len(e) == 2 and e[0] == "v" and isinstance(e[1], int): return e in names
            if e[:1] in (("w",), ("o",), ("k",)): return e in names or all(ok(x) for x in e[1:])
            return all(ok(x) for x in e)
        kept = {}; ch = True
        while ch:
            ch = False
            for l, v in st.mem.items():
                if l not in kept and ok(l): kept[l] = v; syms(v); ch = True
        st.mem = kept
        st.facts = {f for f in st.facts if ok(f)}

    def _body(self, h, t):
        body = {h, t}; st = [t]
        while st:
            x = st.pop()
            if x == h: continue
            for p in self.fn.preds[x]:
                if p not in body: body.add(p); st.append(p)
        return body

    def lost(self, st, ev): pass

    def steps(self, d, st):
        out = []
        for s in d.path:
            if s[0] == "f": out.append(tuple(s[:3]))
            else:
                x = s[1]
                v = self.val(x, st) if isinstance(x, list) else ("c", x)
                if v != ("c", 0) or out or isinstance(x, list) and x[0] == "i": out.append(("x", v))
        return tuple(out)

    def enter(self, p, b, st):
        """rename at a loop header"""
        fn = self.fn
        phis = [i for i in fn.blocks[b] if i.op == "phi"]
        new = {}
        for i in phis:
            for v, q in i.o:
                if q == p: new[i.id] = self.pv2(v, st)
        back = p in self.loop.get(b, ())
        if not (back and b in self.loop):
            st.env.update(new); return
        m = {}
        chg = [i.id for i in phis if new[i.id] != st.env.get(i.id)]
        for k in chg:
            if new[k][0] not in ("c", "null"): m.setdefault(new[k], ("v'", k))
        # loop-written cells
        wr = []
        for l, x in list(st.mem.items()):
            if not any(mentions(l, ("v", k)) for k in chg) and self.written(b, l):
                if x == ("w", b, l): continue
                if x[0] == "c": continue
                wr.append(l)
                m.setdefault(x, ("w'", b, l)) if x[0] != "al" else None
        old = {("v", k) for k in chg} | {("w", b, l) for l in wr}
        # counters that only go up stay above where they started
        up = set()
        for k in chg:
            if k not in self.ups: continue
            e = st.env.get(k)
            if e is not None and e != ("v", k): up.add((e, k))
            else: up |= {(f[1], k) for f in st.facts if f[0] == "ule" and f[2] == ("v", k)}
        def rn(e): return subst(e, m)
        stale = lambda e: any(mentions(e, o) for o in old)
        gone = [e for e in st.marks if isinstance(e, tuple) and stale(rn(e))]
        for e in sorted(gone, key=repr): self.lost(st, e)
        st.marks.difference_update(gone)
        mem = {}
        for l, x in st.mem.items():
            l2 = self.readdr(rn(l)); x2 = rn(x)
            if l in wr and x2[:1] != ("w'",) and stale(x2): x2 = ("w'", b, l)
            if stale(l2): continue
            if stale(x2): x2 = ("o'", b, l2)
            mem[l2] = x2
        st.mem = mem
        st.facts = {f for f in (rn(f) for f in st.facts) if not stale(f)} | {("ule", a, ("v'", k)) for a, k in up if not stale(a)}
        mk = set()
        for e in st.marks:
            if isinstance(e, tuple):
                mk.add(rn(e))
            else: mk.add(e)
        st.marks = mk
        env = {}
        for k, x in st.env.items():
            x2 = rn(x)
            if k in chg: continue
            env[k] = ("o'", b, k) if stale(x2) else x2
        for i in phis:
            env[i.id] = new[i.id] if i.id not in chg else ("v'", i.id)
        for k in chg:
            if new[k][0] in ("c", "null"): env[k] = ("v'", k)
        st.env = env
        fin = lambda e: self.prime(e)
        st.mem = {fin(l): fin(x) for l, x in st.mem.items()}
        st.facts = {fin(f) for f in st.facts}
        st.marks = {fin(e) if isinstance(e, tuple) else e for e in st.marks}
        st.env = {k: fin(x) for k, x in st.env.items()}

    def prime(self, e):
        if not isinstance(e, tuple): return e
        r = tuple(self.prime(x) for x in e)
        if r and isinstance(r[0], str) and r[0].endswith("'"): r = (r[0][:-1],) + r[1:]
        return r

    def readdr(self, l):
        """an address that became a renamed value itself"""
        if l[0] == "addr": return l
        return ("addr", l, ())

    def written(self, b, l):
        f = next((s for s in reversed(l[2]) if s[0] == "f"), None)
        k = f if f else ("raw",)
        for s in self.stored[b]:
            if s[0] == "call":
                i = self.fn.insts[s[1]]; c = i.callee or ""
                if c.startswith("llvm.dbg") or c.startswith("llvm.lifetime") or c.startswith("llvm.assume"): continue
                wl = self.vn.ms.call_locs_full(self.fn, i) if not c.startswith("llvm.") else self.vn.ms.write_locs(self.fn, i.o[0])
                if any(self.vn.loc_alias(w, k) for w in wl or []): return True
            elif s == k or s == ("raw",) and not l[2]: return True
        return False

    def pv2(self, op, st):
        """a pointer's address, with steps kept"""
        if op[0] == "cgep" or op[0] == "i" and self.fn.insts[op[1]].op in ("getelementptr", "alloca"):
            return self.norm(self.address(op, st))
        return self.norm(self.val(op, st))

    def run(self, visit, start_facts=(), st0=None):
        fn = self.fn
        st = st0 or State({}, {}, set(), set())
        work = [(None, 0, st)]; seen = set(); n = 0
        while work:
            p, b, st = work.pop()
            n += 1
            if n > self.limit: return False
            if p is not None: self.enter(p, b, st)
            dead = False
            for i in fn.blocks[b]:
                if i.op == "phi": continue
                if self.step(i, st, visit) is False: dead = True; break
            if dead: continue
            t = fn.blocks[b][-1]
            for s in dict.fromkeys(fn.succs[b]):
                if self.vn.infeasible(b, s): continue
                s2 = st.copy()
                if not self.assume(t, s, s2): continue
                if self.relevant: s2.facts = {f for f in s2.facts if self.relevant(f)}
                self.prune(b, s, s2)
                k = (b, s, s2.key(s2.env))
                if k in seen: continue
                seen.add(k)
                work.append((b, s, s2))
        return True

    def fresh(self, i, st):
        v = ("v", i.id)
        stale = [e for e in st.marks if isinstance(e, tuple) and mentions(e, v)]
        for e in sorted(stale, key=repr): self.lost(st, e)
        st.marks.difference_update(stale)
        for k in [k for k in st.mem if mentions(k, v)]: del st.mem[k]
        Heap.fresh(self, i, st)
