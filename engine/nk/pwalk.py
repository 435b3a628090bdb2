"""Path-sensitive order analysis of one function: every path is followed with the contents of the
tracked locations (local variables whose address is taken, chosen fields) and the order facts
(<=, <, ==, !=) the branches establish.  No values are computed beyond constants; joins are avoided
by keeping distinct states apart."""
from .vn import NEG, lin

BIN = ("add", "sub", "and", "or", "xor", "mul", "shl", "lshr", "udiv", "urem")


class State:
    __slots__ = ("env", "mem", "facts", "marks")
    def __init__(s, env, mem, facts, marks): s.env = env; s.mem = mem; s.facts = facts; s.marks = marks
    def copy(s): return State(dict(s.env), dict(s.mem), set(s.facts), set(s.marks))
    def key(s, live):
        m = tuple(sorted(s.mem.items(), key=repr)); f = tuple(sorted(s.facts, key=repr))
        e = tuple(sorted(((k, v) for k, v in s.env.items() if k in live), key=repr))
        return (m, f, e, tuple(sorted(s.marks, key=repr)))


class PWalk:
    def __init__(self, cx, fn, fields=(), invariants=None, limit=6000):
        self.cx = cx; self.fn = fn; self.vn = cx.vn(fn.name); self.fields = set(fields)
        self.inv = invariants or (lambda pw, st, fresh: ())
        self.limit = limit; self.relevant = None
        self.allocas = {i.id for i in fn.all() if i.op == "alloca"}
        self.live = {}
        # SSA values needed outside the block that defines them
        for i in fn.all():
            if any(u.blk != i.blk or u.op == "phi" for u in fn.uses[i.id]): self.live[i.id] = 1

    # locations
    def loc(self, op):
        a = self.vn.addr(op)
        f = self.vn.lastf(a)
        if f and (f[1], f[2]) in self.fields: return ("f", f[1], f[2])
        if a[1][0] == "al" and a[1][1] in self.allocas:
            return ("al", a[1][1], tuple(s for s in a[2]))
        return None

    def run(self, visit, start_facts=()):
        fn = self.fn
        st = State({}, {}, set(), set())
        for f in self.fields: st.mem[("f",) + f] = ("m", "f") + f
        for x in self.inv(self, st, "entry"): st.facts.add(x)
        work = [(None, 0, st)]; seen = set(); n = 0
        self.ends = []
        while work:
            p, b, st = work.pop()
            n += 1
            if n > self.limit: return False
            # phis
            if p is not None:
                new = {}
                for i in fn.blocks[b]:
                    if i.op != "phi": break
                    for v, q in i.o:
                        if q == p: new[i.id] = self.val(v, st)
                if fn.dominates(fn.blocks[b][0], fn.blocks[p][-1]):
                    # around a loop: nothing is known about a value that changed
                    for i in fn.blocks[b]:
                        if i.op == "phi" and new[i.id] != st.env.get(i.id): self.fresh(i, st); new.pop(i.id)
                st.env.update(new)
            dead = False
            for i in fn.blocks[b]:
                if i.op == "phi": continue
                r = self.step(i, st, visit)
                if r is False: dead = True; break
            if dead: continue
            t = fn.blocks[b][-1]
            for s in dict.fromkeys(fn.succs[b]):
                if self.vn.infeasible(b, s): continue
                s2 = st.copy()
                if not self.assume(t, s, s2): continue
                if self.relevant: s2.facts = {f for f in s2.facts if self.relevant(f)}
                s2.env = {k: v for k, v in s2.env.items() if k in self.live}
                k = (b, s, s2.key(self.live))
                if k in seen: continue
                seen.add(k)
                work.append((b, s, s2))
        return True

    def val(self, op, st):
        if op[0] == "c": return ("c", op[1])
        if op[0] in ("null", "zero", "undef"): return ("c", 0)
        if op[0] == "a": return ("a", op[1])
        if op[0] == "i":
            if op[1] in st.env: return st.env[op[1]]
            return ("v", op[1])
        return self.vn.expr(op)

    def step(self, i, st, visit):
        r = visit(i, st)
        if r is False: return False
        if i.op == "load":
            l = self.loc(i.o[0])
            if l is not None:
                if l not in st.mem: st.mem[l] = ("m",) + l
                st.env[i.id] = st.mem[l]
            else: self.fresh(i, st)
        elif i.op == "store":
            l = self.loc(i.o[1])
            if l is not None:
                st.mem[l] = self.val(i.o[0], st)
                if l[0] == "al":
                    for k in list(st.mem):
                        if k != l and k[:2] == l[:2] and (k[2][:len(l[2])] == l[2] or l[2][:len(k[2])] == k[2]): del st.mem[k]
        elif i.op in BIN:
            st.env[i.id] = fold((i.op, self.val(i.o[0], st), self.val(i.o[1], st)))
        elif i.op in ("zext", "trunc", "freeze", "bitcast", "sext"):
            v = self.val(i.o[0], st)
            w = i.ty if hasattr(i, "ty") else None
            st.env[i.id] = v if i.op in ("freeze", "bitcast") or v[0] == "c" or i.op == "zext" else (i.op, v, self.vn._width(["i", i.id]))
        elif i.op == "icmp":
            e = self.vn.expr(["i", i.id])
            st.env[i.id] = ("icmp", i.pred if hasattr(i, "pred") else e[1], self.val(i.o[0], st), self.val(i.o[1], st))
        elif i.op == "select":
            st.env[i.id] = ("select",) + tuple(self.val(x, st) for x in i.o)
        elif i.op == "call":
            self.call(i, st)
            if i.id in self.fn.uses: self.fresh(i, st)
        elif i.op in ("alloca", "getelementptr", "br", "switch", "ret", "unreachable"): pass
        else: self.fresh(i, st)
        return None

    def fresh(self, i, st):
        v = ("v", i.id)
        st.facts = {f for f in st.facts if not mentions(f, v)}
        for k, x in list(st.mem.items()):
            if mentions(x, v): st.mem[k] = ("o", i.id, k)
        for k, x in list(st.env.items()):
            if k != i.id and mentions(x, v): st.env[k] = ("o", i.id, k)
        st.env[i.id] = v

    def call(self, i, st):
        c = i.callee or ""
        if c.startswith("llvm.dbg") or c.startswith("llvm.lifetime"): return
        # locals whose address is passed on
        hit = set()
        for o in i.o:
            a = self.vn.addr(o) if o[0] in ("i", "cgep") else None
            if a and a[0] == "gep" and a[1][0] == "al":
                hit |= {k for k in st.mem if k[0] == "al" and k[1] == a[1][1]} | {("al", a[1][1], tuple(a[2]))}
        wl = self.vn.ms.call_locs_full(self.fn, i) if not c.startswith("llvm.") else []
        fh = {("f",) + f for f in self.fields if any(self.vn.loc_alias(w, ("f",) + f) for w in wl or [])}
        if hit or fh:
            for k in hit | fh:
                nv = ("k", i.id, k)
                st.facts = {f for f in st.facts if not mentions(f, nv)}
                st.mem[k] = nv
            if fh:
                for x in self.inv(self, st, fh): st.facts.add(x)

    def assume(self, t, s, st):
        if t.op == "br" and t.o and t.t != t.f:
            c = self.val(t.o[0], st)
            if c[0] == "c": return bool(c[1]) == (s == t.t)
            return self.cond(c, s == t.t, st)
        if t.op == "switch":
            e = self.val(t.o[0], st)
            vs = [v for v, d in t.cases if d == s]
            if e[0] == "c": return (e[1] in vs) if vs else e[1] not in [v for v, d in t.cases]
            if s != t.default and len(vs) == 1: return self.add(("eq", e, ("c", vs[0])), st)
            if s == t.default and not vs:
                for v, d in t.cases:
                    if not self.add(("ne", e, ("c", v)), st): return False
        return True

    def cond(self, c, truth, st):
        if c[0] == "icmp":
            p, a, b = c[1], c[2], c[3]
            if a[0] == "icmp" and b == ("c", 0) and p in ("eq", "ne"): return self.cond(a, truth == (p == "ne"), st)
            if not truth: p = NEG[p]
            if p in ("ugt", "uge"): p, a, b = {"ugt": "ult", "uge": "ule"}[p], b, a
            return self.add((p, a, b), st)
        if c[0] == "select":
            if c[3] == ("c", 0) and truth: return self.cond(c[1], True, st) and self.cond(c[2], True, st)
            if c[2] == ("c", 1) and not truth: return self.cond(c[1], False, st) and self.cond(c[3], False, st)
        if c[0] == "and" and truth: return self.cond(c[1], True, st) and self.cond(c[2], True, st)
        if c[0] == "or" and not truth: return self.cond(c[1], False, st) and self.cond(c[2], False, st)
        if c[0] == "c": return bool(c[1]) == truth
        if c[0] == "xor" and c[2] in (("c", 1), ("c", -1)): return self.cond(c[1], not truth, st)
        if c[0] == "v": return self.add(("ne" if truth else "eq", c, ("c", 0)), st)
        return True

    def add(self, f, st):
        p, a, b = f
        if a[0] == "c" and b[0] == "c":
            x, y = a[1] & 0xffffffff, b[1] & 0xffffffff
            return {"eq": x == y, "ne": x != y, "ult": x < y, "ule": x <= y}.get(p, True)
        if p == "eq" and self.ne(st, a, b): return False
        if p == "ne" and self.eq(st, a, b): return False
        if p == "ult" and self.le(st, b, a): return False
        if p == "ule" and self.le(st, b, a, True): return False
        st.facts.add(f)
        return True

    # queries ------------------------------------------------------------
    def eq(self, st, a, b): return a == b or lin(a) == lin(b) or ("eq", a, b) in st.facts or ("eq", b, a) in st.facts

    def ne(self, st, a, b):
        if a[0] == "c" and b[0] == "c": return a[1] & 0xffffffff != b[1] & 0xffffffff
        if ("ne", a, b) in st.facts or ("ne", b, a) in st.facts: return True
        if b[0] == "c":
            c = b[1] & 0xffffffff
            if self.low(st, a) > c or self.high(st, a) < c: return True
            return any(p == "eq" and x == a and y[0] == "c" and y[1] & 0xffffffff != c for p, x, y in st.facts)
        return self.le(st, a, b, True) or self.le(st, b, a, True)

    def low(self, st, v, seen=()):
        if v[0] == "c": return v[1] & 0xffffffff
        if v in seen: return 0
        r = 0; s2 = seen + (v,)
        for p, a, b in st.facts:
            if p == "ule" and b == v: r = max(r, self.low(st, a, s2))
            elif p == "ult" and b == v: r = max(r, self.low(st, a, s2) + 1)
            elif p == "eq" and a == v: r = max(r, self.low(st, b, s2))
            elif p == "eq" and b == v: r = max(r, self.low(st, a, s2))
        t, c = lin(v)
        if len(t) == 1:
            (x, k), = t
            if k == 1 and x != v and c >= 0x80000000:
                l = self.low(st, x, s2)
                if l >= 2**32 - c: r = max(r, l - (2**32 - c))
            elif k == 1 and x != v:
                h = self.high(st, x, s2)
                if h + c < 2**32: r = max(r, self.low(st, x, s2) + c)
        while any(p == "ne" and a == v and b == ("c", r) for p, a, b in st.facts): r += 1
        return r

    def high(self, st, v, seen=()):
        if v[0] == "c": return v[1] & 0xffffffff
        if v in seen: return 2**32 - 1
        r = 2**32 - 1; s2 = seen + (v,)
        if v[0] == "and":
            for x in v[1:]:
                if x[0] == "c": r = min(r, x[1] & 0xffffffff)
        for p, a, b in st.facts:
            if p == "ule" and a == v: r = min(r, self.high(st, b, s2))
            elif p == "ult" and a == v: r = min(r, max(self.high(st, b, s2) - 1, 0))
            elif p == "eq" and a == v: r = min(r, self.high(st, b, s2))
            elif p == "eq" and b == v: r = min(r, self.high(st, a, s2))
        while any(p == "ne" and a == v and b[0] == "c" and b[1] & 0xffffffff == r for p, a, b in st.facts): r -= 1
        return r

    def le(self, st, a, b, strict=False, seen=()):
        """a <= b (a < b) on this path"""
        if not strict and self.eq(st, a, b): return True
        if self.high(st, a) < self.low(st, b) + (0 if strict else 1): return True
        if (a, b, strict) in seen: return False
        s2 = seen + ((a, b, strict),)
        for p, x, y in st.facts:
            if p == "ult" and x == a and self.le(st, y, b, False, s2): return True
            if p == "ule" and x == a and y != a and self.le(st, y, b, strict, s2): return True
            if p == "eq" and x == a and self.le(st, y, b, strict, s2): return True
            if p == "eq" and y == a and self.le(st, x, b, strict, s2): return True
            if p == "ult" and y == b and self.le(st, a, x, False, s2): return True
            if p == "ule" and y == b and x != b and self.le(st, a, x, strict, s2): return True
        t, c = lin(a)
        if len(t) == 1:
            (x, k), = t
            if k == 1 and x != a and c >= 0x80000000 and self.low(st, x) >= 2**32 - c and self.le(st, x, b, False, s2): return True
        if a[0] == "and" and not strict:
            if any(self.le(st, x, b, False, s2) for x in a[1:]): return True
        return False


def mentions(e, v):
    if e == v: return True
    return isinstance(e, tuple) and any(mentions(x, v) for x in e if isinstance(x, tuple))


def fold(r):
    if r[1][0] == "c" and r[2][0] == "c":
        a, b = r[1][1], r[2][1]
        try: return ("c", {"add": a + b, "sub": a - b, "and": a & b, "or": a | b, "xor": a ^ b, "mul": a * b}[r[0]])
        except KeyError: return r
    if r[0] in ("add", "sub") and r[2] == ("c", 0): return r[1]
    if r[0] == "add" and r[2][0] == "c" and r[1][0] == "add" and r[1][2][0] == "c":
        return fold(("add", r[1][1], ("c", r[1][2][1] + r[2][1])))
    if r[0] == "sub" and r[2][0] == "c": return fold(("add", r[1], ("c", -r[2][1])))
    return r
