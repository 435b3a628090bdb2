"""Positions in terminated texts.

A position (base pointer, linear offset) is *inside* when it is at or before the
text's terminator.  Inside-ness is shown from the program text alone: offset 0 is
inside; a loop variable is inside when every value flowing into it is; one past an
inside position is inside where the branches taken show the character there is not
the terminator; a position bounded by the text's length is inside.  Texts are taken
not to change while they are scanned.
"""
from nk.vn import lin

LEN = {"nkiStrlen", "strlen"}
ALLOCS = {"nkiMalloc_real", "nkiMallocArray", "nkiRealloc", "nkiReallocArray", "malloc", "realloc"}
TOTEXT = {"nkiStrdup"}
M = 1 << 32


def sgn(k): return k - M if k >= M // 2 else k


def core(e):
    while e[0] in ("zext", "sext", "trunc"): e = e[1]
    return e


class Text:
    def __init__(self, cx, vn):
        self.cx = cx; self.vn = vn; self.fn = vn.fn; self.mod = cx.mod
        self.roots = {}

    # ---------------------------------------------------------------- keys
    def key(self, e):
        """pointer expression -> (base, terms, const)"""
        a = e if e[0] == "gep" else ("gep", e, ())
        off = ("c", 0)
        for s in a[2]:
            if s[0] == "f": return None
            off = ("add", off, s[1])
        b = a[1]
        if b[0] == "phi":
            r = self.root(b)
            if r is not None:
                # a loop variable stepping a pointer stands for its distance from where it started
                off = ("add", off, b); b = r
        t, c = lin(off)
        return (b, t, sgn(c))

    def root(self, phi):
        """the one pointer a pointer loop variable is derived from, or None"""
        if phi not in self.roots:
            seen = set(); out = set(); st = [phi]
            while st:
                x = st.pop()
                if x in seen: continue
                seen.add(x)
                if x[0] == "phi":
                    for v, p in self.fn.insts[x[1]].o:
                        e = self.vn.expr(v)
                        if e[0] == "gep" and any(q[0] == "f" for q in e[2]): out.add(None); continue
                        st.append(e[1] if e[0] == "gep" else e)
                else: out.add(x)
            r = out.pop() if len(out) == 1 else None
            self.roots[phi] = r if r is not None and r[0] in ("a", "L", "call", "g", "al") else None
        return self.roots[phi]

    def rel(self, e):
        """expression flowing into a loop variable: a pointer becomes its distance from its root"""
        b = e[1] if e[0] == "gep" else e
        if b[0] not in ("a", "L", "call", "g", "al", "phi"): return e
        k = self.key(e)
        if k is None: return e
        off = ("c", k[2])
        for t, c in k[1]: off = ("add", off, ("mul", ("c", c), t))
        return off

    def of_load(self, n):
        d = self.fn.insts[n]
        if d.ty != "i8": return None
        return self.key(self.vn.addr(d.o[0]))

    # ---------------------------------------------------------------- evaluation with the character at `key` being the terminator
    def ev(self, e, key, depth=0):
        """set of values e can have if the character at key is 0; None = anything"""
        if depth > 12: return None
        k = e[0]
        if k == "c": return {e[1]}
        if k == "L":
            return {0} if self.of_load(e[1]) == key else None
        if k in ("zext", "sext", "trunc"): return self.ev(e[1], key, depth + 1)
        if k == "icmp":
            a = self.ev(e[2], key, depth + 1); b = self.ev(e[3], key, depth + 1)
            if a is None or b is None:
                return None
            return {int(cmp(e[1], x, y)) for x in a for y in b}
        if k in ("and", "or", "xor", "add", "sub"):
            a = self.ev(e[1], key, depth + 1); b = self.ev(e[2], key, depth + 1)
            if k == "and" and ({0} == a or {0} == b): return {0}
            if a is None or b is None: return None
            f = {"and": lambda x, y: x & y, "or": lambda x, y: x | y, "xor": lambda x, y: x ^ y, "add": lambda x, y: x + y, "sub": lambda x, y: x - y}[k]
            return {f(x, y) & 0xff if f(x, y) in (-1, -2) else f(x, y) for x in a for y in b} if k in ("add", "sub") else {f(x, y) for x in a for y in b}
        if k == "select":
            c = self.ev(e[1], key, depth + 1)
            out = set()
            for t, x in ((1, e[2]), (0, e[3])):
                if c is None or any(bool(v) == bool(t) for v in c):
                    v = self.ev(x, key, depth + 1)
                    if v is None: return None
                    out |= v
            return out
        if k == "phi":
            d = self.fn.insts[e[1]]
            out = set()
            for v, p in d.o:
                if self.nz_edge(p, d.blk, key, depth=depth + 1): continue
                r = self.ev(self.vn.expr(v), key, depth + 4)
                if r is None: return None
                out |= r
            return out
        if k == "call":
            d = self.fn.insts[e[1]]
            f = self.mod.fns.get(d.callee)
            if not f: return None
            env = {}
            for j, o in enumerate(d.o):
                r = self.ev(self.vn.expr(o), key, depth + 1)
                if r is not None: env[j] = r
            return fold(self.cx, f, env)
        return None

    def contradicts(self, p, b, key, depth):
        """is edge p->b impossible when the character at key is 0?"""
        t = self.fn.blocks[p][-1]
        if t.op == "br" and t.o and t.t != t.f:
            r = self.ev(self.vn.expr(t.o[0]), key, depth)
            if r is None: return False
            want = b == t.t
            return not any(bool(x & 1) == want for x in r)
        if t.op == "switch":
            r = self.ev(self.vn.expr(t.o[0]), key, depth)
            if r is None: return False
            for x in r:
                d = next((dst for v, dst in t.cases if v == x), t.default)
                if d == b: return False
            return True
        return False

    def nz_edge(self, p, b, key, seen=None, depth=0):
        if depth > 12: return False
        if self.contradicts(p, b, key, depth): return True
        if any(g[0] == "ult" and self.is_len(g[2], key[0]) and self.same(g[1], key) for g in self.vn.edge_facts(p, b) if len(g) == 3): return True
        return self.nz(p, key, seen, depth)

    def same(self, e, key):
        t, c = lin(e)
        return t == key[1] and sgn(c) == key[2]

    def nz(self, b, key, seen=None, depth=0):
        """on every path to block b the character at key was found not to be the terminator"""
        seen = set() if seen is None else seen
        if b in seen: return True
        for t, c in key[1]:
            for x in atoms(t):
                if self.fn.insts[x[1]].blk == b: return False
        if key[0][0] in ("phi", "call", "L") and self.fn.insts[key[0][1]].blk == b: return False
        if b == 0 or not self.fn.preds[b]: return False
        seen.add(b)
        return all(self.nz_edge(p, b, key, seen, depth) for p in self.fn.preds[b])

    def is_len(self, e, base):
        """e is the length of the text at base, or less"""
        e = core(e)
        if e[0] == "call":
            d = self.fn.insts[e[1]]
            return d.callee in LEN and self.key(self.vn.expr(d.o[0])) == (base, frozenset(), 0)
        if e[0] == "phi":
            d = self.fn.insts[e[1]]
            return len(d.o) > 1 and all(self.is_len(self.vn.expr(v), base) or self.below_len(self.vn.expr(v), base, p, d.blk) for v, p in d.o)
        return False

    def below_len(self, e, base, p, b):
        if e[0] != "c": return False
        return any(len(f) == 3 and f[0] in ("ult", "ule") and f[1][0] == "c" and f[1][1] % M >= e[1] % M and self.is_len(f[2], base) for f in self.vn.facts_on_edge(p, b))


def cmp(p, x, y):
    if p in ("eq", "ne"): return (x == y) == (p == "eq")
    if p[0] == "u": x &= 0xffffffff; y &= 0xffffffff
    return {"gt": x > y, "ge": x >= y, "lt": x < y, "le": x <= y}[p[1:]]


def atoms(e):
    st = [e]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            if len(x) == 2 and x[0] in ("phi", "L", "call", "v") and isinstance(x[1], int): yield x
            else: st.extend(x)


def fold(cx, fn, env, budget=400, load=None):
    """possible results of a small function given sets of argument values; None = anything. load(vn, e): values of a load, if known"""
    vn = cx.vn(fn.name); out = set()
    n = [budget]

    def val(e, phis):
        k = e[0]
        if k == "c": return {e[1]}
        if k == "a": return env.get(e[1])
        if k == "L" and load: return load(vn, e)
        if k in ("zext", "sext", "trunc"): return val(e[1], phis)
        if k == "icmp":
            a, b = val(e[2], phis), val(e[3], phis)
            if a is None or b is None: return None
            return {int(cmp(e[1], x, y)) for x in a for y in b}
        if k in ("and", "or", "xor"):
            a, b = val(e[1], phis), val(e[2], phis)
            if k == "and" and (a == {0} or b == {0}): return {0}
            if a is None or b is None: return None
            return {x & y if k == "and" else x | y if k == "or" else x ^ y for x in a for y in b}
        if k == "select":
            c = val(e[1], phis); r = set()
            for t, x in ((1, e[2]), (0, e[3])):
                if c is None or any(bool(q) == bool(t) for q in c):
                    v = val(x, phis)
                    if v is None: return None
                    r |= v
            return r
        if k == "phi": return phis.get(e[1])
        if k == "call":
            d = fn.insts[e[1]]; f = cx.mod.fns.get(d.callee)
            if not f or f is fn: return None
            en = {}
            for j, o in enumerate(d.o):
                r = val(vn.expr(o), phis)
                if r is not None: en[j] = r
            return fold(cx, f, en, n[0] // 4, load)
        return None

    def walk(b, prev, phis):
        n[0] -= 1
        if n[0] < 0: return False
        phis = dict(phis)
        for i in fn.blocks[b]:
            if i.op == "phi":
                v = next((v for v, p in i.o if p == prev), None)
                r = None if v is None else val(vn.expr(v), phis)
                if r is None: phis.pop(i.id, None)
                else: phis[i.id] = r
        t = fn.blocks[b][-1]
        if t.op == "ret":
            if not t.o: return False
            r = val(vn.expr(t.o[0]), phis)
            if r is None: return False
            out.update(r); return True
        if t.op == "unreachable": return True
        if t.op == "br":
            if not t.o: return walk(t.t, b, phis)
            r = val(vn.expr(t.o[0]), phis)
            return all(walk(s, b, phis) for tr, s in ((1, t.t), (0, t.f)) if r is None or any(bool(x & 1) == bool(tr) for x in r))
        if t.op == "switch":
            r = val(vn.expr(t.o[0]), phis)
            ds = {t.default} | {d for v, d in t.cases} if r is None else {next((d for v, d in t.cases if v == x), t.default) for x in r}
            return all(walk(d, b, phis) for d in ds)
        return False

    return out if walk(0, None, {}) else None


class Scan(Text):
    """which positions are inside the text"""
    def __init__(self, cx, vn):
        Text.__init__(self, cx, vn); self.hyp = set(); self.cells = set(); self.why = None

    def facts(self, pt):
        return self.vn.facts_on_edge(*pt) if isinstance(pt, tuple) else self.vn.block_facts(pt)

    def nzat(self, pt, key):
        return self.nz_edge(pt[0], pt[1], key) if isinstance(pt, tuple) else self.nz(pt, key)

    def sub(self, key, blk, pred):
        """key with the loop variables of blk replaced by what flows in from pred"""
        base, terms, k = key
        val = {}
        for i in self.fn.blocks[blk]:
            if i.op != "phi": break
            v = next((v for v, p in i.o if p == pred), None)
            if v is None: continue
            e = self.vn.expr(v)
            val[("phi", i.id)] = self.rel(e) if i.ty == "ptr" and self.root(("phi", i.id)) is not None else e
        off = ("c", k)
        for t, c in terms:
            e = val.get(t, t)
            off = ("add", off, ("mul", ("c", c), e))
        if base in val:
            nb = val[base]
            a = nb if nb[0] == "gep" else ("gep", nb, ())
            for s in a[2]:
                if s[0] == "f": return None
                off = ("add", off, s[1])
            base = a[1]
        t, c = lin(off)
        return (base, t, sgn(c))

    def inside(self, key, pt):
        base, terms, k = key
        if k > 0:
            return self.inside((base, terms, 0), pt) and all(self.nzat(pt, (base, terms, j)) for j in range(k))
        for f in self.facts(pt):
            if len(f) == 3 and f[0] in ("ult", "ule", "eq") and self.is_len(f[2], base) and self.same(f[1], key): return True
        if k < 0: return False
        if len(terms) == 1:
            t, c = next(iter(terms))
            if c == 1 and self.is_len(t, base): return True
        h = key
        if h in self.hyp: return True
        blks = [self.fn.insts[t[1]].blk for t, c in terms if t[0] == "phi"]
        if base[0] == "phi": blks.append(self.fn.insts[base[1]].blk)
        cells = [t for t, c in terms if t[0] == "L"]
        if not terms and base[0] != "phi": return self.text(base)
        if not blks:
            if len(terms) == 1 and cells and next(iter(terms))[1] == 1: return self.cell(base, cells[0])
            return False
        b = max(blks, key=lambda x: sum(1 for y in set(blks) if y in self.fn.dom()[x]))
        if any(y not in self.fn.dom()[b] for y in blks): return False
        sav = set(self.hyp), set(self.cells)
        self.hyp.add(h)
        for p in self.fn.preds[b]:
            if self.vn.infeasible(p, b): continue
            n = self.sub(key, b, p)
            if n is None or not self.inside(n, (p, b)):
                self.hyp, self.cells = sav
                return False
        return True

    def text(self, base):
        return base[0] in ("a", "L", "call", "g") or base == ("c", 0)

    def cell(self, base, L):
        """a position kept in memory: every value ever put there must be inside"""
        a = self.vn.addr(self.fn.insts[L[1]].o[0])
        c = a[1] if not a[2] else None
        if c is None or c[0] not in ("al", "a"): return False
        if base[0] != "a": return False
        h = (base, c)
        if h in self.cells: return True
        sav = set(self.hyp), set(self.cells)
        self.cells.add(h)
        if c[0] == "a": self.cx.textpairs.add((self.fn.name, base[1], c[1]))
        ok = any(i.op == "store" and self.vn.addr(i.o[1]) == a and self.fn.dominates(i, self.fn.insts[L[1]]) for i in self.fn.all()) or c[0] == "a"
        for i in self.fn.all():
            if i.op == "store" and self.vn.addr(i.o[1]) == a:
                t, k = lin(self.vn.expr(i.o[0]))
                if not self.inside((base, t, sgn(k)), i.blk): ok = False; self.why = i
            elif i.op == "call":
                for j, o in enumerate(i.o):
                    e = self.vn.expr(o)
                    if e == c:
                        pairs = [q for q, x in enumerate(i.o) if self.vn.expr(x) == base]
                        if i.callee not in self.mod.fns or len(pairs) != 1: ok = False; self.why = i; continue
                        if not cellfn(self.cx, i.callee, pairs[0], j): ok = False; self.why = i
        if not ok: self.hyp, self.cells = sav
        return ok


def cellfn(cx, name, t, c):
    """does callee keep *arg[c] inside the text arg[t], given that it is at entry?"""
    k = (name, t, c)
    if k in cx.cellfns: return cx.cellfns[k]
    cx.cellfns[k] = True
    s = Scan(cx, cx.vn(name)); base = ("a", t); ok = True
    s.cells.add((base, ("a", c)))
    for i in s.fn.all():
        if i.op == "store" and s.vn.addr(i.o[1]) == ("gep", ("a", c), ()):
            tt, kk = lin(s.vn.expr(i.o[0]))
            if not s.inside((base, tt, sgn(kk)), i.blk): ok = False
        elif i.op == "call" and any(s.vn.expr(o) == ("a", c) for o in i.o):
            pr = [q for q, x in enumerate(i.o) if s.vn.expr(x) == base]; j = next(q for q, x in enumerate(i.o) if s.vn.expr(x) == ("a", c))
            if len(pr) != 1 or i.callee not in cx.mod.fns or not cellfn(cx, i.callee, pr[0], j): ok = False
    cx.cellfns[k] = ok
    return ok
