"""V03: no index can reach outside the machine's tables, stacks or program memory."""
from nk.core import Broken
from nk.index import Idx, F, sh, under, inside, every_way, ALLOC_N, EXTENT, CURSOR, RESULT
from nk.regions import COUNT, MASK, CAP
from nk.stream import Stream
from nk.loops import loops
from nk.vn import strip, show
import re

META = {"level": "other", "technique": "linear bounds analysis (dominating comparisons, masks, loop induction) over every computed index into machine storage",
        "note": "Every address computation with a variable subscript in /repo/src is collected from the compiled IR (316 obligations in about 300 places; helpers are inlined). "
                "For each the rule takes the storage's recorded extent (count, capacity, mask + 1, fixed size, or the count passed to the allocation) and shows 0 <= subscript < extent "
                "from the comparisons that hold there (each path separately where growth happens on one of them), masks, remainders and loop induction; save and load modes of the stream functions are analysed separately, "
                "and subscripts that are parameters become obligations of every caller. Every store of an extent that goes with a (re)allocation is compared with the count allocated; the compiler's write positions may only step over a place shown to be inside; "
                "numbers handed out for native functions are below their count. "
                "Assumed: extent fields named by path keep their value between test and use (who may shrink them is G02/M06); an entry's record of its own slot (string, object, hole index) is right (G02); "
                "arrays and positions passed in by the host through nkx* functions are as large as it says; text buffers are C04's. 32-bit sums of extents are taken not to wrap except where the code relies on a test of it.",
        "explains": "A dropped mask, an off-by-one comparison, a count raised past the allocation, a search that stops one late or a table grown by less than recorded leaves a subscript or an extent without a proof and is reported at that line."}


def is_var(s): return s[0] != "f" and strip(s[-1])[0] != "c"


def check(cx, tier):
    W = World(cx)
    for n, fn in sorted(cx.mod.fns.items()):
        for i, own, k in W.sites(fn):
            W.site(fn, i, own, k)
        W.rooms(fn)
        W.cursors(fn)
    W.numbers()
    cx.need("index", 100); cx.need("extent", 10); cx.need("cursor", 3)


class World:
    def __init__(self, cx):
        self.cx, self.mod = cx, cx.mod
        S = self.S = Stream(cx); self.modes = {}
        for i in S.direct:
            e = cx.vn(i.fn.name).expr(i.o[-1])
            if e[0] == "a": self.modes.setdefault(i.fn.name, set()).add(e[1])
        ch = True
        while ch:
            ch = False
            for n, ms in list(self.modes.items()):
                for c in self.mod.callers.get(n, ()):
                    if c.callee != n: continue
                    for m in list(ms):
                        e = cx.vn(c.fn.name).expr(c.o[m])
                        if e[0] == "a" and e[1] not in self.modes.setdefault(c.fn.name, set()): self.modes[c.fn.name].add(e[1]); ch = True
        self._ix = {}; self.skipped = []

    def views(self, fn):
        if fn.name not in self._ix:
            ms = self.modes.get(fn.name, ())
            self._ix[fn.name] = [Idx(self.cx, self.cx.vn(fn.name), (m, t)) for m in ms for t in (False, True)] if len(ms) == 1 else [Idx(self.cx, self.cx.vn(fn.name))]
            for ix in self._ix[fn.name]: ix.hyps += self.handed(ix)
        return self._ix[fn.name]

    def callers(self, ix):
        """(call, view of the calling function) for every call of ix's function in ix's mode; None when unknown"""
        fn = ix.fn; out = []
        for c in self.mod.callers.get(fn.name, ()):
            if c.callee != fn.name: return None
            for v in self.views(c.fn):
                if c.blk not in v.live: continue
                if ix.mode:
                    e = v.vn.expr(c.o[ix.mode[0]])
                    if e[0] == "c":
                        if (e[1] != 0) != ix.mode[1]: continue
                    elif v.mode and e == ("a", v.mode[0]):
                        if v.mode[1] != ix.mode[1]: continue
                out.append((c, v))
        return out

    def handed(self, ix):
        """what every caller passes: a parameter that is always a field of what another parameter points to"""
        fn = ix.fn; out = []
        if not ix.mode: return out
        cs = self.callers(ix)
        if not cs: return out
        for m in range(len(cs[0][0].o)):
            same = None
            for c, v in cs:
                f = v.form(v.vn.expr(c.o[m]))
                r = None
                if f.c == 0 and len(f.t) == 1:
                    (a, k), = f.t.items()
                    if k == 1 and a[0] == "ld" and a[1][0] == "gep" and a[1][1][0] == "a":
                        q = [j for j, o in enumerate(c.o) if v.vn.expr(o) == a[1][1]]
                        if q: r = ("ld", ("gep", ("a", q[0]), a[1][2]))
                if r is None or same not in (None, r): same = None; break
                same = r
            if same: g = F({("a", m): 1, same: -1}); out += [g, F().add(g, -1)]
        return out

    # ------------------------------------------------------------ extents
    def fixed(self, steps):
        if steps and steps[-1][0] == "f":
            g = re.search(r"\[(\d+)\s*[x\]]", self.mod.ftype(steps[-1][1], steps[-1][2]) or "")
            if g: return int(g.group(1))

    def extents(self, ix, base, steps, es, depth=0):
        """[(form, unit)]: each bounds the index into the array at base+steps; None when it is no storage this rule knows"""
        vn, fn = ix.vn, ix.fn
        if steps:
            n = self.fixed(steps)
            return [(F({}, n), 1)] if n else None
        b = strip(base)
        if b[0] == "L":
            a = vn.addr(fn.insts[b[1]].o[0]); st = list(a[2])
            if not st or st[-1][0] != "f": return None
            k = st[-1][1:3]
            if k not in COUNT and k not in MASK and len(st) >= 2 and st[-2][0] == "f" and st[-2][1:3] in COUNT: st = st[:-1]; k = st[-1][1:3]
            out = []
            at = lambda f: F({("ld", sh(vn, ("gep", a[1], tuple(st[:-1]) + (("f",) + f,)))): 1})
            for m in (COUNT, CAP, EXTENT):
                if k in m: out.append((at(m[k]), 1))
            if k in MASK: out.append((at(MASK[k]).plus(1), 1))
            return out or None
        if b[0] == "call": return self.room(ix, fn.insts[b[1]])
        if b[0] == "phi" and depth < 3:
            out = None
            for v, p in ix.incoming(fn.insts[b[1]]):
                e = vn.expr(v)
                if e == ("c", 0) or e == b or e[0] in ("null", "undef"): continue
                r = self.extents(ix, e, (), es, depth + 1)
                if r is None: return None
                ks = {(x[0].key(), x[1]): x for x in r}
                out = ks if out is None else {k: x for k, x in out.items() if k in ks}
            return list(out.values()) if out else None
        if b[0] == "a" and depth < 3:
            cs = self.callers(ix)
            if not cs: return None
            out = None
            for c, v in cs:
                e = v.vn.expr(c.o[b[1]])
                if e[0] == "null" or e == ("c", 0): continue
                r = self.extents(v, e, (), es, depth + 1)
                if r is None: return None
                ps = {m for m, o in enumerate(c.o) if o[0] != "null" and any(x[1] == 1 and v.form(v.vn.expr(o)).key() == x[0].key() for x in r)}
                out = ps if out is None else out & ps
            return [(F({("a", m): 1}), 1) for m in out] if out else None
        return None

    def room(self, ix, i):
        vn = ix.vn
        if i.callee in ALLOC_N:
            out = [ix.form(vn.expr(o)) for o in i.o[-2:] if vn.expr(o)[0] != "c"] or [ix.form(vn.expr(i.o[-1]))]
            return [(f, 1) for f in out]
        if i.callee in ("nkiMalloc_real", "nkiMalloc") and self.es: return [(ix.form(vn.expr(i.o[-1])), self.es)]
        return None

    def sites(self, fn):
        vn = self.cx.vn(fn.name)
        for i in fn.all():
            if i.op != "getelementptr": continue
            own = vn._steps(i.path)
            if not any(is_var(s) for s in own): continue
            x0 = [x for x in i.path if x[0] == "x"][0]
            if x0[2] == "i8" and len(x0) == 3: continue
            if not [u for u in fn.uses[i.id] if u.op != "icmp"]: continue
            yield i, own, next(j for j, s in enumerate(own) if is_var(s))

    def site(self, fn, i, own, k):
        cx, mod = self.cx, self.mod; vn = cx.vn(fn.name)
        base = vn.expr(i.o[0]); pre = tuple(own[:k])
        if base[0] == "gep" and not pre and base[2] and base[2][-1][0] == "f": base, pre = base[1], base[2]
        xs = [x for x in i.path if x[0] == "x"]; kx = [q for q, x in enumerate(own) if x[0] != "f"].index(k)
        idx = own[k][-1]; bad = None; self.es = {"i32": 4, "ptr": 8, "i16": 2, "i64": 8}.get(xs[kx][2])
        for ix in self.views(fn):
            if i.blk not in ix.live: continue
            ext = [(F({}, xs[kx][3]), 1)] if len(xs[kx]) > 3 else self.extents(ix, base, pre, 0)
            if ext is None:
                self.skipped.append(i); return
            if not self.shown(ix, i, idx, ext, base): bad = ix; break
        cx.ok("index")
        if bad is not None:
            cx.bad("index", i, "index %s of %s%s" % (show(vn, idx), show(vn, base), "" if not bad.mode else " while saving" if bad.mode[1] else " while loading"), show(vn, vn.addr(["i", i.id]))[:60])

    def shown(self, ix, i, idx, ext, base):
        if inside(ix, idx, ext, i.blk): return True
        if self.block(ix, i, idx, ext): return True
        vn, fn = ix.vn, ix.fn; grown = []
        b = strip(base)
        if b[0] == "L":
            at = sh(vn, vn.addr(fn.insts[b[1]].o[0]))
            for s in fn.all():
                if s.op == "store" and sh(vn, vn.addr(s.o[1])) == at and vn.expr(s.o[0])[0] == "call":
                    c = fn.insts[vn.expr(s.o[0])[1]]; r = self.room(ix, c)
                    if r: grown.append((c, r))
        if every_way(ix, i, idx, ext, grown): return True
        e = strip(idx)
        if e[0] == "phi":
            d = fn.insts[e[1]]
            # the value that flows in on each way, at the place it comes from
            if all(ix.dead_edge(p, d.blk) or inside(ix, vn.expr(v), ext, (p, d.blk)) or any(inside(ix, vn.expr(v), r, c.blk) and fn.dominates(c, fn.blocks[p][-1]) for c, r in grown)
                       or every_way(ix, fn.blocks[p][-1], vn.expr(v), ext, grown) for v, p in ix.incoming(d)): return True
        if self.passed(ix, i, idx, ext): return True
        # one less than something that was counted up on every way here
        f = ix.form(e)
        if f.c == -1 and len(f.t) == 1 and list(f.t.values()) == [1]:
            a = next(iter(f.t))
            if a[0] == "ld" and self.raised(ix, a, i): 
                h = F({a: -1}, 1); ix.hyps.append(h)
                try: return inside(ix, idx, ext, i.blk) or any(inside(ix, idx, r, c.blk) and fn.dominates(c, i) for c, r in grown) 
                finally: ix.hyps.remove(h)
        return self.paired(ix, e, ext)

    def raised(self, ix, a, i):
        """every way to i counts the field at a up (here or in a function called)"""
        fn, vn = ix.fn, ix.vn; P = self.cx.paths(fn)
        def up(j):
            if j.op == "store" and ("ld", sh(vn, vn.addr(j.o[1]))) == a: f = ix.form(vn.expr(j.o[0])); return f.key() == F({a: 1}, 1).key()
            if j.op == "call" and j.callee in self.mod.fns and a[1][0] == "gep":
                q = [m for m, o in enumerate(j.o) if o[0] in ("a", "i") and sh(vn, vn.expr(o)) == a[1][1]]
                return bool(q) and self.raises(j.callee, q[0], a[1][2])
            return False
        # a parameter every caller fills is not null
        full = set()
        cs = self.mod.callers.get(fn.name, ())
        for m in range(len(cs[0].o) if cs else 0):
            if all(c.callee == fn.name and c.o[m][0] == "i" and (c.fn.idef(c.o[m]) is None or self.cx.vn(c.fn.name).expr(c.o[m])[0] in ("al", "gep")) for c in cs): full.add(m)
        def never(p, b): return (p, b) in ix.dead or any(len(f) == 3 and f[0] == "eq" and f[1][0] == "a" and f[1][1] in full and f[2] == ("c", 0) for f in vn.edge_facts(p, b))
        return P.escape(None, lambda j: j is i, stop=up, stop_edge=never) is None

    def raises(self, name, q, steps):
        key = (name, q, steps)
        if not hasattr(self, "_up"): self._up = {}
        if key not in self._up:
            self._up[key] = False
            fn = self.mod.fns[name]; ix = Idx(self.cx, self.cx.vn(name)); a = ("ld", ("gep", ("a", q), steps))
            rets = [i for i in fn.all() if i.op == "ret"]
            self._up[key] = bool(rets) and all(self.raised(ix, a, r) for r in rets)
        return self._up[key]

    def paired(self, ix, e, ext):
        """counted first, filled second: both passes walk the same list the same way"""
        fn, vn = ix.fn, ix.vn
        if e[0] != "phi": return False
        me = self.walk(ix, e)
        if me is None: return False
        for N, un in ext:
            if un == 1 and N.c == 0 and len(N.t) == 1:
                a = next(iter(N.t))
                if a[0] == "phi" and N.t[a] == 1 and a != e and self.walk(ix, a) == me: return True
        return False

    def walk(self, ix, e):
        """(where the list starts, the link followed) for a count of a list's entries, one for each"""
        fn, vn = ix.fn, ix.vn; d = fn.insts[e[1]]; h = d.blk
        body = next((b for x, b in loops(fn) if x == h), None)
        if body is None: return None
        for v, p in d.o:
            if p in body:
                f = ix.form(vn.expr(v))
                if f.key() != F({e: 1}, 1).key(): return None
            elif vn.expr(v) != ("c", 0): return None
        out = [(p, b) for p in body for b in fn.succs[p] if b not in body]
        if len(out) != 1 or out[0][0] != h: return None
        for q in fn.blocks[h]:
            if q.op != "phi" or q.ty != "ptr": continue
            x = ("phi", q.id)
            if not any(len(f) == 3 and f[0] == "eq" and f[1] == x and f[2] == ("c", 0) for f in vn.edge_facts(*out[0])): continue
            st = {sh(vn, vn.expr(v)) for v, p in q.o if p not in body}; nx = set()
            for v, p in q.o:
                if p not in body: continue
                y = vn.expr(v)
                if y[0] != "L": return None
                a = vn.addr(fn.insts[y[1]].o[0])
                if a[1] != x: return None
                nx.add(a[2])
            if len(st) == 1 and len(nx) == 1: return (st.pop(), nx.pop())
        return None

    def block(self, ix, i, idx, ext):
        """the place is where a block copy starts: the whole block has to fit"""
        fn, vn = ix.fn, ix.vn
        us = [u for u in fn.uses[i.id] if u.op != "icmp"]
        for u in us:
            if u.op != "call" or u.callee not in ("nkiMemcpy", "nkiMemset", "nkiMemmove") and not (u.callee or "").startswith("llvm.mem"): return False
            n = vn.expr(u.o[2]); es = i.esz if hasattr(i, "esz") else None
            f = ix.form(n); es = es or max([abs(v) for v in f.t.values()] or [1])
            if not any(un == 1 and under(ix, idx, F({k: v * es for k, v in N.t.items()}, N.c * es), u.blk, es, f) for N, un in ext): return False
        return bool(us)

    def passed(self, ix, i, idx, ext, depth=0):
        """the index is a parameter: every caller has to pass one that is inside"""
        f = ix.form(idx)
        if len(f.t) != 1 or f.c: return False
        (a, k), = f.t.items()
        if a[0] != "a" or k != 1 or depth > 2: return False
        cs = self.callers(ix)
        if not cs: return False
        for c, v in cs:
            if c.fn.name.startswith("nkx"): continue            # the host's own numbers
            if v.vn.expr(c.o[a[1]])[0] == "c": return False
            e2 = []
            for N, un in ext:
                t = {}
                for x, q in N.t.items():
                    y = self.rebase(x, c, v)
                    if y is None: t = None; break
                    t[y] = q
                if t is not None: e2.append((F(t, N.c), un))
            if not e2 or not inside(v, v.vn.expr(c.o[a[1]]), e2, c.blk) and not self.passed(v, c, v.vn.expr(c.o[a[1]]), e2, depth + 1): return False
        return True

    def rebase(self, x, c, v):
        """a place named from the callee's parameters, named from the caller's"""
        if x[0] != "ld" or x[1][0] != "gep": return None
        b = x[1][1]
        if b[0] == "ld":
            y = self.rebase(b, c, v)
            return y and ("ld", ("gep", y, x[1][2]))
        if b[0] != "a": return None
        e = sh(v.vn, v.vn.expr(c.o[b[1]]))
        if e[0] == "gep": return ("ld", ("gep", e[1], e[2] + x[1][2]))
        return ("ld", ("gep", e, x[1][2]))

    # ------------------------------------------------------------ the recorded extents
    def rooms(self, fn):
        """an array gets new storage: what is recorded as its extent afterwards is no more than there is room for"""
        cx = self.cx; vn = cx.vn(fn.name)
        for s in fn.all():
            if s.op != "store": continue
            e = strip(vn.expr(s.o[0]))
            if e[0] != "call" or fn.insts[e[1]].callee not in ALLOC_N: continue
            a = vn.addr(s.o[1]); st = list(a[2])
            if not st or st[-1][0] != "f": continue
            k = st[-1][1:3]
            if k not in COUNT and k not in MASK and len(st) >= 2 and st[-2][0] == "f" and st[-2][1:3] in COUNT: st = st[:-1]; k = st[-1][1:3]
            for m in (COUNT, CAP, MASK):
                if k in m: self.extent(fn, vn, s, fn.insts[e[1]], sh(vn, ("gep", a[1], tuple(st[:-1]) + (("f",) + m[k],))), 1 if m is MASK else 0, m[k])

    def extent(self, fn, vn, s, c, place, plus, f):
        cx = self.cx; P = cx.paths(fn)
        for ix in self.views(fn):
            if s.blk not in ix.live: continue
            ix.exact = True; ix._rep = {}
            try:
                C = [ix.form(vn.expr(o)) for o in c.o[-2:] if vn.expr(o)[0] != "c"] or [ix.form(vn.expr(o)) for o in c.o[-2:]]
                st = [t for t in fn.all() if t.op == "store" and t.blk in ix.live and sh(vn, vn.addr(t.o[1])) == place]
                at = sh(vn, vn.addr(s.o[1])); arr = [t for t in fn.all() if t.op == "store" and t is not s and sh(vn, vn.addr(t.o[1])) == at]
                last = [t for t in st if P.escape(t, lambda j: j.op == "ret", stop=lambda j: j in st, stop_edge=ix.gate) and (P.escape(s, lambda j: j is t, stop=lambda j: j in arr, stop_edge=ix.gate) or P.escape(t, lambda j: j is s, stop=lambda j: j in arr, stop_edge=ix.gate))]
                cx.ok("extent")
                for t in last:
                    v = ix.form(vn.expr(t.o[0])).plus(plus)
                    if not any(ix.le(v, s.blk, x) or ix.le(v, t.blk, x) for x in C) and not (not fn.can_reach(s, t) and self.asked(ix, c, place, plus, st)): cx.bad("extent", t, "%s is set beyond what was allocated" % f[1], fn.name + "/" + f[1]); break
                else:
                    # where it is not set, the storage was sized by it
                    if not P.escape(None, lambda j: j is s, stop=lambda j: j in st, stop_edge=ix.gate) or not P.escape(s, lambda j: j.op == "ret", stop=lambda j: j in st, stop_edge=ix.gate): continue
                    if not self.asked(ix, c, place, plus, st) and not self.kept(ix, C, place, plus, s) and not self.given(ix, C, place, plus): cx.bad("extent", s, "storage is replaced and %s is not set to go with it" % f[1], fn.name + "/keep/" + f[1])
            finally: ix.exact = False; ix._rep = {}

    def asked(self, ix, c, place, plus, st):
        """the size asked for is read from the extent, which is not set again until then"""
        fn, vn = ix.fn, ix.vn; P = self.cx.paths(fn)
        for o in c.o[-2:]:
            d = fn.idef(o); q = 0
            while d is not None and d.op in ("add", "zext", "sext") :
                if d.op == "add":
                    if d.o[1][0] != "c": break
                    q += d.o[1][1]
                d = fn.idef(d.o[0])
            if d is None or d.op != "load" or sh(vn, vn.addr(d.o[0])) != place or q < plus: continue
            if not any(P.escape(d, lambda j: j is t, stop=lambda j: j is c) and fn.can_reach(t, c) for t in st): return True
        return False

    def given(self, ix, C, place, plus):
        """the size is a parameter: every caller has set the extent to it"""
        for f in C:
            if len(f.t) != 1 or f.c != plus: continue
            a = next(iter(f.t)); cs = self.callers(ix)
            if a[0] != "a" or not cs: continue
            ok = True
            for c, v in cs:
                y = self.rebase(("ld", place), c, v)
                g = v.form(v.vn.expr(c.o[a[1]]))
                if y is None or not any(h.key() in (F({y: 1}).add(g, -1).key(), g.add(F({y: 1}), -1).key()) for h in v.stored(c.blk)): ok = False
            if ok: return True
        return False

    def kept(self, ix, C, place, plus, s):
        ix.exact = False
        try: return any(ix.le(F({("ld", place): 1}, plus), s.blk, x) for x in C)
        finally: ix.exact = True

    def cursors(self, fn):
        """where the compiler writes next is moved on only past a place that is inside"""
        cx = self.cx; vn = cx.vn(fn.name)
        for s in fn.all():
            if s.op != "store": continue
            a = vn.addr(s.o[1])
            if not a[2] or a[2][-1][0] != "f" or a[2][-1][1:3] not in CURSOR: continue
            v, m = CURSOR[a[2][-1][1:3]]; pre = a[2][:-1]
            cell = ("ld", sh(vn, a)); N = F({("ld", sh(vn, ("gep", ("ld", ("gep", a[1], pre + (("f",) + v,))), (("f",) + m,)))): 1}, 1)
            ix = self.views(fn)[0]; f = ix.form(vn.expr(s.o[0]))
            cx.ok("cursor")
            if f.triv() and not f.t: continue
            if f.key() == F({cell: 1}, 1).key():
                grown = []
                for c in fn.all():
                    if c.op == "call" and c.callee in ALLOC_N:
                        r = self.room(ix, c)
                        if r: grown.append((c, r))
                if inside(ix, vn.expr(s.o[0])[1] if False else self.before(ix, s), [(N, 1)], s.blk) or every_way(ix, s, self.before(ix, s), [(N, 1)], grown): continue
            elif len(f.t) == 1 and f.c == 0 and next(iter(f.t))[0] == "a" and fn.name.startswith(("nkx", "nkiCompilerClearRepl")): continue
            elif under(ix, vn.expr(s.o[0]), N.plus(1), s.blk): continue
            cx.bad("cursor", s, "%s may be moved beyond the end of what it writes to" % a[2][-1][2], fn.name + "/" + a[2][-1][2])

    def before(self, ix, s):
        e = strip(ix.vn.expr(s.o[0]))
        return e[2] if e[0] == "add" and e[1][0] == "c" else e[1] if e[0] == "add" else e

    # ------------------------------------------------------------ numbers handed out
    def numbers(self):
        """functions whose result is taken for a valid number: what they put into it is below the count"""
        cx, mod = self.cx, self.mod; todo = [(n, q, f) for n, (q, f) in RESULT.items()]; seen = set()
        while todo:
            n, q, f = todo.pop()
            if n in seen or n not in mod.fns: continue
            seen.add(n); fn = mod.fns[n]; vn = cx.vn(n); ix = Idx(cx, vn)
            place = ("gep", ("a", q), (("f",) + f,))
            for s in fn.all():
                if s.op != "store": continue
                a = vn.addr(s.o[1])
                if a[1][0] != "al" or not a[2] or a[2][-1] != ("f", "NKVMExternalFunctionID", "id"): continue
                e = strip(vn.expr(s.o[0])); cx.ok("number")
                if e[0] == "c": continue
                if e[0] == "call":
                    c = fn.insts[e[1]]
                    if c.callee in mod.fns:
                        z = [j for j, o in enumerate(c.o) if vn.expr(o) == ("a", q)]
                        if z: todo.append((c.callee, z[0], f))
                        continue
                ix.exact = True
                try:
                    v = ix.form(e)
                    if any(v.key() == ix.form(("L", i.id)).plus(1).key() for i in fn.all() if i.op == "load" and vn.addr(i.o[0]) == a): continue      # a search counting through them
                    N = [ix.form(vn.expr(t.o[0])) for t in fn.all() if t.op == "store" and vn.addr(t.o[1]) == place and fn.dominates(t, s)]
                    N += [ix.form(("L", t.id)) for t in fn.all() if t.op == "load" and vn.addr(t.o[0]) == place and vn.expr(["i", t.id]) == ("L", t.id) and fn.dominates(t, s)]
                    if any(ix.le(v.plus(1), s.blk, x) for x in N): continue
                    if not all(a[0] == "L" and vn.addr(fn.insts[a[1]].o[0]) == place for a in v.t): continue           # not made from the count
                finally: ix.exact = False
                cx.bad("number", s, "the number handed out is not below the count", n + "/number")
        cx.need("number", 3)
