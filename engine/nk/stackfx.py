"""Effect of a function on the operand stack depth, per path, symbolically.

A state is (level, effects): level counts execution-context switches since
entry, effects maps a level to a linear expression (frozenset of (term, coef),
const) of the change of that context's stack depth.  Paths on which an error
is recorded are not followed: the property is about successful execution."""
from .core import Broken
from .vn import lin, state_before, strip

M = 1 << 32
ZERO = (frozenset(), 0)


def ladd(a, b, k=1):
    d = dict(a[0])
    for t, c in b[0]: d[t] = (d.get(t, 0) + k * c) % M
    return (frozenset((t, c) for t, c in d.items() if c), (a[1] + k * b[1]) % M)


def lsubst(e, f):
    """replace terms by linear expressions"""
    r = (frozenset(), e[1])
    for t, c in e[0]:
        x = f(t)
        for _ in range(1):
            r = ladd(r, x, c)
    return r


def sgn(c): return c - M if c >= M // 2 else c


def lshow(vn, e):
    from .vn import show
    s = []
    for t, c in sorted(e[0], key=repr):
        try: n = show(vn, t)
        except Exception: n = str(t)
        s.append("%+d*%s" % (sgn(c), n))
    if e[1] or not s: s.append("%+d" % sgn(e[1]))
    return " ".join(s)


ERR_SEEDS = {"nkiAddErrorEx", "nkiAddError", "nkiErrorStateSetAllocationFailFlag"}


def always_error(cx):
    """functions that record an error on every path"""
    if hasattr(cx, "_alwayserr"): return cx._alwayserr
    mod = cx.mod
    E = {s for s in ERR_SEEDS if s in mod.fns}
    ch = True
    while ch:
        ch = False
        for n, fn in mod.fns.items():
            if n in E: continue
            if not any(c in E for i in fn.calls() for c in mod.cal(i)): continue
            if cx.paths(fn).escape(None, lambda i: i.op == "ret", stop=lambda i: i.op == "call" and (i.callee in E)) is None:
                E.add(n); ch = True
    cx._alwayserr = E
    return E


class StackFx:
    def __init__(self, cx):
        self.cx = cx; self.mod = cx.mod; self.memo = {}; self.active = set()
        mod = self.mod
        self.err = always_error(cx)
        # functions that may change a stack size or the current context
        direct = set()
        for n, fn in mod.fns.items():
            for i in fn.all():
                if i.op == "store" and mod.addr_field(fn, i.o[1]) in (("NKVMStack", "size"), ("NKVM", "currentExecutionContext")): direct.add(n)
        self.direct = direct
        rel = set(direct)
        ch = True
        while ch:
            ch = False
            for n in list(rel):
                for c in mod.callers[n]:
                    if c.fn.name not in rel: rel.add(c.fn.name); ch = True
        self.rel = rel
        self.nonnull = self._nonnull()

    def _nonnull(self):
        mod = self.mod; N = set()
        ch = True
        while ch:
            ch = False
            for n, fn in mod.fns.items():
                if n in N or fn.ret != "ptr": continue
                ok = bool(fn.exits())
                for r in fn.exits():
                    if not self._nn(fn, r.o[0], N, set()): ok = False
                if ok: N.add(n); ch = True
        return N

    def _nn(self, fn, op, N, seen):
        if op[0] == "g" or op[0] == "cgep": return True
        d = fn.idef(op)
        if d is None: return False
        if d.id in seen: return True
        seen.add(d.id)
        if d.op == "phi": return all(self._nn(fn, v, N, seen) for v, b in d.o)
        if d.op == "select": return all(self._nn(fn, v, N, seen) for v in d.o[1:])
        if d.op == "alloca": return True
        if d.op == "getelementptr": return True     # an element or member address
        if d.op == "call": return d.callee in N
        return False

    # ------------------------------------------------------------ summaries
    def summary(self, name, consts=()):
        """set of (level, ((level, lin), ...)) a successful return may have; terms are callee-local"""
        k = (name, consts)
        if k in self.memo: return self.memo[k]
        if name not in self.rel: return {(0, ())}
        if k in self.active: return None      # recursion
        self.active.add(k)
        r = self._run(name, dict(consts))
        self.active.discard(k)
        self.memo[k] = r
        return r

    def _run(self, name, consts):
        r, self_ops = self.execute(name, consts)
        return {s for i, ss in r.items() for s in ss}

    def execute(self, name, consts, probe=None):
        """states at each ret; probe(inst, state) is called before each call"""
        fn = self.mod.fns[name]; vn = self.cx.vn(name)
        IN = {0: {(0, ())}}
        heads = {h for h, b in self._loops(fn)}
        hyp = {}
        self.log = log = {}
        for attempt in range(24):
            IN = {0: {(0, ())}}; rets = {}; bad = None; log.clear()
            work = [0]; done = {}
            n = 0
            while work and bad is None:
                n += 1
                if n > 4000: raise Broken("stack effect analysis of %s does not settle" % name)
                work.sort(key=lambda b: fn.rpo.index(b))
                b = work.pop(0)
                cur = frozenset(IN[b])
                new = cur - done.get(b, frozenset())
                done[b] = cur
                if not new: continue
                if len(cur) > 64: raise Broken("too many stack states in %s" % name)
                for st in new:
                    outs = {st}
                    for i in fn.blocks[b]:
                        nxt = set()
                        for s in outs:
                            if i.op == "ret": rets.setdefault(i.id, set()).add(s); continue
                            nxt |= self.step(fn, vn, i, s, consts)
                        outs = nxt
                        if not outs: break
                    for s in outs:
                        for t in fn.succs[b]:
                            if self.infeasible(fn, vn, b, t, consts): continue
                            s2 = self.enter(fn, vn, b, t, s, hyp, heads)
                            if s2 is None: bad = t; break
                            # leaving a counted loop: the counter has reached its bound
                            s2 = self.leave(fn, vn, b, t, s2)
                            o = IN.setdefault(t, set())
                            if s2 not in o:
                                o.add(s2); work.append(t)
                        if bad is not None: break
                    if bad is not None: break
                # a loop header with two different states needs a hypothesis
                for h in sorted(heads, key=fn.rpo.index):
                    if h in IN and h not in hyp and self.diverges(IN[h]):
                        outer = [h2 for h2, bd in self._loops(fn) if h in bd and h2 not in hyp and len(IN.get(h2, ())) > 1]
                        bad = min(outer, key=fn.rpo.index); break
            if bad is None: return rets, None
            c = hyp.setdefault(bad, {"k": -1})
            c["k"] += 1
            phis = [i for i in fn.blocks[bad] if i.op == "phi" and i.ty and i.ty.startswith("i") and i.ty not in ("i1", "i8")]
            if c["k"] >= len(phis):
                # not this loop's doing: look at the loops inside it
                if "tried" in c: raise Broken("the stack depth at the loop in %s (block %d) cannot be expressed" % (name, bad))
                c.pop("phi", None); c["tried"] = True
            else: c["phi"] = phis[c["k"]]
        raise Broken("the stack depth in the loops of %s cannot be expressed" % name)

    def _loops(self, fn):
        from .loops import loops
        return loops(fn)

    def diverges(self, states):
        # more states than the level structure explains: a growing counter
        by = {}
        for lv, ef in states: by.setdefault((lv, tuple(l for l, e in ef)), set()).add(ef)
        return any(len(v) > 3 for v in by.values())

    def enter(self, fn, vn, p, b, s, hyp, heads):
        h = hyp.get(b)
        if not h or "phi" not in h:
            # values defined in b are renewed: effects that mention b's phis become stale unless unchanged
            return s if b in heads else self.rename(fn, vn, p, b, s)
        phi = h["phi"]
        inc = next((v for v, q in phi.o if q == p), None)
        v = lin(vn.expr(inc))
        lv, ef = s
        d = dict(ef)
        cur = d.get(lv, ZERO)
        base = ladd(cur, v, -1)                       # depth - counter
        me = (frozenset({(("phi", phi.id), 1)}), 0)
        body = next(bd for hh, bd in self._loops(fn) if hh == b)
        if p not in body:
            h.setdefault("base", {})[lv] = base
        elif h.get("base", {}).get(lv) != base:
            return None
        d[lv] = ladd(base, me)
        return (lv, tuple(sorted(d.items())))

    def rename(self, fn, vn, p, b, s):
        """a merge that selects between values the depth is expressed in: express it in the merged value"""
        lv, ef = s
        for i in fn.blocks[b]:
            if i.op != "phi": break
            if not i.ty.startswith("i") or i.ty in ("i1", "i8"): continue
            v = next((v for v, q in i.o if q == p), None)
            if v is None: continue
            x = lin(vn.expr(v))
            if not any(t[0] == "phi" for t, c in x[0]): continue
            me = (frozenset({(("phi", i.id), 1)}), 0)
            out = []
            for l, e in ef:
                d = dict(e[0])
                if all(d.get(t) == c for t, c in x[0]) and x != me: e = ladd(ladd(e, x, -1), me)
                out.append((l, e))
            ef = tuple(out)
        return (lv, ef)

    def leave(self, fn, vn, p, b, s):
        from .loops import loops, induction
        lv, ef = s
        terms = {t for l, e in ef for t, c in e[0] if t[0] == "phi"}
        for t in terms:
            ph = fn.insts[t[1]]
            for hh, body in loops(fn):
                if hh == ph.blk and p in body and b not in body:
                    ind = induction(fn, vn, ph)
                    if not ind or ind[1] not in (1, -1): continue
                    ef2 = vn.edge_facts(p, b)
                    for f in ef2:
                        bound = None
                        if len(f) != 3: continue
                        if ind[1] == 1 and ind[0] == ("c", 0):
                            if f[0] in ("ule", "sle") and f[2] == t: bound = f[1]
                            if f[0] == "eq" and t in f[1:]: bound = f[2] if f[1] == t else f[1]
                        if bound is not None:
                            r = lin(bound)
                            s = (lv, tuple((l, lsubst(e, lambda x: r if x == t else (frozenset({(x, 1)}), 0))) for l, e in s[1]))
        return s

    def infeasible(self, fn, vn, p, b, consts):
        for f in vn.facts_on_edge(p, b) if consts or True else ():
            if len(f) != 3: continue
            if f[0] in ("eq", "ne") and f[2][0] == "c":
                x = f[1]
                if x[0] == "a" and x[1] in consts:
                    if (consts[x[1]] == f[2][1]) != (f[0] == "eq"): return True
                if f[0] == "eq" and f[2] == ("c", 0):
                    if x[0] == "call" and fn.insts[x[1]].callee in self.nonnull: return True
        # every value of an enumeration excluded
        ne = {}
        for f in vn.facts_on_edge(p, b):
            if len(f) == 3 and f[0] == "ne" and f[2][0] == "c" and f[1][0] == "L":
                k = self.mod.addr_field(fn, fn.insts[f[1][1]].o[0])
                if k == ("NKVMExecutionContext", "coroutineState"): ne.setdefault(f[1], set()).add(f[2][1])
        vals = {v for k, v in self.mod.enums.get("NKVMCoroutineState", [])}
        return any(vals <= s for s in ne.values()) if vals else False

    # --------------------------------------------------------------- steps
    def step(self, fn, vn, i, s, consts):
        mod = self.mod
        lv, ef = s
        if i.op == "store":
            k = mod.addr_field(fn, i.o[1])
            if k == ("NKVM", "currentExecutionContext"):
                e = vn.expr(i.o[0])
                up = self._is_parent(vn, e)
                return {((lv - 1) if up else (lv + 1), ef)}
            if k == ("NKVMStack", "size"):
                a = vn.addr(i.o[1])
                if not self._current(vn, a): return {s}
                cur = state_before(vn, i).get(a)
                new = lin(vn.expr(i.o[0]))
                if cur is None: return {self._bump(s, (frozenset({(("stackset", i.id), 1)}), 0))}
                d = ladd(new, lin(cur), -1)
                return {self._bump(s, d)}
            return {s}
        if i.op == "unreachable": return set()
        if i.op != "call": return {s}
        outs = set()
        self.log.setdefault(i.id, set()).add(s)
        for c in mod.cal(i):
            if c in self.err or c in ("__assert_fail", "abort", "exit") or "longjmp" in c: continue
            if c.startswith("cb:") or c not in mod.fns or c not in self.rel or c in NEUTRAL:
                outs.add(s); continue
            cc = tuple((k, o[1]) for k, o in enumerate(i.o) if o[0] == "c")
            sm = self.summary(c, cc)
            if sm is None: outs.add(s); continue
            for l2, e2 in sm:
                d = dict(ef)
                for l, x in e2:
                    x = lsubst(x, lambda t: self._map(vn, i, t))
                    d[lv + l] = ladd(d.get(lv + l, ZERO), x)
                outs.add((lv + l2, tuple(sorted((l, x) for l, x in d.items() if x != ZERO))))
        return outs

    def _map(self, vn, call, t):
        if t[0] == "a" and t[1] < len(call.o): return lin(vn.expr(call.o[t[1]]))
        return (frozenset({(("in", call.id, t), 1)}), 0)

    def _bump(self, s, d):
        lv, ef = s
        x = dict(ef); x[lv] = ladd(x.get(lv, ZERO), d)
        return (lv, tuple(sorted((l, e) for l, e in x.items() if e != ZERO)))

    def _is_parent(self, vn, e):
        return e[0] == "L" and self.mod.addr_field(vn.fn, vn.fn.insts[e[1]].o[0]) == ("NKVMExecutionContext", "parent")

    def _current(self, vn, a):
        """address inside the current execution context"""
        b = a[1]
        return b[0] == "L" and self.mod.addr_field(vn.fn, vn.fn.insts[b[1]].o[0]) == ("NKVM", "currentExecutionContext")


NEUTRAL = {"nkiVmGarbageCollect", "nkiVmIterate"}      # running further instructions is those instructions' own effect
