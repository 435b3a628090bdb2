"""Path walk over the code generator: scopes opened and closed, jump placeholders, and the frame
depth the generated code has reached, per path and per call outcome."""
from .cwalk import fold
from .vn import strip

CS = "NKCompilerState"; CT = "NKCompilerStateContext"
OPEN, LOOP, FIXED, TEMP, LOC = range(5)          # token: kind, loop scope, breaks patched, temporaries, declarations


def lin(e, n=1, out=None):
    """linear form {atom: factor}, constants under None"""
    out = {} if out is None else out
    if e[0] == "c":
        v = e[1] & 0xffffffff; v = v - (1 << 32) if v >> 31 else v
        out[None] = out.get(None, 0) + n * v
    elif e[0] == "add": lin(e[1], n, out); lin(e[2], n, out)
    elif e[0] == "sub": lin(e[1], n, out); lin(e[2], -n, out)
    elif e[0] in ("zext", "sext", "trunc"): lin(e[1], n, out)
    else: out[e] = out.get(e, 0) + n
    return out


def atoms(e, out):
    """phis, calls and loads an expression is made of"""
    if isinstance(e, tuple):
        if len(e) == 2 and e[0] in ("phi", "call", "L") and isinstance(e[1], int): out.add(e[1])
        else:
            for x in e: atoms(x, out)
    return out


class St:
    __slots__ = ("env", "facts", "cur", "neg", "live", "snap", "pend", "fresh", "err", "late", "bad", "here", "tok", "need", "kids")
    def __init__(s): s.env = {}; s.facts = frozenset(); s.cur = (("b", False, False, 0, 0),); s.neg = 0; s.live = 0; s.snap = {}; s.pend = {}; s.fresh = frozenset(); s.err = False; s.late = frozenset(); s.bad = frozenset(); s.here = frozenset(); s.tok = frozenset(); s.need = frozenset(); s.kids = 0
    def copy(s):
        r = St()
        for k in St.__slots__: setattr(r, k, getattr(s, k))
        r.env = dict(s.env); r.snap = dict(s.snap); r.pend = dict(s.pend)
        return r
    def key(s): return (tuple(sorted(s.env.items(), key=repr)), s.facts, s.cur, s.neg, s.live, tuple(sorted(s.snap.items(), key=repr)), tuple(sorted(s.pend.items(), key=repr)), s.fresh, s.err, s.late, s.bad, s.here, s.tok, s.need, s.kids)


def sig(cur):
    """the depth a position in the generated code stands for: what was added per open scope"""
    r = [(t[TEMP], t[LOC]) for t in cur]
    while len(r) > 1 and r[-1] == (0, 0): r.pop()
    return tuple(r)


class Flow:
    LIMIT = 30000

    def __init__(self, cx, E, O, errs, judged):
        self.cx = cx; self.mod = cx.mod; self.E = E; self.O = O; self.errs = errs; self.judged = judged
        self.memo = {}; self.todo = []; self.dep = {}; self.reports = {}
        mod = self.mod
        base = {c.fn.name for c in mod.callers[E.ADD]} | {E.ADD}
        for n, fn in mod.fns.items():
            for i in fn.all():
                if i.op == "store" and mod.addr_field(fn, i.o[1]) in ((CS, "context"), (CT, "stackFrameOffset"), (CT, "variables")): base.add(n)
        ch = True
        self.touch = {n for n in base if self.cs(n)}
        while ch:
            ch = False
            for n, fn in mod.fns.items():
                if n in self.touch or not self.cs(n): continue
                if any((i.callee or "") in self.touch or (i.callee or "") in errs for i in fn.calls()): self.touch.add(n); ch = True
        self.touch -= {E.ADD} | set(errs)
        self.emitting = {n for n in mod.fns if E.ADD in mod.reach([n])}
        self.words = {}
        self.emitters = self._emitters()
        self.axiom = self._axiom()
        self.fixers = self._fixers()
        self._tokens(); self.T = None; self.Tl = set()
        self.sites = {}                                        # what was looked at
        self._keys = {}; self._live = {}; self._kept = {}

    def cs(self, n):
        f = self.mod.fns[n]
        return any(CS in str(t) for t in f.ditypes[1:])

    # ------------------------------------------------------------ roles
    def _axiom(self):
        """the routines that generate one (sub)expression each, recursively: one value on the frame"""
        mod = self.mod
        node = {n for n in self.touch if n in self.emitting and any("NKExpressionAstNode" in str(t) for t in mod.fns[n].ditypes[1:])}
        out = set()
        for n in node:
            r = mod.reach([n])
            scc = {m for m in r & self.touch if m != n and n in mod.reach([m])}
            back = any(n in mod.reach(mod.cal(c)) for c in mod.fns[n].calls())
            if back and scc <= node: out.add(n)
        return out

    def jumps(self):
        return {k for k, n in self.O.names.items() if "JUMP" in n}

    def _emitters(self):
        """name -> parameter that is the target: answers where the jump it emitted starts"""
        out = {}
        J = self.jumps()
        for n, fn in self.mod.fns.items():
            if not self.cs(n): continue
            js = [i for i in fn.calls() if self.opcode(fn, i) in J]
            if not js or any(b.op == "br" and b.o for bl in fn.rpo for b in fn.blocks[bl][-1:]): continue
            vn = self.cx.vn(n)
            rets = [i for i in fn.all() if i.op == "ret" and i.o]
            if not rets: continue
            r = strip(vn.expr(rets[0].o[0]))
            if not self.windex(vn, r): continue
            for i in fn.calls():
                for o in i.o:
                    l = lin(vn.expr(o))
                    for a in l:
                        if a and a[0] == "a" and l.get(r) == -1: out[n] = (a[1], i, l, r)
        return out

    def opcode(self, fn, i):
        """constant code an emitting call writes, whatever helper it goes through"""
        if i.callee not in self.E.direct or i.callee == self.E.ADD: return None
        f = self.mod.fns[i.callee]
        for c in f.calls():
            if c.callee == self.E.ADD:
                w = self.E.words.get((f.name, c.id))
                if w and w[0] == "code" and w[2] and w[2][0] == "a" and w[2][1] < len(i.o) and i.o[w[2][1]][0] == "c": return i.o[w[2][1]][1]
        return None

    def windex(self, vn, e):
        e = strip(e)
        if e[0] != "L": return False
        return self.mod.addr_field(vn.fn, vn.fn.insts[e[1]].o[0]) == (CS, "instructionWriteIndex")

    def _fixers(self):
        """routines that patch every recorded break of the current scope"""
        out = {}
        for n, fn in self.mod.fns.items():
            if not self.cs(n): continue
            if any(self.mod.addr_field(fn, i.o[0]) == (CT, "loopContextFixups") for i in fn.all() if i.op == "load") and any(self.patch(fn, i) for i in fn.all()): out[n] = True
        return out

    def patchers(self):
        """routine -> (parameter: which jump, parameter: target)"""
        if hasattr(self, "_pt"): return self._pt
        self._pt = {}; self.patch_sites = []
        for n, fn in self.mod.fns.items():
            vn = self.cx.vn(n)
            for i in fn.all():
                if i.op != "store": continue
                a = vn.addr(i.o[1])
                if a[0] != "gep" or not any(s[0] == "f" and s[1] == "NKInstruction" for s in a[2]): continue
                l = lin(strip(vn.expr(i.o[0])))
                ps = sorted(x[1] for x in l if x and x[0] == "a" and l[x] == -1); ts = sorted(x[1] for x in l if x and x[0] == "a" and l[x] == 1)
                if len(ps) == 1 and len(ts) == 1 and self.cs(n): self._pt[n] = (ps[0], ts[0]); self.patch_sites.append((fn, i, l, ("a", ps[0]), ("a", ts[0])))
        return self._pt

    def patch(self, fn, i):
        return i.op == "call" and i.callee in self.patchers()

    def _tokens(self):
        """the routines answering the type of the current token; those that move on to another; those that insist on one"""
        mod = self.mod
        self.tokfn = {n for n, fn in mod.fns.items() if self.cs(n) and len(fn.ditypes) == 2 and fn.ret == "i32" and n not in self.touch
                      and any(i.op == "load" and mod.addr_field(fn, i.o[0]) == (CS, "currentToken") for i in fn.all()) and not any(i.op == "store" for i in fn.all())}
        mv = {n for n, fn in mod.fns.items() if any(i.op == "store" and mod.addr_field(fn, i.o[1]) == (CS, "currentToken") for i in fn.all())}
        self.moves = {n for n in mod.fns if self.cs(n) and mod.reach([n]) & mv}
        self.insist = {}
        for n in self.touch - self.emitting:
            fn = mod.fns[n]; vn = self.cx.vn(n)
            for b in fn.rpo:
                for x in fn.succs[b]:
                    for f in vn.edge_facts(b, x):
                        if len(f) == 3 and f[0] in ("eq", "ne"):
                            ps = [e[1] for e in f[1:] if strip(e)[0] == "a"]
                            if ps and any(self.istok(fn, e) for e in f[1:]): self.insist[n] = ps[0]
        self.wanted = {}

    def istok(self, fn, e):
        e = strip(e)
        return e[0] == "call" and (fn.insts[e[1]].callee or "") in self.tokfn

    def want(self, fn):
        """token types whose presence is tested and then insisted on"""
        if fn.name not in self.wanted:
            self.wanted[fn.name] = {i.o[self.insist[i.callee]][1] for i in fn.calls() if i.callee in self.insist and i.o[self.insist[i.callee]][0] == "c"}
        return self.wanted[fn.name]

    # ------------------------------------------------------------ summaries
    def summary(self, n, args):
        k = (n, args)
        if k not in self.memo:
            self.memo[k] = frozenset(); self.todo.append(k)
        return self.memo[k]

    def solve(self, roots):
        for n in roots: self.summary(*(n if isinstance(n, tuple) else (n, ())))
        rounds = 0
        while self.todo:
            rounds += 1
            k = self.todo.pop(0)
            self.asked = set()
            r = self.run(*k)
            for a in self.asked: self.dep.setdefault(a, set()).add(k)
            if r != self.memo[k]:
                self.memo[k] = r
                for d in self.dep.get(k, ()):
                    if d not in self.todo: self.todo.append(d)
            if rounds > 4000: return False
        self.reports = {}; self.sites = {}
        for k in sorted(self.memo, key=repr): self.run(*k)
        return True

    def effect(self, n, T, loads):
        """(operands generated, change of the frame) of the outcomes of routine n for a node of type T"""
        self.T = T; self.Tl = loads; self.deltas = set(); keep = self.reports; self.reports = {}
        try: r = {(k, t) for cls, k, t, loc, err, need in self.run(n, ()) if not err and cls != "0"}
        finally: self.T = None; self.Tl = set(); self.reports = keep
        return r

    def keys(self, fn, vn):
        """conditions worth remembering: tested more than once, or handed back"""
        if fn.name in self._keys: return self._keys[fn.name]
        cnt = {}
        for b in fn.rpo:
            fs = set()
            for s in fn.succs[b]:
                for f in vn.edge_facts(b, s):
                    if len(f) == 3 and f[0] in ("eq", "ne") and f[2] == ("c", 0): fs.add(strip(f[1]))
            for e in fs: cnt[e] = cnt.get(e, 0) + 1
        keep = {e for e, c in cnt.items() if c > 1 and e[0] in ("call", "a", "phi", "L")}
        for i in fn.all():
            if i.op == "ret" and i.o: keep |= self.feeds(fn, i.o[0])
            if i.op == "store" and self.mod.addr_field(fn, i.o[1]) == (CT + "Variable", "isGlobal"): keep.add(strip(vn.expr(i.o[0])))
        self._keys[fn.name] = keep
        return keep

    def live(self, fn, vn):
        """per block: the phis, calls and loads whose value can still decide something"""
        if fn.name in self._live: return self._live[fn.name]
        use = {}; defs = {}
        for b in fn.rpo:
            u = set(); d = set()
            for i in fn.blocks[b]:
                if i.op in ("call", "load"): d.add(i.id)
                if i.op == "call" and ((i.callee or "") in self.touch or (i.callee or "") == self.E.ADD or (i.callee or "") in self.patchers()) or i.op in ("br", "switch", "ret") and i.o: ops = i.o
                elif i.op == "store" and (self.mod.addr_field(fn, i.o[1]) or ("",))[0].startswith(CS): ops = i.o[:1]
                else: continue
                if i.op == "store" and self.mod.addr_field(fn, i.o[1]) == (CT, "variables"):
                    ops = list(ops) + [j.o[0] for j in fn.all() if j.op == "store" and self.mod.addr_field(fn, j.o[1]) == (CT + "Variable", "isGlobal")]
                for o in ops:
                    atoms(vn.expr(o), u)
            use[b] = u - d; defs[b] = d
        li = {b: set() for b in fn.rpo}
        ch = True
        while ch:
            ch = False
            for b in reversed(fn.rpo):
                o = set()
                for x in fn.succs[b]:
                    ph = {i.id: i for i in fn.blocks[x] if i.op == "phi"}
                    o |= {a for a in li[x] if a not in ph}
                    for a in li[x]:
                        if a in ph:
                            for v, q in ph[a].o:
                                if q == b: atoms(strip(vn.expr(v)), o)
                n = use[b] | (o - defs[b])
                if n != li[b]: li[b] = n; ch = True
        self._live[fn.name] = li
        return li

    def kept(self, fn):
        """reads of the current scope, or of the write position, whose value is used again later"""
        if fn.name in self._kept: return self._kept[fn.name]
        out = set()
        for i in fn.all():
            if i.op == "store" and self.mod.addr_field(fn, i.o[1]) == (CS, "context"): out |= self.loads(fn, i.o[0])
            if i.op == "call" and i.callee in self.emitters: out |= self.loads(fn, i.o[self.emitters[i.callee][0]])
        self._kept[fn.name] = out
        return out

    def loads(self, fn, op, seen=None):
        seen = set() if seen is None else seen
        d = fn.idef(op)
        if d is None or d.id in seen: return set()
        seen.add(d.id)
        if d.op == "load": return {d.id}
        if d.op == "phi":
            r = set()
            for v, b in d.o: r |= self.loads(fn, v, seen)
            return r
        return self.loads(fn, d.o[0], seen) if d.op in ("bitcast", "zext", "trunc") else set()

    def feeds(self, fn, op, seen=None):
        seen = set() if seen is None else seen
        d = fn.idef(op)
        if d is None or d.id in seen: return set()
        seen.add(d.id)
        if d.op == "call": return {("call", d.id)}
        if d.op == "phi":
            r = {("phi", d.id)}
            for v, b in d.o: r |= self.feeds(fn, v, seen)
            return r
        if d.op in ("zext", "trunc", "sext"): return self.feeds(fn, d.o[0], seen)
        return set()

    def sub(self, e, env, args):
        if not isinstance(e, tuple) or not e: return e
        if e[0] == "phi" and len(e) == 2 and e[1] in env: return env[e[1]]
        if self.T is not None and e[0] == "L" and len(e) == 2 and e[1] in self.Tl: return ("c", self.T)
        if e[0] == "a" and len(e) == 2:
            for k, v in args:
                if k == e[1]: return ("c", v)
            return e
        return fold(tuple(self.sub(x, env, args) if isinstance(x, tuple) else x for x in e))

    def report(self, kind, i, msg, key): self.reports.setdefault((kind, i.fn.name, i.id, key), (i, msg))

    # ------------------------------------------------------------ one function
    def run(self, n, args):
        fn = self.mod.fns[n]; vn = self.cx.vn(n)
        keys = self.keys(fn, vn)
        out = set()
        st = St()
        phis = {i.id for b in fn.rpo for i in fn.blocks[b] if i.op == "phi"}
        seen = set(); work = [(0, None, 0, st)]
        while work:
            b, prev, pos, s = work.pop()
            if pos == 0:
                s = s.copy()
                blk = fn.blocks[b]; new = dict(s.env)
                for i in blk:
                    if i.op != "phi": break
                    new.pop(i.id, None)
                    s.facts = frozenset(f for f in s.facts if f[1] != ("phi", i.id))
                    for v, q in i.o:
                        if q == prev:
                            x = self.sub(strip(vn.expr(v)), s.env, args)
                            if x[0] == "c" and abs(x[1]) < 5 or x[0] == "call" or x[0] == "add" and all(y[0] in ("call", "c") for y in x[1:]): new[i.id] = x
                lv = self.live(fn, vn)[b]
                s.env = {x: v for x, v in new.items() if x in lv}
                ev = {v[1] for v in s.env.values() if v[0] == "call"}
                s.facts = frozenset(f for f in s.facts if f[1][0] == "a" or atoms(f[1], set()) & (lv | ev))
                k = (b, s.key())
                if k in seen: continue
                if s.neg > 6:
                    self.report("scope-restored", fn.blocks[b][-1], "scopes keep being closed in a loop here", "loop"); continue
                seen.add(k)
                if len(seen) > self.LIMIT:
                    self.report("limit", fn.blocks[0][0], "too many paths", "limit"); return frozenset(out)
            dead = False
            for p in range(pos, len(fn.blocks[b])):
                i = fn.blocks[b][p]
                if i.op == "phi": continue
                r = self.step(fn, vn, i, s, args, keys)
                if r is None: continue
                if r == "end": dead = True; break
                for s2 in r: work.append((b, prev, p + 1, s2))
                dead = True; break
            if dead: continue
            t = fn.blocks[b][-1]
            if t.op == "ret":
                self.leave(fn, vn, t, s, args, out); continue
            succs = fn.succs[b]
            if t.op == "br" and t.o and t.t != t.f:
                c = self.sub(vn.expr(t.o[0]), s.env, args)
                if c[0] == "c": succs = [t.t if c[1] else t.f]
            if t.op == "switch" and self.T is not None:
                c = strip(self.sub(vn.expr(t.o[0]), s.env, args))
                if c[0] == "c": succs = [x for v, x in t.cases if v == c[1]] or [t.default]
            for x in succs:
                if vn.infeasible(b, x): continue
                s2 = s
                ok = True
                for f in vn.edge_facts(b, x):
                    if len(f) == 3 and f[0] in ("eq", "ne") and (self.istok(fn, f[1]) or self.istok(fn, f[2])):
                        k = f[2] if self.istok(fn, f[1]) else f[1]; k = strip(self.sub(k, s.env, args)); call = strip(f[1] if self.istok(fn, f[1]) else f[2])
                        if k[0] == "c" and ("T", call[1]) in s.tok and (k[1] in self.want(fn) or fn.name in self.insist):
                            s2 = s2.copy(); s2.tok = s2.tok | {(f[0], k[1])}
                            if fn.name in self.insist: s2.need = s2.need | {(f[0], k[1])}
                    if len(f) != 3 or f[0] not in ("eq", "ne") or f[2] != ("c", 0): continue
                    e = strip(self.sub(f[1], s.env, args))
                    if f[0] == "eq" and e[0] == "L" and self.mod.addr_field(fn, fn.insts[e[1]].o[0]) == ("NKVM", "instructions"): ok = False    # code was emitted before
                    if e[0] == "c":
                        if (f[0] == "eq") != (e[1] == 0): ok = False
                        continue
                    if (("ne" if f[0] == "eq" else "eq"), e) in s2.facts: ok = False
                    if e in keys or strip(f[1]) in keys:
                        s2 = s2.copy(); s2.facts = s2.facts | {(f[0], e)}
                if ok: work.append((x, b, 0, s2))
        return frozenset(out)

    def leave(self, fn, vn, t, s, args, out):
        cls = "v"
        if t.o:
            e = strip(self.sub(vn.expr(t.o[0]), s.env, args))
            cls = "?"
            if e[0] == "c": cls = "0" if e[1] == 0 else "1"
            elif ("eq", e) in s.facts: cls = "0"
            elif ("ne", e) in s.facts: cls = "1"
        net = len(s.cur) - 1 - s.neg if s.cur is not None else None
        temp = s.cur[0][TEMP] if s.cur is not None else None
        loc = s.cur[0][LOC] if s.cur is not None else 0
        err = s.err or cls == "0" and fn.name in self.judged
        if err: temp = None; loc = 0
        if net != s.live or net is None: self.report("scope-restored", t, "the scope current on entry is not the one current here" if s.cur is None or net == 0 else "a scope is %s here than on entry" % ("more open" if net > 0 else "fewer open"), "restore") if (net is None or s.live != net) else None
        if not err:
            for j in s.pend.values():
                if j[0] == "open": self.report("jump-patched", self.at(fn, j[1]), "this jump has no target yet on a path that is reported as compiled at line %s" % t.ln, "open:%s" % j[1])
                if j[0] == "chain": self.report("jump-patched", self.at(fn, j[1]), "this jump leads straight to another jump: the alternative or the end it should reach is skipped", "chain:%s" % j[1])
            for k, at in s.late: self.report(k, self.at(fn, at), LATE[k], "late:%s" % at)
        out.add((cls, s.kids, temp, False, err, frozenset()) if self.T is not None else (cls, net if s.cur is not None else 0, temp, bool(loc), err, s.need))

    def at(self, fn, n): return fn.insts[n]

    def fail(self, s):
        """an error is recorded: the program is rejected, only the scopes still matter"""
        s.err = True; s.pend = {}; s.late = frozenset(); s.here = frozenset(); s.fresh = frozenset()
        if s.cur is not None: s.cur = tuple((t[OPEN], False, False, None, 0) for t in s.cur)

    def top(self, s, **kw):
        if s.cur is None: return
        if s.err: kw = {k: v for k, v in kw.items() if k == "kind"}
        t = list(s.cur[-1])
        for k, v in kw.items(): t[{"loop": LOOP, "fixed": FIXED, "temp": TEMP, "loc": LOC, "kind": OPEN}[k]] = v
        s.cur = s.cur[:-1] + (tuple(t),)

    def addtemp(self, s, d):
        if s.cur is None: return
        t = s.cur[-1][TEMP]
        self.top(s, temp=None if t is None or d is None or abs(t + d) > 5 else t + d)

    def pop(self, fn, i, s):
        s.live -= 1
        if s.cur is None: return
        if len(s.cur) == 1: s.neg += 1; self.top(s, temp=None); return
        t = s.cur[-1]
        if t[OPEN] == "D": s.cur = None; return
        s.cur = s.cur[:-1]
        if not s.err:
            if t[TEMP] not in (0, None): s.late = s.late | {("frame-restored", i.id)}
            if t[LOOP] and isinstance(t[FIXED], tuple): s.late = s.late | {("break-patched", i.id)}

    def push(self, s, kind="n"):
        s.live += 1
        if s.cur is not None: s.cur = s.cur + ((kind, False, False, None if s.err else 0, 0),)
        if s.cur is not None and len(s.cur) > 10: return False
        return True

    def emitted(self, s, jump=False):
        s.fresh = frozenset()
        if not jump: s.here = frozenset()

    # ------------------------------------------------------------ one instruction
    def step(self, fn, vn, i, s, args, keys):
        mod = self.mod
        if i.op == "unreachable": return "end"
        if i.op == "load":
            k = mod.addr_field(fn, i.o[0])
            if k == (CS, "context") and s.cur is not None and i.id in self.kept(fn): s.snap[i.id] = (s.cur, s.neg, s.live)
            if k == (CS, "instructionWriteIndex"): 
                if not s.err: s.fresh = s.fresh | {i.id}
                if i.id in self.kept(fn): s.snap[i.id] = (s.cur, s.neg, s.live)
            s.facts = frozenset(f for f in s.facts if f[1] != ("L", i.id))
            return None
        if i.op == "store": return self.store(fn, vn, i, s, args)
        if i.op != "call": return None
        s.facts = frozenset(f for f in s.facts if f[1] != ("call", i.id))
        c = i.callee or ""
        if c in self.tokfn and (self.want(fn) or fn.name in self.insist):
            s.tok = s.tok | {("T", i.id)}; return None
        if c in self.errs: self.fail(s); return None
        if c == self.E.ADD:
            w = self.E.words.get((fn.name, i.id))
            self.emitted(s)
            adj = self.sub(vn.expr(i.o[2]), s.env, args) if len(i.o) > 2 else ("c", 1)
            if w is None or w[0] != "code": return None
            e = self.sub(w[2], s.env, args) if w[2] else ("?",)
            if e[0] == "c" and "RETURN" in self.O.names.get(e[1], ""): self.addtemp(s, None); return None     # nothing is reached after it
            if adj == ("c", 0): return None
            ds = {self.O.offset(e[1])} if e[0] == "c" else {self.O.offset(v) for v in w[1]} if w[1] and not (w[2] and w[2][0] == "a") else {None}
            ds = {d if d is None or d < 1 << 31 else d - (1 << 32) for d in ds}
            d = ds.pop() if len(ds) == 1 and adj[0] == "c" else None
            self.addtemp(s, d)
            return None
        if c in self.patchers() and fn.name not in self.fixers:
            p, t = self.patchers()[c]
            return self.patched(fn, vn, i, strip(vn.expr(i.o[p])), i.o[t], s)
        if c in self.fixers:
            if s.cur is not None and s.cur[-1][LOOP]:
                t = s.cur[-1]; self.sites[("fix", fn.name, i.id)] = i
                if isinstance(t[FIXED], tuple) and t[FIXED] != (t[TEMP], t[LOC]) and None not in t[FIXED] and t[TEMP] is not None:
                    self.report("jump-depth", i, "the frame is not as deep here as where break statements of this loop leave it", "breaks")
                self.top(s, fixed=True)
            s.here = frozenset()
            return None
        if c not in self.touch:
            if c in self.moves: s.tok = frozenset()
            if c in self.emitting or any(x in self.emitting for x in mod.cal(i)): self.emitted(s); self.addtemp(s, None)
            return None
        # a routine of the code generator
        if s.cur is not None and s.cur[-1][OPEN] == "D" and not s.err and c in self.emitting and c not in self.axiom and self.mod.fns[c].ret != "void" and c not in self.emitters and self.breaks(c):
            self.sites[("body", fn.name, i.id)] = i
            if s.cur[-1][TEMP] not in (-1, None): self.report("function-frame", i, "the frame of a function starts with %+d slots counted besides its declared ones, not with the return pointer alone" % s.cur[-1][TEMP], "body")
        a = tuple((k, e[1]) for k, e in ((k, self.sub(vn.expr(o), s.env, args)) for k, o in enumerate(i.o)) if e[0] == "c")
        if c in self.axiom: s.kids = min(4, s.kids + 1) if self.T is not None else 0
        if c in self.axiom: res = frozenset({("1", 0, 1, False, False, frozenset()), ("0", 0, None, False, True, frozenset())})
        else:
            self.asked.add((c, a)); res = self.summary(c, a)
        J = self.jumps()
        outs = []
        for cls, net, temp, loc, err, need in sorted(res, key=repr):
            if any(f[0] == "eq" and (("ne", f[1]) in s.tok or any(g[0] == "eq" and g[1] != f[1] for g in s.tok)) or f[0] == "ne" and ("eq", f[1]) in s.tok for f in need): continue
            s2 = s.copy()
            if c in self.moves: s2.tok = frozenset()
            if cls in "01" and ("call", i.id) in keys or cls in "01": s2.facts = s2.facts | {("eq" if cls == "0" else "ne", ("call", i.id))}
            if err and not s2.err: self.fail(s2)
            chained = s2.here
            if c in self.emitting: self.emitted(s2)
            ok = True
            for _ in range(max(0, net)): ok = ok and self.push(s2)
            for _ in range(max(0, -net)): self.pop(fn, i, s2)
            if not ok: self.report("scope-restored", i, "scopes keep being opened in a loop here", "loop"); continue
            if net == 0: self.addtemp(s2, temp)
            if loc and s2.cur is not None: self.top(s2, loc=min(3, s2.cur[-1][LOC] + 1))
            if not s2.err and self.breaks(c) and s2.cur is not None:
                ls = [x for x, t in enumerate(s2.cur) if t[LOOP]]
                if ls: s2.cur = tuple(t[:FIXED] + ((t[TEMP], t[LOC]),) + t[FIXED + 1:] if x == ls[-1] else t for x, t in enumerate(s2.cur))
            if c in self.emitters and not s2.err:
                tgt = self.sub(strip(vn.expr(i.o[self.emitters[c][0]])), s2.env, args)
                self.jump(fn, vn, i, tgt, s2, chained, c)
            elif self.opcode(fn, i) in J and fn.name not in self.emitters and not s2.err:
                s2.pend[("raw", i.id)] = ("open", i.id, sig(s2.cur) if s2.cur is not None else None); self.sites[("jump", fn.name, i.id)] = i
            outs.append(s2)
        # facts are only kept where they matter
        for s2 in outs: s2.facts = frozenset(f for f in s2.facts if f[1] in keys or f[1] == ("call", i.id))
        return outs if outs else "end"

    def breaks(self, c):
        """a break may be recorded while the routine runs"""
        if not hasattr(self, "_brk"):
            src = {n for n, fn in self.mod.fns.items() if any(i.op == "store" and self.mod.addr_field(fn, i.o[1]) == (CT, "loopContextFixupCount") for i in fn.all()) and n not in self.fixers}
            self._brk = {n for n in self.mod.fns if self.mod.reach([n]) & src}
        return c in self._brk

    def jump(self, fn, vn, i, tgt, s, chained, c):
        self.sites[("jump", fn.name, i.id)] = i
        if tgt[0] == "c":
            s.pend[i.id] = ("open", i.id, sig(s.cur) if s.cur is not None else None)
            f = self.mod.fns[c]
            uncond = not any("IF" in self.O.names.get(self.opcode(f, x), "") for x in f.calls() if self.opcode(f, x) in self.jumps())
            if uncond:
                for x in chained:
                    if x in s.pend: s.pend[x] = ("chain", s.pend[x][1], s.pend[x][2])
        elif self.windex(vn, tgt):
            f = self.mod.fns[c]
            if not any("IF" in self.O.names.get(self.opcode(f, x), "") for x in f.calls() if self.opcode(f, x) in self.jumps()):
                for x in chained:
                    if x in s.pend: s.pend[x] = ("chain", s.pend[x][1], s.pend[x][2])
            at = s.snap.get(tgt[1])
            self.sites[("back", fn.name, i.id)] = i
            if at and at[0] is not None and s.cur is not None:
                a, b = sig(at[0]), sig(s.cur)
                if a != b and not any(t is None for t, l in a + b): self.report("jump-depth", i, "the frame is not as deep at this jump as at the place it jumps back to", "back")
        else: self.report("jump-patched", i, "the place this jump goes to is not a recorded position", "target")
        s.here = frozenset()

    def patched(self, fn, vn, i, which, target, s):
        tgt = strip(vn.expr(target))
        self.sites[("patch", fn.name, i.id)] = i
        if which[0] == "call" and which[1] in s.pend:
            k, at, depth = s.pend[which[1]]
            if not self.windex(vn, tgt) or tgt[1] not in s.fresh:
                self.report("jump-patched", i, "the target given to this jump is not the position reached here", "stale")
            elif s.cur is not None and depth is not None:
                b = sig(s.cur)
                if depth != b and not any(t is None for t, l in depth + b): self.report("jump-depth", i, "the frame is not as deep here as at the jump (line %s) that lands here" % fn.insts[at].ln, "land:%s" % at)
            s.pend[which[1]] = ("done", at, depth)
            s.here = s.here | {which[1]}
        return None

    def store(self, fn, vn, i, s, args):
        mod = self.mod
        k = mod.addr_field(fn, i.o[1])
        if k == (CS, "context"):
            e = strip(vn.expr(i.o[0])); d = fn.idef(i.o[0])
            while d is not None and d.op in ("bitcast",): d = fn.idef(d.o[0])
            if d is not None and d.op == "load":
                kk = mod.addr_field(fn, d.o[0])
                if kk == (CS, "context"):
                    if d.id in s.snap: s.cur, s.neg, _ = s.snap[d.id]
                    else: s.cur = None
                    return None
                if kk == (CT, "parent"): self.pop(fn, i, s); return None
            if e[0] == "call":
                kind = "D"
                for j in fn.all():
                    if j.op == "store" and mod.addr_field(fn, j.o[1]) == (CT, "parent"):
                        v = strip(vn.expr(j.o[0]))
                        if v[0] == "L" and mod.addr_field(fn, fn.insts[v[1]].o[0]) == (CS, "context"): kind = "n"
                self.push(s, kind); return None
            if e == ("c", 0): return None
            s.cur = None
            return None
        if k == (CT, "isLoopContext") and s.cur is not None:
            v = vn.expr(i.o[0])
            if v[0] == "c" and v[1]: self.top(s, loop=True); self.sites[("loop", fn.name, i.id)] = i
            return None
        if k == (CT, "stackFrameOffset"):
            a = vn.addr(i.o[1])
            l = lin(self.sub(vn.expr(i.o[0]), s.env, args))
            c = l.pop(None, 0)
            if self.T is not None: self.deltas.add((c, tuple(sorted((x[0] if x[0] != "L" else "L", v) for x, v in l.items()))))
            own_ = [x for x in l if x[0] == "L" and mod.addr_field(fn, fn.insts[x[1]].o[0]) == k and l[x] == 1]
            if a[0] == "gep" and a[1][0] == "call" and not (len(l) == 1 and own_): return None            # set up for a new scope
            self.addtemp(s, c if len(l) == 1 and own_ else None)
            return None
        if k == (CT, "variables"):
            v = strip(vn.expr(i.o[0]))
            glob = None
            for j in fn.all():
                if j.op == "store" and mod.addr_field(fn, j.o[1]) == (CT + "Variable", "isGlobal"):
                    g = strip(self.sub(vn.expr(j.o[0]), s.env, args))
                    glob = bool(g[1]) if g[0] == "c" else True if ("ne", g) in s.facts else False if ("eq", g) in s.facts else glob
            if glob is None: self.addtemp(s, None)
            elif not glob:
                self.addtemp(s, -1)
                if s.cur is not None: self.top(s, loc=min(3, s.cur[-1][LOC] + 1))
            return None
        if k == (CT, "loopContextFixups"): return None
        # an element of the break list
        v = strip(vn.expr(i.o[0]))
        if v[0] == "call" and v[1] in s.pend:
            a = vn.addr(i.o[1])
            b = a[1] if a[0] == "gep" else a
            if b[0] == "call" or b[0] == "L":
                s.pend[v[1]] = ("done", v[1], None); self.sites[("break", fn.name, i.id)] = i
            return None
        # a jump written by hand
        a = vn.addr(i.o[1])
        if a[0] == "gep" and any(x[0] == "f" and x[1] == "NKInstruction" for x in a[2]):
            l = lin(strip(vn.expr(i.o[0])))
            ws = [x for x in l if x and self.windex(vn, x) and l[x] == 1 and x[1] in s.fresh]
            raws = [x for x in s.pend if isinstance(x, tuple) and s.pend[x][0] == "open"]
            if ws and raws: s.pend[raws[-1]] = ("done",) + s.pend[raws[-1]][1:]; self.sites[("patch", fn.name, i.id)] = i
        return None


LATE = {"frame-restored": "the scope closed here leaves values on the frame (or takes too many off it) that its variables do not account for",
        "break-patched": "the loop's scope is closed here while jumps of its break statements may have no target"}
