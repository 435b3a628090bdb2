"""H03: the announced length of the error report covers what the report writes."""
from nk.core import Broken
from nk.loops import loops
from nk.own import own
from nk.vn import strip

META = {"level": "other", "technique": "symbolic length comparison: both functions of the report are reduced to linear sums over text lengths, per path and per list element, and compared path by path; ownership rule on the stored messages",
        "note": "Sums are compared as unbounded integers (a report longer than 2^32 characters cannot be announced at all). Whether a single message was built in a large enough buffer is C04.",
        "explains": "The length function's result and the report function's writes (appended texts, copied characters, terminator) are summed along every path; a loop contributes its per-element sum times the list it walks, named by its start field and link field. For every pair of paths that can be taken in the same machine state the announced sum must be at least the written one plus the terminator, term by term. Every store into a recorded message or file-name list must store memory allocated for it."}

LEN = {"nkiStrlen", "strlen"}
CAT = {"nkiStrcat", "strcat"}
CPY = {"nkiStrcpy", "strcpy", "nkiStrcpy_s"}


class Sum:
    def __init__(self, d=None): self.d = dict(d or {})
    def add(self, k, n=1): r = Sum(self.d); r.d[k] = r.d.get(k, 0) + n; return r
    def plus(self, o, n=1):
        r = Sum(self.d)
        for k, v in o.d.items(): r.d[k] = r.d.get(k, 0) + v * n
        return r
    def key(self): return tuple(sorted((repr(k), v) for k, v in self.d.items() if v))


def canon(vn, e, cur=None, depth=0):
    """function-independent name of a value"""
    if depth > 8 or not isinstance(e, tuple): return ("?",)
    e = strip(e)
    if cur and e in cur: return cur[e]
    if e[0] in ("c", "a"): return e
    if e[0] == "g": return text(vn, e)
    if e[0] == "L":
        a = vn.addr(vn.fn.insts[e[1]].o[0])
        return ("ld", canon(vn, a, cur, depth + 1))
    if e[0] == "gep":
        p = []
        for s in e[2]: p.append(s if s[0] == "f" else ("x", canon(vn, s[1], cur, depth + 1)))
        return ("gep", canon(vn, e[1], cur, depth + 1), tuple(p))
    return ("?", e[0], vn.fn.name, e[1] if len(e) > 1 and isinstance(e[1], int) else 0)


def text(vn, e):
    return ("str", e[1])


class Report:
    """path sums of one function. kind 'len': the returned sum; kind 'text': what is written through parameter `buf`"""
    def __init__(self, cx, fn, kind, buf=None, args=None, depth=0):
        self.cx = cx; self.mod = cx.mod; self.fn = fn; self.vn = cx.vn(fn.name); self.kind = kind; self.buf = buf
        self.L = {h: b for h, b in loops(fn)}; self.odd = []; self.depth = depth; self.args = args or {}
        self.out = []

    def strlen(self, e, cur):
        e = strip(e)
        if e[0] == "g":
            g = self.mod.globals.get(e[1], {})
            s = g.get("init")
            if isinstance(s, dict) and "str" in s: return Sum({1: len(s["str"].split("\0")[0])})
        return Sum({("len", self.rename(canon(self.vn, e, cur))): 1})

    def rename(self, c):
        if not self.args: return c
        def r(x):
            if isinstance(x, tuple) and x[:1] == ("a",): return self.args.get(x[1], x)
            return tuple(r(y) for y in x) if isinstance(x, tuple) else x
        return r(c)

    def value(self, op, env, cur):
        """sum an integer operand stands for, or None"""
        e = self.vn.expr(op) if not isinstance(op, tuple) else op
        return self.sum(e, op, env, cur)

    def sum(self, e, op, env, cur):
        fn = self.fn
        if op[0] == "c": return Sum({1: op[1]})
        d = fn.idef(op)
        if d is None: return None
        if d.id in env: return env[d.id]
        if d.op in ("zext", "sext", "trunc", "freeze"): return self.sum(None, d.o[0], env, cur)
        if d.op == "add":
            a = self.sum(None, d.o[0], env, cur); b = self.sum(None, d.o[1], env, cur)
            return a.plus(b) if a and b else None
        if d.op == "sub":
            a = self.sum(None, d.o[0], env, cur); b = self.sum(None, d.o[1], env, cur)
            return a.plus(b, -1) if a and b else None
        lo = self.kind == "len"
        if d.op == "select":                                       # the announced sum counts for at least, the written one for at most
            a = self.sum(None, d.o[1], env, cur); b = self.sum(None, d.o[2], env, cur)
            if a is None or b is None: return None
            return Sum({k: (min if lo else max)(a.d.get(k, 0), b.d.get(k, 0)) for k in set(a.d) | set(b.d)})
        if d.op == "icmp": return Sum({1: 0 if lo else 1})
        if d.op == "call" and d.callee in LEN: return self.strlen(self.vn.expr(d.o[0]), cur)
        if d.op == "load":
            g = canon(self.vn, self.vn.expr(op), cur)
            return Sum({("val", self.rename(g)): 1})
        return None

    def isbuf(self, op):
        d = self.fn.idef(op)
        while d is not None and d.op in ("getelementptr", "bitcast", "phi"):
            if d.op == "phi":
                seen = set(); st = [d]; roots = set()
                while st:
                    x = st.pop()
                    if x.id in seen: continue
                    seen.add(x.id)
                    for v, b in x.o:
                        y = self.fn.idef(v)
                        while y is not None and y.op in ("getelementptr", "bitcast"): v = y.o[0]; y = self.fn.idef(v)
                        if y is not None and y.op == "phi": st.append(y)
                        else: roots.add(tuple(v))
                return roots == {("a", self.buf)}
            op = d.o[0]; d = self.fn.idef(op)
        return list(op) == ["a", self.buf]

    def effect(self, i, acc, env, cur):
        if self.kind != "text": return [((), acc)]
        if i.op == "store" and self.isbuf(i.o[1]):
            v = self.vn.expr(i.o[0])
            return [((), acc if v == ("c", 0) else acc.add(1))]
        if i.op == "call" and i.o and any(self.isbuf(o) for o in i.o):
            c = i.callee or ""
            if c in CAT or c in CPY:
                return [((), acc.plus(self.strlen(self.vn.expr(i.o[1]), cur)))]
            if c in LEN or c.startswith("llvm.dbg"): return [((), acc)]
            if c in ("nkiMemcpy", "memcpy", "memmove") or c.startswith("llvm.memcpy"):
                s = self.value(i.o[2], env, cur)
                if s: return [((), acc.plus(s))]
            f = self.mod.fns.get(c)
            if f is not None and self.depth < 4:
                b = next(k for k, o in enumerate(i.o) if self.isbuf(o))
                R = Report(self.cx, f, "text", b, {k: self.rename(canon(self.vn, self.vn.expr(o), cur)) for k, o in enumerate(i.o)}, self.depth + 1)
                r = R.run(); self.odd += R.odd
                return [(fa, acc.plus(s)) for fa, s in r]
            self.odd.append(i)
        return [((), acc)]

    def facts(self, p, b, cur):
        out = set()
        for f in self.vn.edge_facts(p, b):
            if len(f) != 3 or f[0] not in ("eq", "ne"): continue
            x, y = self.rename(canon(self.vn, f[1], cur)), self.rename(canon(self.vn, f[2], cur))
            if "?" in repr(x) or y[0] != "c": continue
            out.add((f[0], x, y))
        return out

    def cursors(self, h, env0, pred, cur):
        """list cursors of loop h: {phi expr: name}"""
        out = {}; vn = self.vn
        for i in self.fn.blocks[h]:
            if i.op != "phi": continue
            ini = [v for v, b in i.o if b not in self.L[h]]; nxt = [v for v, b in i.o if b in self.L[h]]
            if len(ini) != 1 or len(nxt) != 1: continue
            n = strip(vn.expr(nxt[0]))
            if n[0] == "L":
                a = vn.addr(self.fn.insts[n[1]].o[0])
                if a[0] == "gep" and a[1] == ("phi", i.id): out[("phi", i.id)] = ("each", self.rename(canon(vn, vn.expr(ini[0]), cur)), a[2])
            elif n[0] == "add" and ("c", 1) in n[1:] and ("phi", i.id) in n[1:]: out[("phi", i.id)] = ("count", self.rename(canon(vn, vn.expr(ini[0]), cur)))
        return out

    def run(self):
        """[(facts, sum)] per returning path"""
        self.out = []
        self.walk(0, None, Sum(), {}, frozenset(), {}, None, None)
        return self.out

    def scan(self, h, cur):
        """the text a loop walks character by character to its end, as a length"""
        vn = self.vn
        for s in self.fn.succs[h]:
            if s in self.L[h]: continue
            for f in vn.edge_facts(h, s):
                if len(f) != 3 or f[0] != "eq" or f[2] != ("c", 0): continue
                x = strip(f[1])
                if x[0] != "L": continue
                a = vn.addr(self.fn.insts[x[1]].o[0])
                if a[0] == "gep" and len(a[2]) == 1 and a[2][0][0] == "x":
                    b, ix = a[1], strip(a[2][0][1])
                else: b, ix = a[1] if a[0] == "gep" and not a[2] else a, ("c", 0)
                for i in self.fn.blocks[h]:
                    if i.op != "phi": break
                    P = ("phi", i.id)
                    ini = [vn.expr(v) for v, q in i.o if q not in self.L[h]]; nxt = [strip(vn.expr(v)) for v, q in i.o if q in self.L[h]]
                    if len(ini) != 1 or not nxt: continue
                    if ix == P and ini[0] == ("c", 0) and all(n[0] == "add" and P in n[1:] and ("c", 1) in n[1:] for n in nxt): return self.strlen(b, cur)
                    if ix == ("c", 0) and b == P and all(n[0] == "gep" and n[1] == P and n[2] == (("x", ("c", 1)),) for n in nxt): return self.strlen(ini[0], cur)
        return None

    def walk(self, b, pred, acc, env, facts, cur, inside, target):
        """follow every path from block b; inside: stop at `inside` header (loop body mode), collecting (facts, acc, env, pred)"""
        stack = [(b, pred, acc, env, facts)]; n = 0
        while stack:
            b, pred, acc, env, facts = stack.pop(); n += 1
            if n > 4000: raise Broken("too many paths in " + self.fn.name)
            if inside is not None and b == inside[0] and pred is not None and pred in inside[1]:
                target.append((facts, acc, env, pred)); continue
            if inside is not None and b not in inside[1]: continue
            env = dict(env)
            fresh_loop = b in self.L and (inside is None or b != inside[0])
            if pred is not None:
                new = {}
                for i in self.fn.blocks[b]:
                    if i.op != "phi": break
                    for v, q in i.o:
                        if q == pred:
                            s = self.value(v, env, cur)
                            if s is not None: new[i.id] = s
                            elif i.id in env: env.pop(i.id)
                env.update(new)
            if fresh_loop:
                self.loop(b, pred, acc, env, facts, cur, stack, inside); continue
            self.block(b, acc, env, facts, cur, stack)

    def block(self, b, acc, env, facts, cur, stack, only=None):
        states = [(acc, facts)]
        for i in self.fn.blocks[b]:
            nx = []
            for a, f in states:
                for f2, a2 in self.effect(i, a, env, cur):
                    if compatible(f, f2): nx.append((a2, f | set(f2)))
            states = nx
            if i.op == "ret":
                for a, f in states:
                    if self.kind == "len":
                        d = self.fn.idef(i.o[0])
                        while d is not None and d.op in ("zext", "trunc"): d = self.fn.idef(d.o[0])
                        if d is not None and d.op == "call" and d.callee in self.mod.fns and d.callee not in LEN and d.id not in env:
                            R = Report(self.cx, self.mod.fns[d.callee], "len", None, {k: self.rename(canon(self.vn, self.vn.expr(o), cur)) for k, o in enumerate(d.o)}, self.depth + 1)
                            if self.depth > 4: raise Broken("length function nests too deep")
                            for f2, s in R.run():
                                if compatible(f, f2): self.out.append((f | set(f2), s))
                            self.odd += R.odd
                            continue
                        s = self.value(i.o[0], env, cur)
                        if s is None: self.odd.append(i); continue
                        self.out.append((f, s))
                    else: self.out.append((f, a))
        for s in dict.fromkeys(self.fn.succs[b]):
            if only is not None and not only(b, s): continue
            if self.vn.infeasible(b, s): continue
            for a, f in states:
                f2 = self.facts(b, s, cur)
                if compatible(f, f2): stack.append((s, b, a, env, frozenset(f | f2)))

    def loop(self, h, pred, acc, env, facts, cur, stack, inside):
        body = self.L[h]
        cs = self.cursors(h, env, pred, cur)
        c2 = dict(cur or {}); c2.update(cs)
        name = tuple(sorted(cs.values(), key=repr)) or ("loop", self.fn.name, h)
        scan = self.scan(h, cur)
        if self.kind == "len" and scan is None:
            for p in body:
                for s in self.fn.succs[p]:
                    if s in body or self.vn.infeasible(p, s): continue
                    ends = any(len(f) == 3 and f[0] == "eq" and f[2] == ("c", 0) and cs.get(strip(f[1]), ("",))[0] == "each" for f in self.vn.edge_facts(p, s))
                    counts = any(c[0] == "count" for c in cs.values())
                    if not ends and not counts: name = name + ("stops early",)
        tgt = []; benv = dict(env)
        phis = [i for i in self.fn.blocks[h] if i.op == "phi"]
        for i in phis:
            if i.id in env: benv[i.id] = Sum({("phi", i.id): 1})
        st2 = []
        self.block(h, Sum(), benv, frozenset(), c2, st2, only=lambda a, b: b in body)
        for b, p, a, e, f in st2: self.walk(b, p, a, e, f, c2, (h, body), tgt)
        deltas = {}
        for f, a, e, p in tgt:
            d = {}
            for i in phis:
                if i.id not in env: continue
                for v, q in i.o:
                    if q == p:
                        s = self.value(v, e, c2)
                        if s is None: s = None
                        else: s = s.add(("phi", i.id), -1)
                        d[i.id] = s
            deltas.setdefault("n", []).append((f, a, d))
        alts = deltas.get("n", [])
        env2 = dict(env)
        def times(opts):
            """per-element contribution: ('loop', list, alternatives)"""
            opts = {(frozenset(x for x in f if "each" in repr(x)), s.key()): s for f, s in opts}
            if all(not s.key() for s in opts.values()): return None
            if scan is not None and all(set(k for k, v in s.d.items() if v) <= {1} for s in opts.values()):
                n = (max if self.kind == "text" else min)(s.d.get(1, 0) for s in opts.values())
                return [(k, v * n) for k, v in scan.d.items()]
            return ("loop", name, tuple(sorted((tuple(sorted(k[0], key=repr)), tuple(sorted(s.d.items(), key=repr))) for k, s in opts.items())))
        t = times([(f, a) for f, a, d in alts]) if self.kind == "text" else None
        put = lambda a, t: a if not t else a.plus(Sum(dict(t))) if isinstance(t, list) else a.add(t)
        acc2 = put(acc, t)
        for i in phis:
            if i.id in env:
                ds = [(f, d.get(i.id)) for f, a, d in alts]
                if any(s is None or any(isinstance(k, tuple) and k[0] == "phi" for k, v in s.d.items() if v) for f, s in ds): env2.pop(i.id, None); continue
                t = times(ds)
                if t: env2[i.id] = put(env[i.id], t)
        # after the loop: leave from the header or from inside the body
        exits = [(p, s) for p in body for s in self.fn.succs[p] if s not in body]
        for p, s in exits:
            f2 = self.facts(p, s, cur)
            if p == h:
                if compatible(facts, f2): stack.append((s, p, acc2, env2, frozenset(facts | f2)))
            else:
                # an exit from the middle: a whole extra element may have been handled
                if compatible(facts, f2): stack.append((s, p, acc2, env2, frozenset(facts | f2)))


def compatible(f, g):
    for p, x, y in g:
        for q, a, b in f:
            if a != x: continue
            if b == y and p != q: return False
            if p == q == "eq" and b != y: return False
    return True


def covers(A, W):
    """is sum A >= sum W, term by term (every term is >= 0)?"""
    need = {k: v for k, v in W.d.items() if v}
    have = {k: v for k, v in A.d.items() if v}
    for k, v in need.items():
        if have.get(k, 0) >= v: continue
        if isinstance(k, tuple) and k[0] == "loop":
            c = [x for x in have if isinstance(x, tuple) and x[0] == "loop" and x[1] == k[1] and have[x] >= v and loopcovers(x[2], k[2])]
            if c: continue
            return False, k
        return False, k
    if any(v < 0 for k, v in have.items() if k not in need): return False, "subtracted"
    return True, None


def loopcovers(a, w):
    for fw, sw in w:
        for fa, sa in a:
            if not compatible(fw, fa) or vacuous(fa, sw): continue
            if not covers(Sum(dict(sa)), Sum(dict(sw)))[0]: return False
    return True


def vacuous(fa, sw):
    """the announcing path is for a missing text, which the report cannot write either"""
    lens = {k[1] for k, v in sw if isinstance(k, tuple) and k[0] == "len"}
    return any(p == "eq" and y == ("c", 0) and x in lens for p, x, y in fa)


def name(k):
    if k == 1: return "fixed characters"
    if k[0] == "loop": return "the texts of the walked list"
    return "the length of a text"


def check(cx, tier):
    mod = cx.mod
    lf = mod.fns.get("nkxGetErrorLength"); tf = mod.fns.get("nkxGetErrorText")
    if lf is None or tf is None: raise Broken("error report functions not found")
    LR = Report(cx, lf, "len"); T = Report(cx, tf, "text", 1)
    A = LR.run(); W = T.run()
    if LR.odd: raise Broken("length function not understood at " + LR.odd[0].loc())
    if T.odd: raise Broken("report function not understood at " + T.odd[0].loc())
    if not A or not W: raise Broken("no returning path")
    for fw, sw in W:
        for fa, sa in A:
            if not compatible(fw, fa): continue
            cx.ok("announced length covers the text", sample="announced %s, written %s" % (sa.key(), sw.key()))
            ok, k = covers(sa, sw.add(1))
            if not ok: cx.bad("length", next(iter(tf.all())), "the report can write more than was announced: %s" % ("too little room" if k == "subtracted" else name(k)), "short")
    if not any(any(isinstance(k, tuple) and k[0] == "loop" for k in s.d) for f, s in W): raise Broken("the report's walk over the errors was not found")
    # recorded messages are the machine's own copies
    own_ = own(cx)
    for fn in mod.fns.values():
        vn = cx.vn(fn.name)
        for i in fn.all():
            if i.op != "store": continue
            k = mod.addr_field(fn, i.o[1]); a = vn.addr(i.o[1])
            elem = a[0] == "gep" and a[2] and a[2][-1][0] == "x" and srclist(cx, fn, a)
            if k != ("NKError", "errorText") and not elem: continue
            cx.ok("recorded text is an own copy", sample=i.loc())
            if not fresh(cx, own_, fn, i.o[0], set()): cx.bad("copy", i, "a recorded %s is not a copy the machine made" % ("file name" if elem else "message"), "alias")
    cx.need("announced length covers the text", 2); cx.need("recorded text is an own copy", 4)


def srclist(cx, fn, a):
    def root(e, seen):
        e = strip(e)
        if e[0] == "L": return cx.mod.addr_field(fn, fn.insts[e[1]].o[0]) == ("NKVM", "sourceFileList")
        if e[0] == "call": return any(u.op == "store" and cx.mod.addr_field(fn, u.o[1]) == ("NKVM", "sourceFileList") for u in fn.uses[e[1]])
        return False
    return len(a[2]) == 1 and root(a[1], set())


def fresh(cx, own_, fn, op, seen):
    """null, or memory allocated in this function (also through an out parameter)"""
    if op[0] in ("null",) or op[0] == "c": return True
    d = fn.idef(op)
    if d is None: return False
    if d.id in seen: return True
    seen.add(d.id)
    if d.op == "phi": return all(fresh(cx, own_, fn, v, seen) for v, b in d.o)
    if d.op == "select": return all(fresh(cx, own_, fn, v, seen) for v in d.o[1:])
    if d.op in ("bitcast", "freeze"): return fresh(cx, own_, fn, d.o[0], seen)
    if d.op == "getelementptr" and not d.path: return fresh(cx, own_, fn, d.o[0], seen)
    if d.op == "call": return any(c in own_.fresh for c in cx.mod.cal(d))
    if d.op == "load":
        b = fn.idef(d.o[0])
        if b is not None and b.op == "alloca":
            ss = [u for u in fn.uses[b.id] if u.op == "store" and u.o[1] == ["i", b.id]]
            return all(fresh(cx, own_, fn, u.o[0], seen) for u in ss)
    return False
