"""C03: every token and operator the parser accepts is handled to the end."""
from nk.core import Broken
from nk.vn import strip, is_load_of, base_of
from nk.text import fold
from nk.ops import Ops
from nk.emit import Emit
from nk.retval import feeding_phis
from rules.v08 import errors

META = {"level": "other", "technique": "forward must-dataflow over the compiler's SSA form (an error is recorded, or a routine that itself records one has failed, on every path to a failing return; something is emitted on every path to a successful return of the expression emitter), with token types enumerated exhaustively through the parser's classifying predicates",
        "note": "The routines judged are found from the compilation entry point: whatever a failing return relies on is judged in turn. That the emitted instruction computes what the operator means is not decided here (see V02 for its stack effect).",
        "explains": "rejection-recorded: on every path that ends in a failing return an error was recorded, or the failing result of another judged routine led there. result-covers-errors: compilation of a script reports success only where no error is recorded. emitted-or-rejected: every successful path through the expression emitter emits code or records an error. operator-needs-operands: the set of token types that can become a leaf of the syntax tree contains no operator, for every token type. operator-distinct: each operator that has a precedence is emitted, and no two by the same instruction. statement-compiled: a statement is only reported as compiled after one of the routines for its form succeeded."}

NODE = "NKExpressionAstNode"


def check(cx, tier):
    mod = cx.mod
    F = Fail(cx)
    F.judge("nkiCompilerCompileScript")
    result(cx, F)
    O = Ops(cx); E = Emit(cx, O)
    em = emitters(cx)
    if not em: raise Broken("expression emitter not found")
    cx.toks = {v: k for k, v in mod.enums["NKTokenType"]}
    types = set(cx.toks)
    M = Must(cx, F)
    for n in sorted(em): emitted(cx, M, n)
    tables(cx, M)
    ops = operators(cx, E, O, em)
    leaves(cx, ops, types)
    statement(cx, F)
    cx.need("rejection-recorded", 40); cx.need("result-covers-errors", 1); cx.need("emitted-or-rejected", 2)
    cx.need("operator-needs-operands", 3); cx.need("operator-distinct", 13); cx.need("statement-compiled", 1)


# ---------------------------------------------------------------- failures leave an error
class Fail:
    def __init__(self, cx):
        self.cx = cx; self.errs = errors(cx); self.fns = set(); self.work = []

    def judge(self, name):
        if name not in self.cx.mod.fns: raise Broken("%s not found" % name)
        self.add(name)
        while self.work: self.one(self.work.pop())

    def add(self, name):
        """a failing result of this routine is taken as evidence that an error was recorded"""
        mod = self.cx.mod
        if name in self.fns: return True
        fn = mod.fns.get(name)
        if fn is None or fn.ret not in ("i8", "i32", "ptr"): return False
        self.fns.add(name); self.work.append(name)
        return True

    def candidate(self, e, vn):
        """e is the result of a routine whose failure may stand for an error"""
        e = strip(e)
        if e[0] != "call": return None
        c = vn.fn.insts[e[1]]
        f = self.cx.mod.fns.get(c.callee)
        if f is None: return None
        if f.ret not in ("i8", "ptr"): return None
        if c.callee in self.fns or c.callee in self.may(): return c.callee
        return None

    def may(self):
        if not hasattr(self, "_may"):
            mod = self.cx.mod
            r = set(self.errs); ch = True
            while ch:
                ch = False
                for n, f in mod.fns.items():
                    if n not in r and any((i.callee or "") in r for i in f.calls()): r.add(n); ch = True
            self._may = r
        return self._may

    def why(self, vn, facts):
        """facts that mean: an error has been recorded (the routines relied upon are judged, too)"""
        used = set(); ok = False
        for f in facts:
            if len(f) != 3: continue
            op, a, b = f
            if b[0] != "c": a, b = b, a
            if b[0] != "c": continue
            a = strip(a)
            if op == "eq" and b[1] == 0:
                c = self.candidate(a, vn)
                if c: used.add(c); ok = True
                if a[0] == "a" and self.nodearg(vn.fn, a[1]): ok = True
                if is_load_of(vn, a, "NKToken", "str") and self.texts(): ok = True
                if a[0] == "call" and vn.fn.insts[a[1]].callee in ("nkiStrdup", "nkiMalloc_real"): ok = True       # cannot return nothing
            if a[0] == "call" and vn.fn.insts[a[1]].callee == "nkiGetErrorCount":
                if (op == "ne" and b[1] == 0) or op == "ugt": ok = True
        return ok, used

    def nodearg(self, fn, k):
        """the parameter is a syntax tree: only a failed parse leaves it out, and that was reported"""
        return k + 1 < len(fn.ditypes) and "NKExpressionAstNode" in str(fn.ditypes[k + 1])

    def texts(self):
        """no token lacks its text: whatever is stored there comes from a routine that cannot fail by returning nothing"""
        if not hasattr(self, "_texts"):
            mod = self.cx.mod; self._texts = True
            for n, fn in mod.fns.items():
                for i in fn.all():
                    if i.op == "store" and mod.addr_field(fn, i.o[1]) == ("NKToken", "str"):
                        d = fn.idef(i.o[0])
                        if d is None or d.op != "call" or d.callee not in ("nkiStrdup", "nkiMalloc_real", "nkiMalloc"):
                            e = self.cx.vn(n).expr(i.o[0])
                            if not (e[0] == "call" and fn.insts[e[1]].callee in ("nkiStrdup", "nkiMalloc_real", "nkiMalloc")): self._texts = False
        return self._texts

    def flow(self, fn, vn):
        """per block: is an error certainly recorded at its entry?"""
        IN = {b: True for b in fn.live}
        IN[0] = False
        ch = True
        while ch:
            ch = False
            for b in fn.rpo:
                o = self.out(fn, b, IN[b])
                for s in fn.succs[b]:
                    if vn.infeasible(b, s): continue
                    v = o or self.why(vn, vn.edge_facts(b, s))[0]
                    if IN[s] and not v: IN[s] = False; ch = True
        return IN

    def out(self, fn, b, v):
        for i in fn.blocks[b]:
            if i.op == "call" and (i.callee or "") in self.errs: v = True
        return v

    def one(self, name):
        cx = self.cx; fn = cx.mod.fns[name]; vn = cx.vn(name)
        IN = self.flow(fn, vn)
        for b in fn.live:
            for s in fn.succs[b]:
                for c in self.why(vn, vn.edge_facts(b, s))[1]: self.add(c)
        for r in fn.all():
            if r.op == "ret" and r.o:
                rec = self.at(fn, r, IN)
                self.value(fn, vn, r, r.o[0], rec, set(), r)

    def at(self, fn, ins, IN):
        v = IN[ins.blk]
        for i in fn.blocks[ins.blk][:ins.pos]:
            if i.op == "call" and (i.callee or "") in self.errs: v = True
        return v

    def value(self, fn, vn, r, op, rec, seen, where):
        """the returned value, where rec says whether an error is recorded by the time it is chosen"""
        cx = self.cx
        if rec: cx.ok("rejection-recorded", sample=where.loc()); return
        d = fn.idef(op)
        if op[0] == "c" or op[0] == "null":
            if op[0] == "null" or op[1] == 0 or op[1] is None:
                cx.bad("rejection-recorded", where, "%s can report failure without an error having been recorded" % fn.name, "fail:%s" % fn.name)
            else: cx.ok("rejection-recorded", sample=where.loc())
            return
        if d is None: return
        if d.op in ("zext", "trunc", "sext", "freeze"): return self.value(fn, vn, r, d.o[0], rec, seen, where)
        if d.op == "phi":
            if d.id in seen: return
            IN = self.flow(fn, vn)
            for v, p in d.o:
                if vn.infeasible(p, d.blk): continue
                rc = self.out(fn, p, IN[p]) or self.why(vn, vn.facts_on_edge(p, d.blk))[0]
                for c in self.why(vn, vn.facts_on_edge(p, d.blk))[1]: self.add(c)
                self.value(fn, vn, r, v, rc, seen | {d.id}, fn.blocks[p][-1])
            return
        if d.op == "select":
            for v in d.o[1:]: self.value(fn, vn, r, v, rec, seen, where)
            return
        facts = vn.facts(r)
        e = vn.expr(op)
        if any(f[0] == "ne" and ((f[1] == e and f[2] == ("c", 0))) for f in facts if len(f) == 3): cx.ok("rejection-recorded", sample=where.loc()); return
        if d.op == "call":
            if self.candidate(vn.expr(op), vn): self.add(d.callee); cx.ok("rejection-recorded", sample=where.loc()); return
        if d.op in ("icmp", "xor"):
            # the comparison is false: does that mean an error?
            ok, used = self.why(vn, [f for f in vn.cond_facts(vn.expr(op), False)])
            if ok:
                for c in used: self.add(c)
                cx.ok("rejection-recorded", sample=where.loc()); return
        if fn.ret == "ptr" and d.op in ("load", "gep", "getelementptr", "inttoptr"):
            # a pointer that is the successful result
            cx.ok("rejection-recorded", sample=where.loc()); return
        if d.op == "load" or d.op == "icmp":
            cx.bad("rejection-recorded", where, "%s can report failure without an error having been recorded" % fn.name, "fail:%s" % fn.name)
            return
        cx.ok("rejection-recorded", sample=where.loc())


def result(cx, F):
    """the outermost routine reports success only where no error is recorded"""
    fn = cx.mod.fns["nkiCompilerCompileScript"]; vn = cx.vn(fn.name)
    rec = F.may()

    def noerr(facts):
        for f in facts:
            if len(f) == 3 and f[0] == "eq" and f[2] == ("c", 0):
                a = strip(f[1])
                if a[0] == "call" and fn.insts[a[1]].callee == "nkiGetErrorCount": return fn.insts[a[1]]
        return None

    def later(c):
        return cx.paths(fn).escape(c, lambda i: i.op == "call" and (i.callee or "") in rec) is not None

    def judge(op, facts, where, seen=()):
        if op[0] == "c":
            if op[1] == 0: return
        d = fn.idef(op)
        if d is not None and d.op in ("zext", "trunc", "sext", "freeze"): return judge(d.o[0], facts, where, seen)
        if d is not None and d.op == "phi":
            if d.id in seen: return
            for v, p in d.o:
                if not vn.infeasible(p, d.blk): judge(v, vn.facts_on_edge(p, d.blk), fn.blocks[p][-1], seen + (d.id,))
            return
        if d is not None and d.op == "select":
            judge(d.o[1], facts + tuple(vn.cond_facts(vn.expr(d.o[0]), True)) if isinstance(facts, tuple) else list(facts) + list(vn.cond_facts(vn.expr(d.o[0]), True)), where, seen)
            judge(d.o[2], list(facts) + list(vn.cond_facts(vn.expr(d.o[0]), False)), where, seen)
            return
        fs = list(facts)
        if d is not None: fs += list(vn.cond_facts(vn.expr(op), True))
        c = noerr(fs)
        if c is None or later(c): cx.bad("result-covers-errors", where, "compilation can report success although an error was recorded", "success")
        else: cx.ok("result-covers-errors", sample=where.loc())
    for r in fn.all():
        if r.op == "ret": judge(r.o[0], list(vn.facts(r)), r)


# ---------------------------------------------------------------- emission
def emitters(cx):
    """routines that choose instructions by the type of a syntax-tree node"""
    mod = cx.mod; r = set()
    for n, fn in mod.fns.items():
        if fn.ret != "i8" or not emits(cx, n): continue
        vn = cx.vn(n)
        for i in fn.all():
            if i.op in ("switch", "br") and i.o and nodetype(vn, vn.expr(i.o[0])): r.add(n); break
    return r


def nodetype(vn, e):
    e = strip(e)
    if e[0] == "icmp": return nodetype(vn, e[2]) or nodetype(vn, e[3])
    if e[0] != "L": return False
    a = vn.addr(vn.fn.insts[e[1]].o[0])
    t = base_of(a, "NKToken", "type")
    return t is not None and is_load_of(vn, t, NODE, "opOrValue")


def emits(cx, n):
    """may the routine emit an instruction?"""
    if not hasattr(cx, "_emits"):
        mod = cx.mod; r = {"nkiCompilerAddInstruction"}; ch = True
        if not r & set(mod.fns): raise Broken("instruction writer not found")
        while ch:
            ch = False
            for m, f in mod.fns.items():
                if m not in r and any(c in r for i in f.calls() for c in (mod.cal(i) or ())): r.add(m); ch = True
        cx._emits = r
    return n in cx._emits


class Must:
    """routines that emit something, or record an error, whenever they return"""
    def __init__(self, cx, F):
        self.cx = cx; self.F = F; self.errs = errors(cx); self.tables = set()
        self.named = cx.mod.E("NK_TOKENTYPE_FUNCTIONSTYLEEXPRESSION")      # becomes a node of its own when parsed
        self.fns = {"nkiCompilerAddInstruction"} | self.errs
        cand = {n for n in cx.mod.fns if emits(cx, n)}
        ch = True
        while ch:
            ch = False
            for n in sorted(cand - self.fns):
                if self.silent(n) is None: self.fns.add(n); ch = True

    def stops(self, vn, i):
        if i.op != "call" or child(vn, i): return False
        cs = self.cx.mod.cal(i) or set()
        return bool(cs) and all(c in self.fns for c in cs)

    def edge(self, vn, p, b):
        """the edge is impossible, means that an error is recorded, or needs nothing to be emitted"""
        if vn.infeasible(p, b): return True
        fs = vn.edge_facts(p, b)
        if self.F.why(vn, fs)[0]: return True
        # the arguments of a call hang off the call's own node; they stand for no instruction themselves
        if any(len(f) == 3 and f[0] == "eq" and f[2] == ("c", 0) and is_load_of(vn, f[1], NODE, "isRootFunctionCallNode") for f in fs):
            return not any(len(f) == 3 and f[0] == "eq" and f[2] == ("c", self.named) and nodetype(vn, f[1]) for f in vn.facts_on_edge(p, b))
        return self.exhausted(vn.fn, p, b)

    def exhausted(self, fn, p, b):
        """the edge ends the search through a table of emitting routines: a name in the tree was found there before"""
        for i in fn.calls():
            if i.callee is not None or i.cv is None: continue
            d = fn.idef(i.cv)
            g = d is not None and d.op == "load" and self.cx.mod.addr_global(fn, d.o[0])
            if not g: continue
            if i.blk in fn.reach_blocks(p) and i.blk not in fn.reach_blocks(b) and p in fn.reach_blocks(p):
                self.tables.add(g); return True
        return False

    def silent(self, n):
        """a way through the routine that emits nothing and records nothing: the return, or None"""
        fn = self.cx.mod.fns[n]; vn = self.cx.vn(n)
        return self.cx.paths(fn).escape(None, lambda i: i.op == "ret", stop=lambda i: self.stops(vn, i), stop_edge=lambda p, b: self.edge(vn, p, b))


def emitted(cx, M, n):
    fn = cx.mod.fns[n]; vn = cx.vn(n)
    r = M.silent(n)
    if r is None: cx.ok("emitted-or-rejected", sample=n)
    else:
        # which part of the routine lets a node through?
        cx.bad("emitted-or-rejected", r, "%s can finish a node without having emitted or rejected it" % n, "silent:%s" % n)


def tables(cx, M):
    """built-in operators that look like calls: found by name when tokenizing, and again when emitting"""
    mod = cx.mod
    t = mod.E("NK_TOKENTYPE_FUNCTIONSTYLEEXPRESSION")
    for g in sorted(M.tables):
        users = {n for n, fn in mod.fns.items() if any(mod.addr_global(fn, o) == g for i in fn.all() if i.op == "load" for o in i.o)}
        for f in sorted(set(flatfns(mod.globals[g]["init"])) & set(mod.fns)): emitted(cx, M, f)
        for n, fn in sorted(mod.fns.items()):
            vn = None
            for i in fn.all():
                hit = i.op == "call" and i.callee in mod.fns and any(o[0] == "c" and o[1] == t and "NKTokenType" in str(mod.fns[i.callee].ditypes[k + 1:k + 2]) and makes(mod, i.callee, k) for k, o in enumerate(i.o))
                hit = hit or i.op == "store" and i.o[0][0] == "c" and i.o[0][1] == t and mod.addr_field(fn, i.o[1]) == ("NKToken", "type")
                if not hit: continue
                vn = vn or cx.vn(n)
                if any(len(f) == 3 and f[0] == "ne" and f[2] == ("c", 0) and strip(f[1])[0] == "call" and fn.insts[strip(f[1])[1]].callee in users for f in vn.facts(i)): cx.ok("emitted-or-rejected", sample=i.loc())
                else: cx.bad("emitted-or-rejected", i, "a name becomes a built-in operator without having been found in the table it is emitted from", "lookup:%s" % n)


def makes(mod, n, k):
    """the routine's parameter k ends up as the type of a token"""
    fn = mod.fns[n]
    return any(i.op == "store" and i.o[0] == ["a", k] and mod.addr_field(fn, i.o[1]) == ("NKToken", "type") for i in fn.all())


def flatfns(v):
    if isinstance(v, (list, tuple)):
        if len(v) == 2 and v[0] in ("f", "g", "fn") and isinstance(v[1], str): yield v[1]
        for x in v: yield from flatfns(x)
    elif isinstance(v, str): yield v


def child(vn, i):
    """the call emits an operand of the node (a child), not the node"""
    for o in i.o:
        e = vn.expr(o)
        if e[0] == "L":
            a = vn.addr(vn.fn.insts[e[1]].o[0])
            if a[0] == "gep" and any(s[0] == "f" and s[1] == NODE and s[2] == "children" for s in a[2]): return True
    return False


def operators(cx, E, O, em):
    """token type -> instruction codes emitted for it; returns the types whose instruction takes operands"""
    mod = cx.mod
    table = {}
    for n in em:
        fn = mod.fns[n]; vn = cx.vn(n)
        for i in fn.calls():
            if not emits(cx, i.callee): continue
            ts = types_at(vn, i)
            if not ts: continue
            if (i.callee or "").startswith("nkiCompilerAddInstruction") and len(i.o) > 1 and i.o[1][0] == "c":
                for t in ts: table.setdefault(t, set()).add(i.o[1][1])
            else:
                for t in ts: table.setdefault(t, set())
    prec = mod.fns.get("nkiCompilerGetPrecedence")
    if prec is None: raise Broken("operator precedence table not found")
    binary = set()
    for t in sorted(cx.toks):
        r = fold(cx, prec, {0: {t}})
        if r is None: raise Broken("cannot evaluate the operator precedence table")
        if any((x & 0xffffffff) != 0xffffffff for x in r): binary.add(t)
    names = {}
    for t in sorted(binary):
        codes = table.get(t, set())
        if not codes:
            # assignments are handled by a routine of their own
            if assigned(cx, em, t): cx.ok("operator-distinct", sample="%s: assignment" % cx.toks[t]); continue
            cx.bad("operator-distinct", mod.fns[sorted(em)[0]].blocks[0][0], "no instruction is emitted for %s, which the parser accepts as an operator" % cx.toks[t], "unemitted:%d" % t)
            continue
        clash = [u for u in names if names[u] & codes]
        if clash: cx.bad("operator-distinct", mod.fns[sorted(em)[0]].blocks[0][0], "%s and %s, two different operators, are emitted as the same instruction" % (cx.toks[clash[0]], cx.toks[t]), "same:%d:%d" % (clash[0], t))
        else: cx.ok("operator-distinct", sample="%s -> %s" % (cx.toks[t], [O.names.get(c, c) for c in sorted(codes)]))
        names[t] = codes
    takes = {t for t, cs in table.items() if any(declared(O, c) <= 0 for c in cs)}
    values = {t for t in table if t not in takes | binary}
    return takes | binary, values


def declared(O, c):
    """change of the stack depth the compiler's table declares for an instruction"""
    for v, st in O.offsets.get(c, []):
        if v[0] == "c": return v[1] - (1 << 32) if v[1] >= 1 << 31 else v[1]
    return 0


def types_at(vn, ins):
    r = set()
    for f in vn.facts(ins):
        if len(f) == 3 and f[0] == "eq" and f[2][0] == "c" and nodetype(vn, f[1]): r.add(f[2][1])
        if f[0] == "in" and nodetype(vn, f[1]): r |= set(f[2])
    return r


def assigned(cx, em, t):
    for n in em:
        fn = cx.mod.fns[n]; vn = cx.vn(n)
        for i in fn.calls():
            if i.callee in em and t in types_at(vn, i): return True
    return False


# ---------------------------------------------------------------- leaves of the syntax tree
def leaves(cx, ops, types):
    takes, values = ops
    mod = cx.mod
    types = sorted(types if scanned(cx) is None else types & scanned(cx))
    memo = {}
    for n, fn in sorted(mod.fns.items()):
        vn = None
        for i in fn.all():
            if i.op != "store" or mod.addr_field(fn, i.o[1]) != (NODE, "opOrValue"): continue
            vn = vn or cx.vn(n)
            v = vn.expr(i.o[0])
            if not is_load_of(vn, v, "NKCompilerState", "currentToken"): continue
            cell = vn.addr(fn.insts[strip(v)[1]].o[0])
            if (n, cell) not in memo:
                P = Possible(cx, vn, cell)
                memo[n, cell] = {t: P.reach(t) for t in types}
            allowed = {t for t in types if i.id in memo[n, cell][t]}
            a = allowed & takes; b = allowed & values
            if a and b: cx.bad("operator-needs-operands", i, "a token that is an operator (%s) can be taken as a value, without operands" % ", ".join(cx.toks[x] for x in sorted(a)[:4]), "leaf:%s" % n)
            else: cx.ok("operator-needs-operands", sample="%s: token types %s" % (i.loc(), [cx.toks[x] for x in sorted(allowed)] if len(allowed) < 12 else "%d types" % len(allowed)))


def scanned(cx):
    """token types the tokenizer produces; None when that cannot be told"""
    mod = cx.mod; r = set()
    for n, fn in mod.fns.items():
        for k in range(fn.nargs):
            if not makes(mod, n, k) or not any("NKTokenList" in str(t) for t in fn.ditypes): continue
            for c in mod.callers[n]:
                v = values(c.fn, c.o[k])
                if v is None: return None
                r |= v
    return r or None


def values(fn, op, seen=()):
    if op[0] == "c": return {op[1]}
    d = fn.idef(op)
    if d is None or d.id in seen: return set() if d is not None else None
    if d.op in ("zext", "sext", "trunc", "freeze"): return values(fn, d.o[0], seen)
    if d.op not in ("phi", "select"): return None
    r = set()
    for v in ([v for v, b in d.o] if d.op == "phi" else d.o[1:]):
        x = values(fn, v, seen + (d.id,))
        if x is None: return None
        r |= x
    return r


PTR = 0x1000        # stands for any address that is not null


class Possible:
    """follows the parser from wherever the current token last moved on, with the token being of a given type"""
    def __init__(self, cx, vn, cell):
        self.cx = cx; self.vn = vn; self.fn = vn.fn; self.cell = cell
        self.moves = {j.id for j in self.fn.all() if j.op in ("call", "store") and vn._kills(j, cell)}

    def reach(self, t):
        """ids of the stores that can then be executed while the token is still current"""
        fn = self.fn; out = set(); seen = set()
        work = [(0, 0, None, {})] + [(j.blk, j.pos + 1, None, {}) for j in fn.all() if j.id in self.moves and j.blk in fn.live]
        while work:
            b, pos, prev, env = work.pop()
            if len(seen) > 20000: raise Broken("too many paths through %s" % fn.name)
            env = dict(env); ended = False
            if pos == 0:
                new = {}
                for i in fn.blocks[b]:
                    if i.op != "phi": break
                    v = next((v for v, p in i.o if p == prev), None)
                    x = None if v is None else self.op(v, env)
                    new[i.id] = x
                for k, x in new.items():
                    if x is None: env.pop(k, None)
                    else: env[k] = x
            for i in fn.blocks[b][pos:]:
                if i.op == "phi": continue
                if i.id in self.moves: ended = True; break
                if i.op == "store": out.add(i.id); continue
                x = self.value(i, env, t)
                if x is None: env.pop(i.id, None)
                else: env[i.id] = x
            if ended: continue
            T = fn.blocks[b][-1]
            nxt = fn.succs[b]
            if T.op == "br" and T.o:
                c = self.op(T.o[0], env)
                if c is not None: nxt = [T.t if c & 1 else T.f]
            elif T.op == "switch":
                c = self.op(T.o[0], env)
                if c is not None: nxt = [next((d for v, d in T.cases if v & 0xffffffff == c & 0xffffffff), T.default)]
            for s in nxt:
                if self.vn.infeasible(b, s): continue
                # what is known about the token and what was derived from it matters, nothing else
                k = (s, b if any(i.op == "phi" for i in fn.blocks[s][:1]) else None, frozenset(env.items()))
                if k not in seen: seen.add(k); work.append((s, 0, b, env))
        return out

    def op(self, o, env):
        if o[0] == "c": return o[1]
        if o[0] == "null": return 0
        if o[0] == "i": return env.get(o[1])
        return None

    def value(self, i, env, t):
        fn = self.fn
        if i.op == "load":
            a = self.vn.addr(i.o[0])
            if a == self.cell: return PTR
            d = fn.idef(i.o[0])
            if base_of(a, "NKToken", "type") is not None and d is not None and d.op == "getelementptr" and self.op(d.o[0], env) == PTR: return t
            if self.op(i.o[0], env) == PTR and i.ty == "i32": return t        # the first member of a token is its type
            return None
        if i.op in ("zext", "trunc", "sext", "freeze", "bitcast"): return self.op(i.o[0], env)
        if i.op == "icmp":
            x, y = self.op(i.o[0], env), self.op(i.o[1], env)
            if x is None or y is None: return None
            x &= 0xffffffff; y &= 0xffffffff
            sx, sy = [v - (1 << 32) if v >> 31 else v for v in (x, y)]
            r = {"eq": x == y, "ne": x != y, "ult": x < y, "ule": x <= y, "ugt": x > y, "uge": x >= y, "slt": sx < sy, "sle": sx <= sy, "sgt": sx > sy, "sge": sx >= sy}.get(i.pred if hasattr(i, "pred") else None)
            return None if r is None else int(r)
        if i.op in ("xor", "and", "or"):
            x, y = self.op(i.o[0], env), self.op(i.o[1], env)
            if x is None or y is None: return None
            return {"xor": x ^ y, "and": x & y, "or": x | y}[i.op] & 1 if i.ty == "i1" else {"xor": x ^ y, "and": x & y, "or": x | y}[i.op]
        if i.op == "call":
            f = self.cx.mod.fns.get(i.callee)
            if f is None: return None
            en = {}
            for k, o in enumerate(i.o):
                x = self.op(o, env)
                if x is not None: en[k] = {x}
                elif k + 1 < len(f.ditypes) and "NKCompilerState" in str(f.ditypes[k + 1]): en[k] = {PTR + 1}
            if not en: return None
            def load(v2, e):
                a = v2.addr(v2.fn.insts[e[1]].o[0])
                b = base_of(a, "NKToken", "type")
                if b is not None and (b[0] == "a" or is_load_of(v2, b, "NKCompilerState", "currentToken")): return {t}
                if is_load_of(v2, e, "NKCompilerState", "currentToken"): return {PTR}
                return None
            r = fold(self.cx, f, en, 400, load)
            return list(r)[0] & 0xffffffff if r is not None and len(r) == 1 else None
        return None


# ---------------------------------------------------------------- statements
def statement(cx, F):
    fn = cx.mod.fns.get("nkiCompilerCompileStatement")
    if fn is None: raise Broken("statement compiler not found")
    vn = cx.vn(fn.name)
    def done(f):
        if len(f) != 3 or f[0] != "ne" or f[2] != ("c", 0): return False
        e = strip(f[1])
        return e[0] == "call" and fn.insts[e[1]].callee in F.fns and emits(cx, fn.insts[e[1]].callee)
    def settled(op):
        """failure, or the outcome of one of the routines"""
        if op[0] == "c": return op[1] == 0
        e = strip(vn.expr(op))
        return e == ("c", 0) or e[0] == "call" and fn.insts[e[1]].callee in F.fns and emits(cx, fn.insts[e[1]].callee)
    esc = cx.paths(fn).escape(None, lambda i: i.op == "ret" and not settled(i.o[0]), stop_edge=lambda p, b: vn.infeasible(p, b) or any(done(f) for f in vn.edge_facts(p, b)) or failing(fn, vn, p, b, settled))
    if esc is not None: cx.bad("statement-compiled", esc, "a statement can be reported as compiled without any of the routines for statements having succeeded", "statement")
    else: cx.ok("statement-compiled", sample=fn.name)


def failing(fn, vn, p, b, settled):
    """the edge settles the result"""
    for i in fn.blocks[b]:
        if i.op != "phi": break
        v = next((v for v, q in i.o if q == p), None)
        if v is not None and settled(v) and any(r.op == "ret" and r.o and i.id in feeding_phis(fn, r.o[0]) for r in fn.all()): return True
    return False
