"""Value numbering, field-sensitive mod sets and branch facts.

expr(op): canonical expression tuple of an SSA operand.  Two loads of the
same access path get the same expression when no instruction on any path
between them can write the field (interprocedural, type based mod sets).

facts(inst): set of (pred, A, B) comparisons known to hold at inst.
"""
from collections import defaultdict

NEG = {"eq": "ne", "ne": "eq", "ult": "uge", "uge": "ult", "ugt": "ule", "ule": "ugt",
       "slt": "sge", "sge": "slt", "sgt": "sle", "sle": "sgt",
       "oeq": "une", "une": "oeq", "olt": "uge_f", "ogt": "ule_f"}
SWAP = {"eq": "eq", "ne": "ne", "ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule",
        "slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle",
        "oeq": "oeq", "une": "une"}
LIBC_WRITES_ARG = {"fread": [0], "sprintf": [0]}
PURE = {"atof", "atol", "strlen", "__assert_fail", "printf", "fprintf", "fputc", "fopen", "fclose", "fseek", "ftell"}


class ModSets:
    """per function: set of abstract locations it may write (transitively).
    ('f',S,f) field; ('*',S,f) memory pointed to by field; ('arg',i) memory
    pointed to by parameter i (raw); ('raw',) unknown."""

    def __init__(self, mod):
        self.mod = mod
        self.mods = {n: set() for n in mod.fns}
        self.local = {}
        for n, fn in mod.fns.items(): self.mods[n] = self._direct(fn)
        ch = True
        while ch:
            ch = False
            for n, fn in mod.fns.items():
                s = self.mods[n]; k = len(s)
                for i in fn.calls():
                    s |= self.call_locs(fn, i)
                if len(s) != k: ch = True
        # anything the public API can do, for host callbacks

    def loc_of(self, fn, op, depth=0):
        """abstract location an address operand denotes"""
        m = self.mod
        if op[0] == "a": return ("arg", op[1])
        if op[0] == "g": return ("glob", op[1])
        if op[0] == "cgep":
            for st in reversed(op[2]):
                if st[0] == "f": return ("f", st[1], st[2])
            return self.loc_of(fn, op[1])
        if op[0] == "i":
            d = fn.insts[op[1]]
            if d.op == "getelementptr":
                for st in reversed(d.path):
                    if st[0] == "f": return ("f", st[1], st[2])
                return self.loc_of(fn, d.o[0], depth + 1)
            if d.op == "bitcast": return self.loc_of(fn, d.o[0], depth + 1)
            if d.op == "alloca": return ("al", fn.name, d.id)
            if d.op == "load":
                k = m.addr_field(fn, d.o[0])
                if k: return ("*",) + k
                return ("raw",)
            if d.op == "phi" and depth < 4:
                ls = set()
                for v, b in d.o:
                    if v[0] in ("null", "undef"): continue
                    if v[0] == "i" and v[1] == d.id: continue
                    ls.add(self.loc_of(fn, v, depth + 1))
                if len(ls) == 1: return ls.pop()
            if d.op == "call":
                cs = m.cal(d)
                if any(c in ALLOC for c in cs): return ("fresh", fn.name, d.id)
        return ("raw",)

    def struct_fields(self, s):
        return [("f", s, f) for f, t, z in self.mod.structs[s]["fields"]] if s in self.mod.structs else []

    def pointee(self, fn, op, depth=0):
        """C struct type name an address operand points to, best effort"""
        m = self.mod
        def strip(t):
            t = t.strip()
            if t.endswith("*"):
                t = t[:-1].strip()
                if t.startswith("struct ") and not t.endswith("*"): return t[7:]
            return None
        if op[0] == "a" and len(fn.ditypes) > op[1] + 1: return strip(fn.ditypes[op[1] + 1])
        if op[0] == "i":
            d = fn.insts[op[1]]
            if d.op == "getelementptr":
                st = d.path[-1] if d.path else None
                if st is None: return self.pointee(fn, d.o[0], depth + 1)
                if st[0] == "f":
                    t = m.ftype(st[1], st[2])
                    return t[7:] if t.startswith("struct ") and "*" not in t and "[" not in t else None
                t = st[2]
                return t[7:] if t.startswith("struct ") else None
            if d.op == "load":
                k = m.addr_field(fn, d.o[0])
                if k: return strip(m.ftype(*k))
            if d.op == "call":
                for c in m.cal(d):
                    f = m.fns.get(c)
                    if f and f.ditypes: return strip(f.ditypes[0])
            if d.op == "alloca": return d.aty[7:] if d.aty.startswith("struct ") else None
            if d.op == "phi" and depth < 3:
                for v, b in d.o:
                    r = self.pointee(fn, v, depth + 1)
                    if r: return r
        return None

    def write_locs(self, fn, op, size=None):
        """locations a memcpy/memset style write may change"""
        s = self.pointee(fn, op)
        base = self.loc_of(fn, op)
        out = {base}
        if s:
            st = [s]
            while st:
                x = st.pop()
                for f, t, z in self.mod.structs.get(x, {"fields": []})["fields"]:
                    out.add(("f", x, f))
                    if t.startswith("struct ") and "*" not in t: st.append(t[7:].split("[")[0])
        return out

    def _direct(self, fn):
        out = set()
        for i in fn.all():
            if i.op == "store": out.add(self.loc_of(fn, i.o[1]))
            elif i.op == "call":
                c = i.callee or ""
                if c.startswith("llvm.mem") : out |= self.write_locs(fn, i.o[0])
                elif c in ("fread", "sprintf"): out |= self.write_locs(fn, i.o[0])
        return {x for x in out if x[0] not in ("al", "fresh")}

    def call_locs(self, fn, i):
        out = set()
        for c in self.mod.cal(i):
            if c.startswith("cb:"):
                if c in ALLOCATOR_CB: continue
                out.add(("host",))
                for op in i.o:
                    if op[0] in ("i", "a", "cgep") and self._ptrish(fn, op):
                        out |= self.write_locs(fn, op)
                continue
            f = self.mod.fns.get(c)
            if not f:
                continue
            for l in self.mods[c]:
                if l[0] == "arg":
                    if l[1] < len(i.o):
                        a = self.loc_of(fn, i.o[l[1]])
                        out.add(a)
                else: out.add(l)
        return {x for x in out if x[0] not in ("fresh", "al")}

    def call_locs_full(self, fn, i):
        """like call_locs, keeping the caller's own allocas"""
        out = set()
        for c in self.mod.cal(i):
            if c.startswith("cb:"):
                if c in ALLOCATOR_CB: continue
                out.add(("host",))
                for op in i.o:
                    if self._ptrish(fn, op): out |= self.write_locs(fn, op)
                continue
            f = self.mod.fns.get(c)
            if not f: continue
            for l in self.mods[c]:
                if l[0] == "arg":
                    if l[1] < len(i.o): out.add(self.loc_of(fn, i.o[l[1]]))
                else: out.add(l)
        return out

    def _ptrish(self, fn, op):
        if op[0] == "i": return fn.insts[op[1]].ty == "ptr"
        if op[0] == "a": return True
        return op[0] == "cgep"

    def host_mods(self):
        """what a host callback may change through the public API"""
        if not hasattr(self, "_host"):
            s = set()
            for n in self.mod.fns:
                if n.startswith("nkx"): s |= {l for l in self.mods[n] if l[0] in ("f", "*", "glob")}
            s.add(("raw",))
            self._host = s
        return self._host


# the host's allocator is not given the machine
ALLOCATOR_CB = {"cb:NKVM.mallocReplacement", "cb:NKVM.freeReplacement", "cb:NKVMCreateParams.mallocReplacement", "cb:NKVMCreateParams.freeReplacement"}
ALLOC = {"nkiMalloc_real", "nkiMallocArray", "nkiStrdup", "nkiRealloc", "nkiReallocArray", "malloc"}


class VN:
    def __init__(self, mod, fn, ms):
        self.mod = mod; self.fn = fn; self.ms = ms
        self.memo = {}
        self.load_expr = {}
        self._run()
        self._facts = None

    # -------------------------------------------------------------- exprs
    def expr(self, op):
        k = op[0]
        if k == "c": return ("c", op[1])
        if k == "null": return ("c", 0)
        if k == "a": return ("a", op[1])
        if k in ("g", "fn"): return (k, op[1])
        if k == "cgep":
            return ("gep", self.expr(op[1]), self._steps(op[2]))
        if k == "i": return self._iexpr(op[1])
        if k == "undef": return ("undef",)
        if k == "fp": return ("fp", op[1])
        return (k,)

    def _steps(self, path):
        out = []
        for st in path:
            if st[0] == "f": out.append(("f", st[1], st[2]))
            else: out.append(("x", self.expr(st[1])))
        return tuple(out)

    def _iexpr(self, n):
        r = self.memo.get(n)
        if r is not None: return r
        d = self.fn.insts[n]
        self.memo[n] = ("phi", n) if d.op == "phi" else ("v", n)      # cycle guard
        op = d.op
        if op == "load": r = self.load_expr.get(n, ("L", n))
        elif op == "getelementptr":
            b = self.expr(d.o[0]); s = self._steps(d.path)
            if b[0] == "gep": r = ("gep", b[1], b[2] + s)
            elif not s: r = b
            else: r = ("gep", b, s)
        elif op == "phi":
            vals = set()
            for v, b in d.o:
                e = self.expr(v)
                if e != ("phi", n): vals.add(e)
            if len(vals) == 1 and not self._mentions_phi_cycle(vals): r = vals.pop()
            else: r = ("phi", n)
        elif op in ("zext", "sext", "trunc", "bitcast", "ptrtoint", "inttoptr", "freeze"):
            e = self.expr(d.o[0])
            if op in ("bitcast", "freeze"): r = e
            elif e[0] == "c" and op in ("zext", "sext"):
                r = e
                if op == "zext" and e[1] < 0:
                    src = self._width(d.o[0])
                    if src: r = ("c", e[1] & ((1 << src) - 1))
            else: r = (op, e, d.ty)
        elif op == "icmp": r = ("icmp", d.pred, self.expr(d.o[0]), self.expr(d.o[1]))
        elif op == "fcmp": r = ("fcmp", d.pred, self.expr(d.o[0]), self.expr(d.o[1]))
        elif op in ("add", "mul", "and", "or", "xor"):
            a, b = self.expr(d.o[0]), self.expr(d.o[1])
            if repr(a) > repr(b): a, b = b, a
            r = (op, a, b)
            if a[0] == "c" and b[0] == "c":
                r = ("c", {"add": a[1] + b[1], "mul": a[1] * b[1], "and": a[1] & b[1], "or": a[1] | b[1], "xor": a[1] ^ b[1]}[op])
        elif op in ("sub", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "fadd", "fsub", "fmul", "fdiv", "frem"):
            r = (op, self.expr(d.o[0]), self.expr(d.o[1]))
            if op == "sub" and r[1][0] == "c" and r[2][0] == "c": r = ("c", r[1][1] - r[2][1])
            if op == "udiv" and r[1][0] == "c" and r[2][0] == "c" and r[2][1] > 0 and self._width(["i", n]):
                r = ("c", (r[1][1] & ((1 << self._width(["i", n])) - 1)) // r[2][1])
        elif op == "select": r = ("select",) + tuple(self.expr(x) for x in d.o)
        elif op == "alloca": r = ("al", n)
        elif op == "call": r = ("call", n)
        else: r = ("v", n)
        self.memo[n] = r
        return r

    def _mentions_phi_cycle(self, vals):
        return any("v" == e[0] for e in vals)

    def _width(self, op):
        if op[0] == "c": return op[2] if len(op) > 2 else None
        if op[0] == "i":
            t = self.fn.insts[op[1]].ty
            if t and t[0] == "i" and t[1:].isdigit(): return int(t[1:])
        return None

    # ------------------------------------------------- available loads
    def addr(self, op):
        e = self.expr(op)
        return e if e[0] == "gep" else ("gep", e, ())

    def lastf(self, a):
        for st in reversed(a[2]):
            if st[0] == "f": return st
        return None

    def abs_loc(self, a):
        """abstract location of canonical address"""
        f = self.lastf(a)
        if f: return f
        b = a[1]
        if b[0] == "a": return ("arg", b[1])
        if b[0] == "al": return ("al", self.fn.name, b[1])
        if b[0] == "g": return ("glob", b[1])
        if b[0] in ("L", "v", "phi", "call"):
            return self.ms.loc_of(self.fn, ["i", b[1]])
        return ("raw",)

    def loc_alias(self, w, l):
        """may a write to abstract location w change abstract location l?"""
        if w == l: return True
        if w[0] == "host":
            return any(self.loc_alias(h, l) for h in self.ms.host_mods()) if l[0] in ("f", "*", "glob") else False
        if w[0] == "f" and l[0] == "f": return False
        if "al" in (w[0], l[0]) or "fresh" in (w[0], l[0]) or "glob" in (w[0], l[0]): return False
        if w[0] == "f":       # field write vs raw/pointee/arg location
            return l[0] in ("raw",)
        if l[0] == "f":
            # raw pointer write against a named field: only fields whose
            # address escapes as a raw pointer can be hit
            if w[0] in ("raw", "arg"): return (l[1], l[2]) in self.ms_escaped()
            return False
        if w[0] == "*" and l[0] == "*": return False
        return True   # raw/arg/* mixes

    def ms_escaped(self):
        m = self.ms
        if not hasattr(m, "_esc"):
            esc = set()
            for fn in self.mod.fns.values():
                for i in fn.all():
                    if i.op != "getelementptr" or not i.path: continue
                    if i.path[-1][0] != "f": continue
                    for u in fn.uses[i.id]:
                        if u.op == "load": continue
                        if u.op == "store" and u.o[1] == ["i", i.id] and u.o[0] != ["i", i.id]: continue
                        if u.op == "getelementptr": continue
                        if u.op == "icmp": continue
                        esc.add((i.path[-1][1], i.path[-1][2]))
            m._esc = esc
        return m._esc

    def _kill(self, state, wl):
        if not state: return state
        return {k: v for k, v in state.items() if not any(self.loc_alias(w, self.abs_loc(k)) for w in wl)}

    def _store_kill(self, state, a):
        w = self.abs_loc(a)
        out = {}
        for k, v in state.items():
            if self.loc_alias(w, self.abs_loc(k)):
                # same base, different constant index or different steps -> distinct
                continue
            out[k] = v
        return out

    def _transfer(self, b, state, record=False):
        for i in self.fn.blocks[b]:
            if i.op == "load":
                a = self.addr(i.o[0])
                if a in state: e = state[a]
                else:
                    e = ("L", self.rep.get(i.id, i.id)); state = dict(state); state[a] = e
                self.new_loads[i.id] = e
                if self.load_expr.get(i.id) != e:
                    self.memo = {}; self.load_expr[i.id] = e
            elif i.op == "store":
                a = self.addr(i.o[1])
                state = self._store_kill(state, a)
                state[a] = self.expr(i.o[0])
            elif i.op == "call":
                c = i.callee or ""
                if c.startswith("llvm.mem") or c in ("fread", "sprintf"):
                    state = self._kill(state, self.ms.write_locs(self.fn, i.o[0]))
                elif c in PURE or c.startswith("llvm."): pass
                else:
                    wl = self.ms.call_locs_full(self.fn, i)
                    if wl: state = self._kill(state, wl)
        return state

    def _run(self):
        self.rep = {}
        for k in range(3):
            self._run1()
            if not self._unify(): break

    def _kills(self, i, a):
        """may instruction i change the memory at address expression a?"""
        if i.op == "store":
            return self.addr(i.o[1]) == a or not self._store_kill({a: 1}, self.addr(i.o[1]))
        if i.op != "call": return False
        c = i.callee or ""
        if c.startswith("llvm.mem") or c in ("fread", "sprintf"): return not self._kill({a: 1}, self.ms.write_locs(self.fn, i.o[0]))
        if c in PURE or c.startswith("llvm."): return False
        wl = self.ms.call_locs_full(self.fn, i)
        return bool(wl) and not self._kill({a: 1}, wl)

    def _unify(self):
        """loads of one address with nothing between them that changes it have one name,
        also when neither dominates the other"""
        fn = self.fn
        groups = {}
        for i in fn.all():
            if i.op == "load" and self.load_expr.get(i.id) == ("L", i.id):
                groups.setdefault(self.addr(i.o[0]), []).append(i)
        changed = False
        for a, ls in groups.items():
            if len(ls) < 2: continue
            # a new value for anything the address is computed from also ends the equality
            dep = {t for t in subterms(a) if isinstance(t, tuple) and len(t) >= 2 and t[0] in ("phi", "L", "call", "v")}
            redo = [i for i in fn.all() if i.op in ("phi", "load", "call") and dep and self.expr(["i", i.id]) in dep]
            kills = redo + [i for b in fn.rpo for i in fn.blocks[b] if i.op in ("store", "call") and self._kills(i, a)]
            for y in ls:
                for x in ls:
                    if x is y: continue
                    rx, ry = self._find(x.id), self._find(y.id)
                    if rx == ry: continue
                    if not self._before(x, y): continue
                    if any(self._before(x, k) and self._before(k, y) for k in kills): continue
                    lo, hi = min(rx, ry), max(rx, ry)
                    self.rep[hi] = lo; changed = True
        if changed:
            for k in list(self.rep): self.rep[k] = self._find(k)
        return changed

    def _find(self, x):
        while x in self.rep and self.rep[x] != x: x = self.rep[x]
        return x

    def _before(self, x, y):
        """is there a path from x to y?"""
        if x.blk == y.blk and x.pos < y.pos: return True
        fn = self.fn
        return any(y.blk in self._reachb(s) for s in fn.succs[x.blk])

    def _reachb(self, b):
        if not hasattr(self, "_rb"): self._rb = {}
        if b not in self._rb:
            seen = {b}; st = [b]
            while st:
                z = st.pop()
                for s in self.fn.succs[z]:
                    if s not in seen: seen.add(s); st.append(s)
            self._rb[b] = seen
        return self._rb[b]

    def _run1(self):
        fn = self.fn
        for rnd in range(12):
            self.new_loads = {}
            old = dict(self.load_expr)
            self.memo = {}
            outs = {}
            for it in range(20):
                changed = False
                for b in fn.rpo:
                    if b == 0: st = {}
                    else:
                        ps = [outs[p] for p in fn.preds[b] if p in outs]
                        if not ps: st = {}
                        else:
                            st = dict(ps[0])
                            for o in ps[1:]:
                                st = {k: v for k, v in st.items() if o.get(k) == v}
                    o = self._transfer(b, dict(st))
                    if outs.get(b) != o:
                        outs[b] = o; changed = True
                if not changed: break
            self.load_expr = dict(self.new_loads)
            self.memo = {}
            if self.load_expr == old: break
        else:
            # no fixpoint: fall back to no merging
            self.load_expr = {}; self.rep = {}
        self.memo = {}

    # ------------------------------------------------------------- facts
    def cond_facts(self, e, truth):
        """facts implied by boolean expression e being truth"""
        out = set()
        if e[0] == "icmp":
            p = e[1] if truth else NEG.get(e[1])
            a, b = e[2], e[3]
            # (zext (icmp)) != 0 and (trunc x) patterns
            if p in ("ne", "eq") and b == ("c", 0):
                t = (p == "ne")
                inner = self.strip_bool(a)
                if inner is not None: out |= self.cond_facts(inner, t)
            if p: out |= {norm(p, a, b)}
        elif e[0] == "fcmp":
            p = e[1]
            out.add(("f" + p if truth else "!f" + p, e[2], e[3]))
        elif e[0] == "and" and truth:
            out |= self.cond_facts(e[1], True) | self.cond_facts(e[2], True)
        elif e[0] == "or" and not truth:
            out |= self.cond_facts(e[1], False) | self.cond_facts(e[2], False)
        elif e[0] == "select":
            c, x, y = e[1:4]
            if truth and y == ("c", 0): out |= self.cond_facts(c, True) | self.cond_facts(x, True)
            if not truth and x == ("c", 1): out |= self.cond_facts(c, False) | self.cond_facts(y, False)
        elif e[0] == "xor" and ("c", 1) in e[1:] or e[0] == "xor" and ("c", -1) in e[1:]:
            o = e[1] if e[2][0] == "c" else e[2]
            out |= self.cond_facts(o, not truth)
        return out

    def strip_bool(self, a):
        if a[0] in ("zext", "sext", "trunc"):
            b = a[1]
            if b[0] in ("icmp", "fcmp", "and", "or", "xor", "select") : return b if self._isb(b) else None
            return self.strip_bool(b)
        if a[0] in ("icmp", "fcmp"): return a
        return None

    def _isb(self, b):
        return b[0] in ("icmp", "fcmp") or (b[0] in ("and", "or", "xor") and all(self._isb(x) or x[0] == "c" for x in b[1:3])) or \
            (b[0] == "select" and all(self._isb(x) or x[0] == "c" for x in b[1:4]))

    dead = frozenset()          # edges left out (a function looked at in one mode only)

    def edge_facts(self, p, b):
        t = self.fn.blocks[p][-1]
        out = set()
        if t.op == "br" and t.o:
            if t.t != t.f:
                if b == t.t: out = self.cond_facts(self.expr(t.o[0]), True)
                elif b == t.f: out = self.cond_facts(self.expr(t.o[0]), False)
        elif t.op == "switch":
            e = self.expr(t.o[0])
            vs = [v for v, d in t.cases if d == b]
            if b != t.default and len(vs) == 1: out.add(norm("eq", e, ("c", vs[0])))
            elif b == t.default and not vs:
                for v, d in t.cases: out.add(norm("ne", e, ("c", v)))
            if b != t.default and len(vs) > 1:
                out.add(("in", e, tuple(sorted(vs))))
        return out

    def infeasible(self, p, b):
        """do the facts that hold in p contradict the edge's condition?"""
        if not hasattr(self, "_inf"): self._inf = {}
        if (p, b) not in self._inf:
            known = self.block_facts(p); r = False
            for f in self.edge_facts(p, b):
                if len(f) != 3 or f[2][0] != "c": continue
                for g in known:
                    if len(g) != 3 or g[1] != f[1] or g[2][0] != "c": continue
                    if f[0] == "eq" and (g[0] == "eq" and g[2] != f[2] or g[0] == "ne" and g[2] == f[2]): r = True
                    if f[0] == "ne" and g[0] == "eq" and g[2] == f[2]: r = True
            self._inf[(p, b)] = r
        return self._inf[(p, b)]

    def facts(self, ins):
        if self._facts is None: self._compute_facts()
        return self._facts.get(ins.blk, frozenset())

    def block_facts(self, b):
        if self._facts is None: self._compute_facts()
        return self._facts.get(b, frozenset())

    def _compute_facts(self):
        fn = self.fn
        defs = {b: {i.id for i in fn.blocks[b]} for b in fn.rpo}
        TOP = None
        inn = {b: TOP for b in fn.rpo}
        inn[0] = frozenset()
        ef = {}
        for b in fn.rpo:
            for p in fn.preds[b]: ef[(p, b)] = frozenset(self.edge_facts(p, b))
        ch = True; n = 0
        while ch and n < 60:
            ch = False; n += 1
            for b in fn.rpo:
                if b == 0: continue
                acc = TOP
                for p in fn.preds[b]:
                    if inn[p] is TOP or (p, b) in self.dead: continue
                    f = inn[p]
                    # facts about values redefined in p do not survive through p
                    if f:
                        f = frozenset(x for x in f if not self._mentions(x, defs[p]))
                    o = f | ef[(p, b)]
                    acc = o if acc is TOP else (acc & o) | merge_facts(acc, o)
                if acc is not TOP and acc != inn[b]:
                    inn[b] = acc; ch = True
        self._facts = {b: (f or frozenset()) for b, f in inn.items()}
        # a flag merged from constants tells which way control came: what
        # holds on every remaining way in holds here
        self._phifacts = {}
        for b in fn.rpo:
            self._facts[b] = self.close(self._facts[b], ef)

    def close(self, facts, ef=None):
        extra = set()
        for f in facts:
            if f[0] in ("eq", "ne") and len(f) == 3 and f[1][0] == "phi" and f[2][0] == "c":
                extra |= self._flagfacts(f)
        return frozenset(facts) | extra if extra else frozenset(facts)

    def _flagfacts(self, f, depth=0):
        k = f
        if k in self._phifacts: return self._phifacts[k]
        self._phifacts[k] = frozenset()
        d = self.fn.insts[f[1][1]]
        if d.op != "phi": return frozenset()
        acc = None; dropped = False
        for v, p in d.o:
            e = self.expr(v)
            if e[0] == "c" and ((e[1] == f[2][1]) != (f[0] == "eq")):
                dropped = True; continue
            fs = set(self._facts.get(p, ())) | set(self.edge_facts(p, d.blk))
            if e[0] == "phi" and e != f[1] and depth < 6:
                fs.add((f[0], e, f[2]))
                fs |= self._flagfacts((f[0], e, f[2]), depth + 1)
            elif e[0] != "c": fs.add(norm(f[0], e, f[2]))
            acc = fs if acc is None else acc & fs
        r = frozenset(x for x in (acc or ()) if x != f)
        # facts about values defined in the merge block itself are stale
        dom = self.fn.dom()
        late = {i.id for b in self.fn.rpo if d.blk in dom[b] for i in self.fn.blocks[b]}
        r = frozenset(x for x in r if not self._mentions(x, late))
        self._phifacts[k] = r
        return r

    def facts_on_edge(self, p, b):
        """facts holding when control passes from p to b"""
        return self.close(self.block_facts(p) | frozenset(self.edge_facts(p, b)))

    def _mentions(self, e, ids):
        if isinstance(e, tuple):
            if len(e) == 2 and e[0] in ("L", "phi", "v", "call") and e[1] in ids: return True
            return any(self._mentions(x, ids) for x in e)
        return False


def merge_facts(a, b):
    """a few disjunctive joins: x==1 on one side, x==2 on the other"""
    return frozenset()


def norm(p, a, b):
    if a[0] == "c" and b[0] != "c": a, b, p = b, a, SWAP.get(p, p)
    # x < c  ->  x <= c-1 kept as is; leave
    if p in ("ugt", "uge", "sgt", "sge"): a, b, p = b, a, SWAP[p]
    if p in ("eq", "ne") and repr(a) > repr(b) and b[0] != "c": a, b = b, a
    return (p, a, b)


def strip(e):
    """drop width casts that keep the unsigned value"""
    while e[0] in ("zext",): e = e[1]
    return e


def show(vn, e, depth=0):
    """readable form of an expression"""
    if not isinstance(e, tuple): return str(e)
    k = e[0]
    if k == "c": return str(e[1])
    if k == "a": return "arg%d" % e[1]
    if k == "L":
        d = vn.fn.insts[e[1]]
        return "*" + show(vn, vn.addr(d.o[0]), depth + 1) if depth < 6 else "..."
    if k == "gep":
        s = show(vn, e[1], depth + 1)
        for st in e[2]:
            s += "." + st[2] if st[0] == "f" else "[" + show(vn, st[1], depth + 1) + "]"
        return "(" + s + ")"
    if k == "call":
        d = vn.fn.insts[e[1]]
        return "%s()" % (d.callee or "<indirect>")
    if k in ("phi", "v", "al"): return "%s%d" % (k, e[1])
    if k in ("zext", "sext", "trunc"): return show(vn, e[1], depth)
    return "%s(%s)" % (k, ", ".join(show(vn, x, depth + 1) if isinstance(x, tuple) else str(x) for x in e[1:]))


# ---------------------------------------------------------------- helpers
def lin(e, bits=32):
    """linear normal form: (frozenset of (term, coef), const), modulo 2^bits"""
    M = 1 << bits
    acc = {}
    const = 0
    def add(x, k):
        nonlocal const
        if x[0] == "c": const = (const + k * x[1]) % M
        elif x[0] == "add": add(x[1], k); add(x[2], k)
        elif x[0] == "sub": add(x[1], k); add(x[2], -k)
        elif x[0] == "mul" and x[1][0] == "c": add(x[2], k * x[1][1])
        elif x[0] == "mul" and x[2][0] == "c": add(x[1], k * x[2][1])
        elif x[0] == "shl" and x[2][0] == "c": add(x[1], k << x[2][1])
        elif x[0] == "zext" : add(x[1], k)
        elif x[0] == "trunc" and x[1][0] in ("zext", "sext", "add", "sub", "mul", "shl"): add(x[1], k)
        else: acc[x] = (acc.get(x, 0) + k) % M
    add(e, 1)
    return (frozenset((t, c) for t, c in acc.items() if c), const % M)


def subterms(e):
    st = [e]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            yield x
            st.extend(x)


def loads_field(vn, e, s, f):
    """e is a load of field s.f; returns the base expression or None"""
    e = strip(e)
    if e[0] != "L": return None
    d = vn.fn.insts[e[1]]
    a = vn.addr(d.o[0])
    return base_of(a, s, f)


def base_of(a, s, f):
    """address a ends in field s.f: the canonical address of the struct"""
    if a[0] == "gep" and a[2]:
        last = a[2][-1]
        if last == ("f", s, f):
            return ("gep", a[1], a[2][:-1]) if len(a[2]) > 1 else a[1]
    return None


def is_load_of(vn, e, s, f):
    return loads_field(vn, e, s, f) is not None


class Paths:
    """CFG path queries on one function"""
    def __init__(self, fn): self.fn = fn

    def round_trip(self, h, body, stop, stop_edge=lambda p, b: False):
        """can one iteration of loop (h, body) come back to its header without meeting stop?"""
        fn = self.fn
        return self.escape(fn.blocks[h][0], lambda i: False, stop=lambda i: stop(i) or i.blk not in body, stop_edge=stop_edge,
                           inclusive=True, target_edge=lambda p, b: b == h and p in body)

    def escape(self, start, targets, stop=lambda i: False, stop_edge=lambda p, b: False, inclusive=False, target_edge=None):
        """is there a path from just after `start` (an Inst, or None for entry)
        to an instruction in/for `targets` (predicate) that meets no
        instruction satisfying stop and no edge satisfying stop_edge?
        Returns the target Inst, or None."""
        fn = self.fn
        if start is None: b0, p0 = 0, 0
        else: b0, p0 = start.blk, start.pos + (0 if inclusive else 1)
        seen = set()
        st = [(b0, p0)]
        while st:
            b, p = st.pop()
            blocked = False
            for i in fn.blocks[b][p:]:
                if targets(i): return i
                if stop(i): blocked = True; break
            if blocked: continue
            for s in fn.succs[b]:
                if stop_edge(b, s): continue
                if target_edge and target_edge(b, s): return fn.blocks[b][-1]
                if s not in seen:
                    seen.add(s); st.append((s, 0))
        return None


def state_before(vn, ins):
    """available memory state just before ins"""
    if not hasattr(vn, "_outs"):
        outs = {}
        for it in range(20):
            changed = False
            for b in vn.fn.rpo:
                st = _in_state(vn, outs, b)
                o = _apply(vn, b, st, None)
                if outs.get(b) != o: outs[b] = o; changed = True
            if not changed: break
        vn._outs = outs
    st = _in_state(vn, vn._outs, ins.blk)
    return _apply(vn, ins.blk, st, ins)


def _in_state(vn, outs, b):
    if b == 0: return {}
    ps = [outs[p] for p in vn.fn.preds[b] if p in outs]
    if not ps: return {}
    st = dict(ps[0])
    for o in ps[1:]: st = {k: v for k, v in st.items() if o.get(k) == v}
    return st


def _apply(vn, b, state, upto):
    for i in vn.fn.blocks[b]:
        if i is upto: break
        if i.op == "load":
            a = vn.addr(i.o[0])
            if a not in state:
                state = dict(state); state[a] = vn.expr(["i", i.id])
        elif i.op == "store":
            a = vn.addr(i.o[1]); state = vn._store_kill(state, a); state[a] = vn.expr(i.o[0])
        elif i.op == "call":
            c = i.callee or ""
            if c.startswith("llvm.mem") or c in ("fread", "sprintf"):
                state = vn._kill(state, vn.ms.write_locs(vn.fn, i.o[0]))
            elif c in PURE or c.startswith("llvm."): pass
            else:
                wl = vn.ms.call_locs_full(vn.fn, i)
                if wl: state = vn._kill(state, wl)
    return state
