"""Resolved-program model of /repo/src, built from LLVM SSA (see irdump.cpp).

Mod  - whole linked library: functions, struct layouts, enums, call graph
Fn   - one function: blocks, instructions, CFG, dominators
Inst - one instruction
"""
import json, sys
from collections import defaultdict

sys.setrecursionlimit(20000)

NOTHROW_LIBC = set()


class Inst:
    __slots__ = ("id", "op", "ty", "o", "ln", "fl", "callee", "cv", "pred", "path",
                 "cases", "default", "t", "f", "aty", "asz", "sty", "nsw", "blk", "fn",
                 "pos", "infn")

    def __init__(self, d, blk, fn, pos):
        self.id = d["id"]; self.op = d["op"]; self.ty = d.get("ty"); self.o = d["o"]
        self.ln = d.get("ln"); self.fl = d.get("fl"); self.callee = d.get("callee")
        self.cv = d.get("cv"); self.pred = d.get("pred"); self.path = d.get("path")
        self.cases = d.get("cases"); self.default = d.get("default")
        self.t = d.get("t"); self.f = d.get("f"); self.aty = d.get("aty")
        self.asz = d.get("asz")
        self.sty = d.get("sty"); self.nsw = d.get("nsw", False)
        self.infn = d.get("fn")
        self.blk = blk; self.fn = fn; self.pos = pos

    def loc(self):
        f = (self.fl or self.fn.file or "?").split("/")[-1]
        s = "%s:%s (%s" % (f, self.ln, self.fn.name)
        if self.infn:
            s += " via " + self.infn
        return s + ")"

    def __repr__(self):
        return "<%s %s#%d %s>" % (self.op, self.fn.name, self.id, self.callee or "")


class Fn:
    def __init__(self, mod, d):
        self.mod = mod
        self.name = d["name"]; self.vararg = d["vararg"]; self.nargs = d["nargs"]
        self.file = d.get("file"); self.line = d.get("line")
        self.ditypes = d.get("ditypes", [])   # [ret, arg0, ...]
        self.ret = d["ret"]; self.internal = d["internal"]
        self.blocks = []; self.succs = []; self.preds = []
        self.insts = {}
        for bi, b in enumerate(d["blocks"]):
            lst = []
            for i in b["i"]:
                ins = Inst(i, bi, self, len(lst))
                lst.append(ins); self.insts[ins.id] = ins
            self.blocks.append(lst)
            ss = []
            for s in b["s"]:
                if s not in ss: ss.append(s)
            self.succs.append(ss)
        n = len(self.blocks)
        self.preds = [[] for _ in range(n)]
        for b, ss in enumerate(self.succs):
            for s in ss: self.preds[s].append(b)
        self._reach = None
        # prune unreachable blocks
        seen = {0}; st = [0]
        while st:
            b = st.pop()
            for s in self.succs[b]:
                if s not in seen: seen.add(s); st.append(s)
        self.live = seen
        for b in range(n):
            self.preds[b] = [p for p in self.preds[b] if p in seen]
        self.rpo = self._rpo()
        self._dom = None; self._pdom = None
        self.uses = defaultdict(list)
        for ins in self.all():
            for op in self.operands(ins):
                self._use(op, ins)

    def _use(self, op, ins):
        if op[0] == "i": self.uses[op[1]].append(ins)
        elif op[0] == "cgep": self._use(op[1], ins)

    def operands(self, ins):
        """flat list of value operands (phi incoming values included, gep indices included)"""
        r = []
        if ins.op == "phi":
            for v, b in ins.o: r.append(v)
        else:
            r.extend(ins.o)
        if ins.path:
            for st in ins.path:
                if st[0] == "x": r.append(st[1])
        if ins.cv is not None: r.append(ins.cv)
        return r

    def all(self):
        for b in self.rpo:
            for i in self.blocks[b]:
                yield i

    def calls(self, name=None):
        for i in self.all():
            if i.op in ("call", "invoke") and (name is None or i.callee == name):
                yield i

    def _rpo(self):
        order = []; seen = set()
        st = [(0, iter(self.succs[0]))] if self.blocks else []
        seen.add(0)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s); st.append((s, iter(self.succs[s]))); break
            else:
                order.append(b); st.pop()
        return order[::-1]

    def dom(self):
        """block -> set of dominators"""
        if self._dom is None:
            self._dom = _domsets(self.rpo, self.preds, [0])
        return self._dom

    def dominates(self, a, b):
        """instruction a dominates instruction b"""
        if a.blk == b.blk: return a.pos < b.pos
        return a.blk in self.dom()[b.blk]

    def exits(self):
        """ret instructions"""
        return [i for i in self.all() if i.op == "ret"]

    def idef(self, op):
        return self.insts[op[1]] if op and op[0] == "i" else None

    def after(self, ins):
        """yield successors positions as (blk,pos) start points after ins"""
        return (ins.blk, ins.pos + 1)

    def reach_blocks(self, b):
        seen = set(); st = list(self.succs[b])
        while st:
            x = st.pop()
            if x in seen: continue
            seen.add(x); st.extend(self.succs[x])
        return seen

    def can_reach(self, a, b):
        """exists a path from just after a to b"""
        if a.blk == b.blk and a.pos < b.pos: return True
        return b.blk in self.reach_blocks(a.blk)


def _domsets(order, preds, roots):
    allb = set(order)
    dom = {b: set(allb) for b in order}
    for r in roots: dom[r] = {r}
    ch = True
    while ch:
        ch = False
        for b in order:
            if b in roots: continue
            ps = [p for p in preds[b] if p in dom]
            if not ps: continue
            new = set.intersection(*[dom[p] for p in ps]) | {b}
            if new != dom[b]: dom[b] = new; ch = True
    return dom


class Mod:
    def __init__(self, paths):
        """paths: one irdump JSON per translation unit.  They are kept apart
        until here because the IR linker merges struct types of equal shape
        and so loses which struct a field belongs to."""
        self.structs = {}; self.globals = {}; self.inlined = []; self.enumvals = {}; self.enums = {}
        self.fns = {}; decls = set(); self.units = []
        ds = [(p, json.load(open(p))) for p in sorted(paths)]
        ext = {}
        for p, d in ds:
            for n, f in d["functions"].items():
                if not f["internal"]: ext[n] = p
        seen_int = {}
        for p, d in ds:
            unit = p.split("/")[-1][:-5]
            self.units.append(unit)
            ren = {}
            for n, f in d["functions"].items():
                if f["internal"] and (n in ext or n in seen_int): ren[n] = unit + ":" + n
                elif f["internal"]: seen_int[n] = p
            gren = {g: unit + ":" + g for g in d["globals"]}
            for g, o in d["globals"].items():
                if "init" not in o: gren[g] = g
                elif not g.startswith(".") and not o.get("internal"): gren[g] = g
            def fix(v):
                if isinstance(v, list):
                    if len(v) == 2 and v[0] == "fn": return ["fn", ren.get(v[1], v[1])]
                    if len(v) == 2 and v[0] == "g": return ["g", gren.get(v[1], v[1])]
                    return [fix(x) for x in v]
                if isinstance(v, dict):
                    r = {k: fix(x) for k, x in v.items()}
                    if "callee" in r: r["callee"] = ren.get(r["callee"], r["callee"])
                    return r
                return v
            for n, f in d["functions"].items():
                f = fix(f); f["name"] = ren.get(n, n)
                if f["name"] in self.fns: raise SystemExit("duplicate function " + n)
                self.fns[f["name"]] = Fn(self, f)
            for g, o in d["globals"].items():
                o = fix(o)
                if "init" in o or gren[g] not in self.globals: self.globals[gren[g]] = o
            self.structs.update(d["structs"])
            self.enums.update(d["enums"])
            for n, vals in d["enums"].items():
                for k, v in vals: self.enumvals[k] = v
            decls |= set(d["decls"]); self.inlined += d["inlined"]
        self.decls = decls - set(self.fns)
        self._fields = {}
        for s, x in self.structs.items():
            for f, t, sz in x["fields"]: self._fields[(s, f)] = (t, sz)
        self._cg()

    def ftype(self, s, f):
        return self._fields.get((s, f), ("?", 0))[0]

    def fn(self, name):
        return self.fns[name]

    def E(self, name):
        return self.enumvals[name]

    # ---- function-pointer resolution ------------------------------------
    def _cg(self):
        """callees: per call instruction -> list of names; unresolved host
        callbacks are reported as 'cb:Struct.field'."""
        # functions whose address is taken, and where it goes
        self.addr_taken = set()
        def scan(v):
            if isinstance(v, list):
                if len(v) == 2 and v[0] == "fn": self.addr_taken.add(v[1])
                else:
                    for x in v: scan(x)
            elif isinstance(v, dict):
                for x in v.values(): scan(x)
        self.global_fns = {}
        for g, o in self.globals.items():
            s0 = set(self.addr_taken); self.addr_taken = set()
            scan(o.get("init"))
            self.global_fns[g] = set(self.addr_taken)
            self.addr_taken |= s0
        self.field_fns = defaultdict(set)      # (S,f) -> functions stored there
        self.slot_fns = defaultdict(set)       # global array -> functions stored at run time
        for fn in self.fns.values():
            for i in fn.all():
                ops = i.o if i.op != "phi" else [v for v, _ in i.o]
                for op in ops:
                    if op[0] == "fn": self.addr_taken.add(op[1])
                if i.op == "store" and i.o[0][0] == "fn":
                    k = self.addr_field(fn, i.o[1])
                    if k: self.field_fns[k].add(i.o[0][1])
                    g = self.addr_global(fn, i.o[1])
                    if g: self.slot_fns[g].add(i.o[0][1])
        self.callees = {}
        self.callers = defaultdict(list)
        for fn in self.fns.values():
            for i in fn.calls():
                self.callees[(fn.name, i.id)] = cs = self.resolve(fn, i)
                for c in cs: self.callers[c].append(i)

    def addr_field(self, fn, op):
        """(S,f) of the last struct field step in an address operand, or None"""
        while True:
            if op[0] == "cgep":
                p = op[2]
                for st in reversed(p):
                    if st[0] == "f": return (st[1], st[2])
                op = op[1]; continue
            if op[0] == "i":
                i = fn.insts[op[1]]
                if i.op == "getelementptr":
                    for st in reversed(i.path):
                        if st[0] == "f": return (st[1], st[2])
                    op = i.o[0]; continue
                if i.op == "bitcast": op = i.o[0]; continue
            return None

    def addr_global(self, fn, op):
        while True:
            if op[0] == "g": return op[1]
            if op[0] == "cgep": op = op[1]; continue
            if op[0] == "i":
                i = fn.insts[op[1]]
                if i.op in ("getelementptr", "bitcast"): op = i.o[0]; continue
            return None

    def resolve(self, fn, i):
        if i.callee: return [i.callee]
        cv = i.cv
        if cv and cv[0] == "i":
            d = fn.insts[cv[1]]
            if d.op == "load":
                k = self.addr_field(fn, d.o[0])
                g = self.addr_global(fn, d.o[0])
                if g and (self.slot_fns.get(g) or self.global_fns.get(g)):
                    return sorted(self.slot_fns.get(g, set()) | self.global_fns.get(g, set()))
                if k:
                    # field of a const table?
                    r = set()
                    for gn, fs in self.global_fns.items():
                        ty = self.globals[gn]["ty"]
                        if fs and ("struct." + k[0]) in ty: r |= fs
                    if r: return sorted(r)
                    return ["cb:%s.%s" % k]
        if cv and cv[0] == "a":
            return ["cb:arg:%s.%d" % (fn.name, cv[1])]
        return ["cb:?"]

    def cal(self, i):
        return self.callees[(i.fn.name, i.id)]

    def reach(self, roots):
        """set of function names transitively callable"""
        seen = set(); st = list(roots)
        while st:
            n = st.pop()
            if n in seen: continue
            seen.add(n)
            f = self.fns.get(n)
            if not f: continue
            for i in f.calls():
                for c in self.cal(i):
                    if c not in seen: st.append(c)
        return seen

    def may_reach(self, pred):
        """set of functions from which a call satisfying pred(inst,callee) is
        reachable (transitively)"""
        direct = set()
        for fn in self.fns.values():
            for i in fn.calls():
                for c in self.cal(i):
                    if pred(i, c): direct.add(fn.name)
        res = set(direct); st = list(direct)
        while st:
            n = st.pop()
            for i in self.callers.get(n, []):
                if i.fn.name not in res: res.add(i.fn.name); st.append(i.fn.name)
        return res
