"""I01: machines share no state, and nothing but program and host decides what they do."""
from nk.core import Broken
from nk.vn import strip, subterms
from nk import throw
from nk.effects import HARMLESS, IO, FORMATTERS, NUMBERS

META = {"level": "proof", "technique": "effect analysis of all storage outside the machines: every store to, and every use of the address of, a variable with static lifetime is judged; closed-value and control-dependence analysis of the writers; classification of every external callee and of every use of an address as a number",
        "note": "Proved over the whole library for state the library itself keeps or asks the C library for; external functions come from a list of ones without state that outlives the call (the number formatting locale is the host's to fix). Memory of a machine read before it is written is not judged here. Two writers in different threads are outside the property.",
        "explains": "shared-fixed: a store to storage that outlives machines has a value, an index and a controlling condition made only of constants, loop counters and pure functions of constants, so every machine would store the same; a slot is given one value only, and what is stored never depends on what was stored before. shared-filled: shared storage other code reads is filled by every creation of a machine, before anything there can fail, and by nothing else; what the filling routine reads back only decides whether it fills. shared-escape: the address of writable shared storage is used for loads and stores only. outside-state: every external callee is known to keep nothing between calls (no clock, random numbers, environment, tokenizer or static result buffers). address-number: an address is turned into a number only to take a difference, compared for order only with another address into the same block, and never formatted."}

TESTMODE = {"nkiNumAllocs"}       # exists only in the allocation-failure test mode, a build the host chooses
RECOVERY = {("f",) + throw.JB, ("f", "NKErrorState", "allocationFailure")}       # read when a recovery point is set up
DERIV = ("getelementptr", "bitcast", "phi", "select")


class Fill:
    """what a value in fn is made of"""
    def __init__(self, mod, fn, shared):
        self.mod = mod; self.fn = fn; self.shared = shared; self.memo = {}

    def closed(self, op, loads=False):
        """None if op is built from constants and counters alone, else what it depends on; with loads, shared storage may be read too"""
        if op[0] in ("c", "fp", "u", "fn", "null", "undef", "zero"): return None
        if op[0] == "g": return None
        if op[0] == "cgep": return self.closed(op[1], loads)
        if op[0] == "a": return "an argument"
        if op[0] != "i": return None if op[0] not in ("call",) else "a call"
        k = (op[1], loads)
        if k in self.memo: return self.memo[k]
        self.memo[k] = None
        i = self.fn.insts[op[1]]
        self.memo[k] = r = self._closed(i, loads)
        return r

    def _closed(self, i, loads):
        if i.op == "load":
            g = self.mod.addr_global(self.fn, i.o[0])
            if g is None: return self.local(i, loads)
            if g not in self.shared: return self.parts(i, loads)
            return self.parts(i, loads) if loads else "what was there before"
        if i.op in ("call", "invoke"):
            if i.callee in ("nkiStrlen",) or i.callee in NUMBERS or i.callee == "strlen": return self.parts(i, loads)
            return "the result of %s" % (i.callee or "a call")
        if i.op == "alloca": return None
        return self.parts(i, loads)

    def parts(self, i, loads):
        for o in self.fn.operands(i):
            w = self.closed(o, loads)
            if w: return w
        return None

    def local(self, i, loads):
        """a load from a local variable of the function"""
        a = root(self.fn, i.o[0])
        if a is None or a.op != "alloca": return "memory of a machine or the host"
        for u in uses(self.fn, a):
            if u.op == "store":
                w = self.closed(u.o[0], loads)
                if w: return w
            elif u.op in ("call", "invoke") and not (u.callee or "").startswith("llvm."): return "the result of %s" % (u.callee or "a call")
        return None


def uses(fn, d):
    """instructions that use d or an address derived from it"""
    out = []; seen = set(); st = [d]
    while st:
        x = st.pop()
        if x.id in seen: continue
        seen.add(x.id)
        for u in fn.uses[x.id]:
            if u.op in DERIV: st.append(u)
            out.append(u)
    return out


def root(fn, op):
    while True:
        if op[0] == "cgep": op = op[1]; continue
        if op[0] == "i":
            i = fn.insts[op[1]]
            if i.op in ("getelementptr", "bitcast"): op = i.o[0]; continue
            return i
        return None


def roots(vn, op, seen=None):
    """the blocks an address may point into"""
    fn = vn.fn; seen = set() if seen is None else seen
    while op[0] == "cgep": op = op[1]
    if op[0] != "i": return {(op[0], str(op[1:]))}
    if op[1] in seen: return set()
    seen.add(op[1])
    i = fn.insts[op[1]]
    if i.op in ("getelementptr", "bitcast"): return roots(vn, i.o[0], seen)
    if i.op == "phi": return set().union(*[roots(vn, v, seen) for v, _ in i.o])
    if i.op == "select": return roots(vn, i.o[1], seen) | roots(vn, i.o[2], seen)
    e = strip(vn.expr(op))
    if e[0] == "L":          # the same member read twice
        a = vn.addr(fn.insts[e[1]].o[0])
        return {("mem", str(a))}
    return {("v", str(e))}


def refs(op):
    if isinstance(op, (list, tuple)):
        if len(op) == 2 and op[0] == "g": yield op[1]
        else:
            for x in op: yield from refs(x)


def constant_index(op):
    """(global, steps) of a constant slot of a global, else None"""
    if op[0] == "g": return op[1], "0"
    if op[0] == "cgep" and op[1][0] == "g" and all(st[0] == "f" or st[1][0] == "c" for st in op[2]): return op[1][1], str([st[1:] for st in op[2]])
    return None


def check(cx, tier):
    mod = cx.mod
    shared = {g for g, o in mod.globals.items() if not o.get("const") and "init" in o}
    if not mod.fns: raise Broken("no functions")
    slots = {}; flags = {}
    for name in sorted(mod.fns):
        fn = mod.fns[name]; fill = Fill(mod, fn, shared)
        for i in fn.all():
            outside(cx, mod, fn, i)
            number(cx, fn, i)
            ops = fn.operands(i)
            for k, op in enumerate(ops):
                for g in refs(op):
                    if g in shared and g not in TESTMODE: use(cx, mod, fn, fill, i, k, op, g, slots, shared)
            # derived addresses held in registers
            if i.op in ("getelementptr", "phi", "select", "bitcast") and i.ty == "ptr":
                g = holds(mod, fn, i, shared)
                if g and g not in TESTMODE:
                    for u in fn.uses[i.id]:
                        for k, op in enumerate(fn.operands(u)):
                            if op[0] == "i" and op[1] == i.id: use(cx, mod, fn, fill, u, k, op, g, slots, shared)
    for (g, k), vals in sorted(slots.items()):
        if len({v for v, _ in vals}) > 1: cx.bad("shared-fixed", vals[0][1], "storage shared by all machines (%s) is given different values at different times" % g.split(":")[-1], g + k)
        else: cx.ok("shared-slot")
    for g, o in mod.globals.items():
        if g in shared: cx.ok("shared-storage")
    filled(cx, mod, shared)
    if len(mod.fns) < 200: raise Broken("library not recognised")
    cx.need("outside-state", 100)


def writers(mod, shared):
    """function -> shared variables it writes"""
    out = {}
    for fn in mod.fns.values():
        for i in fn.all():
            if i.op == "store": g = mod.addr_global(fn, i.o[1])
            elif i.op in ("call", "invoke") and i.o and (i.callee or "").startswith(("llvm.mem", "nkiMem")): g = mod.addr_global(fn, i.o[0])
            else: continue
            if g in shared and g not in TESTMODE: out.setdefault(fn.name, set()).add(g)
    return out


def filled(cx, mod, shared):
    """what is read from shared storage is the same for every machine"""
    W = writers(mod, shared)
    read = {}
    for fn in mod.fns.values():
        for i in fn.all():
            if i.op != "load": continue
            g = mod.addr_global(fn, i.o[0])
            if g not in shared or g in TESTMODE: continue
            read.setdefault(g, []).append(i)
            if fn.name in W and g in set().union(*W.values()): guarding(cx, mod, fn, i, g, shared)
    S = throw.summaries(cx)
    for name in sorted(W):
        fn = mod.fns[name]
        outer = [i for g in W[name] for i in read.get(g, []) if i.fn.name != name]
        if not outer: cx.ok("shared-filled"); continue
        who = sorted(e for e in mod.fns if e.startswith("nkx") and name in mod.reach([e]))
        late = [e for e in who if not e.startswith("nkxVmCreate")]
        if late or name in mod.addr_taken: cx.bad("shared-filled", outer[0], "storage shared by all machines is also filled after a machine was made (%s)" % (late[0] if late else name), name); continue
        if not who: cx.bad("shared-filled", outer[0], "storage shared by all machines is read but no machine's creation fills it", name); continue
        reached(cx, mod, fn, S, set())


def reached(cx, mod, fn, S, seen):
    """every creation of a machine runs fn"""
    if fn.name in seen: return
    seen.add(fn.name)
    cs = mod.callers[fn.name]
    first = True
    for i in cs:
        f = i.fn; vn = cx.vn(f.name); bad = None
        for b in sorted(f.live):
            if i.blk not in f.reach_blocks(b) or len(f.succs[b]) < 2: continue
            if not avoidable(f, b, i.blk): continue
            t = f.blocks[b][-1]
            e = strip(vn.expr(t.o[0])) if t.o else None
            if e is None or not only_calls(vn, e): bad = t; break
        if bad is not None: cx.bad("shared-filled", i, "the storage shared by all machines is filled only under a condition", f.name); continue
        if not f.name.startswith("nkx"):
            w = [j for j in f.all() if j is not i and j.op in ("call", "invoke") and not f.dominates(i, j) and f.can_reach(j, i)
                 and any(c in S and any(not throw.contradicts(x, j, vn) for x in S[c]) for c in mod.cal(j))]
            if w: cx.bad("shared-filled", i, "running out of memory earlier leaves the storage shared by all machines unfilled", f.name); continue
            reached(cx, mod, f, S, seen)
        cx.ok("shared-filled", sample=i.loc())


def only_calls(vn, e):
    """a condition on nothing but whether a call (an allocation, a recovery point) succeeded"""
    ats = [x for x in subterms(e) if x[0] in ("L", "a", "call")]
    return bool(ats) and all(x[0] == "call" or x[0] == "L" and vn.lastf(vn.addr(vn.fn.insts[x[1]].o[0])) in RECOVERY for x in ats)


def avoidable(fn, b, blk):
    """the function can end from b without running block blk"""
    seen = {b}; st = list(fn.succs[b])
    while st:
        x = st.pop()
        if x in seen or x == blk: continue
        seen.add(x)
        if fn.blocks[x][-1].op == "ret": return True
        st.extend(fn.succs[x])
    return False


def guarding(cx, mod, fn, i, g, shared):
    """what the filling routine reads back decides nothing but whether to fill"""
    short = g.split(":")[-1]
    st = list(fn.uses[i.id]); seen = set()
    while st:
        u = st.pop()
        if u.id in seen: continue
        seen.add(u.id)
        if u.op in ("icmp", "zext", "sext", "trunc", "and", "xor", "or", "phi", "select"): st.extend(fn.uses[u.id]); continue
        if u.op in ("br", "switch"):
            for x in fn.live:
                if x == u.blk or not (x in fn.reach_blocks(u.blk)) or not avoidable(fn, u.blk, x): continue
                for j in fn.blocks[x]:
                    if j.op == "store" and mod.addr_global(fn, j.o[1]) not in shared and (root(fn, j.o[1]) is None or root(fn, j.o[1]).op != "alloca") or \
                       j.op in ("call", "invoke") and not (j.callee in HARMLESS or (j.callee or "").startswith(("llvm.", "nkiStrlen", "nkiMem"))):
                        cx.bad("shared-filled", j, "what a machine does depends on whether another one was made before (%s)" % short, short); return
            continue
        cx.bad("shared-filled", u, "a value kept between machines is used (%s)" % short, short); return
    cx.ok("shared-filled")


def holds(mod, fn, i, shared):
    """the shared variable register i points into"""
    st = [i]; seen = set()
    while st:
        x = st.pop()
        if x.id in seen: continue
        seen.add(x.id)
        for o in (fn.operands(x) if x.op in ("phi", "select") else [x.o[0]]):
            while o[0] == "cgep": o = o[1]
            if o[0] == "g" and o[1] in shared: return o[1]
            if o[0] == "i" and fn.insts[o[1]].op in DERIV: st.append(fn.insts[o[1]])
    return None


def use(cx, mod, fn, fill, i, k, op, g, slots, shared):
    short = g.split(":")[-1]
    if i.op == "load": cx.ok("shared-read", sample=i.loc()); return
    if i.op in DERIV and (i.op != "getelementptr" or k == 0): return          # followed through its own uses
    if i.op == "icmp": return
    if i.op == "store" and k == 1:
        stored(cx, mod, fn, fill, i, i.o[0], i.o[1], g, slots); return
    if i.op in ("call", "invoke"):
        c = i.callee or ""
        if k == 0 and (c.startswith("llvm.memset") or c in ("memset", "nkiMemset")) or k == 0 and (c.startswith("llvm.memcpy") or c in ("memcpy", "nkiMemcpy")):
            if c.startswith("llvm.memcpy") or "cpy" in c:
                src = i.o[1]
                while src[0] == "cgep": src = src[1]
                if not (src[0] == "g" and mod.globals[src[1]].get("const")): cx.bad("shared-fixed", i, "storage shared by all machines (%s) is filled from something else than a constant" % short, short); return
            for o in i.o[1:]:
                w = fill.closed(o)
                if w: cx.bad("shared-fixed", i, "what is stored where all machines see it (%s) depends on %s" % (short, w), short); return
            controlled(cx, fn, fill, i, short); cx.ok("shared-fixed"); return
        if k == 1 and (c.startswith("llvm.memcpy") or c in ("memcpy", "nkiMemcpy", "strcmp", "memcmp")): cx.ok("shared-read"); return
    cx.bad("shared-escape", i, "the address of storage shared by all machines (%s) is passed on" % short, short)


def stored(cx, mod, fn, fill, i, val, addr, g, slots):
    short = g.split(":")[-1]
    for what, o in (("what is stored where", val), ("the place written where", addr)):
        w = fill.closed(o)
        if w: cx.bad("shared-fixed", i, "%s all machines see it (%s) depends on %s" % (what, short, w), short); return
    if not controlled(cx, fn, fill, i, short): return
    s = constant_index(addr)
    if s and val[0] != "i": slots.setdefault(s, []).append((str(val), i))
    cx.ok("shared-fixed", sample=i.loc())


def controlled(cx, fn, fill, i, short):
    """no branch that decides whether i runs depends on a machine"""
    for b in sorted(fn.live):
        t = fn.blocks[b][-1]
        if t.op not in ("br", "switch") or len(fn.succs[b]) < 2 or not (i.blk in fn.reach_blocks(b)): continue
        if not avoidable(fn, b, i.blk): continue
        cond = t.o[0] if t.o else None
        w = fill.closed(cond, loads=True) if cond else None
        if w: cx.bad("shared-fixed", i, "whether something is stored where all machines see it (%s) depends on %s" % (short, w), short); return False
    return True


def outside(cx, mod, fn, i):
    if i.op not in ("call", "invoke") or not i.callee or i.callee in mod.fns: return
    c = i.callee
    if c.startswith("llvm.") or c in HARMLESS or c in IO: cx.ok("outside-state"); return
    cx.bad("outside-state", i, "%s is called, which may depend on or keep state outside the machine" % c, c)


def number(cx, fn, i):
    if i.op == "ptrtoint":
        for u in reach_num(fn, i):
            cx.bad("address-number", u, "the numeric value of an address is used", None); return
        cx.ok("address-number")
    elif i.op == "icmp" and i.pred not in ("eq", "ne") and any(isptr(fn, o) for o in i.o):
        vn = cx.vn(fn.name)
        if roots(vn, i.o[0]) != roots(vn, i.o[1]): cx.bad("address-number", i, "addresses of different blocks are compared for order", None)
        else: cx.ok("address-number")
    elif i.op in ("call", "invoke") and i.callee in FORMATTERS:
        f = fmt(cx.mod, i, FORMATTERS[i.callee])
        if f is not None and "%p" in f: cx.bad("address-number", i, "an address is formatted", None)
        else: cx.ok("address-number")


def reach_num(fn, i):
    for u in fn.uses[i.id]:
        if u.op == "sub" and all(o[0] == "i" and fn.insts[o[1]].op == "ptrtoint" for o in u.o): continue
        yield u


def isptr(fn, o):
    if o[0] in ("g", "cgep", "fn", "null"): return True
    if o[0] == "i": return fn.insts[o[1]].ty == "ptr"
    if o[0] == "a": return "*" in str((fn.ditypes + [""] * 20)[o[1] + 1])
    return False


def fmt(mod, i, k):
    o = i.o[k]
    while o[0] == "cgep": o = o[1]
    if o[0] != "g": return None
    init = mod.globals[o[1]].get("init")
    return text(init)


def text(init):
    return init.get("str") if isinstance(init, dict) else None
