"""M01: tracked allocation, limit, exact accounting."""
from nk.vn import lin, is_load_of, loads_field, base_of, strip, norm, state_before, show, subterms
from nk.core import Broken

META = {"level": "other", "technique": "SSA guard-fact and must-pass-through analysis of allocator, accounting and allocation sizes",
        "note": "Sound for the enumerated sites on the default configuration: every heap call, accounting write and size computation in src/*.c is judged. Trusts clang's front end, the value numbering, and the listed raw-heap exemptions.",
        "explains": "Every call through the host's allocate/free callbacks, every write of the usage/peak figures and the block list, every libc heap call and every computed allocation size in the library is enumerated on SSA form; each is checked against the guard facts and must-pass-through obligations stated in DESIGN.md (M01)."}

U32 = (1 << 32) - 1
# raw libc heap use that is not script memory: symbol -> reason
RAW_OK = {
    "nkxCompilerCompileScriptFile": "temporary copy of a host-named file, freed before return, never handed to the VM",
    "nkiCheckStringTableHoles": "debug-only consistency checker in nkdbg.c: scratch array local to the call",
}


def check(cx, tier):
    alloc_sites(cx)
    usage_writes(cx)
    free_sites(cx)
    raw_heap(cx)
    sizes(cx)


def cur(vn, e): return is_load_of(vn, e, "NKVM", "currentMemoryUsage")
def lim(vn, e): return is_load_of(vn, e, "NKVMLimits", "maxAllocatedMemory")


def cb_sites(cx, field):
    for fn in cx.mod.fns.values():
        for i in fn.calls():
            if any(c == "cb:NKVM." + field for c in cx.mod.cal(i)): yield fn, i


def fits(vn, facts, sz):
    """facts prove sz bytes fit below the limit"""
    L = lin(sz)
    cur_le = any(p in ("ule", "ult") and cur(vn, a) and lim(vn, b) for p, a, b in only3(facts))
    for p, a, b in only3(facts):
        if p not in ("ule", "ult"): continue
        # sz <= lim - cur
        if lin(a) == L and b[0] == "sub" and lim(vn, b[1]) and cur(vn, b[2]) and cur_le: return True
        # cur + sz <= lim, computed without wrap
        if lim(vn, strip(b)):
            s = strip(a)
            if s[0] == "add":
                for x, y in ((s[1], s[2]), (s[2], s[1])):
                    if cur(vn, strip(x)) and lin(y) == L:
                        if x[0] == "zext" and "i64" in x: return True
                        if any(q in ("ule", "ult") and lin(u) in (L, lin(x)) and lin(v) == lin(s) for q, u, v in only3(facts)): return True
        # cur <= lim - sz with sz <= lim
        if cur(vn, a) and b[0] == "sub" and lim(vn, b[1]) and lin(b[2]) == L:
            if any(q in ("ule", "ult") and lin(u) == L and lim(vn, v) for q, u, v in only3(facts)): return True
    return False


def only3(facts): return [f for f in facts if len(f) == 3 and isinstance(f[0], str) and f[0] in ("eq", "ne", "ule", "ult", "sle", "slt")]


def nowrap_header(facts, sz):
    """sz = size + H cannot have wrapped"""
    t, c = lin(sz)
    if not t: return True, c, None
    if len(t) != 1 or list(t)[0][1] != 1: return False, c, None
    term = list(t)[0][0]
    for p, a, b in only3(facts):
        if p in ("ule", "ult") and lin(a) == (t, 0):
            if b[0] == "c" and (b[1] & U32) + c - (1 if p == "ult" else 0) <= U32: return True, c, term
            if lin(b) == (t, c): return True, c, term
    return False, c, term


def alloc_sites(cx):
    n = 0
    for fn, s in cb_sites(cx, "mallocReplacement"):
        vn = cx.vn(fn.name); P = cx.paths(fn)
        sz = vn.expr(s.o[0])
        facts = vn.facts(s)
        n += 1
        if not fits(vn, facts, sz):
            cx.bad("limit-check", s, "host allocation of %s bytes is not dominated by a check that it fits below the memory limit" % show(vn, sz), "fits")
        good, H, term = nowrap_header(facts, sz)
        if not good:
            cx.bad("header-wrap", s, "size %s may wrap around: no dominating bound" % show(vn, sz), "wrap")
        if not any(op for op in s.o[1:] if is_load_of(vn, vn.expr(op), "NKVM", "mallocAndFreeReplacementUserData")):
            cx.bad("host-userdata", s, "host allocate callback is not given the host's user pointer", "userdata")
        res = vn.expr(["i", s.id])
        nonnull = ("ne", res, ("c", 0)); isnull = ("eq", res, ("c", 0))
        # failure of the host allocator must not return normally
        rets = lambda i: i.op == "ret"
        def to_null(i): return False
        w = P.escape(s, lambda i: i.op == "ret" and isnull in vn.facts(i))
        if w: cx.bad("null-result", w, "returns normally although the host allocator failed", "nullret")
        # on success: usage += sz, header recorded, linked
        def is_usage_store(i):
            return i.op == "store" and base_of(vn.addr(i.o[1]), "NKVM", "currentMemoryUsage") is not None
        def nullpath(p, b): return isnull in vn.edge_facts(p, b)
        def obligation(name, pred, msg):
            cx.ok("alloc:" + name, 1, s.loc())
            w = P.escape(s, rets, stop=pred, stop_edge=nullpath)
            if w: cx.bad("alloc:" + name, s, msg, name)
        def usage_ok(i):
            if not is_usage_store(i): return False
            v = vn.expr(i.o[0]); a = vn.addr(i.o[1])
            stt = state_before(vn, i)
            t, c = lin(v); st, sc = lin(sz)
            d = dict(t)
            curs = [x for x in d if cur(vn, x)]
            if len(curs) != 1 or d[curs[0]] != 1: return False
            if stt.get(a) not in (None, curs[0]): return False
            del d[curs[0]]
            return (frozenset(d.items()), c) == (st, sc)
        obligation("usage", usage_ok, "a successful allocation can return without adding exactly the obtained %s bytes to the usage figure" % show(vn, sz))
        for i in fn.all():
            if is_usage_store(i) and not usage_ok(i):
                cx.bad("alloc:usage", i, "usage figure is changed by something other than the obtained size", "usage-store")
        stores = [i for i in fn.all() if usage_ok(i)]
        for a in stores:
            for b in stores:
                if P.escape(a, lambda i, b=b: i is b): cx.bad("alloc:usage", b, "allocation can be charged twice", "twice")
        def hdr_size(i):
            if i.op != "store": return False
            a = vn.addr(i.o[1])
            if base_of(a, "NKMemoryHeader", "size") != res: return False
            t, c = lin(vn.expr(i.o[0])); st, sc = lin(sz)
            return t == st and (sc - c) % (1 << 32) == cx.hdr
        cx.hdr = cx.mod.structs["NKMemoryHeader"]["size"]
        obligation("header", hdr_size, "the header does not record the obtained size minus the header's own %d bytes" % cx.hdr)
        def linked(i):
            return i.op == "store" and base_of(vn.addr(i.o[1]), "NKVM", "allocations") is not None and vn.expr(i.o[0]) == res
        obligation("linked", linked, "a successful allocation can return without being put on the block list")
        def nxt(i):
            return i.op == "store" and base_of(vn.addr(i.o[1]), "NKMemoryHeader", "nextAllocation") == res and is_load_of(vn, vn.expr(i.o[0]), "NKVM", "allocations")
        obligation("next", nxt, "new block does not keep the rest of the block list")
        # next must be written before the head is overwritten
        for i in fn.all():
            if linked(i):
                w = P.escape(s, lambda j, i=i: j is i, stop=nxt, stop_edge=nullpath)
                if w: cx.bad("alloc:next", i, "block list head overwritten before the old list was attached to the new block", "order")
        def prv(i):
            return i.op == "store" and base_of(vn.addr(i.o[1]), "NKMemoryHeader", "prevAllocationPtr") == res and \
                base_of(vn.addr(i.o[0]), "NKVM", "allocations") is not None
        obligation("prev", prv, "new block's back link does not point at the list head")
        def oldprev(i):
            if i.op != "store": return False
            b = base_of(vn.addr(i.o[1]), "NKMemoryHeader", "prevAllocationPtr")
            if b is None: return False
            return (is_load_of(vn, b, "NKVM", "allocations") or is_load_of(vn, b, "NKMemoryHeader", "nextAllocation")) and \
                base_of(vn.addr(i.o[0]), "NKMemoryHeader", "nextAllocation") == res
        def empty_list(p, b):
            return nullpath(p, b) or any(q == "eq" and y == ("c", 0) and (is_load_of(vn, x, "NKVM", "allocations") or is_load_of(vn, x, "NKMemoryHeader", "nextAllocation")) for q, x, y in only3(vn.edge_facts(p, b)))
        cx.ok("alloc:oldprev")
        if P.escape(s, rets, stop=oldprev, stop_edge=empty_list):
            cx.bad("alloc:oldprev", s, "the block that was first on the list keeps a stale back link", "oldprev")
        # peak
        def peak_store(i):
            return i.op == "store" and base_of(vn.addr(i.o[1]), "NKVM", "peakMemoryUsage") is not None
        def curlike(e):
            return cur(vn, e) or any(vn.expr(u.o[0]) == e for u in stores)
        def peak_ok(i):
            return peak_store(i) and curlike(vn.expr(i.o[0]))
        def peak_edge(p, b):
            return nullpath(p, b) or any(q in ("ule", "ult") and curlike(x) and is_load_of(vn, y, "NKVM", "peakMemoryUsage") for q, x, y in only3(vn.edge_facts(p, b)))
        cx.ok("alloc:peak")
        for u in stores:
            if P.escape(u, rets, stop=peak_ok, stop_edge=peak_edge):
                cx.bad("alloc:peak", u, "usage can exceed the recorded peak on return", "peak")
        if P.escape(s, rets, stop=lambda i: i in stores, stop_edge=nullpath) is None and not stores:
            pass
        for i in fn.all():
            if peak_store(i) and not (peak_ok(i) and any(q in ("ult", "ule") and is_load_of(vn, x, "NKVM", "peakMemoryUsage") and curlike(y) for q, x, y in only3(vn.facts(i)))):
                cx.bad("alloc:peak", i, "peak figure overwritten without being smaller than the usage figure", "peakstore")
        # what is handed out is the memory right behind the header
        for i in fn.all():
            if i.op == "ret" and i.o and nonnull_possible(P, s, i):
                pass
        cx.ok("limit-check", 1, s.loc())
    if not n: raise Broken("no host allocation site found")
    cx.need("limit-check", 1)


def nonnull_possible(P, s, r): return True


def usage_writes(cx):
    """no other code may change the usage / peak figures or the block list"""
    alloc_fns = {fn.name for fn, _ in cb_sites(cx, "mallocReplacement")}
    free_fns = {fn.name for fn, _ in cb_sites(cx, "freeReplacement")}
    for fn in cx.mod.fns.values():
        for i in fn.all():
            if i.op != "store": continue
            k = cx.mod.addr_field(fn, i.o[1])
            if k in (("NKVM", "currentMemoryUsage"), ("NKVM", "peakMemoryUsage"), ("NKMemoryHeader", "size")):
                cx.ok("accounting-writer", 1, i.loc())
                if fn.name in alloc_fns: continue
                if fn.name in free_fns and k[1] == "currentMemoryUsage": continue
                if i.o[0] == ["c", 0, 32] and k[1] != "size" and is_init(cx, fn): continue
                cx.bad("accounting-writer", i, "%s.%s written outside the allocator" % k, k[1])
            if k == ("NKVM", "allocations"):
                cx.ok("list-writer", 1, i.loc())
                if fn.name in alloc_fns or fn.name in free_fns: continue
                if i.o[0][0] == "null" and is_init(cx, fn): continue
                cx.bad("list-writer", i, "block list head written outside the allocator", "allocations")
    cx.need("accounting-writer", 3)


def is_init(cx, fn):
    """function that initialises a machine: no allocation can precede it in that function"""
    return all(not (i.callee or "").startswith("nki") or fn.dominates(s, i) or not fn.can_reach(i, s)
               for s in fn.all() if s.op == "store" and cx.mod.addr_field(fn, s.o[1]) in (("NKVM", "currentMemoryUsage"), ("NKVM", "allocations"))
               for i in fn.calls() if "Malloc" in (i.callee or ""))


def free_sites(cx):
    """host free callback: either the accounted free, or teardown of the whole machine"""
    acc = 0
    for fn, s in cb_sites(cx, "freeReplacement"):
        vn = cx.vn(fn.name); P = cx.paths(fn)
        ptr = vn.expr(s.o[0])
        if not is_load_of(vn, vn.expr(s.o[1]), "NKVM", "mallocAndFreeReplacementUserData"):
            cx.bad("host-userdata", s, "host free callback is not given the host's user pointer", "userdata-free")
        cx.ok("free-site", 1, s.loc())
        # (a) the machine structure itself
        if ptr[0] == "a" and fn.ditypes[ptr[1] + 1].startswith("struct NKVM *"): continue
        # (b) walking the block list
        def from_list(e, seen=()):
            if e in seen: return True
            if is_load_of(vn, e, "NKVM", "allocations") or is_load_of(vn, e, "NKMemoryHeader", "nextAllocation"): return True
            if e[0] == "phi":
                return all(from_list(vn.expr(v), seen + (e,)) for v, b in fn.insts[e[1]].o if v[0] != "undef")
            return False
        if from_list(ptr):
            cx.ok("free-site:list-walk")
            continue
        # (c) accounted free
        acc += 1
        usage = [i for i in fn.all() if i.op == "store" and base_of(vn.addr(i.o[1]), "NKVM", "currentMemoryUsage") is not None]
        H = cx.mod.structs["NKMemoryHeader"]["size"]
        def sub_ok(i):
            if i not in usage: return False
            t, c = lin(vn.expr(i.o[0])); d = dict(t)
            curs = [x for x in d if cur(vn, x)]
            hs = [x for x in d if loads_field(vn, x, "NKMemoryHeader", "size") == ptr]
            M = 1 << 32
            return len(d) == 2 and len(curs) == 1 and len(hs) == 1 and d[curs[0]] == 1 and d[hs[0]] == M - 1 and c == (M - H)
        def unlink(i):
            return i.op == "store" and is_load_of(vn, strip_gep0(vn.addr(i.o[1])), "NKMemoryHeader", "prevAllocationPtr") and \
                loads_field(vn, vn.expr(i.o[0]), "NKMemoryHeader", "nextAllocation") == ptr
        def backlink(i):
            if i.op != "store": return False
            b = base_of(vn.addr(i.o[1]), "NKMemoryHeader", "prevAllocationPtr")
            return b is not None and loads_field(vn, b, "NKMemoryHeader", "nextAllocation") == ptr and \
                loads_field(vn, vn.expr(i.o[0]), "NKMemoryHeader", "prevAllocationPtr") == ptr
        def last(p, b):
            return any(q == "eq" and y == ("c", 0) and loads_field(vn, x, "NKMemoryHeader", "nextAllocation") == ptr for q, x, y in only3(vn.edge_facts(p, b)))
        for name, pred, se, msg in (("usage", sub_ok, None, "block returned to the host without taking exactly its size plus header off the usage figure"),
                                    ("unlink", unlink, None, "block returned to the host while still on the block list"),
                                    ("backlink", backlink, last, "successor on the block list keeps a back link to the freed block")):
            cx.ok("free:" + name)
            w = P.escape(None, lambda i: i is s, stop=pred, stop_edge=se or (lambda p, b: False))
            if w: cx.bad("free:" + name, s, msg, name)
        for i in usage:
            if not sub_ok(i): cx.bad("free:usage", i, "usage figure lowered by something other than the block's size plus header", "usage-store")
            w = P.escape(i, lambda j: j.op == "ret", stop=lambda j: j is s)
            if w: cx.bad("free:usage", i, "usage figure lowered although the block may be kept", "kept")
            if P.escape(i, lambda j: j in usage): cx.bad("free:usage", i, "usage figure lowered twice for one block", "twice")
    if not acc: raise Broken("no accounted free found")


def strip_gep0(a):
    return a[1] if a[0] == "gep" and not a[2] else a


def raw_heap(cx):
    defaults = cx.mod.field_fns.get(("NKVMCreateParams", "mallocReplacement"), set()) | cx.mod.field_fns.get(("NKVMCreateParams", "freeReplacement"), set()) | \
        cx.mod.field_fns.get(("NKVM", "mallocReplacement"), set()) | cx.mod.field_fns.get(("NKVM", "freeReplacement"), set())
    # conditional expressions store through a phi/select: accept functions of the callbacks' exact role
    for fn in cx.mod.fns.values():
        for i in fn.all():
            if i.op in ("store", "phi", "select"):
                ops = [v for v, _ in i.o] if i.op == "phi" else i.o
                if i.op == "store" and cx.mod.addr_field(fn, i.o[1]) not in (("NKVM", "mallocReplacement"), ("NKVM", "freeReplacement")): continue
                if i.op != "store" and not any(u.op == "store" and cx.mod.addr_field(fn, u.o[1]) in (("NKVM", "mallocReplacement"), ("NKVM", "freeReplacement")) for u in fn.uses[i.id]): continue
                for op in ops:
                    if op[0] == "fn": defaults.add(op[1])
    if not defaults: raise Broken("default host allocator not found")
    for fn in cx.mod.fns.values():
        for i in fn.calls():
            if i.callee in ("malloc", "calloc", "realloc", "free", "strdup", "posix_memalign", "aligned_alloc", "strndup", "asprintf"):
                cx.ok("raw-heap", 1, i.loc())
                if fn.name in defaults: continue
                if fn.name in RAW_OK: continue
                cx.bad("raw-heap", i, "%s() called outside the host's default allocator: this memory escapes the limit and the host's allocator" % i.callee, i.callee)
    cx.need("raw-heap", 2)


# ------------------------------------------------------------------ sizes
SIZE_ARG = {"nkiMalloc_real": 4, "nkiRealloc": 2}
PAIR_ARG = {"nkiMallocArray": (1, 2), "nkiReallocArray": (2, 3)}


def sizes(cx):
    """every computed size that reaches the allocator was computed without wrapping"""
    for fn in cx.mod.fns.values():
        for i in fn.calls():
            if i.callee not in SIZE_ARG: continue
            vn = cx.vn(fn.name)
            e = vn.expr(i.o[SIZE_ARG[i.callee]])
            cx.ok("size-arith", 1, "%s: %s" % (i.loc(), show(vn, e)))
            why = wraps(cx, vn, fn, i, e)
            if why: cx.bad("size-arith", i, "allocation size %s %s" % (show(vn, e), why), show(vn, e))
    cx.need("size-arith", 15)


def add_leaves(e):
    if e[0] in ("add",): return add_leaves(e[1]) + add_leaves(e[2])
    if e[0] in ("zext", "trunc"): return add_leaves(e[1])
    return [e]


def subst(e, old, new):
    if e == old: return new
    if isinstance(e, tuple): return tuple(subst(x, old, new) for x in e)
    return e


def upper(vn, e):
    """constant upper bound of a leaf, if any"""
    e = strip(e)
    if e[0] == "c": return e[1] & U32
    if e[0] == "call":
        d = vn.fn.insts[e[1]]
        if d.callee in ("nkiStrlen", "strlen"): return upper_text(vn, vn.expr(d.o[0]))
    return None


def upper_text(vn, t):
    if t[0] == "gep" and not t[2]: t = t[1]
    if t[0] == "g":
        ini = vn.mod.globals.get(t[1], {}).get("init")
        if isinstance(ini, list) and ini and ini[0] == "str": return len(ini[1])
        z = vn.mod.globals.get(t[1], {}).get("ty", "")
        import re
        m = re.match(r"\[(\d+) x i8\]", z)
        if m: return int(m.group(1)) - 1
    return None


def wraps(cx, vn, fn, at, e, facts=None, depth=0):
    """None if e (u32) provably did not wrap; else a reason"""
    if depth > 6: return "is too complex to bound"
    if facts is None: facts = vn.facts(at)
    e = strip(e)
    if e[0] in ("c", "a", "L", "call"): return None      # a plain value; no arithmetic here
    if e[0] == "trunc":
        # 64-bit arithmetic cut down to the allocator's 32 bits: the sum has to fit
        return wraps(cx, vn, fn, at, e[1], facts, depth + 1) if e[1][0] in ("add", "mul", "shl", "phi") else None
    phis = [x for x in add_leaves(e) if x[0] == "phi"]
    f3 = only3(facts)
    if e[0] == "phi" or phis:
        ph = e if e[0] == "phi" else None
        if ph is None and not add_wraps(vn, e, f3): return None
        for ph in ([ph] if ph else phis):
            d = fn.insts[ph[1]]
            res = None
            for v, b in d.o:
                if v[0] == "undef": continue
                x = vn.expr(v)
                if x == e or x == ph: continue
                ef = set(vn.facts_on_edge(b, d.blk))
                ef |= {f for f in facts if not vn._mentions(f, {ph[1]})}
                res = wraps(cx, vn, fn, at, subst(e, ph, x), ef, depth + 1)
                if res: break
            if not res: return None
        return res
    if e[0] in ("mul", "shl"):
        a, b = e[1], e[2]
        if a[0] == "c" and b[0] == "c": return None
        if e[0] == "shl": b = ("c", 1 << b[1]) if b[0] == "c" else b
        def bounds(fs):
            for x, y in ((strip(a), strip(b)), (strip(b), strip(a))):
                for p, u, v in fs:
                    if p == "eq" and v == ("c", 0) and strip(u) == x: return True      # a zero factor
                    if p in ("ult", "ule") and lin(u) == lin(x):
                        v = strip(v)
                        if v[0] == "udiv" and v[1][0] == "c" and (v[1][1] & U32) == U32 and lin(v[2]) == lin(y): return True
                        if v[0] == "c" and y[0] == "c" and (v[1] & U32) * y[1] <= U32: return True
            return False
        if bounds(f3): return None
        if hasattr(at, "blk") and cx.paths(vn.fn).escape(None, lambda j: j is at, stop_edge=lambda p, q: vn.infeasible(p, q) or bounds(only3(vn.edge_facts(p, q)))) is None: return None
        return "multiplies without a dominating overflow check"
    if e[0] == "add":
        for x in add_leaves(e):
            if x[0] in ("mul", "shl"):
                why = wraps(cx, vn, fn, at, x, facts, depth + 1)
                if why: return why
        return add_wraps(vn, e, f3)
    return None


def add_wraps(vn, e, f3):
    L = lin(e)
    if not L[0]: return None
    M = 1 << 32
    def minus(A, B):
        d = dict(A[0])
        for t, c in B[0]: d[t] = (d.get(t, 0) - c) % M
        return frozenset((t, c) for t, c in d.items() if c), (A[1] - B[1]) % M
    def plus(A, B):
        d = dict(A[0])
        for t, c in B[0]: d[t] = (d.get(t, 0) + c) % M
        return frozenset((t, c) for t, c in d.items() if c), (A[1] + B[1]) % M
    for p, u, v in f3:
        if p not in ("ult", "ule"):
            if p == "ne" and v[0] == "c":
                # x != max, x + 1
                r = minus(L, lin(u))
                if not r[0] and r[1] == 1 and (v[1] & U32) == U32: return None
                if v == ("c", 0) and lin(u) == L and L[1] == 1: return None
            continue
        U, V = lin(u), lin(v)
        if not U[0]: continue
        r = minus(L, U)
        k = 1 if p == "ult" else 0
        if not V[0] and not r[0]:
            if V[1] - k + r[1] <= U32: return None
        elif V[0]:
            s = plus(V, r)
            if not s[0] and ((s[1] - k) % M) >= (1 << 31): return None
        if V == L and u != v and U != L: return None      # sum compared against a part of it
    lv = add_leaves(e)
    ub = [upper(vn, x) for x in lv]
    if all(b is not None for b in ub) and sum(ub) <= U32: return None
    # length of a text held in memory plus its terminator; distance between
    # two places in one text plus terminator
    var = [x for x, b in zip(lv, ub) if b is None or x[0] != "c"]
    con = sum(x[1] for x in lv if x[0] == "c")
    if len(var) == 1 and con == 1:
        x = strip(var[0])
        if text_len(vn, x): return None
        if x[0] == "sub" and text_distance(vn, x): return None
    return "adds without a dominating overflow check"


def text_distance(vn, x):
    a, b = x[1], x[2]
    if a[0] == "ptrtoint" and b[0] == "ptrtoint": return True
    for e in (a, b):
        for i in vn.fn.all():
            if i.op == "getelementptr" and i.path and i.path[-1][0] == "x" and i.path[-1][2] in ("i8", "char") and strip(vn.expr(i.path[-1][1])) == strip(e): return True
            if i.op == "getelementptr" and i.path and i.path[-1][0] == "x" and vn.expr(i.path[-1][1]) in (e, ("zext", e, "i64")): return True
    return False


def const_small(e): return e[0] == "c" and abs(e[1]) < 65536


def text_len(vn, x):
    """x is the length of a text held in memory (terminator included fits the address space)"""
    return x[0] == "call" and (vn.fn.insts[x[1]].callee or "") in ("nkiStrlen", "strlen")
