"""V07: values and host data are only interpreted as what they are."""
from nk.core import Broken
from nk.exttype import ext, ODATA, OTYPE
from nk.loops import index_covers, loops
from nk.vn import strip, state_before
from rules.h01 import covered, leaves

META = {"level": "other", "technique": "tag-dominance dataflow: every payload read and write of a script value and every use of attached host data is matched against available type-tag facts; loop-coverage check of the declared argument types of native functions",
        "note": "Ordering comparisons of two ids, and hashing of raw payloads, need no agreement of tags. Raw getters of the public interface return host data unchecked by design; the comparison is then the host's.",
        "explains": "A payload read (field of the value's union, or a copy of it) needs a tag fact about the same value that is still valid and matches the use: arithmetic reads need the int tag, float reads the float tag, object, string and function table lookups theirs. Where the value is a parameter the obligation moves to the callers. Payload writes come with the matching tag. Host data is used as a structure only after the object's type was compared with the registered one, and a type's callbacks only see data of objects of that type. A native function with declared arguments is entered only past its count and per-argument checks."}

TY, PL = ("f", "NKValue", "u"), ("f", "NKValue", "u1")


class V:
    def __init__(self, cx):
        self.cx, self.mod = cx, cx.mod
        e = self.mod.E
        self.T = {x: e("NK_VALUETYPE_" + x) for x in ("INT", "FLOAT", "STRING", "FUNCTIONID", "OBJECTID", "NIL")}
        self.name = {v: k for k, v in self.T.items()}
        self.ext = ext(cx)
        self.kinds = {}
        self.obget = self.lookups()
        self.needs = {}              # function -> {argument: kind needed}

    def lookups(self):
        """functions of a value that return non-null only for objects"""
        r = {}
        for n, fn in self.mod.fns.items():
            if fn.ret != "ptr": continue
            vn = self.cx.vn(n)
            for i in fn.all():
                if i.op != "load": continue
                a = vn.addr(i.o[0])
                if a[1][0] == "a" and a[2][:1] == (PL,):
                    k = a[1][1]
                    if all(self.objret(fn, vn, x, k) for x in fn.exits()): r[n] = k
        return r

    def objret(self, fn, vn, x, k):
        if not x.o: return False
        d = fn.idef(x.o[0])
        cands = d.o if d is not None and d.op == "phi" else [(x.o[0], None)]
        for v, q in cands:
            if v[0] in ("null", "zero") or v[0] == "c" and not v[1]: continue
            facts = vn.facts_on_edge(q, d.blk) if q is not None else vn.facts(x)
            if not any(len(f) == 3 and f[0] == "eq" and f[2] == ("c", self.T["OBJECTID"]) and strip(f[1])[0] == "L" and
                       vn.addr(fn.insts[strip(f[1])[1]].o[0]) == ("gep", ("a", k), (TY,)) for f in facts): return False
        return True

    # ------------------------------------------------------------ what a read is used for
    def kind_of_param(self, name, k, seen=()):
        """what a function takes an integer argument for: a table, arithmetic, or nothing particular"""
        if (name, k) in self.kinds: return self.kinds[(name, k)]
        if (name, k) in seen or name not in self.mod.fns: return set()
        self.kinds[(name, k)] = set()
        self.kinds[(name, k)] = self.flow(self.mod.fns[name], ["a", k], seen + ((name, k),))
        return self.kinds[(name, k)]

    def flow(self, fn, op, seen=(), direct=False):
        """set of uses of an integer value: OBJECTID/STRING/FUNCTIONID (table index), INT (arithmetic)"""
        vn = self.cx.vn(fn.name); r = set(); done = set(); work = [op]
        users = {}
        for i in fn.all():
            for o in fn.operands(i):
                if o[0] in ("i", "a"): users.setdefault(tuple(o[:2]), []).append(i)
        while work:
            o = work.pop(); key = tuple(o[:2])
            if key in done: continue
            done.add(key)
            for u in users.get(key, ()):
                if u.op in ("zext", "trunc", "phi", "select", "freeze"): work.append(["i", u.id])
                elif u.op == "and": work.append(["i", u.id])
                elif u.op in ("add", "sub", "mul", "sdiv", "srem", "sitofp", "sext", "shl", "udiv", "urem", "uitofp"):
                    if direct: r.add("INT")
                    else: r.add("INT?")
                elif u.op == "getelementptr":
                    fs = [f for f in fields(vn, vn.addr(["i", u.id])[1])] + [(s[1], s[2]) for s in vn.addr(["i", u.id])[2] if s[0] == "f"]
                    for f in fs[::-1]:
                        t = {("NKVM", "functionTable"): "FUNCTIONID"}.get(f)
                        if f[0] == "NKVMTable" or f in (("NKVM", "objectTable"), ("NKVM", "stringTable")):
                            t = self.tableof(fn, vn, fs)
                        if t: r.add(t); break
                elif u.op == "call":
                    for kk, x in enumerate(u.o):
                        if x[:2] == o[:2]:
                            for c in self.mod.cal(u):
                                ks = self.kind_of_param(c, kk, seen)
                                if "TABLE" in ks:
                                    t = self.tableof(fn, vn, [f for q in u.o for f in fields(vn, vn.expr(q))])
                                    r.add(t or "TABLE"); ks = ks - {"TABLE"}
                                r |= ks
        return r

    def tableof(self, fn, vn, fs):
        for f in fs:
            if f in (("NKVM", "objectTable"),): return "OBJECTID"
            if f in (("NKVM", "stringTable"),): return "STRING"
        return "TABLE"


def fields(vn, e, depth=0):
    """members an address expression goes through, loads included"""
    if depth > 12 or not isinstance(e, tuple) or not e: return
    if e[0] == "gep":
        for s in e[2]:
            if s[0] == "f": yield (s[1], s[2])
        yield from fields(vn, e[1], depth + 1)
    elif e[0] == "L":
        yield from fields(vn, vn.addr(vn.fn.insts[e[1]].o[0]), depth + 1)
    elif e[0] in ("zext", "sext", "trunc"): yield from fields(vn, e[1], depth + 1)


def check(cx, tier):
    v = V(cx)
    reads(cx, v)
    writes(cx, v)
    hostdata(cx, v)
    natives(cx, v)
    cx.need("payload-read", 40); cx.need("payload-write", 8); cx.need("host-data", 4); cx.need("type-callback", 3); cx.need("native-call", 1); cx.need("arity", 1)


# ---------------------------------------------------------------- payload reads
def payload(vn, op):
    """(base, steps before the payload) of an address of a value's payload"""
    a = vn.addr(op)
    for k, s in enumerate(a[2]):
        if s[:3] == PL: return a[1], tuple(a[2][:k])
    return None


def tags(v, vn, i, b):
    """values the tag of the value at b is known to have just before i; None if nothing is known"""
    st = state_before(vn, i)
    ls = [st[x] for x in st if x[0] == "gep" and x[1] == b[0] and x[2][:len(b[1])] == b[1] and len(x[2]) > len(b[1]) and x[2][len(b[1])][:3] == TY]
    return known(v, vn, vn.facts(i), ls)


def known(v, vn, facts, ls, depth=0):
    r = None
    def meet(s):
        nonlocal r
        r = set(s) if r is None else r & set(s)
    for l in ls:
        if l[0] == "c": meet({l[1]})
        for f in facts:
            if len(f) != 3: continue
            if f[0] == "in" and f[1] == l: meet(f[2])
            for a, b in ((f[1], f[2]), (f[2], f[1])):
                if a != l: continue
                if f[0] == "eq" and isinstance(b, tuple) and b and b[0] == "c": meet({b[1]})
                elif f[0] == "eq" and depth == 0 and isinstance(b, tuple):
                    k = known(v, vn, facts, [b], 1)
                    if k is not None: meet(k)
    return r


def objfact(v, vn, i, b):
    """a look-up of this very value returned an object"""
    addr = ("gep", b[0], b[1]) if b[1] else b[0]
    for f in vn.facts(i):
        if len(f) == 3 and f[0] == "ne" and f[2] == ("c", 0):
            e = strip(f[1])
            if e[0] == "call":
                c = vn.fn.insts[e[1]]
                if c.callee in v.obget and same(vn.expr(c.o[v.obget[c.callee]]), addr): return True
    return False


def same(a, b):
    a, b = strip(a), strip(b)
    if a == b: return True
    return a[0] == "gep" and not a[2] and same(a[1], b) or b[0] == "gep" and not b[2] and same(a, b[1])


def sites(cx, v):
    for fn in v.mod.fns.values():
        vn = cx.vn(fn.name)
        for i in fn.all():
            if i.op == "load":
                b = payload(vn, i.o[0])
                if b: yield fn, vn, i, b, i.ty, ["i", i.id]
            elif i.op == "call" and (i.callee or "").startswith("llvm.memcpy"):
                b = payload(vn, i.o[1])
                if b:
                    # a member of the payload is copied out: what the copy is used for counts
                    d = vn.addr(i.o[0])[1]
                    for j in fn.all():
                        if j.op == "load" and vn.addr(j.o[0])[1] == d and d[0] == "al": yield fn, vn, i, b, j.ty, ["i", j.id]
                    if d[0] != "al":
                        yield fn, vn, i, b, "copy:" + ".".join(sorted({"%s" % cx.ms.pointee(fn, o) for o in i.o[:2]})), None


def reads(cx, v):
    pend = []
    for fn, vn, i, b, ty, op in sites(cx, v):
        pend.append((fn, vn, i, b, want(v, fn, vn, i, ty, op)))
    for fn, vn, i, b, w in pend:
        demand(cx, v, fn, vn, i, b, w, "read")
    # obligations of callers
    work = [(n, k, w) for n, d in v.needs.items() for k, ws in d.items() for w in ws]
    done = set()
    while work:
        n, k, w = work.pop()
        if (n, k, w) in done: continue
        done.add((n, k, w))
        cs = v.mod.callers.get(n, [])
        for c in cs:
            if k >= len(c.o): continue
            gn = cx.vn(c.fn.name); a = gn.addr(c.o[k])
            before = {(f, kk, ww) for f, d in v.needs.items() for kk, ws in d.items() for ww in ws}
            demand(cx, v, c.fn, gn, c, (a[1], tuple(a[2])), w, "argument")
            work += [x for x in {(f, kk, ww) for f, d in v.needs.items() for kk, ws in d.items() for ww in ws} - before]
        if not cs or n in v.mod.addr_taken: cx.bad("payload-read", v.mod.fns[n].blocks[0][0], "%s reads a value's payload and nothing checks the tag for its callers" % n, "entry")


def want(v, fn, vn, i, ty, op):
    """set of tags that allow this read, or None when the read is only compared or hashed"""
    T = v.T
    if ty == "float": return frozenset({T["FLOAT"]})
    if op is None: return frozenset(T.values()) - {T["FLOAT"]}
    ks = v.flow(fn, op, (), True)
    ks = {"INT" if k == "INT?" else k for k in ks}
    tabs = ks & {"OBJECTID", "STRING", "FUNCTIONID"}
    if tabs: return frozenset(T[k] for k in tabs) if len(tabs) == 1 else frozenset()
    if "INT" in ks: return frozenset({T["INT"]})
    return frozenset({-1}) | order_only(v, fn, vn, op)


def order_only(v, fn, vn, op):
    """-2 added: only used in an ordering comparison against another payload; -3: returned"""
    us = [u for u in fn.uses.get(op[1], ())] if op[0] == "i" else []
    if us and all(u.op == "icmp" and u.pred in ("slt", "sgt", "sle", "sge", "ult", "ugt", "ule", "uge") for u in us): return frozenset({-2})
    return frozenset()


def demand(cx, v, fn, vn, i, b, w, what):
    key = "%s" % "/".join(sorted(v.name.get(x, "any") for x in w if x >= 0)) or "any"
    t = tags(v, vn, i, b)
    anyone = -1 in w
    if anyone:
        if t is not None and (v.T["FLOAT"] not in t or len(t) == 1 or len(t) > 1 and fn.ret == "i32" and not loops(fn)): cx.ok("payload-read", sample=i.loc()); return
        if t is None and objfact(v, vn, i, b): cx.ok("payload-read", sample=i.loc()); return
        if -2 in w and ordered(v, vn, i): cx.ok("payload-read", sample=i.loc()); return
    elif t is not None and t and t <= w: cx.ok("payload-read", sample=i.loc()); return
    elif t is None and v.T["OBJECTID"] in w and objfact(v, vn, i, b): cx.ok("payload-read", sample=i.loc()); return
    if t is None and b[0][0] == "a" and not b[1] and not fn.name.startswith("nkx") and v.mod.callers.get(fn.name) and not anyone:
        v.needs.setdefault(fn.name, {}).setdefault(b[0][1], set()).add(w)
        cx.ok("payload-read", sample=i.loc()); return
    have = "nothing" if t is None else "only %s" % ", ".join(sorted(v.name.get(x, str(x)) for x in t))
    cx.bad("payload-read", i, "the payload of a value is used as %s, but %s is known about its tag" % (key.lower() if not anyone else "plain number", have), key)


def ordered(v, vn, i):
    """the other side of the comparison has an established tag"""
    for u in vn.fn.uses.get(i.id, ()):
        for o in u.o:
            if o[0] == "i" and o[1] != i.id:
                d = vn.fn.insts[o[1]]
                if d.op == "load":
                    b = payload(vn, d.o[0])
                    if b:
                        t = tags(v, vn, d, b)
                        if t and len(t) == 1 and v.T["FLOAT"] not in t: return True
    return False


# ---------------------------------------------------------------- payload writes
def writes(cx, v):
    T = v.T
    for fn in v.mod.fns.values():
        vn = cx.vn(fn.name)
        for i in fn.all():
            if i.op != "store": continue
            b = payload(vn, i.o[1])
            if not b: continue
            val = vn.expr(i.o[0]); e = strip(val)
            tagst = lambda j: j.op == "store" and tagaddr(vn, j, b)
            vals = [strip(vn.expr(j.o[0])) for j in fn.all() if tagst(j)]
            cx.ok("payload-write", sample=i.loc())
            allowed = None
            isf = width(vn, i) == "float"
            if isf: allowed = {T["FLOAT"]}
            elif e[0] == "c": continue        # a constant initialisation
            else:
                ks = source(cx, v, fn, vn, i.o[0])
                allowed = {T[k] for k in ks} if ks else set(T.values()) - {T["FLOAT"]}
            good = lambda j: j.op == "store" and tagaddr(vn, j, b) and strip(vn.expr(j.o[0]))[0] == "c" and strip(vn.expr(j.o[0]))[1] in allowed
            anytag = lambda j: j.op == "store" and tagaddr(vn, j, b)
            t = tags(v, vn, i, b)
            if t and t <= allowed: continue
            if covered(cx, None, i, good):
                # and no other tag is the last word
                bad_ = [j for j in fn.all() if anytag(j) and not good(j) and fn.can_reach(i, j)]
                if not bad_: continue
            cx.bad("payload-write", i, "a payload is stored with a tag that does not say what it is", "tag")


def width(vn, i):
    d = vn.fn.idef(i.o[0])
    if d is not None: return d.ty
    return i.o[0][2] if len(i.o[0]) > 2 else getattr(i, "sty", None)


def tagaddr(vn, j, b):
    x = vn.addr(j.o[1])
    return x[1] == b[0] and x[2][:len(b[1])] == b[1] and len(x[2]) > len(b[1]) and x[2][len(b[1])][:3] == TY


def source(cx, v, fn, vn, op):
    """what an integer stored into a payload denotes"""
    e = strip(vn.expr(op))
    if e[0] == "call":
        c = fn.insts[e[1]].callee or ""
        s = produces(cx, v, c)
        if s: return s
    if e[0] == "L":
        f = vn.lastf(vn.addr(fn.insts[e[1]].o[0]))
        f = (f[1], f[2]) if f else None
        if f == ("NKVMObject", "objectTableIndex"): return {"OBJECTID"}
        if f == ("NKVMString", "stringTableIndex"): return {"STRING"}
        p = [(s[1], s[2]) for s in vn.addr(fn.insts[e[1]].o[0])[2] if s[0] == "f"]
        if any(x[0] == "NKVMInternalFunctionID" for x in p): return {"FUNCTIONID"}
    return set()


def produces(cx, v, c, depth=0):
    """does function c return an index of the object or string table (of an entry it looks up or makes)?"""
    fn = v.mod.fns.get(c)
    if fn is None or fn.ret != "i32" or depth > 3: return set()
    r = set(); vn = cx.vn(c)
    for x in fn.exits():
        for t in vn_leaves(vn, x.o[0]):
            if t[0] == "call": r |= produces(cx, v, fn.insts[t[1]].callee or "", depth + 1)
            if t[0] == "L":
                f = vn.lastf(vn.addr(fn.insts[t[1]].o[0]))
                f = (f[1], f[2]) if f else None
                if f == ("NKVMObject", "objectTableIndex"): r.add("OBJECTID")
                if f == ("NKVMString", "stringTableIndex"): r.add("STRING")
    if not r and any(i.op == "store" and v.mod.addr_field(fn, i.o[1]) == ("NKVMObject", "objectTableIndex") for i in fn.all()): r.add("OBJECTID")
    if not r and any(i.op == "store" and v.mod.addr_field(fn, i.o[1]) == ("NKVMString", "stringTableIndex") for i in fn.all()): r.add("STRING")
    return r


def vn_leaves(vn, op, seen=None):
    seen = seen if seen is not None else set()
    e = strip(vn.expr(op))
    if e in seen: return
    seen.add(e)
    if e[0] == "phi":
        for v, q in vn.fn.insts[e[1]].o: yield from vn_leaves(vn, v, seen)
    else: yield e


# ---------------------------------------------------------------- attached host data
def hostdata(cx, v):
    X = v.ext
    for fn in v.mod.fns.values():
        vn = cx.vn(fn.name)
        for i in fn.all():
            if i.op in ("load", "store"):
                # something is reached through the data pointer
                op = i.o[0] if i.op == "load" else i.o[1]
                a = vn.addr(op)
                if not a[2]: continue
                use(cx, v, fn, vn, i, a[1])
            elif i.op == "call":
                for k, o in enumerate(i.o):
                    e = strip(vn.expr(o))
                    while e[0] == "gep": 
                        if e[2]: use(cx, v, fn, vn, i, strip(e[1])); break
                        e = strip(e[1])
                    else:
                        if X.pid(vn, e) is None: continue
                        if i.callee is None: callback(cx, v, fn, vn, i, e)
                        elif i.callee in v.mod.fns and cx.ms.pointee(v.mod.fns[i.callee], ["a", k]) not in (None, "i8"): use(cx, v, fn, vn, i, e)
                if i.callee is None and any(c.startswith("cb:NKVMExternalType.") for c in v.mod.cal(i)):
                    cx.ok("type-callback", sample=i.loc())
                    if not any(X.pid(vn, strip(vn.expr(o))) for o in i.o): cx.bad("type-callback", i, "a callback of an external type is called with something other than the data of an object", "not-data")
            elif i.op == "ret" and i.o and fn.ret == "ptr":
                e = strip(vn.expr(i.o[0]))
                for l, ed in rets(vn, i):
                    if X.pid(vn, l) is None or fn.name in X.data: continue
                    facts = vn.facts_on_edge(*ed) if ed else vn.facts(i)
                    cx.ok("host-data", sample=i.loc())
                    if not X.types(vn, l, facts): cx.bad("host-data", i, "data attached to an object is handed out without the object's type being compared with the wanted one", "returned")
    # objects reported as being of a type
    for fn in v.mod.fns.values():
        if not fn.name.startswith("nkx"): continue
        vn = cx.vn(fn.name)
        tyargs = [a for a in range(fn.nargs) if a]
        cmp_ = [i for i in fn.all() if i.op == "load" and OTYPE in [(s[1], s[2]) for s in vn.addr(i.o[0])[2] if s[0] == "f"]]
        for i in fn.all():
            if not cmp_ or i.op != "store": continue
            b = payload(vn, i.o[1])
            if not b or vn.expr(i.o[0])[0] == "c": continue
            cx.ok("host-data", sample=i.loc())
            if not any(len(f) == 3 and f[0] == "eq" and (X.tid(vn, f[1]) or X.tid(vn, f[2])) for f in vn.facts(i)):
                cx.bad("host-data", i, "an object is reported as being of a type it was not compared with", "reported")


def rets(vn, i):
    d = vn.fn.idef(i.o[0])
    seen = set()
    def go(op, ed):
        d = vn.fn.idef(op)
        if d is not None and d.op == "phi" and d.id not in seen:
            seen.add(d.id)
            for v, q in d.o: yield from go(v, (q, d.blk))
        elif d is not None and d.op == "load" and vn.addr(d.o[0])[1][0] == "al":
            for j in vn.fn.all():
                if j.op == "store" and vn.addr(j.o[1]) == vn.addr(d.o[0]):
                    e = strip(vn.expr(j.o[0]))
                    if e[0] == "call": yield e, (j.blk, None)
        else: yield strip(vn.expr(op)), ed
    for l, ed in go(i.o[0], None):
        if ed and ed[1] is None: yield l, None if False else _blk(vn, ed[0])
        else: yield l, ed


def _blk(vn, b):
    """an edge whose facts are those of block b"""
    ps = vn.fn.preds[b]
    return (ps[0], b) if ps else None


def use(cx, v, fn, vn, i, e):
    e = strip(e)
    X = v.ext
    if e[0] == "phi":
        for l, ed in leaves(vn, e, set()):
            if X.pid(vn, l) is None: continue
            cx.ok("host-data", sample=i.loc())
            if not X.types(vn, l, vn.facts_on_edge(*ed) if ed else vn.facts(i)) and not X.types(vn, l, vn.facts(i)):
                cx.bad("host-data", i, "data attached to an object is used as a structure without the object's type being compared", "untyped")
        return
    if X.pid(vn, e) is None: return
    cx.ok("host-data", sample=i.loc())
    if not X.types(vn, e, vn.facts(i)):
        cx.bad("host-data", i, "data attached to an object is used as a structure without the object's type being compared", "untyped")


def callback(cx, v, fn, vn, i, e):
    X = v.ext; s = X.pid(vn, e)
    c = strip(vn.expr(i.cv)) if i.cv else None
    ids = set()
    for t in idxterms(vn, c):
        x = X.tid(vn, t)
        if x: ids.add((x[0], x[1]))
    if s[:2] not in ids: cx.bad("type-callback", i, "an object's data is handed to the callback of a type that is not known to be the object's", "other-type")


def idxterms(vn, e, depth=0):
    """index terms in the address a value was loaded from"""
    if e is None or depth > 8: return
    e = strip(e)
    if e[0] == "phi":
        for v, q in vn.fn.insts[e[1]].o: yield from idxterms(vn, vn.expr(v), depth + 1)
    if e[0] == "L":
        a = vn.addr(vn.fn.insts[e[1]].o[0])
        for s in a[2]:
            if s[0] == "x": yield strip(s[1])
        yield from idxterms(vn, a[1], depth + 1)
    if e[0] == "gep":
        for s in e[2]:
            if s[0] == "x": yield strip(s[1])
        yield from idxterms(vn, e[1], depth + 1)


# ---------------------------------------------------------------- native calls
def org(vn, e, ext_):
    """members a value was read through, locals resolved to what was copied into them"""
    e = strip(e); r = []
    if e[0] != "L": return r
    d = vn.fn.insts[e[1]]; a = vn.addr(d.o[0])
    if a[1][0] == "al":
        ws = [j for j in vn.fn.all() if j.op == "call" and (j.callee or "").startswith("llvm.memcpy") and vn.addr(j.o[0])[1] == a[1] or j.op == "store" and vn.addr(j.o[1])[1] == a[1]]
        if len(ws) == 1 and vn.fn.dominates(ws[0], d):
            if ws[0].op == "call": return list(fields(vn, vn.addr(ws[0].o[1]))) , vn.addr(ws[0].o[1])
            return org(vn, vn.expr(ws[0].o[0]), ext_)
    return list(fields(vn, a)), a


def natives(cx, v):
    EF = "NKVMExternalFunction"; T = v.T
    calls = [i for fn in v.mod.fns.values() for i in fn.calls() if i.callee is None and any(c == "cb:NKVMExternalFunction.CFunctionCallback" for c in v.mod.cal(i))]
    for c in calls:
        fn = c.fn; vn = cx.vn(fn.name); P = cx.paths(fn)
        cx.ok("native-call", sample=c.loc())
        def facts(p, b): return [f for f in vn.edge_facts(p, b) if len(f) == 3]
        def at(e, fld):
            o = org(vn, e, v.ext)
            return bool(o) and (EF, fld) in o[0]
        unl = lambda p, b: any(f[0] == "eq" and f[2] == ("c", -1) and at(f[1], "argumentCount") for f in facts(p, b))
        counts = set()
        def cnt(p, b):
            for f in facts(p, b):
                if f[0] != "eq": continue
                for x, y in ((f[1], f[2]), (f[2], f[1])):
                    if at(x, "argumentCount") and y[0] != "c": counts.add(strip(y)); return True
            return False
        for p in range(len(fn.blocks)):
            for b in fn.succs[p]: cnt(p, b)
        # what the host is told about the number of arguments
        told = [strip(vn.expr(s.o[0])) for s in fn.all() if s.op == "store" and v.mod.addr_field(fn, s.o[1]) == ("NKVMFunctionCallbackData", "argumentCount")]
        if P.escape(None, lambda i: i is c, stop_edge=lambda p, b: unl(p, b) or cnt(p, b) and bool(counts & set(told))):
            cx.bad("native-call", c, "a native function that declares how many arguments it takes may be called with another number", "count")
        # the per-argument loop
        covering = []
        for h, body in loops(fn):
            for ph in fn.blocks[h]:
                if ph.op != "phi": break
                if not fn.can_reach(fn.blocks[h][0], c): continue
                P_ = ("phi", ph.id)
                for idx in {P_} | {e for x in fn.all() if x.blk in body and x.op in ("add", "sub") for e in [strip(vn.expr(["i", x.id]))] if P_ in e}:
                  found = one_loop(cx, v, fn, vn, P, c, h, body, idx, counts, at, facts)
                  if found: covering.append((h, body))
        if not covering: cx.bad("native-call", c, "no loop compares every argument with the declared types before a native function is called", "types"); continue
        heads = {h for h, b in covering}
        if P.escape(None, lambda i: i is c, stop=lambda i: i.blk in heads, stop_edge=unl):
            cx.bad("native-call", c, "a native function that declares argument types may be called without the arguments being compared with them", "unchecked")
    # the number of arguments a function object declares
    for fn in v.mod.fns.values():
        vn = cx.vn(fn.name)
        ent = [i for i in fn.all() if i.op == "load" and v.mod.addr_field(fn, i.o[0]) == ("NKVMFunction", "firstInstructionIndex")]
        ent = [u for l in ent for u in fn.all() if u.op == "store" and v.mod.addr_field(fn, u.o[1]) == ("NKVMExecutionContext", "instructionPointer") and mentions(vn.expr(u.o[0]), ("L", l.id), vn.expr(["i", l.id]))]
        if not ent: continue
        P = cx.paths(fn)
        def okc(p, b):
            for f in vn.edge_facts(p, b):
                if len(f) == 3 and f[0] == "eq":
                    for x, y in ((f[1], f[2]), (f[2], f[1])):
                        x = strip(x)
                        if x[0] == "L" and v.mod.addr_field(fn, fn.insts[x[1]].o[0]) == ("NKVMFunction", "argumentCount"): return True
            return False
        for t in ent + [c for c in calls if c.fn is fn]:
            cx.ok("arity", sample=t.loc())
            if P.escape(None, lambda i: i is t, stop_edge=okc): cx.bad("arity", t, "a function may be entered with a number of arguments it was not declared with", "count")


def one_loop(cx, v, fn, vn, P, c, h, body, idx, counts, at, facts):
    T = v.T
    if index_covers(fn, vn, h, body, idx, lambda e: e in counts or at(e, "argumentCount"), live_exit=lambda a, b: reaches(fn, b, c)) is None:
        ty = lambda e: at(e, "argTypes") and indexed(vn, e, idx, v)
        argty = lambda e: argtag(vn, e, idx)
        nil = lambda f: f[0] == "eq" and f[2] == ("c", T["NIL"]) and ty(f[1])
        ok1 = lambda p, b: any(nil(f) or f[0] == "eq" and (ty(f[1]) and argty(f[2]) or ty(f[2]) and argty(f[1])) for f in facts(p, b))
        xt = lambda e: at(e, "argExternalTypes") and indexed(vn, e, idx, v)
        ok2 = lambda p, b: any(nil(f) or f[0] == "ne" and f[2] == ("c", T["OBJECTID"]) and ty(f[1]) or f[0] == "eq" and f[2] == ("c", -1) and xt(f[1]) or
                               f[0] == "eq" and (xt(f[1]) and obtype(vn, f[2], idx) or xt(f[2]) and obtype(vn, f[1], idx)) for f in facts(p, b))
        if not any(ok1(p, b) for p in body for b in fn.succs[p]): return False
        if P.round_trip(h, body, lambda i: False, stop_edge=ok1): cx.bad("native-call", fn.blocks[h][0], "an argument of a native function is accepted without its tag matching the declared one", "tag")
        if P.round_trip(h, body, lambda i: False, stop_edge=ok2): cx.bad("native-call", fn.blocks[h][0], "an object argument of a native function is accepted without its external type matching the declared one", "external-type")
        return True
    return False


def mentions(e, *ts):
    if e in ts: return True
    return isinstance(e, tuple) and any(mentions(x, *ts) for x in e if isinstance(x, tuple))


def reaches(fn, b, i): return b == i.blk or i.blk in fn.reach_blocks(b)


def indexed(vn, e, idx, v):
    o = org(vn, e, None)
    return bool(o) and any(s[0] == "x" and strip(s[1]) == idx for s in o[1][2])


def argtag(vn, e, idx):
    e = strip(e)
    if e[0] != "L": return False
    a = vn.addr(vn.fn.insts[e[1]].o[0])
    return bool(a[2]) and a[2][-1][:3] == TY and any(s[0] == "x" and strip(s[1]) == idx for s in a[2])


def obtype(vn, e, idx):
    """external type of the object the argument refers to"""
    e = strip(e)
    if e[0] == "call":
        c = vn.fn.insts[e[1]]
        return any(any(s[0] == "x" and strip(s[1]) == idx for s in vn.addr(o)[2]) for o in c.o if vn.addr(o)[2])
    if e[0] != "L": return False
    a = vn.addr(vn.fn.insts[e[1]].o[0])
    if OTYPE not in [(s[1], s[2]) for s in a[2] if s[0] == "f"]: return False
    return mentions_idx(vn, a[1], idx, 0)


def mentions_idx(vn, e, idx, d):
    e = strip(e)
    if d > 6: return False
    if e[0] == "call": return any(mentions_idx(vn, vn.expr(o), idx, d + 1) for o in vn.fn.insts[e[1]].o)
    if e[0] == "L":
        a = vn.addr(vn.fn.insts[e[1]].o[0])
        return any(s[0] == "x" and strip(s[1]) == idx for s in a[2]) or mentions_idx(vn, a[1], idx, d + 1)
    if e[0] == "gep": return any(s[0] == "x" and strip(s[1]) == idx for s in e[2]) or mentions_idx(vn, e[1], idx, d + 1)
    return False
