"""H02: equal strings are one entry, equal keys meet in one bucket."""
from nk.core import Broken
from nk.loops import loops, loops_of, exit_edges
from nk.own import ALLOC_PRIMS
from nk.vn import strip, state_before, subterms

META = {"level": "other", "technique": "value-numbering analysis of every bucket access, chain walk, insertion, removal and key write of the two hash tables; path queries on the search loops; source-expression analysis of the hash and comparison functions",
        "note": "Decided for the string chains and the objects' field buckets. A loaded state is trusted not to hold the same text in two slots (what is saved never does); everything else about loading is judged. Keys reached through a pointer handed to a function are only followed for copies and stores.",
        "explains": "Every access to a bucket is either a sweep or takes the bucket of hash(key) with one and the same mask; the key hashed is the key compared, copied in, or already in the element. A search starts at that bucket, steps by the element's own link, skips an element only after a comparison or on differing hashes, and accepts one only on an equal full-key, strict comparison. An insertion follows an exhausted search (or moves an element, or loads one), links the current head, and the element carries the hashed key and its hash. Removal replaces a cell by the link of the element in it. Keys and hashes of linked elements are not written. The hash of a value depends only on what the comparison compares."}

TABS = {"string": ("NKVM", "stringsByHash", "NKVMString", "nextInHashBucket", "str"), "field": ("NKVMObject", "hashBuckets", "NKVMObjectElement", "next", "key")}
COPY = {"nkiStrcpy": (0, 1), "strcpy": (0, 1), "nkiMemcpy": (0, 1), "memcpy": (0, 1), "nkiStrcpy_s": (0, 1), "memmove": (0, 1)}
EQUAL = {"string": {"nkiStrcmp", "strcmp"}, "field": {"nkiValueCompare"}}
HASH = {"string": "nkiStringHash", "field": "nkiValueHash"}


def canon(e): return e[1] if e[0] == "gep" and not e[2] else e


class T:
    def __init__(self, cx, kind):
        self.cx, self.mod, self.kind = cx, cx.mod, kind
        self.S, self.F, self.E, self.N, self.K = TABS[kind]
        for s, f in ((self.S, self.F), (self.E, self.N), (self.E, self.K)):
            if not any(x[0] == f for x in self.mod.structs.get(s, {"fields": []})["fields"]): raise Broken("%s.%s not found" % (s, f))
        if HASH[kind] not in self.mod.fns: raise Broken("%s not found" % HASH[kind])
        self.forms = {}
        ty = self.mod.ftype(self.S, self.F)
        self.size = None

    # -- addresses
    def cell(self, a):
        """(steps before, index) if a is a bucket cell"""
        if a[0] == "gep":
            for k, s in enumerate(a[2]):
                if s == ("f", self.S, self.F) and k + 1 < len(a[2]) and a[2][k + 1][0] == "x" and len(a[2]) == k + 2: return strip(a[2][k + 1][1])
        return None

    def link(self, a):
        if a[0] == "gep" and a[2] and a[2][-1] == ("f", self.E, self.N): return canon(("gep", a[1], a[2][:-1]))
        return None

    def keyof(self, vn, e):
        """element whose key (or part of it) address e is"""
        if e[0] == "gep":
            for k, s in enumerate(e[2]):
                if s == ("f", self.E, self.K): return canon(("gep", e[1], e[2][:k]))
        return None

    def kinds(self, vn, e, seen=None):
        """what a pointer to a cell can be: set of 'bucket', 'link', other"""
        seen = set() if seen is None else seen
        e = canon(e)
        if e in seen: return set()
        seen.add(e)
        if e[0] == "gep":
            if self.cell(e) is not None: return {"bucket"}
            if self.link(e) is not None: return {"link"}
            return {"other"}
        if e[0] == "phi":
            r = set()
            for v, p in vn.fn.insts[e[1]].o: r |= self.kinds(vn, vn.expr(v), seen)
            return r
        return {"other"}

    def elemish(self, vn, x):
        """x is an element read from a cell"""
        if x[0] == "L": return bool(self.kinds(vn, vn.expr(vn.fn.insts[x[1]].o[0])) & {"bucket", "link"})
        return any(self.elemish(vn, canon(vn.expr(v))) for v, p in vn.fn.insts[x[1]].o if canon(vn.expr(v))[0] == "L")

    def roots(self, vn, e, seen=None):
        """bucket indexes a pointer-to-cell phi starts from"""
        seen = set() if seen is None else seen
        e = canon(e)
        if e in seen: return
        seen.add(e)
        if e[0] == "gep":
            x = self.cell(e)
            if x is not None: yield e, x
        elif e[0] == "phi":
            for v, p in vn.fn.insts[e[1]].o: yield from self.roots(vn, vn.expr(v), seen)

    # -- hashes
    def hashed(self, vn, idx):
        """(key expression or ('elem', E), form) when idx is computed from a hash"""
        found = []
        def sub(e):
            e0 = e
            if e[0] == "call" and vn.fn.insts[e[1]].callee == HASH[self.kind]:
                c = vn.fn.insts[e[1]]; found.append(canon(vn.expr(c.o[1] if self.kind == "field" else c.o[0]))); return "H"
            if e[0] == "L" and self.kind == "string":
                a = vn.addr(vn.fn.insts[e[1]].o[0])
                if a[0] == "gep" and a[2] and a[2][-1] == ("f", "NKVMString", "hash"): found.append(("elem", canon(("gep", a[1], a[2][:-1])))); return "H"
            if e[0] in ("zext", "trunc"): return sub(e[1])
            if e[0] == "c": return ("c", e[1])
            if e[0] in ("and", "urem", "lshr", "xor", "add", "mul", "or", "shl", "sub", "udiv"):
                return (e[0],) + tuple(sub(x) for x in e[1:])
            return ("?",)
        f = sub(idx)
        if not found: return None
        def norm(f):
            if isinstance(f, tuple) and f[0] == "urem" and f[2][0] == "c" and f[2][1] & (f[2][1] - 1) == 0: f = ("and", f[1], ("c", f[2][1] - 1))
            if isinstance(f, tuple) and f[0] in ("and", "or", "xor", "add", "mul"): f = (f[0],) + tuple(sorted((norm(x) for x in f[1:]), key=repr))
            return f
        return (found[0] if len(set(found)) == 1 else None), norm(f)


def evalf(f, h):
    M = 0xffffffff
    if f == "H": return h
    if f[0] == "c": return f[1] & M
    a, b = (evalf(x, h) for x in f[1:3])
    return {"and": a & b, "or": a | b, "xor": a ^ b, "add": a + b, "sub": a - b, "mul": a * b, "lshr": a >> (b & 31), "shl": a << (b & 31), "urem": a % b if b else 0, "udiv": a // b if b else 0}[f[0]] & M


def check(cx, tier):
    mod = cx.mod
    for kind in TABS:
        t = T(cx, kind)
        for name in sorted(mod.fns):
            fn = mod.fns[name]
            one(cx, t, fn)
        if not t.forms: raise Broken("no hashed bucket of the %s table found" % kind)
        best = max(t.forms, key=lambda f: len(t.forms[f]))
        for f, ins in t.forms.items():
            if f != best:
                for i in ins: cx.bad("bucket", i, "this bucket is not computed from the hash the way the table's other buckets are", "form")
        if kind == "field" and evalf_safe(best, 0) != evalf_safe(best, 0x80000000):
            for i in t.forms[best][:1]: cx.bad("hash", i, "the keys 0.0 and -0.0 are equal but do not meet in one bucket", "zero")
    hashes(cx); compare(cx)
    cx.need("bucket", 10); cx.need("search", 1); cx.need("insertion", 2); cx.need("removal", 1); cx.need("key", 2); cx.need("hash", 5); cx.need("equal", 5)


def evalf_safe(f, h):
    try: return evalf(f, h)
    except KeyError: return None


def calls_writer(mod, fn):
    return "fn *" in (fn.ditypes or []) and any("struct NKVM " in str(x) for x in fn.ditypes)


def one(cx, t, fn):
    mod = cx.mod
    touch = any(i.op == "getelementptr" and i.path and any(s[0] == "f" and (s[1], s[2]) in ((t.S, t.F), (t.E, t.N), (t.E, t.K)) for s in i.path) for i in fn.all())
    if not touch: return
    vn = cx.vn(fn.name); P = cx.paths(fn)
    idxs = {}
    for i in fn.all():
        if i.op != "getelementptr": continue
        x = t.cell(vn.addr(["i", i.id]))
        if x is None: continue
        idxs[i] = x
    hashedcells = {}
    for i, x in idxs.items():
        h = t.hashed(vn, x)
        cx.ok("bucket")
        if h is None:
            if any(e[0] == "phi" for e in subterms(x)) or x[0] == "c" or x[0] == "L": continue       # a sweep
            cx.bad("bucket", i, "a bucket of the %s table is neither swept over nor computed from a hash" % t.kind, "index"); continue
        key, form = h
        if key is None or ("?",) in list(subterms(form)): cx.bad("bucket", i, "the bucket is computed from more than one hash", "mixed"); continue
        t.forms.setdefault(form, []).append(i)
        hashedcells[canon(vn.expr(["i", i.id]))] = key
    searched = search(cx, t, fn, vn, P, hashedcells)
    stores(cx, t, fn, vn, P, hashedcells, searched)
    keys(cx, t, fn, vn, P)


def same_key(t, vn, a, b):
    """key operands equal, or one is the element's own"""
    return canon(a) == canon(b)


def elem_expr(e): return canon(e)


def search(cx, t, fn, vn, P, hashedcells):
    """chain walks that compare keys; returns [(exit edges with exhausted chain, key)]"""
    done = []
    seen = set()
    for c in fn.all():
        if c.op != "call" or c.callee not in EQUAL[t.kind]: continue
        args = [canon(vn.expr(x)) for x in c.o]
        if t.kind == "field": args = args[1:3]
        el = [t.keyof(vn, a) for a in args[:2]]
        if (el[0] is None) == (el[1] is None): continue
        k = 0 if el[0] is not None else 1
        E, key = el[k], args[1 - k]
        ls = loops_of(fn, c.blk)
        if not ls: continue
        h, body = ls[0]
        # the walked position: E itself is a phi, or the load of a pointer phi
        if E[0] == "phi" and vn.fn.insts[E[1]].blk == h: ph, ptr = vn.fn.insts[E[1]], False
        elif E[0] == "L":
            a = canon(vn.addr(vn.fn.insts[E[1]].o[0]))
            if a[0] != "phi" or vn.fn.insts[a[1]].blk != h: continue
            ph, ptr = vn.fn.insts[a[1]], True
        else: continue
        cx.ok("search")
        if t.kind == "field":
            s = vn.expr(c.o[3])
            if s[0] != "c" or not s[1]: cx.bad("search", c, "field keys are compared without regard to their type", "strict")
        good_start = []
        for v, p in ph.o:
            e = canon(vn.expr(v))
            if p in body:
                l = e if ptr else None
                if not ptr and e[0] == "L": l = canon(vn.addr(vn.fn.insts[e[1]].o[0]))
                x = t.link(l) if l else None
                if x is None or not same_elem(vn, x, E): cx.bad("search", c, "the search does not go from an element to the next one in its chain", "step")
                continue
            start = e if ptr else (canon(vn.addr(vn.fn.insts[e[1]].o[0])) if e[0] == "L" else None)
            if start is None or start not in hashedcells: cx.bad("search", c, "the search does not start at the bucket of the key's hash", "start"); continue
            good_start.append(start)
            if hashedcells[start] != key: cx.bad("search", c, "the key that is compared is not the key that was hashed", "key")
        def mismatch(p, b):
            for f in vn.edge_facts(p, b):
                if f[0] == "ne" and len(f) == 3 and any(hash_load(vn, x) for x in f[1:3]): return True
            return False
        if P.round_trip(h, body, lambda i: i is c, mismatch): cx.bad("search", c, "an element can be passed over without being compared", "skipped")
        # the element compared unequal: edges that go on after an equal comparison
        ex = []
        for p, s in exit_edges(fn, body):
            if fn.blocks[s][-1].op == "unreachable": continue
            fs = vn.edge_facts(p, s)
            if is_null(fs, E) : ex.append((p, s)); continue
            if any(len(f) == 3 and f[0] == "eq" and ("call", c.id) in f[1:3] and ("c", 0) in f[1:3] for f in fs): continue
            if post_facts(vn, p, c): continue
            cx.bad("search", fn.blocks[p][-1], "the search can stop at an element whose key was not found equal", "hit")
        for p in body:
            for s in fn.succs[p]:
                if s in body and any(len(f) == 3 and f[0] == "eq" and ("call", c.id) in f[1:3] and ("c", 0) in f[1:3] for f in vn.edge_facts(p, s)) and P.escape(fn.blocks[s][0], lambda i: i.blk == h, inclusive=True, stop=lambda i: i.blk not in body):
                    cx.bad("search", fn.blocks[p][-1], "the search goes on past an element with an equal key", "missed")
        done.append((ex, key, good_start))
    return done


def post_facts(vn, p, c):
    return any(len(f) == 3 and f[0] == "eq" and ("call", c.id) in f[1:3] and ("c", 0) in f[1:3] for f in vn.block_facts(p))


def hash_load(vn, e):
    e = strip(e)
    if e[0] != "L": return False
    a = vn.addr(vn.fn.insts[e[1]].o[0])
    return a[0] == "gep" and a[2] and a[2][-1] == ("f", "NKVMString", "hash")


def is_null(fs, E):
    return any(len(f) == 3 and f[0] == "eq" and ("c", 0) in f[1:3] and E in f[1:3] for f in fs)


def same_elem(vn, a, b):
    a, b = canon(a), canon(b)
    if a == b: return True
    if a[0] == b[0] == "L": return canon(vn.addr(vn.fn.insts[a[1]].o[0])) == canon(vn.addr(vn.fn.insts[b[1]].o[0]))
    return False


def fresh(vn, e, depth=0):
    """e is memory allocated here"""
    e = canon(e)
    if e[0] == "call": return vn.fn.insts[e[1]].callee in ALLOC_PRIMS
    if e[0] == "L":
        l = vn.fn.insts[e[1]]; a = vn.addr(l.o[0])
        for s in vn.fn.all():
            if s.op == "store" and vn.addr(s.o[1]) == a and vn.fn.dominates(s, l) and depth < 3 and fresh(vn, vn.expr(s.o[0]), depth + 1): return True
            # the same slot reached through a different load of the table
            if s.op == "store" and vn.fn.dominates(s, l) and depth < 3 and shape(vn, vn.addr(s.o[1])) == shape(vn, a) is not None and fresh(vn, vn.expr(s.o[0]), depth + 1): return True
    return False


def shape(vn, a, depth=0):
    """address with loads replaced by what they load from"""
    if not isinstance(a, tuple): return a
    if a and a[0] == "L" and depth < 8: return ("L", shape(vn, vn.addr(vn.fn.insts[a[1]].o[0]), depth + 1))
    return tuple(shape(vn, x, depth) for x in a)


def inserted(t, vn, s):
    """element a store links into a bucket, or None"""
    if s.op != "store": return None
    a = canon(vn.expr(s.o[1]))
    if "bucket" not in t.kinds(vn, a): return None
    v = canon(vn.expr(s.o[0]))
    if v == ("c", 0): return None
    if v[0] == "L" and t.link(canon(vn.addr(vn.fn.insts[v[1]].o[0]))) is not None: return None
    return v


def unlinked(t, vn, s):
    """element a store takes out of its cell, or None"""
    if s.op != "store": return None
    a = canon(vn.expr(s.o[1])); ks = t.kinds(vn, a)
    if not ks & {"bucket", "link"}: return None
    v = canon(vn.expr(s.o[0]))
    if v[0] != "L": return None
    return t.link(canon(vn.addr(vn.fn.insts[v[1]].o[0])))


def stores(cx, t, fn, vn, P, hashedcells, searched):
    for s in fn.all():
        if s.op != "store": continue
        a = canon(vn.expr(s.o[1])); ks = t.kinds(vn, a)
        if not ks & {"bucket", "link"} or "other" in ks: continue
        v = canon(vn.expr(s.o[0]))
        if ks == {"link"} and a[0] == "gep":
            # the link of an element: judged with its insertion, or a cell being unlinked
            E = t.link(a)
            ins = [j for j in fn.all() if inserted(t, vn, j) is not None and same_elem(vn, inserted(t, vn, j), E)]
            if ins:
                if v == ("c", 0) and all(any(q.op == "store" and q is not s and vn.addr(q.o[1]) == vn.addr(s.o[1]) and fn.dominates(s, q) for q in fn.all()) for j in ins): continue
                continue
            if v == ("c", 0) and fresh(vn, E): continue
        U = unlinked(t, vn, s)
        if U is not None:
            cx.ok("removal")
            if any(x in hashedcells for x, _ in t.roots(vn, a)) and not any(i.op == "call" and i.callee == HASH[t.kind] and fn.dominates(s, i) for i in fn.all()):
                def found(p, b):
                    for f in vn.edge_facts(p, b):
                        if len(f) != 3 or f[0] != "eq" or ("c", 0) not in f[1:3]: continue
                        for x in f[1:3]:
                            if x[0] == "call" and vn.fn.insts[x[1]].callee in EQUAL[t.kind] and any(t.keyof(vn, canon(vn.expr(o))) is not None for o in vn.fn.insts[x[1]].o): return True
                            if x[0] in ("L", "phi") and t.elemish(vn, x): return True
                    return False
                if P.escape(None, lambda i: i is s, stop_edge=found) is not None: cx.bad("removal", s, "an element can be taken out of a chain without its key having been found equal", "unsearched")
            st = state_before(vn, s).get(vn.addr(s.o[1]))
            if st is None or not same_elem(vn, st, U):
                l = vn.fn.insts[U[1]] if U[0] == "L" else None
                if l is not None and canon(vn.addr(l.o[0])) == canon(vn.addr(s.o[1])) and not changed(t, vn, P, l, s): continue
                # the sweep over strings walks cell and element in step: its shape is judged with the reclaimed entries (G02)
                if t.kind == "string" and U[0] == "phi": continue
                if U[0] == "phi" and trailing(t, vn, s, a, U): continue
                if not (U[0] == "phi" and paired(t, vn, a, U)): cx.bad("removal", s, "a cell is replaced by the link of an element that is not the one in it", "other")
            continue
        if v == ("c", 0):
            if ks == {"bucket"} and not hashedcells.get(a): continue
            cx.bad("removal", s, "a chain is cut off", "cut"); continue
        if "bucket" not in ks: cx.bad("insertion", s, "an element is linked somewhere else than at the head of a bucket", "place"); continue
        # insertion of v at bucket a
        cx.ok("insertion")
        key = hashedcells.get(a)
        if key is None: cx.bad("insertion", s, "an element is linked into a bucket that is not the one of its key's hash", "bucket"); continue
        st = state_before(vn, s)
        ln = None
        for q in fn.all():
            if q.op == "store" and t.link(canon(vn.addr(q.o[1]))) is not None and same_elem(vn, t.link(canon(vn.addr(q.o[1]))), v) and fn.dominates(q, s): ln = q
        if ln is None: cx.bad("insertion", s, "an element is linked into a bucket without being given the rest of the chain", "chain")
        else:
            lv = vn.expr(ln.o[0]); cur = state_before(vn, ln).get(vn.addr(s.o[1]))
            if cur is None and lv[0] == "L":
                # loaded by hand: nothing may have changed the bucket since
                cur = lv if vn.addr(vn.fn.insts[lv[1]].o[0]) == vn.addr(s.o[1]) and not changed(t, vn, P, vn.fn.insts[lv[1]], ln) else None
            if cur is None or canon(cur) != canon(lv): cx.bad("insertion", ln, "the new element's link is not the current head of the bucket, so elements of the chain are lost", "head")
        # the element carries the key
        fr = fresh(vn, v); moved = [u for u in fn.all() if unlinked(t, vn, u) is not None and same_elem(vn, unlinked(t, vn, u), v) and fn.dominates(u, s)]
        if not fr and not moved: cx.bad("insertion", s, "an element is linked into a bucket although it may be linked already", "twice"); continue
        own = key[0] == "elem" and same_elem(vn, key[1], v) or t.keyof(vn, key) is not None and same_elem(vn, t.keyof(vn, key), v)
        if fr: carried(cx, t, fn, vn, s, v, key, own)
        if moved:
            if not own: cx.bad("insertion", s, "a moved element is linked into the bucket of another key", "moved")
            continue
        if key[0] == "elem":
            for q in fn.all():
                if q.op == "store" and hash_store(vn, q, key[1]) and fn.dominates(q, s):
                    e = strip(vn.expr(q.o[0]))
                    if e[0] == "call" and fn.insts[e[1]].callee == HASH["string"]: key = canon(vn.expr(fn.insts[e[1]].o[0]))
        ok = [k for ex, k, starts in searched if (a in starts or k == key) and P.escape(None, lambda i: i is s, stop_edge=lambda p, b: (p, b) in ex) is None]
        if not ok and not calls_writer(cx.mod, fn): cx.bad("insertion", s, "an element can be added without the chain having been searched to its end for the same key", "unsearched")


def trailing(t, vn, s, a, U):
    """U is walked with a pointer to its predecessor, and a is the predecessor's link (or the bucket when there is none)"""
    u = vn.fn.insts[U[1]]
    for q in vn.fn.blocks[u.blk]:
        if q.op != "phi" or q is u: continue
        Q = ("phi", q.id); qv = {p: canon(vn.expr(v)) for v, p in q.o}; heads = []; ok = True
        for v, p in u.o:
            e = canon(vn.expr(v)); src = canon(vn.addr(vn.fn.insts[e[1]].o[0])) if e[0] == "L" else None
            if qv.get(p) == U and src is not None and t.link(src) is not None and same_elem(vn, t.link(src), U): continue
            if qv.get(p) == ("c", 0) and src is not None: heads.append(src); continue
            ok = False
        if not ok: continue
        if t.link(a) is not None and canon(t.link(a)) == Q: return True
        if all(h == a for h in heads) and any(len(f) == 3 and f[0] == "eq" and ("c", 0) in f[1:3] and Q in f[1:3] for f in vn.facts(s)): return True
    return False


def paired(t, vn, a, U):
    """pointer phi a and element phi U walk the same chain in step"""
    if a[0] != "phi": return False
    A, B = vn.fn.insts[a[1]], vn.fn.insts[U[1]]
    if A.blk != B.blk: return False
    bv = {p: canon(vn.expr(v)) for v, p in B.o}
    for v, p in A.o:
        e, b = canon(vn.expr(v)), bv.get(p)
        if e == a:
            continue            # the pointer stays; the element read again below
        if b is None or b[0] != "L" or canon(vn.addr(vn.fn.insts[b[1]].o[0])) != e: return False
    for v, p in A.o:
        if canon(vn.expr(v)) == a:
            b = bv.get(p)
            # after an unlink the cell holds the element's link
            if b is None: return False
            last = [s for s in vn.fn.all() if s.op == "store" and canon(vn.expr(s.o[1])) == a and vn.fn.dominates(s, vn.fn.blocks[p][-1])]
            if b[0] == "L" and canon(vn.addr(vn.fn.insts[b[1]].o[0])) == a: continue
            if not last or canon(vn.expr(last[-1].o[0])) != b: return False
    return True


def changed(t, vn, P, frm, to):
    def w(i):
        if i.op == "store": return i is not to and bool(t.kinds(vn, vn.expr(i.o[1])) & {"bucket"})
        if i.op == "call" and i.callee and i.callee in vn.mod.fns: return any(l == ("f", t.S, t.F) for l in vn.ms.call_locs(vn.fn, i))
        return False
    seen = [i for i in vn.fn.all() if w(i) and vn.fn.can_reach(frm, i) and vn.fn.can_reach(i, to)]
    return [i for i in seen if P.escape(i, lambda j: j is to, stop=lambda j: j is frm) is not None and P.escape(frm, lambda j: j is i) is not None]


def carried(cx, t, fn, vn, s, v, key, own):
    """the fresh element v linked at s holds the hashed key"""
    src = []
    for i in fn.all():
        d = copy_of(i)
        if d is None: continue
        E = t.keyof(vn, canon(vn.expr(d[0])))
        if E is not None and (same_elem(vn, E, v) or shape(vn, E) == shape(vn, v)) and (fn.dominates(i, s)): src.append((i, canon(vn.expr(d[1]))))
    parts = {}
    for i in fn.all():
        # the key copied member by member
        if i.op != "store" or not fn.dominates(i, s): continue
        a = canon(vn.expr(i.o[1])); E = t.keyof(vn, a)
        if E is None or not same_elem(vn, E, v) or a[2][-1][0] != "f" or a[2][-1][1] != "NKValue": continue
        x = vn.expr(i.o[0])
        b = vn.addr(vn.fn.insts[x[1]].o[0]) if x[0] == "L" else None
        if b is not None and b[2][-1:] == a[2][-1:]: parts.setdefault(canon(("gep", b[1], b[2][:-1])), {})[a[2][-1][2]] = i
    for k, fs in parts.items():
        if {"u", "u1"} <= set(fs): src.append((fs["u1"], k))
    if t.kind == "field":
        if not src: cx.bad("insertion", s, "a new field is linked without being given its key", "nokey")
        for i, e in src:
            if e != key: cx.bad("insertion", i, "the key a new field is given is not the key its bucket was computed from", "otherkey")
        return
    if not src: cx.bad("insertion", s, "a new string is linked without being given its text", "notext")
    texts = {e for i, e in src}
    def is_text(k): return k in texts or t.keyof(vn, k) is not None and (same_elem(vn, t.keyof(vn, k), v) or shape(vn, t.keyof(vn, k)) == shape(vn, v))
    if not own and not is_text(key): cx.bad("insertion", s, "the text a new string is given is not the text its bucket was computed from", "othertext")
    hs = [q for q in fn.all() if q.op == "store" and hash_store(vn, q, v) and fn.dominates(q, s)]
    if not hs: cx.bad("insertion", s, "a new string is linked without its hash", "nohash")
    for q in hs[-1:]:
        e = strip(vn.expr(q.o[0]))
        c = vn.fn.insts[e[1]] if e[0] == "call" else None
        if c is None or c.callee != HASH["string"] or not is_text(canon(vn.expr(c.o[0]))): cx.bad("insertion", q, "the hash stored with a new string is not the hash of its text", "otherhash")
        elif t.keyof(vn, canon(vn.expr(c.o[0]))) is not None and not any(fn.dominates(i, c) for i, _ in src): cx.bad("insertion", c, "the hash of a new string is taken before it has its text", "early")


def hash_store(vn, q, v):
    a = vn.addr(q.o[1])
    return a[0] == "gep" and a[2] and a[2][-1] == ("f", "NKVMString", "hash") and same_elem(vn, canon(("gep", a[1], a[2][:-1])), v)


def copy_of(i):
    """(destination, source) operands of a copying call"""
    if i.op == "call":
        c = i.callee or ""
        if c.startswith(("llvm.memcpy", "llvm.memmove")): return i.o[0], i.o[1]
        if c in COPY: return i.o[COPY[c][0]], i.o[COPY[c][1]]
    return None


def keys(cx, t, fn, vn, P):
    """writes to keys: only of elements that are not linked"""
    for i in fn.all():
        E = None
        if i.op == "store":
            a = canon(vn.expr(i.o[1])); E = t.keyof(vn, a)
            if E is None and t.kind == "string" and a[0] == "gep" and a[2] and a[2][-1] == ("f", "NKVMString", "hash"): E = canon(("gep", a[1], a[2][:-1]))
        else:
            d = copy_of(i)
            if d is not None: E = t.keyof(vn, canon(vn.expr(d[0])))
        if E is None or E[0] == "al": continue
        cx.ok("key")
        if t.kind == "field" and i.op == "store" and string_slot(cx, t, vn, i, E): continue
        ins = [j for j in fn.all() if inserted(t, vn, j) is not None and (same_elem(vn, inserted(t, vn, j), E) or shape(vn, inserted(t, vn, j)) == shape(vn, E))]
        if fresh(vn, E) or fresh_shape(fn, vn, E):
            for j in ins:
                if P.escape(j, lambda x: x is i, stop=lambda x: x.op == "call" and x.callee in ALLOC_PRIMS) is not None: cx.bad("key", i, "the key of an element is written after it was linked", "late")
            continue
        un = [u for u in fn.all() if unlinked(t, vn, u) is not None and same_elem(vn, unlinked(t, vn, u), E)]
        if not any(fn.dominates(u, i) for u in un):
            cx.bad("key", i, "the key of an element that is linked into a bucket is changed in place, so its bucket is no longer the one of its hash", "linked"); continue
        if P.escape(i, lambda x: x.op == "ret", stop=lambda x: x in ins) is not None: cx.bad("key", i, "an element whose key was changed is not linked again", "lost")
        for j in ins:
            x = t.cell(canon(vn.expr(j.o[1])))
            if x is None: continue
            for c in subterms(x):
                if c[0] == "call" and not fn.dominates(i, vn.fn.insts[c[1]]) : cx.bad("key", i, "an element is linked into the bucket of the key it had before", "before")


def string_slot(cx, t, vn, i, E):
    """a string key's table slot is rewritten: its hash is the text's"""
    tag = dict(cx.mod.enums["NKValueType"])["NK_VALUETYPE_STRING"]
    a = canon(vn.expr(i.o[1]))
    if a[2][-1] == ("f", "NKValue", "u"): return False
    for f in vn.facts(i):
        if len(f) == 3 and f[0] == "eq" and ("c", tag) in f[1:3]:
            for x in f[1:3]:
                if is_tag(vn, x) and same_elem(vn, t.keyof(vn, canon(vn.addr(vn.fn.insts[strip(x)[1]].o[0]))) or ("?",), E): return True
    return False


def fresh_shape(fn, vn, E):
    sh = shape(vn, E)
    if E[0] != "L": return False
    for s in fn.all():
        if s.op == "store" and ("L", shape(vn, vn.addr(s.o[1]))) == sh and fresh(vn, vn.expr(s.o[0])): return True
    return False


def hashes(cx):
    """the hash functions are functions of what is compared"""
    mod = cx.mod
    fn = mod.fns["nkiStringHash"]; vn = cx.vn(fn.name)
    for i in fn.all():
        if i.op == "load":
            cx.ok("hash")
            a = vn.addr(i.o[0])
            if root(vn, a[1]) != ("a", 0) and a[1][0] != "al": cx.bad("hash", i, "the hash of a text depends on something else than the text", "impure")
        elif i.op == "call" and not (i.callee or "").startswith("llvm."):
            if i.callee not in ("nkiStrlen", "strlen"): cx.bad("hash", i, "the hash of a text depends on something else than the text", "impure")
    fn = mod.fns["nkiValueHash"]; vn = cx.vn(fn.name)
    for i in fn.all():
        if i.op != "ret" or not i.o: continue
        for e, where in sources(vn, i.o[0], i):
            cx.ok("hash")
            e = strip(e)
            if e[0] == "c": continue
            if e[0] == "L":
                l = vn.fn.insts[e[1]]; a = vn.addr(l.o[0])
                if a[2] and a[2][-1] == ("f", "NKVMString", "hash") and entry_of(cx, vn, a[1]): continue
                if a[1] == ("a", 1) and a[2] and a[2][0] == ("f", "NKValue", "u1"):
                    if may_be_string(cx, vn, l): cx.bad("hash", l, "the hash of a string key is its table slot, which is not what keys are compared by", "slot")
                    continue
            if e[0] == "call" and vn.fn.insts[e[1]].callee == "nkiStringHash": continue
            cx.bad("hash", where, "the hash of a value is not made from what values are compared by alone", "source")


def root(vn, e, seen=None):
    seen = seen or set()
    e = canon(e)
    if e in seen: return ("a", 0)
    seen.add(e)
    if e[0] == "gep": return root(vn, e[1], seen)
    if e[0] == "phi":
        r = {root(vn, vn.expr(v), seen) for v, p in vn.fn.insts[e[1]].o}
        return r.pop() if len(r) == 1 else e
    return e


def entry_of(cx, vn, e):
    """e is the entry of the string the hashed value names"""
    e = canon(e)
    if e[0] != "call": return e[0] in ("L", "phi")
    c = vn.fn.insts[e[1]]
    k = strip(vn.expr(c.o[-1]))
    return k[0] == "L" and vn.addr(vn.fn.insts[k[1]].o[0])[1] == ("a", 1)


def may_be_string(cx, vn, l):
    tag = dict(cx.mod.enums["NKValueType"])["NK_VALUETYPE_STRING"]
    for f in vn.facts(l):
        if f[0] == "in" and is_tag(vn, f[1]): return tag in f[2]
        if f[0] == "eq" and len(f) == 3 and any(is_tag(vn, x) for x in f[1:3]): return ("c", tag) in f[1:3]
        if f[0] == "ne" and len(f) == 3 and any(is_tag(vn, x) for x in f[1:3]) and ("c", tag) in f[1:3]: return False
    # several switch cases meet here: look at the edges
    ps = vn.fn.preds[l.blk]
    if ps:
        r = False
        for p in ps:
            t = vn.fn.blocks[p][-1]
            if t.op == "switch":
                if any(k == tag and b == l.blk for k, b in cases(t)) or t.default == l.blk: r = True
            else:
                fs = vn.edge_facts(p, l.blk) | vn.block_facts(p)
                if not any(len(f) == 3 and f[0] == "eq" and any(is_tag(vn, x) for x in f[1:3]) and ("c", tag) not in f[1:3] for f in fs): r = True
        return r
    return True


def cases(t): return t.cases.items() if hasattr(t.cases, "items") else [(c[0], c[1]) for c in t.cases]


def is_tag(vn, e):
    e = strip(e)
    if e[0] != "L": return False
    a = vn.addr(vn.fn.insts[e[1]].o[0])
    return a[0] == "gep" and a[2] and a[2][-1] == ("f", "NKValue", "u")


def sources(vn, op, where, seen=None):
    """the expressions a returned operand can be, through phis and locals"""
    seen = set() if seen is None else seen
    e = vn.expr(op)
    if e[0] == "phi":
        if e in seen: return
        seen.add(e)
        d = vn.fn.insts[e[1]]
        for v, p in d.o: yield from sources(vn, v, vn.fn.blocks[p][-1], seen)
        return
    if e[0] == "select":
        d = vn.fn.insts[op[1]]
        for v in d.o[1:]: yield from sources(vn, v, where, seen)
        return
    yield e, where


def compare(cx):
    """nkiValueCompare says equal only for equal keys (of one type, when strict)"""
    mod = cx.mod
    fn = mod.fns.get("nkiValueCompare")
    if fn is None: raise Broken("nkiValueCompare not found")
    vn = cx.vn(fn.name); P = cx.paths(fn)
    tagdict = dict(mod.enums["NKValueType"])
    typecmp = {n for n in mod.fns if compares_types(cx, n)}
    def load_of(e, a, steps):
        e = strip(e)
        if e[0] != "L": return False
        ad = vn.addr(vn.fn.insts[e[1]].o[0])
        return ad[1] == ("a", a) and (ad[2] or (("f", "NKValue", "u"),))[0] in steps
    TYP = {("f", "NKValue", "u")}; PAY = {("f", "NKValue", "u1")}
    def typ(e): return load_of(e, 1, TYP) or load_of(e, 2, TYP)
    def eqtypes(fs):
        for f in fs:
            if len(f) != 3: continue
            if f[0] == "eq":
                x, y = f[1], f[2]
                if typ(x) and typ(y) and strip(x) != strip(y): return True
                for c, z in ((x, y), (y, x)):
                    if z == ("c", 0) and strip(c)[0] == "call" and vn.fn.insts[strip(c)[1]].callee in typecmp: return True
        u = {(strip(f[1]), strip(f[2])) for f in fs if len(f) == 3 and f[0] in ("ule", "sle") and typ(f[1]) and typ(f[2])}
        return any((b, a) in u and a != b for a, b in u)
    def strict_off(fs): return any(len(f) == 3 and f[0] == "eq" and ("c", 0) in f[1:3] and any(strip(x) == ("a", 3) for x in f[1:3]) for f in fs)
    def operand(e, a):
        """e is made from value a: its payload or a conversion of it"""
        e = strip(e)
        for x in subterms(e):
            if x[0] == "L" and load_of(x, a, PAY): return True
            if x[0] == "call":
                c = vn.fn.insts[x[1]]
                if any(canon(vn.expr(o)) == ("a", a) for o in c.o): return True
        return False
    def equal(fs):
        tags = {}
        for f in fs:
            if len(f) != 3: continue
            if f[0] in ("eq", "feq", "oeq") and (operand(f[1], 1) and operand(f[2], 2) or operand(f[1], 2) and operand(f[2], 1)): return True
            if f[0] == "eq":
                for a in (1, 2):
                    if any(load_of(x, a, TYP) for x in f[1:3]) and ("c", tagdict["NK_VALUETYPE_NIL"]) in f[1:3]: tags[a] = 1
        return len(tags) == 2
    def feq(p, b):
        """facts of a floating comparison on the edge"""
        t = fn.blocks[p][-1]
        out = set()
        if t.op == "br" and t.o and t.o[0][0] == "i":
            d = fn.insts[t.o[0][1]]
            if d.op == "fcmp" and (d.pred == "oeq" and t.t == b or d.pred in ("une",) and t.f == b): out.add(("feq", vn.expr(d.o[0]), vn.expr(d.o[1])))
        return out
    ats = []
    def zeros(op, edge):
        e = vn.expr(op)
        if e[0] == "phi":
            d = vn.fn.insts[e[1]]
            for v, p in d.o: zeros(v, (p, d.blk))
        elif e == ("c", 0): ats.append(edge)
        elif e[0] == "call": calls.append((e, edge))
    calls = []
    for r in fn.all():
        if r.op == "ret" and r.o: zeros(r.o[0], (None, r.blk))
    for p, b in ats:
        cx.ok("equal")
        blk = b if p is None else p
        fs = set(vn.block_facts(blk)) | (set(vn.edge_facts(p, b)) if p is not None else set())
        for q in fn.preds[blk]:
            if len(fn.preds[blk]) == 1: fs |= feq(q, blk)
        if p is not None: fs |= feq(p, b)
        at = fn.blocks[blk][-1]
        if not equal(fs): cx.bad("equal", at, "two values are reported equal without their contents having been compared", "content")
        if not eqtypes(fs):
            x = P.escape(None, lambda i: False, target_edge=(lambda a, c: (a, c) == (p, b)) if p is not None else (lambda a, c: c == b), stop_edge=lambda a, c: strict_off(vn.edge_facts(a, c)) or eqtypes(set(vn.edge_facts(a, c)) | set(vn.block_facts(a))))
            if x is not None: cx.bad("equal", at, "values of different types can be reported equal although a strict comparison was asked for", "strict")
    for e, (p, b) in calls:
        cx.ok("equal")
        c = fn.insts[strip(e)[1]]
        if c.callee in typecmp: continue
        if c.callee in EQUAL["string"]:
            if not (operand(vn.expr(c.o[0]), 1) and operand(vn.expr(c.o[1]), 2) or operand(vn.expr(c.o[0]), 2) and operand(vn.expr(c.o[1]), 1)): cx.bad("equal", c, "two strings are compared by something else than their texts", "texts")
        else: cx.bad("equal", c, "two values are reported equal by %s, which does not compare full keys" % (c.callee or "a callback"), "callee")
        x = P.escape(None, lambda i: i is c, stop_edge=lambda a, d: strict_off(vn.edge_facts(a, d)) or eqtypes(set(vn.edge_facts(a, d)) | set(vn.block_facts(a))))
        if x is not None: cx.bad("equal", c, "values of different types can be reported equal although a strict comparison was asked for", "strict")


def compares_types(cx, n):
    """n(v1, v2) returns zero only when the types are equal"""
    fn = cx.mod.fns[n]
    if len(fn.ditypes or []) != 3 or not all("NKValue" in str(x) for x in fn.ditypes[1:3]): return False
    vn = cx.vn(n)
    def ty(e, a):
        e = strip(e)
        if e[0] != "L": return False
        ad = vn.addr(vn.fn.insts[e[1]].o[0])
        return ad[1] == ("a", a) and ad[2][:1] == (("f", "NKValue", "u"),)
    n0 = 0
    for r in fn.all():
        if r.op != "ret" or not r.o: continue
        for e, at in sources(vn, r.o[0], r):
            if e == ("c", 0):
                n0 += 1
                fs = vn.facts(at)
                if at.op in ("br",) :
                    for s in fn.succs[at.blk]: 
                        if fn.blocks[s][0].op == "phi" or s == r.blk: fs = set(fs) | set(vn.edge_facts(at.blk, s))
                le = {(ty(f[1], 0), ty(f[2], 1), ty(f[1], 1), ty(f[2], 0)) for f in fs if len(f) == 3 and f[0] in ("ule", "sle")}
                ge = any(x[0] and x[1] for x in le) and any(x[2] and x[3] for x in le)
                eq = any(len(f) == 3 and f[0] == "eq" and (ty(f[1], 0) and ty(f[2], 1) or ty(f[1], 1) and ty(f[2], 0)) for f in fs)
                if not (ge or eq): return False
            elif e[0] != "c": return False
    return n0 > 0
