"""C04: text scanning stays inside its text; text buffers are large enough."""
from nk.core import Broken
from nk.fits import Fits, F
from nk.text import LEN, M, Scan, cellfn, core

META = {"level": "other", "technique": "inductive position analysis of every character access (a position is inside when every value flowing into it is, one step past a character the branches show not to be the terminator), and linear size bounds for every formatted, copied or stored character",
        "note": "Texts handed in are taken to be terminated and not to change while they are read. Sums are compared as unbounded integers: that an allocation size does not wrap, and that a size near 2^32 never succeeds, is M01. The error report's buffer is H03. Counted buffers that are not texts (raw copies, boolean maps of the checkers) are not positions in a text.",
        "explains": "Every character load whose base is a text must be at an inside position, every pointer handed to a function that scans a text must be inside one, every array handed over as a text must have been terminated. For every sprintf the widest expansion of its format, for every copy or append the lengths involved, and for every single character store the offset, must be shown to be below the destination's size; functions writing through a buffer parameter are summarised by the size parameter or the source text that bounds them, and their call sites checked."}

LIBTEXT = {"strlen": [0], "atol": [0], "atoi": [0], "atof": [0], "strtol": [0], "strtod": [0], "strtoul": [0], "strcmp": [0, 1], "strcpy": [1], "strcat": [0, 1], "strdup": [0], "fputs": [0], "puts": [0], "strchr": [0], "strstr": [0, 1]}
RAW = {"malloc", "nkiMalloc_real", "nkiMallocArray", "nkiReallocArray"}


def isbyte(fn, i):
    if i.op == "load": return i.ty == "i8"
    o = i.o[0]
    return o[0] == "c" and len(o) > 2 and o[2] == 8 or o[0] == "i" and fn.insts[o[1]].ty == "i8" or o[0] == "a" and False


def fits(cx, name):
    if name not in cx.fitted: cx.fitted[name] = Fits(cx, cx.vn(name))
    return cx.fitted[name]


def check(cx, tier):
    mod = cx.mod; cx.textpairs = set(); cx.cellfns = {}; cx.fitted = {}; cx.sums = {}
    params = scanning(cx)
    for fn in mod.fns.values():
        loads(cx, fn)
        args(cx, fn, params)
    pairs(cx)
    for fn in mod.fns.values():
        stores(cx, fn); copies(cx, fn); sizes(cx, fn)
    cx.need("position", 60); cx.need("handed-on", 20); cx.need("formatted", 8); cx.need("copied", 8); cx.need("stored", 15)


# -------------------------------------------------------------------- reading
def bounded(sc, key, i):
    """a counted buffer: the offset is below a count that is not a text length"""
    for f in sc.vn.block_facts(i.blk):
        if len(f) == 3 and f[0] == "ult" and sc.same(f[1], key) and f[2][0] in ("a", "L") and not sc.is_len(f[2], key[0]): return True
    return False


def texts(cx, fn):
    """byte loads that are positions in a text: (inst, key)"""
    sc = fits(cx, fn.name)
    for i in fn.all():
        if i.op != "load" or not isbyte(fn, i): continue
        a = sc.vn.addr(i.o[0])
        if a[2] and a[2][-1][0] == "f": continue
        k = sc.key(a)
        b = (k[0] if k else a[1])
        if b[0] in ("g", "al"): continue
        if b[0] == "call" and fn.insts[b[1]].callee in RAW: continue
        if k and bounded(sc, k, i): continue
        yield i, k


def loads(cx, fn):
    sc = fits(cx, fn.name)
    for i, k in texts(cx, fn):
        if k and sc.inside(k, i.blk): cx.ok("position", 1, i.loc())
        else: cx.bad("position", i.loc(), "the character read here may lie past the terminator of its text", key="pos:%s:%s" % (fn.name, k and (k[0], k[2])))


def scanning(cx):
    """functions reading a parameter as a text: name -> set of parameters"""
    out = {k: set(v) for k, v in LIBTEXT.items()}
    for fn in cx.mod.fns.values():
        for i, k in texts(cx, fn):
            if k and k[0][0] == "a": out.setdefault(fn.name, set()).add(k[0][1])
    ch = True
    while ch:
        ch = False
        for fn in cx.mod.fns.values():
            for i in fn.all():
                if i.op != "call": continue
                for j in out.get(i.callee or "", ()):
                    if j >= len(i.o): continue
                    e = cx.vn(fn.name).expr(i.o[j]); b = e[1] if e[0] == "gep" and not any(s[0] == "f" for s in e[2]) else e
                    if b[0] == "a" and b[1] not in out.get(fn.name, ()): out.setdefault(fn.name, set()).add(b[1]); ch = True
    return out


WRITES = {"sprintf", "strcpy", "strcat", "nkiStrcpy", "nkiStrcat", "nkiStrcpy_s"}


def terminated(cx, fn, base, at):
    """was a terminator put into the array before `at`?"""
    sc = fits(cx, fn.name)
    for i in fn.all():
        if i is at or not fn.dominates(i, at): continue
        if i.op == "store" and sc.vn.expr(i.o[0]) == ("c", 0) and isbyte(fn, i):
            k = sc.key(sc.vn.expr(i.o[1]))
            if k and k[0] == base: return True
        if i.op == "call" and i.callee in WRITES:
            k = sc.key(sc.vn.expr(i.o[0]))
            if k and k[0] == base: return True
    # every way in wrote one
    seen = set(); st = [at.blk]; first = True
    while st:
        b = st.pop()
        ins = fn.blocks[b]
        upto = at.pos if first else len(ins); first = False
        hit = False
        for i in ins[:upto]:
            if i.op == "store" and sc.vn.expr(i.o[0]) == ("c", 0) and isbyte(fn, i) or i.op == "call" and i.callee in WRITES:
                k = sc.key(sc.vn.expr(i.o[1] if i.op == "store" else i.o[0]))
                if k and k[0] == base: hit = True
        if hit: continue
        if b == 0: return False
        for p in fn.preds[b]:
            if p not in seen: seen.add(p); st.append(p)
    return True


def args(cx, fn, params):
    sc = fits(cx, fn.name)
    for i in fn.all():
        if i.op != "call" or not i.callee: continue
        for j in sorted(params.get(i.callee, ())):
            if j >= len(i.o): continue
            e = sc.vn.expr(i.o[j])
            for x in (e[2:4] if e[0] == "select" else (e,)):
                if x[0] == "c": continue
                a = x if x[0] == "gep" else ("gep", x, ())
                if a[2] and any(s[0] == "f" for s in a[2]):
                    cx.ok("handed-on", 1); continue
                k = sc.key(x)
                if part(sc, x, i): cx.ok("handed-on", 1, i.loc()); continue
                if k and k[0][0] == "al":
                    if k[1] or k[2] or not terminated(cx, fn, k[0], i): cx.bad("handed-on", i.loc(), "the array handed to %s as a text may not have been terminated" % i.callee)
                    else: cx.ok("handed-on", 1)
                elif k and k[0][0] == "call" and fn.insts[k[0][1]].callee in RAW | {"nkiRealloc"} and not (i.callee == "nkiStrcat" and fn.insts[k[0][1]].callee == "nkiRealloc") and not terminated(cx, fn, k[0], i):
                    cx.bad("handed-on", i.loc(), "the block handed to %s as a text may not have been terminated" % i.callee)
                elif k and sc.inside(k, i.blk): cx.ok("handed-on", 1, i.loc())
                else: cx.bad("handed-on", i.loc(), "the position handed to %s may lie past the terminator of its text" % i.callee)


def part(sc, x, at):
    """a text kept inside a larger block: every way it came about points into the block behind an offset, and it was filled by a call given the same pointer"""
    fn = sc.fn; ok = False
    st = [x]; seen = set()
    while st:
        e = st.pop()
        if e in seen: continue
        seen.add(e)
        if e == ("c", 0): continue
        if e[0] == "phi": st.extend(sc.vn.expr(v) for v, p in fn.insts[e[1]].o); continue
        k = sc.key(e)
        if k and k[0][0] == "call" and fn.insts[k[0][1]].callee in RAW and (k[1] or k[2]): ok = True
        else: return False
    return ok and any(i.op == "call" and i is not at and i.callee not in LEN and any(sc.vn.expr(o) == x for o in i.o) and fn.can_reach(i, at) for i in fn.all())


def pairs(cx):
    """positions passed by address: every caller's cell must hold an inside position"""
    for name, t, c in sorted(cx.textpairs):
        if not cellfn(cx, name, t, c): cx.bad("position", name, "a position kept through a pointer leaves the text")
        if name in cx.mod.addr_taken: cx.bad("position", name, "called through a pointer")
        for fn in cx.mod.fns.values():
            for i in fn.all():
                if i.op != "call" or i.callee != name: continue
                sc = Scan(cx, cx.vn(fn.name)); b = sc.vn.expr(i.o[t]); q = sc.vn.expr(i.o[c])
                good = False
                if b[0] == "a" and q[0] == "a": good = (fn.name, b[1], q[1]) in cx.textpairs or cellfn(cx, fn.name, b[1], q[1])
                elif b[0] == "a" and q[0] == "al":
                    ld = next((x for x in fn.all() if x.op == "load" and sc.vn.addr(x.o[0]) == ("gep", q, ()) and sc.vn.expr(["i", x.id])[0] == "L"), None)
                    good = ld is not None and sc.cell(b, ("L", ld.id)) or ld is None
                if good: cx.ok("position", 1, i.loc())
                else: cx.bad("position", i.loc(), "the position kept for %s may lie past the terminator" % name)


# -------------------------------------------------------------------- writing
def summary(cx, name, j):
    """what bounds the characters a function writes through buffer parameter j: ('size', p) | ('copy', s) | ('append', s) | ('size1', p) | None"""
    key = (name, j)
    if key in cx.sums: return cx.sums[key]
    cx.sums[key] = None
    fn = cx.mod.fns.get(name)
    if fn is None:
        r = {"strcpy": ("copy", 1), "strcat": ("append", 1), "memcpy": ("size", 2), "memset": ("size", 2)}.get(name) if j == 0 else None
        cx.sums[key] = r; return r
    sc = fits(cx, name); base = ("a", j); st = []; fw = []
    for i in fn.all():
        if i.op == "store" and isbyte(fn, i):
            k = sc.key(sc.vn.expr(i.o[1]))
            if k and k[0] == base: st.append((i, k))
        elif i.op == "call" and i.callee and i.callee not in LEN:
            for q, o in enumerate(i.o):
                k = sc.key(sc.vn.expr(o)) if o[0] in ("i", "a") else None
                if k and k[0] == base and sum_of(cx, i.callee, q): fw.append((i, q, k))
    r = None
    if fw and not st and len(fw) == 1 and fw[0][2] == (base, frozenset(), 0):
        i, q, k = fw[0]; s = sum_of(cx, i.callee, q); e = sc.vn.expr(i.o[s[1]])
        if e[0] == "a": r = (s[0], e[1])
    elif st and not fw:
        if all(not k[1] and k[2] == 0 for i, k in st): r = ("one", None)
        if r is None:
            # bounded by a source text
            for s in range(fn.nargs):
                if s == j: continue
                if all(sc.inside((("a", s), k[1], k[2]), i.blk) for i, k in st): r = ("copy", s); break
                lens = {("call", x.id) for x in fn.all() if x.op == "call" and x.callee in LEN and sc.vn.expr(x.o[0]) == base}
                if lens:
                    l = next(iter(lens))
                    def rel(k):
                        t = dict(k[1]); t[l] = (t.get(l, 0) - 1) % (1 << 32)
                        return (("a", s), frozenset((a, b) for a, b in t.items() if b), k[2])
                    if all(sc.inside(rel(k), i.blk) for i, k in st): r = ("append", s); break
        if r is None:
            # bounded by a size parameter (or not beyond the text already there)
            for p in range(fn.nargs):
                if p == j: continue
                f = Fits(cx, sc.vn); C = F({("cap", base): 1})
                f.axioms = [F({("len", base): 1}, 1).add(C, -1), F({("a", p): 1}).add(C, -1)]
                if all(f.le(f.offset(k).plus(1), i.blk, C) for i, k in st): r = ("size", p); break
    cx.sums[key] = r
    return r


def sum_of(cx, name, j):
    if name in cx.mod.fns:
        fn = cx.mod.fns[name]
        if j >= fn.nargs: return None
    s = summary(cx, name, j)
    return s if s and s[0] != "one" else None


def report(name): return name in ("nkiGetErrorText", "nkxGetErrorText")


def stores(cx, fn):
    sc = fits(cx, fn.name)
    for i in fn.all():
        if i.op != "store" or not isbyte(fn, i): continue
        a = sc.vn.addr(i.o[1])
        if a[2] and a[2][-1][0] == "f" or a[1][0] == "g": continue
        k = sc.key(a)
        if k is None:
            if any(s[0] == "f" for s in a[2]): continue
        if k and k[0][0] == "a":
            s = summary(cx, fn.name, k[0][1])
            if s or not k[1] and k[2] == 0: cx.ok("stored", 1, i.loc())
            else: cx.bad("stored", i.loc(), "the character stored through the buffer parameter is not bounded by a size parameter, the source text or the text already there")
            continue
        if k is None: cx.bad("stored", i.loc(), "destination of a character store not understood"); continue
        cap = sc.capacity(k[0])
        if cap is None:
            if k[0][0] in ("L", "call", "phi"):
                if sc.inside(k, i.blk): cx.ok("stored", 1, i.loc()); continue
                if k[0][0] == "call" and fn.insts[k[0][1]].callee in RAW: continue
            elif k[0][0] == "al" and fn.insts[k[0][1]].aty == "i8": continue
            cx.bad("stored", i.loc(), "a character is stored at a position that is not shown to be inside its buffer"); continue
        if k[0][0] == "call" and bounded(sc, k, i): continue
        if sc.le(sc.offset(k).plus(1), i.blk, cap): cx.ok("stored", 1, i.loc())
        elif not k[1] and k[0][0] == "call" and k[2] == 0: cx.ok("stored", 1)
        elif k[0][0] == "call" and not textblock(sc, k[0]): continue
        else: cx.bad("stored", i.loc(), "a character is stored at an offset that is not shown to be below the buffer's size")


def textblock(sc, base):
    """is the block used as a text (scanned, or filled by copying characters)?"""
    i = sc.fn.insts[base[1]]
    if i.callee in ("nkiMallocArray", "nkiReallocArray"): return False
    for x in sc.fn.all():
        if x.op == "store" and isbyte(sc.fn, x):
            k = sc.key(sc.vn.expr(x.o[1]))
            if k and k[0] == base and sc.vn.expr(x.o[0]) == ("c", 0): return True
    return False


def written(cx, sc, base, at):
    """length of the text at base just before instruction `at`: form or None"""
    fn = sc.fn; ev = []
    for i in fn.all():
        if i is at: continue
        if i.op == "store" and isbyte(fn, i):
            k = sc.key(sc.vn.expr(i.o[1]))
            if k and k[0] == base: ev.append((i, "put", k))
        elif i.op == "call" and i.callee and i.callee not in LEN:
            for q, o in enumerate(i.o):
                k = sc.key(sc.vn.expr(o)) if o[0] in ("i", "a", "cgep") else None
                if k and k[0] == base:
                    s = ("format", None) if i.callee == "sprintf" and q == 0 else sum_of(cx, i.callee, q)
                    if s: ev.append((i, s, q))
    ev = [e for e in ev if fn.can_reach(e[0], at)]
    cur = None
    if base[0] == "call" and fn.insts[base[1]].callee == "nkiRealloc": cur = sc.length(sc.vn.expr(fn.insts[base[1]].o[1]))
    ev.sort(key=lambda e: (len(fn.dom()[e[0].blk]), e[0].pos))
    for i, s, q in ev:
        if not fn.dominates(i, at) or i.blk in fn.reach_blocks(i.blk) and at.blk in fn.reach_blocks(at.blk) and not dominated_by_base(fn, base, i): return None
        if s == "put":
            if sc.vn.expr(i.o[0]) == ("c", 0) and not q[1]: cur = F({}, q[2])
            else: return None
        elif s[0] == "copy": cur = sc.length(sc.vn.expr(i.o[s[1]]))
        elif s[0] == "append": cur = None if cur is None else cur.add(sc.length(sc.vn.expr(i.o[s[1]])))
        elif s[0] == "format":
            w = width(cx, sc, i)
            cur = w
        else: return None
    return cur


def dominated_by_base(fn, base, i):
    """the block is made anew in every round of the loop"""
    return base[0] == "call" and fn.insts[base[1]].blk in fn.reach_blocks(fn.insts[base[1]].blk)


def width(cx, sc, i):
    """largest number of characters sprintf call i writes, without terminator; None when the format is not understood"""
    f = sc.vn.expr(i.o[1])
    if f[0] == "gep": f = f[1]
    g = cx.mod.globals.get(f[1], {}).get("init") if f[0] == "g" else None
    if not (isinstance(g, dict) and "str" in g): return None
    s = g["str"].split("\0")[0]; n = F(); a = 2; p = 0
    while p < len(s):
        if s[p] != "%": n = n.plus(1); p += 1; continue
        p += 1
        w = ""
        while p < len(s) and s[p] in "0123456789-+ #": w += s[p]; p += 1
        wd = int("".join(c for c in w if c.isdigit()) or 0)
        prec = None
        if p < len(s) and s[p] == ".":
            p += 1; d = ""
            while p < len(s) and s[p].isdigit(): d += s[p]; p += 1
            prec = int(d or 0)
        l = ""
        while p < len(s) and s[p] in "lhzjt": l += s[p]; p += 1
        c = s[p] if p < len(s) else ""
        p += 1
        if c == "%": n = n.plus(1); continue
        if a >= len(i.o): return None
        e = sc.vn.expr(i.o[a]); wide = len(l) and "l" in l; a += 1
        plus = 1 if "+" in w or " " in w else 0
        if c == "u": n = n.plus(max(20 if wide else 10, wd, prec or 0))
        elif c in "di": n = n.plus(max((20 if wide else 11) + plus, wd, (prec or 0) + 1))
        elif c in "xX": n = n.plus(max((16 if wide else 8) + (2 if "#" in w else 0), wd, prec or 0))
        elif c == "c": n = n.plus(max(1, wd))
        elif c == "f":
            d = sc.fn.idef(i.o[a - 1])
            ip = 39 if d is not None and d.op == "fpext" else 309
            n = n.plus(max(1 + ip + 1 + (6 if prec is None else prec), wd))
        elif c in "eg": n = n.plus(max(24 + (prec or 0), wd))
        elif c == "s":
            if wd: n = n.plus(wd)
            if prec is not None: n = n.plus(prec)
            else: n = n.add(sc.length(e))
        elif c == "p": n = n.plus(max(20, wd))
        else: return None
    return n


def copies(cx, fn):
    sc = fits(cx, fn.name); mod = cx.mod
    for i in fn.all():
        if i.op != "call" or not i.callee: continue
        if i.callee == "sprintf":
            k = sc.key(sc.vn.expr(i.o[0])); cap = sc.capacity(k[0]) if k else None
            w = width(cx, sc, i)
            if w is None: cx.bad("formatted", i.loc(), "the format is not one whose widest expansion is known"); continue
            if cap is None: cx.bad("formatted", i.loc(), "the size of the destination is not known"); continue
            if sc.le(sc.offset(k).add(w).plus(1), i.blk, cap): cx.ok("formatted", 1, i.loc())
            else: cx.bad("formatted", i.loc(), "the widest text this format can produce does not fit the destination")
            continue
        if i.callee in ("vsprintf", "gets"): cx.bad("formatted", i.loc(), "unbounded write"); continue
        for q, o in enumerate(i.o):
            if o[0] not in ("i", "a", "cgep", "g"): continue
            s = sum_of(cx, i.callee, q)
            if not s: continue
            e = sc.vn.expr(o)
            fld = None
            if e[0] == "gep" and any(x[0] == "f" for x in e[2]):
                fld = e; k = inrecord(cx, sc, e)
                if k is None: continue
            else: k = sc.key(e)
            if k is None: cx.bad("copied", i.loc(), "destination not understood"); continue
            if k[0][0] == "a":
                if summary(cx, fn.name, k[0][1]) or report(fn.name): continue
                if s[0] == "size" or fld: continue
                cx.bad("copied", i.loc(), "text written through a buffer parameter without a bound the callers can be held to"); continue
            if k[0][0] == "al" and not (fn.insts[k[0][1]].aty or "").endswith("x i8]"): continue
            cap = sc.capacity(k[0])
            if cap is None and k[0][0] == "phi":
                cap = None
            if cap is None:
                if s[0] == "size": continue
                cx.bad("copied", i.loc(), "the size of the destination is not known"); continue
            if s[0] == "size": need = sc.form(sc.vn.expr(i.o[s[1]]))
            elif s[0] == "copy": need = sc.length(sc.vn.expr(i.o[s[1]])).plus(1)
            else:
                old = written(cx, sc, k[0], i)
                if old is None: cx.bad("copied", i.loc(), "what the destination holds before the append is not known"); continue
                need = old.add(sc.length(sc.vn.expr(i.o[s[1]]))).plus(1)
            if sc.le(sc.offset(k).add(need), i.blk, cap): cx.ok("copied", 1, i.loc())
            elif not fld and s[0] == "size" and sc.vn.expr(i.o[1])[0] == "c" and not textblock(sc, k[0]): continue
            else: cx.bad("copied", i.loc(), "%s may write more than the destination holds" % i.callee)


def sizes(cx, fn):
    """a size computed by adding to a value of unknown size must be shown not to wrap (sizes handed to the machine's own allocator: M01)"""
    sc = fits(cx, fn.name)
    for i in fn.all():
        if i.op != "call" or i.callee not in ("malloc", "realloc") or fn.name in ("nkiMalloc_real",): continue
        e = sc.vn.expr(i.o[-1]); f = sc.form(e)
        if not f.t or f.c <= 0 or core(e)[0] != "add": continue
        ok = False
        for g in sc.vn.block_facts(i.blk):
            if len(g) == 3 and g[0] in ("ult", "ule") and g[2][0] == "c":
                h = sc.form(g[1])
                if h.t == f.t and (g[2][1] - (g[0] == "ult")) - h.c + f.c < M: ok = True
            if len(g) == 3 and g[0] in ("sle", "slt") and g[1][0] == "c" and g[1][1] >= (0 if g[0] == "sle" else -1) and g[2][0] == "call" and fn.insts[g[2][1]].ty == "i32":
                h = sc.form(g[2])
                if h.t == f.t and (M >> 1) - 1 - h.c + f.c < M: ok = True
        if ok: cx.ok("raw-size", 1, i.loc())
        else: cx.bad("raw-size", i.loc(), "the size is a sum that is not shown to stay below 2^32, so the block may be smaller than what is written to it")


def inrecord(cx, sc, e):
    """text stored in the last member of a record: (record base, no terms, offset of the member)"""
    off = 0
    for s in e[2]:
        if s[0] == "f":
            o = offset(cx, s[1], s[2])
            if o is None: return None
            off += o
        elif s[1] != ("c", 0): return None
    return (e[1], frozenset(), off)


def offset(cx, st, f):
    S = cx.mod.structs.get(st)
    if not S: return None
    o = 0
    for n, t, z in S["fields"]:
        al = min(8, z) if "[" not in t else 1
        if t.startswith("struct ") and "*" not in t: return None
        o = (o + al - 1) // al * al
        if n == f: return o
        o += z
    return None
