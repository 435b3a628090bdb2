"""I02: a script reaches the outside world only through what the host gives it."""
from nk.core import Broken
from nk.vn import strip, lin
from nk.effects import HARMLESS, IO, OPEN, READ, SEEK, CLOSE, WRITE, CONSOLE
from nk import throw

META = {"level": "proof", "technique": "effect analysis over the call graph: every external call is classified, every call with an effect outside the machine is judged against the entry points it is reachable from, its stream is traced to the host's own argument or the file opened there; path queries for closing; linear comparison of the length read with the buffer",
        "note": "Proved for the library's own code with function pointers resolved from the tables and members they are stored in; host callbacks and replaced allocators do what the host makes them do. A failed assertion ends the process and is outside the property. Output routines no entry point reaches are counted as unreachable.",
        "explains": "outside-call: every external callee is known to touch nothing outside the machine or is one of the C library's stream functions. stream-reach: a stream function is reachable only from the script-file entry point (opening, reading, closing) or from the dump entry point (writing), never from a registered or stored function. stream-source: it works on the stream opened in the same function, or on the stream argument handed down unchanged from the dump entry point. open-read: a file is opened under the name the entry point was given, for reading. closed: the opened file is closed exactly once on every way out, and nothing that may abandon the call runs in between. read-room: no more is read than the buffer it goes to was allocated for."}

FILE_ENTRY = "nkxCompilerCompileScriptFile"
DUMP_ENTRY = "nkxDbgDumpState"


def entries(mod):
    """functions called from outside: the host's interface, and everything whose address is kept"""
    api = {n for n in mod.fns if n.startswith("nkx")}
    return api, set(mod.addr_taken) & set(mod.fns)


def check(cx, tier):
    mod = cx.mod
    for e in (FILE_ENTRY, DUMP_ENTRY):
        if e not in mod.fns: raise Broken("%s not found" % e)
    api, taken = entries(mod)
    if len(api) < 50 or len(taken) < 40: raise Broken("entry points not recognised")
    cx.api = api; cx.taken = taken
    cx.from_ = {e: mod.reach([e]) for e in sorted(api | taken)}
    for name in sorted(mod.fns):
        fn = mod.fns[name]
        for i in fn.all():
            if i.op not in ("call", "invoke"): continue
            for c in mod.cal(i):
                if c in mod.fns or c.startswith("cb:"): continue
                if c.startswith("llvm.") or c in HARMLESS: cx.ok("outside-call"); continue
                if c not in IO: cx.bad("outside-call", i, "%s is called, which is not known to leave the world outside the machine alone" % c, c); continue
                if not i.callee: cx.bad("stream-reach", i, "%s is called through a pointer" % c, c); continue
                stream(cx, fn, i, c)
        opened(cx, fn)
    cx.need("outside-call", 100); cx.need("open-read", 1); cx.need("closed", 1); cx.need("read-room", 1); cx.need("stream-source", 20)


def stream(cx, fn, i, c):
    """one call of a stream function"""
    who = [e for e, r in cx.from_.items() if fn.name in r]
    if not who: cx.ok("unreachable"); return
    writes = c in WRITE or c in CONSOLE
    fine = DUMP_ENTRY if writes else FILE_ENTRY
    odd = [e for e in who if e != fine]
    if odd:
        e = odd[0]
        cx.bad("stream-reach", i, "%s is reachable from %s, which has no business outside the machine" % (c, e if e in cx.api else e + " (called through a pointer)"), c); return
    cx.ok("stream-reach")
    if c in CONSOLE: cx.bad("stream-source", i, "%s writes somewhere the host did not name" % c, c); return
    if c in OPEN: return
    k = {**READ, **SEEK, **CLOSE, **WRITE}[c]
    op = i.o[k] if k < len(i.o) else None
    if op is None: cx.bad("stream-source", i, "%s is called without a stream" % c, c); return
    if writes: w = given(cx, fn, op, set(), fine)
    else: w = None if own(cx, fn, op) else "not the file opened here"
    if w: cx.bad("stream-source", i, "%s works on %s" % (c, w), c)
    else: cx.ok("stream-source", sample=i.loc())


def own(cx, fn, op):
    e = strip(cx.vn(fn.name).expr(op))
    return e[0] == "call" and fn.insts[e[1]].callee in OPEN


def given(cx, fn, op, seen, entry):
    """None if op is, in every call from the entry point, the stream argument of that entry"""
    e = strip(cx.vn(fn.name).expr(op))
    if e[0] != "a": return "a stream the host did not pass"
    k = e[1]
    if (fn.name, k) in seen: return None
    seen.add((fn.name, k))
    if fn.name == entry:
        t = (fn.ditypes + [""] * 20)[k + 1]
        return None if "FILE" in t else "an argument that is no stream"
    for i in cx.mod.callers[fn.name]:
        if i.fn.name not in cx.from_[entry]: continue
        if k >= len(i.o): return "an argument not passed"
        w = given(cx, i.fn, i.o[k], seen, entry)
        if w: return w
    return None


def named(cx, fn, op, entry, seen):
    """op is the name the entry point was given"""
    e = strip(cx.vn(fn.name).expr(op))
    if e[0] != "a": return False
    if (fn.name, e[1]) in seen: return True
    seen.add((fn.name, e[1]))
    if fn.name == entry: return "char" in (fn.ditypes + [""] * 20)[e[1] + 1]
    cs = [i for i in cx.mod.callers[fn.name] if i.fn.name in cx.from_[entry]]
    return bool(cs) and all(e[1] < len(i.o) and named(cx, i.fn, i.o[e[1]], entry, seen) for i in cs)


def literal(mod, op):
    while op[0] == "cgep": op = op[1]
    if op[0] != "g": return None
    s = mod.globals[op[1]].get("init")
    return s.get("str", "").rstrip("\0") if isinstance(s, dict) else None


def opened(cx, fn):
    for o in list(fn.calls()):
        if o.callee not in OPEN: continue
        if not any(fn.name in r for r in cx.from_.values()): continue
        vn = cx.vn(fn.name); P = cx.paths(fn)
        pn, pm = OPEN[o.callee]
        if not named(cx, fn, o.o[pn], FILE_ENTRY, set()): cx.bad("open-read", o, "a file is opened that the host did not name", "name")
        elif literal(cx.mod, o.o[pm]) not in ("r", "rb"): cx.bad("open-read", o, "the script file is opened for something else than reading", "mode")
        else: cx.ok("open-read", sample=o.loc())
        me = vn.expr(("i", o.id))
        isclose = lambda i: i.op in ("call", "invoke") and i.callee in CLOSE and strip(vn.expr(i.o[0])) == me
        gone = lambda p, b: any(f in vn.facts_on_edge(p, b) for f in (("eq", me, ("c", 0)), ("eq", ("c", 0), me)))
        S = throw.summaries(cx)
        def leaves(i):
            if i.op == "ret": return True
            if i.op not in ("call", "invoke"): return False
            for c in cx.mod.cal(i):
                if c in S and any(not throw.contradicts(f, i, vn) for f in S[c]): return True
                if c.startswith("cb:") or throw.is_longjmp(c) or c.startswith("nkx") and c in cx.mod.fns and any(d.startswith("cb:") for d in cx.mod.reach([c])): return True
            return False
        w = P.escape(o, leaves, stop=isclose, stop_edge=gone)
        if w is not None: cx.bad("closed", o, "the opened file may be left open", "open")
        else: cx.ok("closed")
        for i in fn.all():
            if isclose(i):
                w = P.escape(i, lambda j: j.op in ("call", "invoke") and any(strip(vn.expr(a)) == me for a in j.o), stop=lambda j: j is o)
                if w is not None: cx.bad("closed", i, "the file is used or closed again after it was closed", "twice")
                else: cx.ok("closed")
            elif i.op in ("call", "invoke") and i.callee and (i.callee in READ or i.callee in SEEK) and any(strip(vn.expr(a)) == me for a in i.o):
                if not any(f in vn.facts(i) for f in (("ne", me, ("c", 0)), ("ne", ("c", 0), me))): cx.bad("closed", i, "%s is called although the file may not have been opened" % i.callee, "null")
                else: cx.ok("closed")
    for i in fn.all():
        if i.op in ("call", "invoke") and i.callee in ("fread", "fgets") and any(fn.name in r for r in cx.from_.values()): room(cx, fn, i)


def core(e):
    while e[0] in ("zext", "sext", "trunc"): e = e[1]
    return e


def room(cx, fn, i):
    vn = cx.vn(fn.name)
    buf = strip(vn.expr(i.o[0]))
    if i.callee == "fgets": n, unit = vn.expr(i.o[1]), ("c", 1)
    else: unit, n = vn.expr(i.o[1]), vn.expr(i.o[2])
    if core(n) == ("c", 1): unit, n = n, unit
    if core(unit) != ("c", 1): cx.bad("read-room", i, "the amount read is not comparable with the buffer", "unit"); return
    if buf[0] == "gep" and all(s[1] == ("c", 0) for s in buf[2] if s[0] == "x"): buf = buf[1]
    if buf[0] == "al":
        sz = fn.insts[buf[1]].asz
        if core(n)[0] == "c" and core(n)[1] <= sz or any(len(f) == 3 and f[0] in ("ule", "ult") and core(f[1]) == core(n) and f[2][0] == "c" and f[2][1] <= sz for f in vn.facts(i)): cx.ok("read-room"); return
        cx.bad("read-room", i, "more may be read than the buffer holds", "room"); return
    if buf[0] != "call" or fn.insts[buf[1]].callee not in ("malloc", "nkiMalloc_real", "nkiMalloc"): cx.bad("read-room", i, "the text is read into memory of unknown size", "room"); return
    cap = vn.expr(fn.insts[buf[1]].o[-1])
    a, x = flat(cap), flat(n)
    if a is None or x is None or a[0] != x[0] or a[1] < x[1]: cx.bad("read-room", i, "more may be read than the buffer was allocated for", "room"); return
    if a[1] > x[1] and narrow(cap):
        lim = 2 ** 32 - (a[1] - x[1])
        if not any(len(f) == 3 and (f[0] == "ult" and f[2][0] == "c" and f[2][1] % 2**64 <= lim or f[0] == "ule" and f[2][0] == "c" and f[2][1] % 2**64 < lim) and core(f[1]) == a[0] for f in vn.facts(fn.insts[buf[1]])):
            cx.bad("read-room", i, "the size of the buffer may wrap around while the length read does not", "wrap"); return
    cx.ok("read-room", sample=i.loc())


def flat(e):
    """(term, constant) of term + constant, casts aside"""
    e = core(e); k = 0
    while e[0] == "add":
        c = [x for x in e[1:] if core(x)[0] == "c"]; o = [x for x in e[1:] if core(x)[0] != "c"]
        if len(c) != 1 or len(o) != 1: return None
        k += core(c[0])[1]; e = core(o[0])
    return (None, k + e[1]) if e[0] == "c" else (e, k)


def narrow(e):
    """the sum is made in 32 bits"""
    return e[0] in ("zext", "sext") and core(e)[0] == "add"
