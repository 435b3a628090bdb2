"""V01: every instruction is defined and dispatch stays in the tables."""
from nk.core import Broken
from nk.ops import Ops, bounded
from nk.emit import Emit

META = {"level": "other", "technique": "constant-table completeness over the compiler IR plus bounds analysis of every table access and a constant-flow analysis of every emitted instruction code",
        "note": "Covers every instruction code, every table access and every construct that writes an instruction code. Whether a handler computes what the language says is not covered (R02).",
        "explains": "The stores that fill the handler, name and stack-effect tables are evaluated to index->value maps (constant indices and constant-bounded loops); every code below the count must have a handler, its own name and an effect, stored on every path of the set-up routine that is reached when a machine is created; unassigned codes and code 0 must map to a function without effects; every load from the tables must use an index proven below the table length; every value written as an instruction code must be a defined code."}


def check(cx, tier):
    mod = cx.mod
    O = Ops(cx)
    tabs = {"handler": (O.handler_table, O.handlers), "name": (O.name_table, O.opnames), "stack effect": (O.offset_table, O.offsets)}
    # --- completeness
    for k in range(O.real):
        nm = O.names.get(k)
        if nm is None: continue
        for what, (g, tab) in tabs.items():
            cx.ok("table-complete")
            l = tab.get(k)
            if not l or l[-1][0][0] in ("null", "zero", "undef"):
                cx.bad("table-complete", "instruction tables", "%s has no %s" % (nm, what), "%s:%s" % (nm, what)); continue
            vals = {str(v) for v, i in l}
            if len(vals) > 1:
                cx.bad("table-complete", l[-1][1] or "instruction tables", "the %s of %s is set more than once to different values" % (what, nm), "dup:%s:%s" % (nm, what))
        l = O.opnames.get(k)
        if l and l[-1][1] is not None:
            s = name_string(cx, l[-1])
            cx.ok("name-matches")
            if s is not None and s != nm and s != nm[len("NK_OP_"):]:
                cx.bad("name-matches", l[-1][1], "the name recorded for %s is '%s'" % (nm, s), nm)
    for k in range(O.real, O.padded):
        cx.ok("unassigned-is-noop")
        h = O.handler(k)
        if h is None or not effectless(cx, h):
            cx.bad("unassigned-is-noop", "instruction tables", "unassigned code %d is not a no-op" % k, "pad")
    for what, (g, tab) in tabs.items():
        n = O.length(g)
        cx.ok("table-size")
        if n < O.padded: cx.bad("table-size", "instruction tables", "the %s table is shorter than the padded code count" % what, what)
        if None in tab: cx.bad("table-complete", tab[None][0][1], "a store into the %s table has an index that cannot be evaluated" % what, "idx:" + what)
        for k in tab:
            if k is not None and not 0 <= k < n: cx.bad("table-size", tab[k][0][1], "store outside the %s table" % what, what)
    cx.ok("zero-is-noop")
    if not (O.handler(0) and effectless(cx, O.handler(0))):
        cx.bad("zero-is-noop", "instruction tables", "code 0, which cleared program memory holds, is not a no-op", "zero")
    # --- filled before any machine runs
    inits = {}
    for g, tab in tabs.values():
        for k, l in tab.items():
            for v, i in l:
                if i is not None: inits.setdefault(i.fn.name, []).append((k, i))
    for n, sts in inits.items():
        fn = mod.fns[n]; vn = cx.vn(n); P = cx.paths(fn)
        flags = {mod.addr_global(fn, i.o[1]) for i in fn.all() if i.op == "store" and mod.addr_global(fn, i.o[1]) and mod.addr_global(fn, i.o[1]) not in [t[0] for t in tabs.values()]}
        def done_edge(p, b):
            for f in vn.edge_facts(p, b):
                if len(f) == 3 and f[0] == "ne" and f[2] == ("c", 0) and f[1][0] == "L":
                    if mod.addr_global(fn, fn.insts[f[1][1]].o[0]) in flags: return True
            return False
        for k, i in sts:
            cx.ok("filled-on-every-path")
            # loop bodies may be skipped by the loop's own exit test: use the loop header
            blk = i.blk
            from nk.loops import loops_of
            ls = loops_of(fn, blk)
            tgt = ls[-1][0] if ls else None
            if tgt is None: esc = P.escape(None, lambda x: x.op == "ret", stop=lambda x: x is i, stop_edge=done_edge)
            else: esc = P.escape(None, lambda x: x.op == "ret", stop=lambda x: x.blk == tgt, stop_edge=done_edge)
            if esc is not None: cx.bad("filled-on-every-path", i, "the set-up routine can return without this table entry", "store %s" % k)
        cx.ok("set-up-before-use")
        if not must_be_called(cx, n):
            cx.bad("set-up-before-use", "%s" % n, "creating a machine does not always fill the instruction tables", n)
    # --- every access is inside the tables
    for fn in mod.fns.values():
        vn = None
        for i in fn.all():
            if i.op not in ("load", "store"): continue
            g = mod.addr_global(fn, i.o[0] if i.op == "load" else i.o[1])
            if g not in [t[0] for t in tabs.values()]: continue
            if i.op == "store": continue        # covered by the index maps above
            vn = vn or cx.vn(fn.name)
            a = vn.addr(i.o[0])
            ix = [s[1] for s in a[2] if s[0] == "x"]
            cx.ok("access-in-range", 1, i.loc())
            if not ix: continue
            if not bounded(vn, i, ix[-1], O.length(g)):
                cx.bad("access-in-range", i, "the code that selects this table entry is not limited to the table", g)
    cx.need("access-in-range", 3)
    # --- only defined codes are emitted
    emitted(cx, O)
    cx.need("emits-defined-code", 30)
    cx.need("table-complete", 3 * 40)


def name_string(cx, ent):
    v, st = ent
    mod = cx.mod; fn = st.fn
    op = v; off = 0
    d = fn.idef(op)
    if op[0] == "cgep": op = op[1]
    if d is not None and d.op == "getelementptr": op = d.o[0]
    if op[0] == "g":
        s = mod.globals[op[1]].get("init")
        if isinstance(s, dict) and "str" in s: return s["str"].rstrip("\x00")
    return None


def effectless(cx, h):
    fn = cx.mod.fns[h]
    return not any(i.op in ("store", "call", "invoke") and not (i.callee or "").startswith("llvm.dbg") for i in fn.all())


def must_be_called(cx, name, depth=0, seen=None):
    """some root of machine creation calls `name` on every path"""
    mod = cx.mod
    seen = seen or set()
    if name in ("nkiVmInit",): return True
    if name in seen: return False
    seen.add(name)
    for c in mod.callers[name]:
        fn = c.fn; P = cx.paths(fn)
        if P.escape(None, lambda i: i.op == "ret", stop=lambda i: i.op == "call" and name in mod.cal(i)) is None:
            # and nothing executes instructions before
            if must_be_called(cx, fn.name, depth + 1, seen): return True
    return False


def emitted(cx, O):
    mod = cx.mod
    E = Emit(cx, O)
    for i, what in E.problems: cx.bad("operand-follows-code", i, what, what)
    for (f, n), (kind, vals, w) in sorted(E.words.items()):
        fn = mod.fns[f]; i = fn.insts[n]
        cx.ok("operand-follows-code", 1, i.loc())
        if kind != "code": continue
        if vals is None:
            cx.bad("emits-defined-code", i, "the instruction code written here is not a known constant on every path", "dynamic"); continue
        if w[0] == "a":
            for c in mod.callers[f]:
                vs = E.values(c.fn, c.o[w[1]])
                cx.ok("emits-defined-code", 1, c.loc())
                for v in vs or ():
                    if v not in O.names: cx.bad("emits-defined-code", c, "instruction code %d is not defined" % v, "code %d" % v)
                    elif v in E.operands: cx.bad("operand-follows-code", c, "%s needs an operand word" % O.names[v], O.names[v])
        else:
            cx.ok("emits-defined-code", 1, i.loc())
            for v in vals:
                if v not in O.names: cx.bad("emits-defined-code", i, "instruction code %d is not defined" % v, "code %d" % v)
    # constants written straight into program memory
    for fn in mod.fns.values():
        for i in fn.all():
            if i.op != "store" or i.o[0][0] != "c" or mod.addr_field(fn, i.o[1]) != ("NKInstruction", "u"): continue
            b = cx.vn(fn.name).addr(i.o[1])
            if b[1][0] == "al": continue
            cx.ok("emits-defined-code", 1, i.loc())
            if i.o[0][1] not in O.names: cx.bad("emits-defined-code", i, "word %d written to program memory is not a defined code" % i.o[0][1], "direct")
