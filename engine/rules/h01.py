"""H01: a coroutine is only ever resumed in a resumable state."""
from nk.core import Broken
from nk.exttype import ext
from nk.ops import Ops
from nk.own import own
from nk.stackfx import StackFx
from nk.stream import Stream
from nk.teardown import teardown
from nk.vn import strip, is_load_of
from rules.v08 import errors

META = {"level": "other", "technique": "typestate analysis of coroutine switches: classification of every store to the active-coroutine pointer, the resumer link and the coroutine state, with guard facts and must-pass path queries, propagated to callers",
        "note": "A host that attaches the coroutine type to data of its own is outside the property. Natural nesting of host calls inside a coroutine is judged only by the links they leave.",
        "explains": "Every store to the active coroutine is a switch in (target not null, has no resumer, gets the old active one as resumer), a switch out (to its non-null resumer, whose link is cleared), the construction of the machine, or the checked rebuilding of the chain from a saved state. A switch in that is not undone in the same function needs a coroutine object by external type, a state that is neither invalid nor finished, and turns a fresh coroutine into a running one and hands a suspended one the resume value. Finishing happens exactly when a body returns to the invalid address and is followed by a switch out."}

CUR = ("NKVM", "currentExecutionContext"); PAR = ("NKVMExecutionContext", "parent"); ST = ("NKVMExecutionContext", "coroutineState")
IP = ("NKVMExecutionContext", "instructionPointer"); ROOT = ("NKVM", "rootExecutionContext")


class H:
    def __init__(self, cx):
        self.cx, self.mod = cx, cx.mod
        e = self.mod.E
        self.INV, self.NEW, self.RUN, self.FIN = (e("NK_COROUTINE_" + x) for x in ("INVALID", "CREATED", "RUNNING", "FINISHED"))
        self.NIL = e("NK_VALUETYPE_NIL")
        self.sfx = StackFx(cx); self.own = own(cx); self.ext = ext(cx); self.ops = Ops(cx)
        self.str = Stream(cx); self.td = teardown(cx)
        self.errs = errors(cx)
        self.stores = {CUR: [], PAR: [], ST: [], IP: []}
        for fn in self.mod.fns.values():
            for i in fn.all():
                if i.op == "store":
                    k = self.mod.addr_field(fn, i.o[1])
                    if k in self.stores: self.stores[k].append(i)
        self.push = {n for n in self.mod.fns if n in self.sfx.rel and self.pushes(n)}
        self.build = self.builders()
        self.clears = self.clearing()

    def pushes(self, n):
        if self.mod.fns[n].nargs < 1 or any(n == h[0][0][1] for h in self.ops.handlers.values() if h and h[0][0][0] == "fn"): return False
        try: s = self.sfx.summary(n)
        except Broken: return False
        return bool(s) and all(l == 0 and len(ef) == 1 and ef[0][0] == 0 and ef[0][1] == (frozenset(), 1) for l, ef in s)

    def builders(self):
        """functions whose machine argument has just been allocated by every caller"""
        r = set(); ch = True
        while ch:
            ch = False
            for n, fn in self.mod.fns.items():
                cs = self.mod.callers.get(n, [])
                if n in r or not cs or fn.nargs < 1 or self.cx.ms.pointee(fn, ["a", 0]) != "NKVM": continue
                if all(self.newvm(c, r) for c in cs): r.add(n); ch = True
        return r

    def newvm(self, c, r):
        if not c.o: return False
        if c.fn.name in r and c.o[0] == ["a", 0]: return True
        ds = self.own.roots(c.fn, c.o[0])
        for t in ds:
            d = c.fn.idef(list(t))
            if d is None:
                if t[0] in ("null", "c"): continue
                return False
            if d.op == "call" and any(x in ("malloc", "realloc") or x.startswith("cb:") for x in self.mod.cal(d)): continue
            return False
        return True

    def clearing(self):
        """(function, argument) pairs after which the argument's resumer link is clear"""
        r = set(); ch = True
        while ch:
            ch = False
            for n, fn in self.mod.fns.items():
                vn = self.cx.vn(n)
                for k in range(fn.nargs):
                    if (n, k) in r or self.cx.ms.pointee(fn, ["a", k]) != "NKVMExecutionContext": continue
                    if self.cx.paths(fn).escape(None, lambda i: i.op == "ret", stop=lambda i: self.clear(i, vn, ("a", k), r)) is None: r.add((n, k)); ch = True
        return r

    def clear(self, i, vn, x, r=None):
        """does i clear the resumer link of context x?"""
        if i.op == "store": return self.fld(vn, i.o[1]) == (x, PAR) and strip(vn.expr(i.o[0])) == ("c", 0)
        if i.op == "call":
            return any((c, k) in (self.clears if r is None else r) for c in self.mod.cal(i) for k, o in enumerate(i.o) if strip(vn.expr(o)) == x or vn.addr(o) == x)
        return False

    def fld(self, vn, op):
        """(context value, member) of an address inside a context"""
        a = vn.addr(op)
        s = a[2]
        for k in range(len(s) - 1, -1, -1):
            if s[k][0] == "f" and s[k][1] == "NKVMExecutionContext":
                b = a[1] if k == 0 else ("gep", a[1], tuple(s[:k]))
                return (strip(b), (s[k][1], s[k][2]))
        return None

    def load_of(self, vn, e, key):
        """context x such that e was loaded from x's member"""
        e = strip(e)
        if e[0] != "L": return None
        f = self.fld(vn, vn.fn.insts[e[1]].o[0])
        return f[0] if f and f[1] == key else None

    def iscur(self, vn, e):
        e = strip(e)
        if e[0] != "L": return False
        f = vn.lastf(vn.addr(vn.fn.insts[e[1]].o[0]))
        return bool(f) and (f[1], f[2]) == CUR

    def isroot(self, vn, e):
        e = strip(e)
        return e[0] == "gep" and e[2] and e[2][-1][0] == "f" and (e[2][-1][1], e[2][-1][2]) == ROOT

    def fresh(self, fn, e):
        e = strip(e)
        return e[0] == "call" and self.own.is_alloc(fn.insts[e[1]])

    def state(self, vn, facts, x):
        """values the state of x is known (eq) / known not (ne) to be"""
        eq, ne = set(), set()
        for f in facts:
            if len(f) != 3 or f[0] not in ("eq", "ne"): continue
            for a, b in ((f[1], f[2]), (f[2], f[1])):
                if b[0] == "c" and self.load_of(vn, a, ST) == x: (eq if f[0] == "eq" else ne).add(b[1])
        return eq, ne


def isret(i): return i.op == "ret"


def has(facts, p, a, b): return any(len(f) == 3 and f[0] == p and ((strip(f[1]) == a and f[2] == b) or (strip(f[2]) == a and f[1] == b)) for f in facts)


def check(cx, tier):
    h = H(cx)
    if not h.stores[CUR] or not h.stores[PAR]: raise Broken("no store to the active coroutine or the resumer link found")
    ins, outs = switches(cx, h)
    links(cx, h)
    states(cx, h)
    events(cx, h, ins, outs)
    dead(cx, h)
    unknown(cx, h)
    cx.need("switch-in", 1); cx.need("switch-out", 1); cx.need("state-store", 4); cx.need("resume", 1); cx.need("finish", 1); cx.need("yield", 1)
    cx.need("chain-loaded", 1); cx.need("stack-destroyed", 2)


# ---------------------------------------------------------------- stores
def switches(cx, h):
    """classify stores to the active pointer -> ({fn: [(store, context)]}, {fn: [(store, context left)]})"""
    ins, outs = {}, {}
    h.instores = set(); h.chain = []
    for s in h.stores[CUR]:
        fn = s.fn; vn = cx.vn(fn.name); v = strip(vn.expr(s.o[0])); facts = vn.facts(s)
        if h.isroot(vn, v):
            if fn.name in h.build: cx.ok("construct", sample=s.loc())
            else: cx.bad("switch-out", s, "the main program becomes active without the coroutines in between being left one by one", "jump-to-root")
            continue
        w = h.load_of(vn, v, PAR)
        if w is not None:
            if not h.iscur(vn, w): cx.bad("switch-out", s, "control goes to the resumer of a coroutine that is not the active one", "not-current"); continue
            if not has(facts, "ne", v, ("c", 0)): cx.bad("switch-out", s, "the active coroutine is left without its resumer being known to exist (the main program has none)", "no-resumer")
            if not covered(cx, h, s, lambda i: h.clear(i, vn, w)): cx.bad("switch-out", s, "the coroutine that is left keeps its resumer link and counts as active for ever", "link-kept")
            cx.ok("switch-out", sample=s.loc()); outs.setdefault(fn.name, []).append((s, w))
            continue
        if fn.name in h.str.fns and v[0] != "a": h.chain.append(s); continue
        # switch in
        if not has(facts, "ne", v, ("c", 0)) and not h.fresh(fn, v): cx.bad("switch-in", s, "a context that may be missing is made the active one", "null")
        if not any(f[0] == "eq" and h.load_of(vn, f[1], PAR) == v and f[2] == ("c", 0) for f in facts if len(f) == 3):
            cx.bad("switch-in", s, "a coroutine is made the active one without checking that it has no resumer already", "already-active")
        def links_(i):
            if i.op != "store" or h.fld(vn, i.o[1]) != (v, PAR): return False
            x = strip(vn.expr(i.o[0]))
            if not h.iscur(vn, x): return False
            ld = vn.fn.insts[x[1]]
            return fn.dominates(ld, s)
        if not covered(cx, h, s, links_): cx.bad("switch-in", s, "the coroutine that becomes active does not record the one that resumed it", "no-link")
        for i in fn.all():
            if links_(i): h.instores.add((fn.name, i.id))
        cx.ok("switch-in", sample=s.loc()); ins.setdefault(fn.name, []).append((s, v))
    return ins, outs


def covered(cx, h, s, pred):
    """on every path through s, pred holds somewhere before or after"""
    P = cx.paths(s.fn)
    return P.escape(None, lambda i: i is s, stop=pred) is None or P.escape(s, isret, stop=pred) is None


def links(cx, h):
    """stores to a resumer link outside the switches"""
    clearers = {n for n, k in h.clears}
    for s in h.stores[PAR]:
        fn = s.fn; vn = cx.vn(fn.name); x, _ = h.fld(vn, s.o[1]); v = strip(vn.expr(s.o[0])); facts = vn.facts(s)
        if (fn.name, s.id) in h.instores: continue
        if v == ("c", 0):
            if x[0] == "a":
                cx.ok("link-clear", sample=s.loc())
                continue                  # judged at the callers
            clear_ok(cx, h, s, vn, x)
            continue
        if fn.name in h.str.fns:
            # rebuilding the chain
            if not any(f[0] == "eq" and h.load_of(vn, f[1], PAR) == x and f[2] == ("c", 0) for f in facts if len(f) == 3):
                cx.bad("chain-loaded", s, "a saved chain may contain a coroutine twice: its resumer is set without checking that it has none", "loop")
            if not any(len(f) == 3 and f[0] == "ne" and (h.isroot(vn, f[1]) and strip(f[2]) == x or h.isroot(vn, f[2]) and strip(f[1]) == x) for f in facts):
                cx.bad("chain-loaded", s, "a saved chain may give the main program a resumer", "root")
            loaded(cx, h, s, vn, v, set())
            cx.ok("chain-loaded", sample=s.loc())
            continue
        cx.bad("switch-in", s, "a resumer link is set outside a switch to that coroutine", "stray-link")
    # callers of functions that clear the link of an argument
    for n, k in sorted(h.clears):
        for c in h.mod.callers.get(n, ()):
            if c.callee is None or k >= len(c.o): continue
            vn = cx.vn(c.fn.name); x = strip(vn.expr(c.o[k]))
            if x[0] == "a" and (c.fn.name, x[1]) in h.clears: continue
            clear_ok(cx, h, c, vn, x)
    for s in h.chain:
        fn = s.fn; vn = cx.vn(fn.name)
        loaded(cx, h, s, vn, strip(vn.expr(s.o[0])), set())
        roots_ = ends(cx, h, s, vn)
        if not roots_: cx.bad("chain-loaded", s, "a saved chain of active coroutines is accepted although it does not end at the main program", "open-end")
        cx.ok("chain-loaded", sample=s.loc())


def clear_ok(cx, h, at, vn, x):
    fn = at.fn
    if h.fresh(fn, x): cx.ok("link-clear", sample=at.loc()); return
    if h.isroot(vn, x): cx.ok("link-clear", sample=at.loc()); return     # the main program never has one
    # being switched out
    for s in h.stores[CUR]:
        if s.fn is fn and h.load_of(vn, vn.expr(s.o[0]), PAR) == x and h.iscur(vn, x):
            P = cx.paths(fn)
            root_end = lambda p, b: any(len(f) == 3 and f[0] == "eq" and f[2] == ("c", 0) and h.load_of(vn, f[1], PAR) == x for f in vn.edge_facts(p, b))
            if P.escape(at, lambda i: isret(i), stop=lambda i: i is s, stop_edge=root_end) is None or P.escape(None, lambda i: i is at, stop=lambda i: i is s) is None:
                cx.ok("link-clear", sample=at.loc()); return
    if x[0] == "a" and fn.name.startswith("nkx") and not h.mod.callers.get(fn.name): cx.ok("link-clear", sample=at.loc()); return    # a context of the host's own
    cx.bad("switch-out", at, "the resumer link of a coroutine is cleared while it may be active", "stray-clear")


def leaves(vn, e, seen):
    """non-null values a pointer may have, with the edge each comes over"""
    e = strip(e)
    if e in seen: return
    seen.add(e)
    if e[0] == "phi":
        d = vn.fn.insts[e[1]]
        for v, q in d.o:
            x = strip(vn.expr(v))
            if x == ("c", 0): continue
            if x[0] == "phi": yield from leaves(vn, x, seen)
            else: yield x, (q, d.blk)
    elif e[0] in ("sel", "select"):
        for x in e[2:]:
            if strip(x) != ("c", 0): yield from leaves(vn, x, seen)
    elif e != ("c", 0): yield e, None


def loaded(cx, h, s, vn, v, seen):
    """v is the main program or the data of a coroutine object, and is in the running state"""
    fn = vn.fn
    for x, edge in leaves(vn, v, set()):
        if h.isroot(vn, x): continue
        facts = list(vn.facts_on_edge(*edge)) if edge else list(vn.facts(s))
        if not has(facts, "ne", x, ("c", 0)): cx.bad("chain-loaded", s, "a coroutine object in a saved chain may have no context", "null")
        if not any(is_co(t) for t in h.ext.types(vn, x, facts)): cx.bad("chain-loaded", s, "the context of a saved chain entry is taken from an object not known to be a coroutine", "type")
    if v[0] == "phi":
        d = fn.insts[v[1]]
        merge = [v] + [y for y in chainphis(vn, v, set()) if y != v]
        for m in merge:
            md = fn.insts[m[1]]
            if any(vn.expr(o) == ("c", 0) and not vn.infeasible(q, md.blk) for o, q in md.o):
                for i in fn.all():
                    if i.op in ("load", "store") and strip(vn.addr(i.o[-1])[1]) == m and not has(vn.facts(i), "ne", m, ("c", 0)):
                        cx.bad("chain-loaded", i, "an entry of a saved chain that names no coroutine is followed", "missing"); break
            if any(strip(vn.expr(o))[0] != "phi" and strip(vn.expr(o)) != ("c", 0) for o, q in md.o):
                setst = lambda i: i.op == "store" and h.fld(vn, i.o[1]) == (m, ST) and vn.expr(i.o[0]) == ("c", h.RUN)
                run = lambda p, b: h.RUN in h.state(vn, vn.edge_facts(p, b), m)[0]
                if cx.paths(fn).escape(md, lambda i: i is s, stop=setst, stop_edge=run): cx.bad("chain-loaded", s, "an active coroutine loaded from a saved state is not made running", "state")


def chainphis(vn, e, seen):
    e = strip(e)
    if e[0] != "phi" or e in seen: return
    seen.add(e); yield e
    for v, q in vn.fn.insts[e[1]].o: yield from chainphis(vn, vn.expr(v), seen)


def is_co(t): return ("NKVM", "internalObjectTypes") in t


def ends(cx, h, s, vn):
    """the fact under which the chain is accepted is the one under which the main program is its last entry"""
    facts = [f for f in vn.facts(s) if len(f) == 3 and f[0] == "eq"]
    for st in h.stores[PAR]:
        if st.fn is not s.fn: continue
        for m in chainphis(vn, vn.expr(st.o[0]), set()):
            d = vn.fn.insts[m[1]]
            for v, q in d.o:
                if not h.isroot(vn, vn.expr(v)): continue
                g = list(vn.facts_on_edge(q, d.blk))
                for f in facts:
                    if any(same_cond(vn, f, x) for x in g): return True
                    if h.isroot(vn, f[1]) or h.isroot(vn, f[2]): return True
    return False


def same_cond(vn, f, g):
    if len(g) != 3 or g[0] != "eq" or g[2] != f[2]: return False
    if f[1] == g[1]: return True
    a, b = strip(f[1]), strip(g[1])
    return a[0] == b[0] == "L" and vn.addr(vn.fn.insts[a[1]].o[0]) == vn.addr(vn.fn.insts[b[1]].o[0])


# ---------------------------------------------------------------- states
def states(cx, h):
    for s in h.stores[ST]:
        fn = s.fn; vn = cx.vn(fn.name); x, _ = h.fld(vn, s.o[1]); v = strip(vn.expr(s.o[0])); facts = vn.facts(s)
        cx.ok("state-store", sample=s.loc())
        if v[0] != "c": cx.bad("state-store", s, "a coroutine gets a state that is computed", "computed"); continue
        v = v[1]
        if v == h.INV: continue
        if v == h.NEW:
            if not h.fresh(fn, x): cx.bad("state-store", s, "a coroutine that may have run already is put back to its start", "restart")
        elif v == h.RUN:
            if h.isroot(vn, x) or fn.name in h.build or fn.name in h.str.fns: continue
            eq, ne = h.state(vn, facts, x)
            if h.NEW not in eq: cx.bad("state-store", s, "a coroutine that was not just created is declared running", "revive")
        elif v == h.FIN:
            if not h.iscur(vn, x): cx.bad("state-store", s, "a coroutine other than the active one is declared finished", "finish-other")
        else: cx.bad("state-store", s, "unknown coroutine state", "unknown")


# ---------------------------------------------------------------- events
def events(cx, h, ins, outs):
    mod = h.mod
    # functions that net-switch in (argument index) or out
    infn, outfn = {}, {}
    def evs(fn):
        """in-events [(inst, context)], out-events [inst]"""
        vn = cx.vn(fn.name)
        a = list(ins.get(fn.name, [])); b = [s for s, w in outs.get(fn.name, [])]
        for i in fn.calls():
            if i.callee in infn:
                k = infn[i.callee]; a.append((i, strip(vn.expr(i.o[k]))))
            if i.callee in outfn: b.append(i)
        return a, b
    ch = True
    while ch:
        ch = False
        for n, fn in mod.fns.items():
            a, b = evs(fn)
            if not a and not b: continue
            P = cx.paths(fn); ids = {x.id for x in b}
            un = [(e, x) for e, x in a if P.escape(e, isret, stop=lambda i: i.id in ids)]
            if un and n not in infn and un[0][1][0] == "a":
                if all(x == un[0][1] for e, x in un): infn[n] = un[0][1][1]; ch = True
            aid = {e.id for e, x in a}
            if b and not a and n not in outfn and not any(i.op in ("store", "call") and loops_(fn, i) for i in b) and not terminal(cx, h, fn):
                outfn[n] = True; ch = True
    for n, fn in mod.fns.items():
        a, b = evs(fn)
        if not a and not b: continue
        vn = cx.vn(n); P = cx.paths(fn); ids = {x.id for x in b}
        for e, x in a:
            if P.escape(e, isret, stop=lambda i: i.id in ids) is None: visit(cx, h, fn, vn, e, x, ids); continue
            if x[0] == "a" and infn.get(n) == x[1]: continue        # obligation of the callers
            resume(cx, h, fn, vn, e, x)
        if not a and terminal(cx, h, fn): leave(cx, h, fn, vn, b)
        elif a:
            # leaving more often than entering
            aid = {e.id for e, x in a}
            for o in b:
                if P.escape(None, lambda i: i is o, stop=lambda i: i.id in aid): cx.bad("switch-out", o, "a coroutine is left that this function may not have entered", "unpaired")


def loops_(fn, i): return i.blk in {s for t in fn.succs[i.blk] for s in fn.reach_blocks(t)} and False


def terminal(cx, h, fn):
    """a place where script execution leaves a coroutine: an instruction handler, or a loop that abandons all of them"""
    hs = {l[0][0][1] for l in h.ops.handlers.values() if l and l[0][0][0] == "fn"}
    if fn.name in hs: return True
    for s in h.stores[CUR]:
        if s.fn is fn and fn.can_reach(s, s): return True
    return False


def visit(cx, h, fn, vn, e, x, outs):
    """entered and left again here: only to lay out the stack of a coroutine just created"""
    P = cx.paths(fn)
    if not h.fresh(fn, x): cx.bad("resume", e, "an existing coroutine is entered behind the script's back", "visit"); return
    cx.ok("create", sample=e.loc())
    hs = {l[0][0][1] for l in h.ops.handlers.values() if l and l[0][0][0] == "fn"}
    ip = lambda i: i.op == "store" and h.fld(vn, i.o[1]) and h.fld(vn, i.o[1])[1] == IP and vn.expr(i.o[0]) == ("c", -1) and \
        (h.fld(vn, i.o[1])[0] == x or h.iscur(vn, h.fld(vn, i.o[1])[0]) and fn.dominates(e, i))
    t = P.escape(None, lambda i: i.op == "call" and (i.callee in hs or i.callee is None) and fn.can_reach(e, i), stop=lambda i: ip(i))
    if t: cx.bad("finish", t, "the body of a new coroutine is called without the mark that makes its last return finish it", "no-mark")
    new = lambda i: i.op == "store" and h.fld(vn, i.o[1]) == (x, ST) and vn.expr(i.o[0]) == ("c", h.NEW)
    if not covered(cx, h, e, new): cx.bad("state-store", e, "a new coroutine is left without the state that lets it be resumed", "not-created")


def resume(cx, h, fn, vn, e, x):
    P = cx.paths(fn); facts = list(vn.facts(e))
    cx.ok("resume", sample=e.loc())
    if not any(is_co(t) for t in h.ext.types(vn, x, facts)):
        cx.bad("resume", e, "something is resumed that is not known to be a coroutine object", "type")
    if not has(facts, "ne", x, ("c", 0)): cx.bad("resume", e, "a coroutine without a context may be resumed", "null")
    eq, ne = h.state(vn, facts, x)
    ok = {h.INV, h.NEW, h.RUN, h.FIN} - ne
    if eq: ok &= eq
    if h.INV in ok: cx.bad("resume", e, "an invalidated coroutine may be resumed", "invalid")
    if h.FIN in ok: cx.bad("resume", e, "a finished coroutine may be resumed", "finished")
    # after the switch
    torun = lambda i: i.op == "store" and h.fld(vn, i.o[1]) and h.fld(vn, i.o[1])[1] == ST and (h.fld(vn, i.o[1])[0] == x or h.iscur(vn, h.fld(vn, i.o[1])[0])) and vn.expr(i.o[0]) == ("c", h.RUN)
    def edge(p, b, want):
        q, n = h.state(vn, vn.edge_facts(p, b), x)
        return want(q, n)
    P0 = h.NEW in h.state(vn, facts, x)[1]
    if not P0 and P.escape(e, isret, stop=torun, stop_edge=lambda p, b: edge(p, b, lambda q, n: h.NEW in n or q and h.NEW not in q)) and \
            P.escape(None, lambda i: i is e, stop=torun, stop_edge=lambda p, b: edge(p, b, lambda q, n: h.NEW in n or q and h.NEW not in q)):
        cx.bad("resume", e, "a coroutine resumed for the first time is not put into the running state", "stays-new")
    push = lambda i: i.op == "call" and i.callee in h.push
    if P.escape(e, isret, stop=push, stop_edge=lambda p, b: edge(p, b, lambda q, n: h.RUN in n or q and h.RUN not in q)) and \
            P.escape(e, isret, stop=lambda i: push(i) or torun(i), stop_edge=lambda p, b: edge(p, b, lambda q, n: h.RUN in n or q and h.RUN not in q)):
        cx.bad("resume", e, "a suspended coroutine is resumed without being handed the value its yield waits for", "no-value")
    for p in range(len(fn.blocks)):
        for b in fn.succs[p]:
            q, n = h.state(vn, vn.edge_facts(p, b), x)
            first = fn.blocks[b][0]
            if h.NEW in q and fn.dominates(e, first) and P.escape(first, push, inclusive=True):
                cx.bad("resume", e, "a coroutine that has not started is handed a value nothing waits for", "extra-value")
            if h.FIN in q and not fn.dominates(e, first):
                if P.escape(first, lambda i: i is e, inclusive=True): cx.bad("resume", e, "a finished coroutine may be resumed", "finished-path")
                if P.escape(first, isret, stop=push, inclusive=True): cx.bad("resume", first, "resuming a finished coroutine yields no value", "finished-none")
                nil = lambda i: i.op == "store" and h.mod.addr_field(fn, i.o[1]) == ("NKValue", "u") and vn.expr(i.o[0]) == ("c", h.NIL)
                if P.escape(first, isret, stop=nil, inclusive=True): cx.bad("resume", first, "resuming a finished coroutine yields something other than nil", "finished-value")
    # refusals are reported
    fine = lambda i: i is e or i.op == "call" and i.callee in h.errs or push(i)
    miss = lambda p, b: vn.infeasible(p, b) or any(len(f) == 3 and f[0] == "eq" and f[2] == ("c", 0) and strip(f[1])[0] == "call" for f in vn.edge_facts(p, b))
    r = P.escape(None, isret, stop=fine, stop_edge=miss)
    if r: cx.bad("resume", r, "a refused resume is not reported", "silent")


def leave(cx, h, fn, vn, outs):
    P = cx.paths(fn); ids = {o.id for o in outs}
    fins = [s for s in h.stores[ST] if s.fn is fn and vn.expr(s.o[0]) == ("c", h.FIN)]
    push = lambda i: i.op == "call" and i.callee in h.push
    if any(fn.can_reach(o, o) for o in outs):
        # abandoning every coroutine: each becomes invalid
        for o in outs:
            w = [w for s in h.stores[CUR] if s is o for w in [h.load_of(vn, vn.expr(s.o[0]), PAR)]]
            if not w: cx.bad("switch-out", o, "coroutines are left in a loop through another function", "loop"); continue
            inv = lambda i: i.op == "store" and h.fld(vn, i.o[1]) == (w[0], ST) and vn.expr(i.o[0]) == ("c", h.INV) or i.op == "call" and invalidates(cx, h, i, vn, w[0])
            if not covered_iter(cx, o, inv): cx.bad("switch-out", o, "an abandoned coroutine can still be resumed", "abandon")
        cx.ok("abandon", sample=fn.name)
        return
    if not fins:
        cx.ok("yield", sample=fn.name)
        fine = lambda i: i.id in ids or i.op == "call" and i.callee in h.errs
        r = P.escape(None, isret, stop=fine, stop_edge=vn.infeasible)
        if r: cx.bad("yield", r, "a yield neither leaves the coroutine nor reports an error", "silent")
        for o in outs:
            if P.escape(o, isret, stop=push): cx.bad("yield", o, "the resumer gets no value when the coroutine yields", "no-value")
            if P.escape(o, lambda i: i.id in ids): cx.bad("yield", o, "a yield leaves more than one coroutine", "twice")
        return
    cx.ok("finish", sample=fn.name)
    # the returned-to address: what the instruction pointer is otherwise set to
    addrs = set()
    for s in h.stores[IP]:
        if s.fn is fn:
            v = strip(vn.expr(s.o[0]))
            if v[0] != "c": addrs.add((v, s))
    for s in fins:
        if not any(has(vn.facts(s), "eq", a, ("c", -1)) for a, _ in addrs): cx.bad("finish", s, "a coroutine is declared finished although its body returns to a caller inside it", "early")
        if P.escape(s, isret, stop=lambda i: i.id in ids): cx.bad("finish", s, "a finished coroutine stays the active one", "stays")
    for a, s in addrs:
        if not has(vn.facts(s), "ne", a, ("c", -1)): cx.bad("finish", s, "execution may continue at the mark that ends a coroutine", "runs-mark")
    fid = {s.id for s in fins}
    for p in range(len(fn.blocks)):
        for b in fn.succs[p]:
            if any(has(vn.edge_facts(p, b), "eq", a, ("c", -1)) for a, _ in addrs):
                f = fn.blocks[b][0]
                if P.escape(f, isret, stop=lambda i: i.id in fid, inclusive=True): cx.bad("finish", f, "a coroutine whose body has returned is not declared finished", "not-finished")
                if P.escape(f, isret, stop=lambda i: i.id in ids, inclusive=True): cx.bad("finish", f, "a coroutine whose body has returned is not left", "not-left")
    for o in outs:
        if P.escape(None, lambda i: i is o, stop=lambda i: i.id in fid): cx.bad("finish", o, "a coroutine is left by a return without being declared finished", "left-unfinished")
        if P.escape(o, isret, stop=push): cx.bad("finish", o, "the resumer gets no value when the coroutine finishes", "no-value")


def covered_iter(cx, o, pred):
    """every cycle through o meets pred"""
    P = cx.paths(o.fn)
    return P.escape(None, lambda i: i is o, stop=pred) is None or P.escape(o, lambda i: i is o or isret(i), stop=pred) is None


def invalidates(cx, h, i, vn, x):
    for c in h.mod.cal(i):
        g = h.mod.fns.get(c)
        if g is None: continue
        for k, o in enumerate(i.o):
            if strip(vn.expr(o)) != x: continue
            gv = cx.vn(c)
            st = lambda j: j.op == "store" and h.fld(gv, j.o[1]) == (("a", k), ST) and gv.expr(j.o[0]) == ("c", h.INV)
            if cx.paths(g).escape(None, isret, stop=st) is None: return True
    return False


# ---------------------------------------------------------------- stacks that are gone
def dead(cx, h):
    """a context whose stack is destroyed is freed or made unresumable"""
    mod = h.mod
    D = {}                 # function -> argument whose stack it destroys
    ch = True
    def victims(fn):
        vn = cx.vn(fn.name)
        for i in fn.calls():
            for c in mod.cal(i):
                for k, o in enumerate(i.o):
                    a = vn.addr(o)
                    if c == "nkiVmStackDestroy" and a[2] and a[2][-1][:3] == ("f", "NKVMExecutionContext", "stack"):
                        yield i, strip(a[1] if len(a[2]) == 1 else ("gep", a[1], a[2][:-1]))
                    elif D.get(c) == k and c in mod.fns: yield i, strip(vn.expr(o))
    if "nkiVmStackDestroy" not in mod.fns: raise Broken("stack destruction not found")
    while ch:
        ch = False
        for n, fn in mod.fns.items():
            for i, x in victims(fn):
                if x[0] == "a" and n not in D: D[n] = x[1]; ch = True
    for n, fn in mod.fns.items():
        vn = cx.vn(n); P = cx.paths(fn)
        for i, x in victims(fn):
            cx.ok("stack-destroyed", sample=i.loc())
            if x[0] == "a" and D.get(n) == x[1] and not any(fn.can_reach(i, j) and gone(cx, h, j, vn, x) for j in fn.all()): continue
            if h.isroot(vn, x) and n in h.td: continue
            if P.escape(i, isret, stop=lambda j: gone(cx, h, j, vn, x)): cx.bad("stack-destroyed", i, "a coroutine's stack is destroyed but the coroutine can still be resumed", "alive")


def gone(cx, h, j, vn, x):
    if j.op == "store": return h.fld(vn, j.o[1]) == (x, ST) and vn.expr(j.o[0]) == ("c", h.INV)
    if j.op == "call":
        if any(strip(vn.expr(o)) == x for o in h.own.freed_operands(j)): return True
        return invalidates(cx, h, j, vn, x)
    return False


# ---------------------------------------------------------------- saved states
def unknown(cx, h):
    """a state read from a saved state is one of the known ones"""
    for i in h.str.direct:
        fn = i.fn; vn = cx.vn(fn.name)
        for o in i.o:
            f = h.fld(vn, o) if o[0] == "i" else None
            if not f or f[1] != ST: continue
            cx.ok("state-loaded", sample=i.loc())
            P = cx.paths(fn)
            def okedge(p, b):
                for g in vn.edge_facts(p, b):
                    if len(g) != 3: continue
                    if g[0] in ("ule", "ult") and h.load_of(vn, g[1], ST) == f[0] and g[2][0] == "c" and g[2][1] + (g[0] == "ule") <= h.FIN + 1: return True
                    if g[0] == "eq" and h.load_of(vn, g[1], ST) == f[0] and g[2][0] == "c" and 0 <= g[2][1] <= h.FIN: return True
                    if g[0] == "eq" and strip(g[1]) == ("call", i.id) and g[2] == ("c", 0): return True
                    if g[0] == "ne" and g[1][0] == "a" and fn.name in h.str.fns and strip(g[2]) == ("c", 0) and not str(g[1]).startswith("x"):
                        return True     # saving
                return False
            def failed(j): return j.op == "call" and j.callee in h.errs
            if P.escape(i, isret, stop=failed, stop_edge=okedge): cx.bad("state-loaded", i, "any number read from a saved state becomes a coroutine's state", "unchecked")
