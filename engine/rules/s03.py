"""S03: a saved state covers the whole script-visible state, and loading mirrors saving."""
from nk.core import Broken
from nk.own import ALLOC_PRIMS, REALLOC
from nk.stream import Stream
from nk.vn import strip
from rules.v07 import fields
from rules.v08 import errors

META = {"level": "other", "technique": "protocol extraction: the sequence of stream items of each serializer as a finite automaton, projected on saving and on loading, compared for equality after determinization, with member annotations by value flow; coverage and exclusion lists of state members",
        "note": "Automata abstract from how often a loop runs; counts are covered by the rule that a repeated group is preceded by its count. Data of host types and subsystems is the host's callbacks' business.",
        "explains": "For every function that handles saved states the possible item sequences when saving and when loading are computed on the control-flow graph with calls expanded, failing paths removed. Both must be the same regular language over item sizes, and items at the same place must come from and go to the same member. Each member of the machine that scripts can observe must be such an item; host settings must not be."}

# what a script can observe of a machine, directly or through what the program does later
REQUIRED = [("NKInstruction", None), ("NKVM", "instructions"), ("NKVM", "instructionAddressMask"), ("NKVM", "staticSpace"), ("NKVM", "staticAddressMask"),
            ("NKVMExecutionContext", "instructionPointer"), ("NKVMExecutionContext", "coroutineState"), ("NKVMExecutionContext", "coroutineObject"),
            ("NKVMStack", "values"), ("NKVMStack", "size"), ("NKVMStack", "capacity"),
            ("NKVMObject", "objectTableIndex"), ("NKVMObject", "size"), ("NKVMObject", "externalHandleCount"), ("NKVMObject", "lastGCPass"), ("NKVMObject", "externalDataType"),
            ("NKVMObjectElement", "key"), ("NKVMObjectElement", "value"),
            ("NKVMString", "str"), ("NKVMString", "stringTableIndex"), ("NKVMString", "lastGCPass"), ("NKVMString", "dontGC"),
            ("NKVMTable", "capacity"),
            ("NKVM", "functionCount"), ("NKVMFunction", "argumentCount"), ("NKVMFunction", "firstInstructionIndex"), ("NKVMFunction", "externalFunctionId"),
            ("NKVMExternalFunction", "name"), ("NKVMExternalFunction", "internalFunctionId"), ("NKVM", "externalFunctionCount"),
            ("NKVM", "globalVariableCount"), ("NKGlobalVariableRecord", "name"), ("NKGlobalVariableRecord", "staticPosition"),
            ("NKVMExternalType", "name"), ("NKVM", "externalTypeCount"), ("NKVMExternalSubsystemData", "name"),
            ("NKVM", "sourceFileCount"), ("NKVM", "sourceFileList"), ("NKVM", "positionMarkerCount"), ("NKVM", "positionMarkerList"),
            ("NKError", "errorText"),
            ("NKGarbageCollectionInfo", "lastGCPass"), ("NKGarbageCollectionInfo", "gcInterval"), ("NKGarbageCollectionInfo", "gcCountdown"),
            ("NKGarbageCollectionInfo", "gcNewObjectInterval"), ("NKGarbageCollectionInfo", "gcNewObjectCountdown")]
# saved so that the loader can match it with what the host registered, not restored
MATCHED = {("NKVMExecutionContext", "coroutineObject"), ("NKVMExternalSubsystemData", "name"), ("NKVMExternalType", "name"), ("NKVM", "externalTypeCount"), ("NKVM", "externalFunctionCount")}
# the host's own settings
FORBIDDEN = [("NKVM", "limits"), ("NKVM", "userData"), ("NKVM", "mallocReplacement"), ("NKVM", "freeReplacement"), ("NKVM", "mallocAndFreeReplacementUserData"),
             ("NKVM", "instructionsLeftBeforeTimeout"), ("NKVM", "catastrophicFailureJmpBuf"), ("NKVM", "currentMemoryUsage"), ("NKVM", "peakMemoryUsage"),
             ("NKVMExternalFunction", "CFunctionCallback"), ("NKVMExternalType", "serializationCallback"), ("NKVMExternalType", "cleanupCallback"), ("NKVMExternalType", "gcMarkCallback"),
             ("NKVMExternalSubsystemData", "serializationCallback"), ("NKVMExternalSubsystemData", "cleanupCallback"), ("NKVMExternalSubsystemData", "data"),
             ("NKVMObject", "externalData"), ("NKVMExternalFunction", "argTypes"), ("NKVMExternalFunction", "argExternalTypes"), ("NKVMExternalFunction", "argumentCount")]


def overlap(a, b):
    n = min(len(a), len(b))
    return a[:n] == b[:n]


def copies(i): return (i.callee or "").startswith(("llvm.memcpy", "llvm.memmove")) or i.callee in ("nkiMemcpy", "memcpy", "memmove")


class S:
    def __init__(self, cx):
        self.cx, self.mod = cx, cx.mod
        self.st = Stream(cx)
        self.direct = {(i.fn.name, i.id) for i in self.st.direct}
        self.cbs = {(i.fn.name, i.id) for i in self.st.callbacks}
        self.errs = errors(cx)
        self.memo0 = {}
        self.w = True
        self.mallocs = set(ALLOC_PRIMS) | set(REALLOC)
        self.fns = set(self.st.fns) | {i.fn.name for i in self.st.callbacks}
        ch = True
        while ch:
            ch = False
            for n in list(self.fns):
                for c in self.mod.callers.get(n, ()):
                    if c.callee is not None and c.fn.name not in self.fns: self.fns.add(c.fn.name); ch = True
        self.cbfns = (self.fns & self.mod.addr_taken)
        self.mode = self.modes()
        self.memo = {}
        self.fmemo = {}

    def ismodefield(self, vn, e):
        e = strip(e)
        if e[0] != "L": return False
        fs = tuple((s[1], s[2]) for s in vn.addr(vn.fn.insts[e[1]].o[0])[2] if s[0] == "f")
        return fs in self.modefields()

    def modefields(self):
        """members of the machine that the stream's mode argument is taken from"""
        if "mf" not in self.memo0:
            r = set()
            for i in self.st.direct:
                vn = self.cx.vn(i.fn.name); e = strip(vn.expr(i.o[3]))
                if e[0] == "L":
                    fs = tuple((s[1], s[2]) for s in vn.addr(i.fn.insts[e[1]].o[0])[2] if s[0] == "f")
                    if fs and fs[0][0] == "NKVM": r.add(fs)
            self.memo0["mf"] = r
        return self.memo0["mf"]

    def runs(self, fn, vn, q, b, w):
        """the edge q to b can be taken in this direction"""
        k = ("run", fn.name, w)
        if k not in self.memo0:
            seen = {0}; st = [0]
            while st:
                x = st.pop()
                for y in fn.succs[x]:
                    if y not in seen and self.edge_ok(fn, vn, x, y, w): seen.add(y); st.append(y)
            self.memo0[k] = seen
        return q in self.memo0[k] and self.edge_ok(fn, vn, q, b, w)

    def nonnull(self, vn, e):
        e = strip(e)
        if e[0] != "L": return False
        fs = [(s[1], s[2]) for s in vn.addr(vn.fn.insts[e[1]].o[0])[2] if s[0] == "f"]
        return fs[-1:] == [("NKVM", "currentExecutionContext")]       # there is always a running context

    def fails_null(self, name):
        """a lookup whose empty answer is an error it has reported itself"""
        k = ("fn", name)
        if k not in self.memo0:
            self.memo0[k] = False; fn = self.mod.fns.get(name)
            if fn is not None and fn.ret == "ptr":
                self.memo0[k] = any(i.callee in self.errs or self.fails_null(i.callee or "") for i in fn.calls())
        return self.memo0[k]

    def modes(self):
        """function -> parameter that says whether to save, or 0/1 when it only does one, or None when it asks the machine"""
        r = {}; ch = True
        for n in self.fns: r[n] = "?"
        while ch:
            ch = False
            for n in self.fns:
                fn = self.mod.fns[n]; vn = self.cx.vn(n); m = set()
                for i in fn.calls():
                    e = None
                    if (n, i.id) in self.direct: e = strip(vn.expr(i.o[3]))
                    elif i.callee in self.fns:
                        k = r[i.callee]
                        if isinstance(k, tuple): e = strip(vn.expr(i.o[k[1]]))
                        continue_ = k
                    if e is None: continue
                    if e[0] == "a": m.add(("p", e[1]))
                    elif e[0] == "c": m.add(e[1])
                    elif self.ismodefield(vn, e): m.add(None)
                new = r[n]
                ps = [x for x in m if isinstance(x, tuple)]
                if ps: new = ps[0]
                elif m: new = sorted(m, key=str)[0] if len(m) == 1 else None
                if new != r[n]: r[n] = new; ch = True
        return r

    # ------------------------------------------------------------ automaton of one function in one mode
    def edge_ok(self, fn, vn, p, b, w):
        if vn.infeasible(p, b): return False
        mp = self.mode.get(fn.name)
        for f in vn.edge_facts(p, b):
            if len(f) != 3 or f[2] != ("c", 0): continue
            e = strip(f[1])
            if isinstance(mp, tuple) and e == ("a", mp[1]) or self.ismodefield(vn, e):
                if f[0] == "eq" and w or f[0] == "ne" and not w: return False
            if f[0] == "eq" and e[0] == "call":
                c = fn.insts[e[1]]
                if (fn.name, c.id) in self.direct or c.callee in self.fns or self.fails_null(c.callee or ""): return False      # failed
            if f[0] == "eq" and self.nonnull(vn, e): return False
        return True

    def build(self, name, w, stack=()):
        """-> (start, accept set, transitions {state: [(label or None, state)]})"""
        fn = self.mod.fns[name]; vn = self.cx.vn(name)
        T = {}
        key = (name, w) + stack
        def st(b, k): return key + (b, k)
        acc = set()
        for b in range(len(fn.blocks)):
            if b not in fn.live: continue
            cur = st(b, 0); k = 0; dead = False
            for i in fn.blocks[b]:
                if i.op == "call":
                    if (name, i.id) in self.direct:
                        m = strip(vn.expr(i.o[3]))
                        if m[0] == "c" and bool(m[1]) != bool(w): dead = True; break
                        k += 1; nx = st(b, k)
                        T.setdefault(cur, []).append(((self.size(vn, i), i, stack), nx)); cur = nx
                    elif (name, i.id) in self.cbs:
                        k += 1; nx = st(b, k)
                        T.setdefault(cur, []).append((("callback", i, stack), nx)); cur = nx
                    elif i.callee in self.fns:
                        cm = self.mode[i.callee]; w2 = w
                        if isinstance(cm, tuple):
                            e = strip(vn.expr(i.o[cm[1]]))
                            if e[0] == "c": w2 = bool(e[1])
                        elif cm in (0, 1): w2 = bool(cm)
                        if bool(w2) != bool(w): dead = True; break
                        if len(stack) > 8 or any(s[0] == i.callee for s in stack): raise Broken("serializers call each other in a circle")
                        s0, ac, T2 = self.build(i.callee, w, stack + ((i.callee, i.id, name),))
                        for q, l in T2.items(): T.setdefault(q, []).extend(l)
                        k += 1; nx = st(b, k)
                        T.setdefault(cur, []).append((None, s0))
                        for a in ac: T.setdefault(a, []).append((None, nx))
                        cur = nx
                    elif i.callee in self.errs: dead = True; break
                elif i.op == "ret":
                    v = i.o[0] if i.o else None
                    if fn.ret == "void" or v is None: acc.add(cur)
                    else:
                        d = fn.idef(v)
                        while d is not None and d.op in ("zext", "trunc"): d = fn.idef(d.o[0]); 
                        if v[0] == "c":
                            if v[1]: acc.add(cur)
                        elif d is not None and d.op == "phi" and d.blk == b: pass        # judged on the edges
                        else: acc.add(cur)
                elif i.op == "unreachable": dead = True
            if dead: continue
            t = fn.blocks[b][-1]
            for s in dict.fromkeys(fn.succs[b]):
                if not self.edge_ok(fn, vn, b, s, w): continue
                # entering a block that returns a phi: the value on this edge says whether it succeeded
                r = fn.blocks[s][-1]
                if r.op == "ret" and r.o and fn.ret != "void":
                    d = fn.idef(r.o[0])
                    if d is not None and d.op == "phi" and d.blk == s:
                        val = [v for v, q in d.o if q == b][0]
                        if val[0] == "c" and not val[1]: continue
                        end = st(s, "end%d" % b); acc.add(end)
                        T.setdefault(cur, []).append((None, end)); continue
                t2 = self.through(fn, vn, b, s)
                if t2 is not None: T.setdefault(cur, []).append((None, st(t2, 0))); continue
                T.setdefault(cur, []).append((None, st(s, 0)))
        return st(0, 0), acc, T

    def through(self, fn, vn, p, b):
        """entering b from p a test of a merged pointer there has only one way out"""
        t = fn.blocks[b][-1]
        if len(set(fn.succs[b])) != 2 or any(i.op in ("call", "store") for i in fn.blocks[b]): return None
        for x in set(fn.succs[b]):
            for f in vn.edge_facts(b, x):
                if f[0] == "eq" and len(f) == 3 and f[2] == ("c", 0) and f[1][0] == "phi" and fn.insts[f[1][1]].blk == b:
                    v = [v for v, q in fn.insts[f[1][1]].o if q == p]
                    if v and self.nonnull(vn, vn.expr(v[0])): return [y for y in set(fn.succs[b]) if y != x][0]
        return None

    def size(self, vn, i):
        e = strip(vn.expr(i.o[1]))
        while e[0] in ("trunc", "zext"): e = e[1]
        if e[0] == "c": return e[1]
        return "variable"

    # ------------------------------------------------------------ where items come from and go to
    def src(self, i):
        """members an item written at i comes from"""
        k = ("s", i.fn.name, i.id)
        if k not in self.fmemo: self.w = True; self.fmemo[k] = self._src(i.fn, i.o[0])
        return self.fmemo[k]

    def _src(self, fn, op):
        vn = self.cx.vn(fn.name); a = vn.addr(op)
        fs = {(s[1], s[2]) for s in a[2] if s[0] == "f"}
        if a[1][0] in ("L", "phi"): fs |= self.prov(vn, a[1])
        if a[1][0] == "al":
            fs |= {x for x in self.ptrflow(fn, a[1], 0) if x[0] == "index"}
            for j in fn.all():
                if j.op == "store" and vn.addr(j.o[1])[1] == a[1]: fs |= self.vsrc(vn, vn.expr(j.o[0]), set()) | self.indexes(fn, j.o[0])
                elif j.op == "call" and copies(j) and vn.addr(j.o[0])[1] == a[1]:
                    fs |= set(list(fields(vn, vn.addr(j.o[1]))))
        return fs

    def prov(self, vn, e, seen=None, w=None):
        """members a pointer was read from"""
        seen = set() if seen is None else seen; e = strip(e)
        if w is None: w = self.w
        if e in seen: return set()
        seen.add(e)
        if e[0] == "L": return set(list(fields(vn, e))[:1])
        if e[0] == "phi":
            r = set()
            for v, q in vn.fn.insts[e[1]].o:
                if self.runs(vn.fn, vn, q, vn.fn.insts[e[1]].blk, w): r |= self.prov(vn, vn.expr(v), seen, w)
            return r
        if e[0] == "gep": return {(s[1], s[2]) for s in e[2] if s[0] == "f"} or self.prov(vn, e[1], seen)
        if e[0] == "call": return self.ptrstored(vn.fn, e) | self.retfields(vn.fn.insts[e[1]].callee or "", 0)
        return set()

    def indexes(self, fn, op):
        """tables a value is used as an index into"""
        r = set()
        if op[0] != "i": return r
        vn = self.cx.vn(fn.name); e = strip(vn.expr(op))
        for i in fn.all():
            if i.op == "getelementptr" and any(o[0] == "i" and strip(vn.expr(o)) == e for o in i.o[1:]):
                fs = list(fields(vn, vn.addr(["i", i.id])))
                if fs: r.add(("index", fs[0][0] + "." + fs[0][1]))
        return r

    def vsrc(self, vn, e, seen):
        e = strip(e)
        if e in seen: return set()
        seen.add(e)
        if e[0] == "L":
            a = vn.addr(vn.fn.insts[e[1]].o[0])
            return set(list(fields(vn, a))[:3]) or (self.prov(vn, a[1]) if a[1][0] in ("L", "phi") else set())
        if e[0] == "gep": return {(s[1], s[2]) for s in e[2] if s[0] == "f"}
        if e[0] == "phi":
            r = set()
            for v, q in vn.fn.insts[e[1]].o: r |= self.vsrc(vn, vn.expr(v), seen)
            return r
        if e[0] in ("add", "sub", "and", "or", "zext", "trunc", "select"):
            r = set()
            for x in e[1:]:
                if isinstance(x, tuple): r |= self.vsrc(vn, x, seen)
            return r
        return set()

    def dst(self, i):
        k = ("d", i.fn.name, i.id)
        if k not in self.fmemo: self.w = False; self.fmemo[k] = self._dst(i.fn, i.o[0], i)
        return self.fmemo[k]

    def kept(self, i):
        """members an item loaded at i ends up in, not counting a local copy it is first read into"""
        k = ("k", i.fn.name, i.id)
        if k not in self.fmemo:
            self.w = False; a = self.cx.vn(i.fn.name).addr(i.o[0])
            self.fmemo[k] = self.ptrflow(i.fn, a[1], 0, i, a[2]) if a[1][0] == "al" else self.dst(i)
        return self.fmemo[k]

    def _dst(self, fn, op, i):
        vn = self.cx.vn(fn.name); a = vn.addr(op)
        fs = {(s[1], s[2]) for s in a[2] if s[0] == "f"}
        if a[1][0] == "L": fs |= set(list(fields(vn, a[1]))[:1])
        if a[1][0] == "call": fs |= self.retfields(fn.insts[a[1][1]].callee, 0)
        if a[1][0] == "call" and not fs: fs |= self.ptrstored(fn, a[1])
        if a[1][0] == "phi":
            for v, q in fn.insts[a[1][1]].o:
                x = strip(vn.expr(v))
                if x[0] == "call": fs |= self.ptrstored(fn, x)
        if a[1][0] == "al": fs |= self.ptrflow(fn, ("al", a[1][1]), 0, i)
        return fs

    def ptrstored(self, fn, e):
        """members a pointer value is stored into"""
        vn = self.cx.vn(fn.name); r = set()
        for j in fn.all():
            if j.op == "store" and strip(vn.expr(j.o[0])) == e: r |= {(s[1], s[2]) for s in vn.addr(j.o[1])[2] if s[0] == "f"}
            if j.op == "store" and strip(vn.expr(j.o[0]))[0] == "phi" and any(strip(vn.expr(v)) == e for v, q in fn.insts[strip(vn.expr(j.o[0]))[1]].o):
                r |= {(s[1], s[2]) for s in vn.addr(j.o[1])[2] if s[0] == "f"}
        return r

    def retfields(self, name, depth):
        fn = self.mod.fns.get(name)
        if fn is None or depth > 4: return set()
        vn = self.cx.vn(name); r = set()
        def go(e, seen):
            e = strip(e)
            if e in seen: return
            seen.add(e)
            if e[0] == "phi":
                for v, q in fn.insts[e[1]].o: go(vn.expr(v), seen)
            elif e[0] == "gep" and e[2] and e[2][-1][0] == "f": r.add((e[2][-1][1], e[2][-1][2]))
            elif e[0] == "call": r.update(self.retfields(fn.insts[e[1]].callee or "", depth + 1))
        for x in fn.exits():
            if x.o: go(vn.expr(x.o[0]), set())
        return r

    def ptrflow(self, fn, base, depth, item=None, path=()):
        """members that get what the memory at a local or pointer parameter holds"""
        key = (fn.name, base, path, "pf")
        if key in self.fmemo: return self.fmemo[key]
        self.fmemo[key] = set()
        vn = self.cx.vn(fn.name); r = set()
        if depth > 5: return r
        for j in fn.all():
            if j.op == "load" and vn.addr(j.o[0])[1] == base and overlap(vn.addr(j.o[0])[2], path): r |= self.valflow(fn, ["i", j.id], depth)
            elif j.op == "call" and j is not item:
                c = j.callee or ""
                for k, o in enumerate(j.o):
                    x = vn.addr(o)
                    if x[1] != base or o[0] not in ("i", "a") or not overlap(x[2], path): continue
                    if copies(j):
                        if k == 1:
                            d = vn.addr(j.o[0])
                            r |= {(s[1], s[2]) for s in d[2] if s[0] == "f"}
                            if d[1][0] == "al" and d[1] != base: r |= self.ptrflow(fn, d[1], depth + 1)
                            if d[1][0] == "L": r |= set(list(fields(vn, d[1]))[:1])
                    elif c in self.mod.fns and (fn.name, j.id) not in self.direct: r |= self.ptrflow(self.mod.fns[c], ("a", k), depth + 1)
        self.fmemo[key] = r
        return r

    def valflow(self, fn, op, depth):
        vn = self.cx.vn(fn.name); r = set()
        if depth > 6 or fn.name in self.mallocs: return r
        key = (fn.name, tuple(op[:2]), "vf")
        if key in self.fmemo: return self.fmemo[key]
        self.fmemo[key] = set()
        done = set(); work = [op]
        us = {}
        for i in fn.all():
            for o in fn.operands(i):
                if o[0] in ("i", "a"): us.setdefault(tuple(o[:2]), []).append(i)
        while work:
            o = work.pop()
            if tuple(o[:2]) in done: continue
            done.add(tuple(o[:2]))
            for u in us.get(tuple(o[:2]), ()):
                if u.op == "store" and u.o[0][:2] == o[:2]:
                    d = vn.addr(u.o[1])
                    r |= {(s[1], s[2]) for s in d[2] if s[0] == "f"}
                    if d[1][0] == "al": r |= self.ptrflow(fn, d[1], depth + 1)
                    if d[1][0] in ("L", "phi", "call") and not any(s[0] == "f" for s in d[2]): r |= self.prov(vn, d[1])
                elif u.op in ("zext", "trunc", "phi", "select", "add", "sub", "and", "or"): work.append(["i", u.id])
                elif u.op == "getelementptr" and u.o[0][:2] != o[:2]:
                    # an index: the slot's own number
                    fs = list(fields(vn, vn.addr(["i", u.id])))
                    if fs: r.add(("index", fs[0][0] + "." + fs[0][1]))
                elif u.op == "call" and copies(u):
                    if u.o[1][:2] == o[:2]: r |= {(s[1], s[2]) for s in vn.addr(u.o[0])[2] if s[0] == "f"}
                elif u.op == "call":
                    for k, x in enumerate(u.o):
                        if x[:2] == o[:2] and u.callee in self.mod.fns: r |= self.valflow(self.mod.fns[u.callee], ["a", k], depth + 1)
                elif u.op == "call" or u.op == "load": pass
        self.fmemo[key] = r
        return r


ALIAS = {("NKVMObject", "objectTableIndex"): {("index", "NKVMTable.u"), ("index", "NKVM.objectTable"), ("NKVMObject", "objectTableIndex")},
         ("NKVMString", "stringTableIndex"): {("index", "NKVMTable.u"), ("index", "NKVM.stringTable"), ("NKVMString", "stringTableIndex")}}
LOOSE = {"NKValue", "NKVMExternalDataTypeID", "NKVMExternalFunctionID", "NKVMInternalFunctionID", "NKVMTable"}


def norm(fs):
    return {f for f in fs if f[0] not in LOOSE and f[0] != "index" and f not in STRUCTURAL}


STRUCTURAL = {("NKVM", "rootExecutionContext"), ("NKVM", "currentExecutionContext"), ("NKVM", "gcInfo"), ("NKVM", "errorState"), ("NKVM", "stringTable"), ("NKVM", "objectTable"), ("NKVMExecutionContext", "stack"),
              ("NKVM", "functionTable"), ("NKVM", "externalFunctionTable"), ("NKVM", "globalVariables"), ("NKVM", "externalTypes"), ("NKVM", "subsystemDataTable")}


def check(cx, tier):
    s = S(cx)
    roots = [n for n in s.fns if n.startswith("nkx") and isinstance(s.mode[n], tuple)]
    if not roots: raise Broken("no public save/load entry")
    pairs = {}
    bad = symmetric(cx, s, pairs)
    counts(cx, s)
    selection(cx, s)
    coverage(cx, s, pairs)
    excluded(cx, s)
    cx.need("mirror", 12); cx.need("item", 40); cx.need("covered", 35); cx.need("repeat", 10)


# ---------------------------------------------------------------- mirroring
def closure(T, S0):
    st = list(S0); seen = set(S0)
    while st:
        q = st.pop()
        for l, t in T.get(q, ()):
            if l is None and t not in seen: seen.add(t); st.append(t)
    return frozenset(seen)


def symmetric(cx, s, pairs):
    order = sorted(s.fns, key=lambda n: depth(s, n))
    broken = set()
    for n in order:
        if not (isinstance(s.mode[n], tuple) or s.mode[n] is None): continue
        if n not in s.st.fns and n not in {x for x, _ in s.cbs}: continue
        fn = s.mod.fns[n]
        if n.startswith("nkx") and s.mode[n] is None: continue        # the host's own items
        below = {c for i in fn.calls() if i.callee in broken for c in [i.callee]}
        if below: broken.add(n); continue
        try: A = s.build(n, True); B = s.build(n, False)
        except RecursionError: raise Broken("serializers too deep")
        cx.ok("mirror", sample=n)
        w = compare(cx, s, n, A, B, pairs)
        if w: broken.add(n)
    return broken


def depth(s, n, seen=()):
    if n in seen: return 0
    return 1 + max([depth(s, i.callee, seen + (n,)) for i in s.mod.fns[n].calls() if i.callee in s.fns] or [0])


def compare(cx, s, n, A, B, pairs):
    (sa, fa, TA), (sb, fb, TB) = A, B
    start = (closure(TA, [sa]), closure(TB, [sb]))
    seen = {start}; work = [start]; broken = False
    while work:
        X, Y = work.pop(0)
        la, lb = {}, {}
        for T, Q, L in ((TA, X, la), (TB, Y, lb)):
            for q in Q:
                for l, t in T.get(q, ()):
                    if l is not None: L.setdefault(l[0], []).append((l[1], l[2], t))
        ea, eb = bool(X & fa), bool(Y & fb)
        for k in sorted(set(la) | set(lb), key=str):
            if k in la and k in lb: continue
            L = la.get(k) or lb.get(k)
            i = L[0][0]
            at = site(s, n, L[0])
            other = sorted((lb if k in la else la), key=str)
            cx.bad("mirror", at, "when %s, %s handles an item of %s bytes (%s) here, but when %s %s" % (
                "saving" if k in la else "loading", n, k, names(s, i, k in la), "loading" if k in la else "saving",
                "the next one has %s bytes" % " or ".join(map(str, other)) if other else "nothing follows"), "%s-%s" % (n, "save" if k in la else "load"))
            broken = True
        if ea != eb and not broken:
            cx.bad("mirror", s.mod.fns[n].exits()[0], "%s can end here when %s while more items follow when %s" % (n, "saving" if ea else "loading", "loading" if ea else "saving"), n + "-end"); broken = True
        for k in set(la) & set(lb):
            ws, rs = la[k], lb[k]
            if k != "callback":
                for i, stk, _ in ws: cx.ok("item", 1 if not stk else 0, sample=i.loc())
                for i, sk, _ in ws:
                    a = norm(s.src(i))
                    ms = [(j, norm(s.dst(j))) for j, _, _ in rs]
                    for j, b in ms:
                        pairs.setdefault((i.fn.name, i.id), set()).add((j.fn.name, j.id))
                    if a and all(b and not (a & b) and i.id != j.id for j, b in ms):
                        cx.bad("mirror", site(s, n, (i, sk, None)), "saves %s where loading expects %s" % (show(a), " or ".join(show(b) for _, b in ms)), "member-" + show(a)); broken = True
                for j, sk, _ in rs:
                    b = norm(s.dst(j))
                    ms = [norm(s.src(i)) for i, _, _ in ws]
                    if b and all(a and not (a & b) for a in ms) and not any(i.id == j.id for i, _, _ in ws):
                        cx.bad("mirror", site(s, n, (j, sk, None)), "loads %s where saving wrote %s" % (show(b), " or ".join(show(a) for a in ms)), "member-" + show(b)); broken = True
            nx = (closure(TA, [t for _, _, t in ws]), closure(TB, [t for _, _, t in rs]))
            if nx not in seen:
                seen.add(nx); work.append(nx)
                if len(seen) > 4000: raise Broken("protocol of %s too large" % n)
        if broken: break
    return broken


def site(s, n, l):
    """the call in function n that the item belongs to"""
    i, stk, _ = l
    if stk:
        c, cid, caller = stk[0]
        return s.mod.fns[caller].insts[cid]
    return i


def names(s, i, w):
    f = norm(s.src(i) if w else s.dst(i))
    return show(f) if f else "local"


def show(fs): return "/".join(sorted("%s.%s" % f for f in fs))


# ---------------------------------------------------------------- repetition
def counts(cx, s):
    """a group of items repeated under a numeric bound is preceded by an item carrying that bound"""
    from nk.loops import loops, exit_edges
    for n in sorted(s.fns):
        fn = s.mod.fns[n]; vn = cx.vn(n)
        if n.startswith("nkx"): continue
        items = [i for i in fn.calls() if (n, i.id) in s.direct]
        for h, body in loops(fn):
            whole(cx, s, fn, vn, h, body, n)
            inner = [i for i in fn.calls() if i.blk in body and ((n, i.id) in s.direct or i.callee in s.fns)]
            if not inner: continue
            for p, b in exit_edges(fn, body):
                # the test that ends the repetition
                for f in vn.edge_facts(p, b):
                    if len(f) != 3 or f[0] not in ("ule", "eq", "ult"): continue
                    for x, y in ((f[1], f[2]), (f[2], f[1])):
                        if not steps(vn, fn, h, x): continue
                        al = alternatives(vn, fn, h, y)
                        if len({vn.addr(fn.insts[e[1]].o[0]) for e in al}) > 1: cx.bad("repeat", fn.blocks[p][-1], "the number of items repeated here depends on more than what was saved for it", "bounds-" + n)
                        for e in al:
                            cx.ok("repeat", sample=fn.blocks[p][-1].loc())
                            a = vn.addr(fn.insts[e[1]].o[0])
                            if counted(cx, s, fn, vn, items, h, body, e, a): continue
                            cx.bad("repeat", fn.blocks[p][-1], "items are repeated up to a number that was not itself saved before them", "count-%s" % show({(z[1], z[2]) for z in a[2] if z[0] == "f"}))


def whole(cx, s, fn, vn, h, body, n):
    """a loop over elements that are saved or loaded starts with the first one"""
    if not any(i.blk in body and ((n, i.id) in s.direct or i.callee in s.fns or (n, i.id) in s.cbs) for i in fn.calls()): return
    for i in fn.blocks[h]:
        if i.op != "phi": continue
        ini = [v for v, q in i.o if q not in body]; nxt = [v for v, q in i.o if q in body]
        tested = any(strip(y) == ("phi", i.id) for p in body for x in set(fn.succs[p]) for f in vn.edge_facts(p, x) if len(f) == 3 for y in f[1:])
        if not tested: continue
        cx.ok("whole", sample=fn.blocks[h][0].loc())
        for v in ini:
            e = strip(vn.expr(v))
            if e[0] == "c":
                up = any(strip(vn.expr(x))[0] == "add" and ("c", 1) in strip(vn.expr(x)) for x in nxt)
                if up and e[1] != 0: cx.bad("whole", fn.blocks[h][-1], "this loop over elements starts with number %s" % e[1], "start-" + n)
            elif e[0] == "L":
                last = [(z[1], z[2]) for z in vn.addr(fn.insts[e[1]].o[0])[2] if z[0] == "f"][-1:]
                for x in nxt:
                    y = strip(vn.expr(x))
                    if y[0] == "L" and last and last == [(z[1], z[2]) for z in vn.addr(fn.insts[y[1]].o[0])[2] if z[0] == "f"][-1:]:
                        cx.bad("whole", fn.blocks[h][-1], "this loop over a list starts behind its first element", "start-" + n)


def steps(vn, fn, h, e):
    """a counter of the loop at h"""
    e = strip(e)
    if e[0] in ("add", "sub"): return any(isinstance(x, tuple) and steps(vn, fn, h, x) for x in e[1:])
    return e[0] == "phi" and fn.insts[e[1]].blk == h


def alternatives(vn, fn, h, e, seen=None):
    seen = set() if seen is None else seen; e = strip(e)
    if e in seen: return []
    seen.add(e)
    if e[0] == "L": return [e]
    if e[0] == "select": return [z for x in e[1:] if isinstance(x, tuple) and x[0] in ("L", "phi", "select", "add", "sub") for z in alternatives(vn, fn, h, x, seen)]
    if e[0] == "phi" and fn.insts[e[1]].blk != h: return [z for v, q in fn.insts[e[1]].o for z in alternatives(vn, fn, h, vn.expr(v), seen)]
    if e[0] in ("add", "sub"): return [z for x in e[1:] if isinstance(x, tuple) for z in alternatives(vn, fn, h, x, seen)]
    return []


def counted(cx, s, fn, vn, items, h, body, e, a):
    cand = [i for i in items if vn.addr(i.o[0]) == a or set_from(vn, i, e, a, s)]
    if any(fn.dominates(i, fn.blocks[h][0]) for i in cand): return True
    # stored from, or stored to, a counted local
    if any(i.blk not in body and fn.dominates(i, fn.blocks[h][0]) and feeds(vn, i, a, s) for i in items): return True
    return by_param(cx, s, fn, vn, a, e)


def set_from(vn, i, e, a, s):
    d = norm(s.dst(i)) | norm(s.src(i))
    f = norm({(x[1], x[2]) for x in a[2] if x[0] == "f"})
    if f & d: return True
    # the element count of a table: capacity travels in a local
    return ("NKVMTable", "capacity") in {(x[1], x[2]) for x in a[2] if x[0] == "f"} and ("NKVMTable", "capacity") in s.dst(i) | s.src(i)


def feeds(vn, i, a, s): return vn.addr(i.o[0])[1] == a[1] and a[1][0] == "al"


def by_param(cx, s, fn, vn, a, e):
    return a[1][0] == "a" and not any(x[0] == "f" for x in a[2])


def skips(vn, fn, h, body, marks, ok):
    """conditions under which one turn of the loop passes by all of the marked blocks, and whether it can"""
    def reach(start, avoid):
        seen = set(); st = [start]
        while st:
            b = st.pop()
            if b in seen or b in avoid: continue
            seen.add(b)
            st += [x for x in fn.succs[b] if x in body and x != h and ok(b, x)]
        return seen
    if h in marks: return frozenset()
    fwd = reach(h, marks)
    # blocks that still lead to the next turn without a mark
    back = {b for b in fwd if any(x == h and ok(b, x) for x in fn.succs[b])}
    ch = True
    while ch:
        ch = False
        for b in fwd - back:
            if any(x in back and x != h and ok(b, x) for x in fn.succs[b]): back.add(b); ch = True
    sig = set()
    for b in fwd:
        ss = [x for x in set(fn.succs[b]) if x in body and ok(b, x)]
        if len(ss) < 2: continue
        lead = {x for x in ss if x != h and (reach(x, ()) & marks)}
        for x in ss:
            if (x == h or x in back) and any(y != x and y in lead for y in ss):
                for f in vn.edge_facts(b, x):
                    if len(f) == 3: sig.add((f[0],) + tuple(what(vn, y) for y in f[1:]))
    return frozenset(sig)


def what(vn, e):
    e = strip(e)
    if e[0] == "L": return tuple(list(fields(vn, vn.addr(vn.fn.insts[e[1]].o[0])))[:1]) or ("local",)
    if e[0] == "c": return e
    if e[0] == "call": return ("call", vn.fn.insts[e[1]].callee)
    if e[0] == "phi":
        r = sorted({what(vn, vn.expr(v)) for v, q in vn.fn.insts[e[1]].o if strip(vn.expr(v))[0] != "phi"}, key=str)
        return ("merge",) + tuple(r)
    return (e[0],)


def selection(cx, s):
    """the number saved before a repeated group counts exactly the elements the group writes"""
    from nk.loops import loops, induction
    for n in sorted(s.fns):
        fn = s.mod.fns[n]; vn = cx.vn(n)
        if n.startswith("nkx"): continue
        L = loops(fn)
        ok = lambda p, b: s.edge_ok(fn, vn, p, b, True)
        inner = lambda h, body: not any(b2 < body for _, b2 in L)
        counters = []
        items = []
        for h, body in L:
            if not inner(h, body): continue
            m = {i.blk for i in fn.calls() if i.blk in body and ((n, i.id) in s.direct and strip(vn.expr(i.o[3])) != ("c", 0) or i.callee in s.fns and s.mode[i.callee] != 0)}
            m = {b for b in m if writes_here(s, fn, vn, b)}
            if m: items.append((h, body, m)); continue
            adds = [i for i in fn.all() if i.blk in body and i.op == "add" and any(o[0] == "c" and o[1] == 1 for o in i.o)]
            for i in adds:
                a = vn.expr(["i", i.id])
                tgt = [o for o in i.o if o[0] == "i"]
                if not tgt: continue
                d = fn.idef(tgt[0])
                isind = d is not None and d.op == "phi" and d.blk == h and any(strip(f[1]) == ("phi", d.id) or len(f) == 3 and strip(f[2]) == ("phi", d.id) for x in set(fn.succs[h]) for f in vn.edge_facts(h, x))
                if not isind: counters.append((i, skips(vn, fn, h, body, {i.blk}, ok)))
        if not counters: 
            for h, body, m in items:
                k = skips(vn, fn, h, body, m, ok)
                cx.ok("selected", sample=fn.blocks[h][0].loc())
                if k: cx.bad("selected", fn.blocks[h][-1], "some elements are passed by when saving, but they are in the count saved before", "%s-%s" % (n, len(k)))
            continue
        for h, body, m in items:
            k = skips(vn, fn, h, body, m, ok)
            cx.ok("selected", sample=fn.blocks[h][0].loc())
            if not any(k == c for _, c in counters):
                cx.bad("selected", fn.blocks[h][-1], "the elements saved here are not the ones counted at %s" % counters[0][0].loc(), n)


def writes_here(s, fn, vn, b):
    """block b can run when saving"""
    seen = {0}; st = [0]
    while st:
        x = st.pop()
        for y in fn.succs[x]:
            if y not in seen and s.edge_ok(fn, vn, x, y, True): seen.add(y); st.append(y)
    return b in seen


# ---------------------------------------------------------------- coverage
def coverage(cx, s, pairs):
    got_w, got_r = set(), set()
    live = [reached(cx, s, False), reached(cx, s, True)]
    for fnn, iid in s.direct:
        i = s.mod.fns[fnn].insts[iid]
        vn = cx.vn(fnn); m = strip(vn.expr(i.o[3]))
        if fnn.startswith("nkx"): continue
        if m != ("c", 0) and i.blk in live[1].get(fnn, ()): got_w |= s.src(i)
        if m != ("c", 1) and i.blk in live[0].get(fnn, ()): got_r |= s.kept(i)
    relinked(cx, s, live[0])
    undone(cx, s, live[0])
    # whole strings handed to the string helpers
    for n in s.fns:
        fn = s.mod.fns[n]; vn = cx.vn(n)
        for i in fn.calls():
            if i.callee not in s.fns or s.mode[i.callee] not in (0, 1): continue
            if i.blk not in live[s.mode[i.callee]].get(n, ()): continue
            for k, o in enumerate(i.o):
                if o[0] != "i": continue
                s.w = True
                if s.mode[i.callee] == 1: got_w |= s.vsrc(vn, vn.expr(o), set())
                else:
                    a = vn.addr(o)
                    s.w = False
                    if a[1][0] == "al": got_r |= s.ptrflow(fn, a[1], 0, i) | named(cx, s, fn, a[1])
                    got_r |= {(x[1], x[2]) for x in a[2] if x[0] == "f"}
    s.got = (got_w, got_r)
    for f in REQUIRED:
        if f[1] is None or f[0] not in s.mod.structs and not any(g[0] == f[0] for g in got_w): continue
        if not has_field(cx, f): continue
        al = ALIAS.get(f, {f})
        cx.ok("covered", sample="%s.%s" % f)
        if not (al & got_w): cx.bad("covered", anchor(s), "%s.%s is not saved" % f, "%s.%s" % f)
        elif f in MATCHED: continue
        elif not (al & got_r): cx.bad("covered", anchor(s), "%s.%s is saved but not restored" % f, "%s.%s" % f)


def reached(cx, s, w):
    """blocks of each serializer that a save (or a load) started by the host can run"""
    r = {}; work = []
    for n in s.fns:
        if n.startswith("nkx") and not isinstance(s.mode[n], int): work.append(n)
        elif n in s.cbfns: work.append(n)
    while work:
        n = work.pop()
        if n in r: continue
        fn = s.mod.fns[n]; vn = cx.vn(n)
        seen = {0}; st = [0]
        while st:
            x = st.pop()
            for y in fn.succs[x]:
                if y not in seen and s.edge_ok(fn, vn, x, y, w): seen.add(y); st.append(y)
        r[n] = seen
        for i in fn.calls():
            if i.blk in seen and i.callee in s.fns and i.callee not in r:
                k = s.mode[i.callee]
                if k in (0, 1) and bool(k) != w: continue
                work.append(i.callee)
    return r


REBUILT = {("NKVMObject", "size")}        # counted again while the fields are inserted


def undone(cx, s, live):
    """what was taken from the stream for one element is not reset while the following ones are read"""
    for n in sorted(live):
        fn = s.mod.fns[n]; vn = cx.vn(n)
        if n.startswith("nkx"): continue
        got = {}
        for i in fn.calls():
            if i.blk not in live[n]: continue
            if (n, i.id) in s.direct:
                for f in {(x[1], x[2]) for x in vn.addr(i.o[0])[2] if x[0] == "f"}: got.setdefault(f, []).append(i)
        for i in fn.all():
            if i.blk not in live[n]: continue
            if i.op == "store" and strip(vn.expr(i.o[0]))[0] == "L" or i.op == "call" and copies(i):
                d = vn.addr(i.o[1] if i.op == "store" else i.o[0]); x = vn.addr(fn.insts[strip(vn.expr(i.o[0]))[1]].o[0]) if i.op == "store" else vn.addr(i.o[1])
                if x[1][0] != "al" or not any((n, j.id) in s.direct and vn.addr(j.o[0])[1] == x[1] for j in fn.calls()): continue
                fs = [(y[1], y[2]) for y in d[2] if y[0] == "f"]
                for f in fs: got.setdefault(f, []).append(i)
        for i in fn.all():
            if i.op != "store" or i.o[0][0] != "c" or i.blk not in live[n]: continue
            d = vn.addr(i.o[1])
            if d[1][0] in ("al", "call"): continue
            fs = [(y[1], y[2]) for y in d[2] if y[0] == "f"]
            for f in fs:
                if f not in got or f in REBUILT: continue
                cx.ok("undone", sample=i.loc())
                if any(follows(s, fn, vn, g, i) for g in got[f] if g.id != i.id) and keeps(s, fn, vn, i):
                    cx.bad("undone", i, "%s.%s of elements already loaded is reset while others are loaded" % f, "%s.%s" % f); break


def follows(s, fn, vn, a, b):
    if a.blk == b.blk and fn.blocks[a.blk].index(a) < fn.blocks[b.blk].index(b): return True
    seen = set(); st = [x for x in fn.succs[a.blk] if s.edge_ok(fn, vn, a.blk, x, False)]
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x)
        if x == b.blk: return True
        st += [y for y in fn.succs[x] if s.edge_ok(fn, vn, x, y, False)]
    return False


def keeps(s, fn, vn, i):
    """the load can still succeed after i"""
    seen = {i.blk}; st = [i.blk]; good = []
    while st:
        x = st.pop()
        if any(j.op == "call" and j.callee in s.errs for j in fn.blocks[x] if x != i.blk or fn.blocks[x].index(j) > fn.blocks[x].index(i)): continue
        good.append(x)
        for y in fn.succs[x]:
            if s.edge_ok(fn, vn, x, y, False) and y not in seen: seen.add(y); st.append(y)
    for x in good:
        t = fn.blocks[x][-1]
        if t.op != "ret": continue
        if not t.o: return True
        d = fn.idef(t.o[0])
        if t.o[0][0] == "c":
            if t.o[0][1]: return True
        elif d is None or d.op != "phi" or d.blk != x or any(q in good and s.edge_ok(fn, vn, q, x, False) and not (v[0] == "c" and not v[1]) for v, q in d.o): return True
    return False


# not in the stream but part of the same state: derived again by the loader
RELINKED = [("NKVMStack", "indexMask"), ("NKVMString", "hash"), ("NKVMString", "nextInHashBucket"), ("NKVMString", "stringTableIndex"),
            ("NKVMObject", "previousExternalHandleListPtr"), ("NKVMObject", "nextObjectWithExternalHandles"), ("NKVM", "objectsWithExternalHandles"),
            ("NKVMTableHole", "index"), ("NKVMTableHole", "next"), ("NKVMExecutionContext", "parent"), ("NKVMExecutionContext", "coroutineObject"),
            ("NKVM", "currentExecutionContext"), ("NKErrorState", "lastError"), ("NKVMObject", "externalData")]


def relinked(cx, s, live):
    for f in RELINKED:
        if not has_field(cx, f): continue
        cx.ok("relinked", sample="%s.%s" % f)
        if not any(stores(cx, s, n, f, 0, live[n]) for n in live):
            cx.bad("relinked", anchor(s), "loading does not set %s.%s again" % f, "%s.%s" % f)


def stores(cx, s, n, f, depth, blocks=None):
    k = ("st", n, f)
    if blocks is None and k in s.memo0: return s.memo0[k]
    if blocks is None: s.memo0[k] = False
    fn = s.mod.fns[n]; vn = cx.vn(n); r = False
    for i in fn.all():
        if blocks is not None and i.blk not in blocks: continue
        if i.op == "store":
            fs = [(x[1], x[2]) for x in vn.addr(i.o[1])[2] if x[0] == "f"]
            if fs and f in fs and vn.expr(i.o[0]) != ("c", 0): r = True
        elif i.op == "call" and copies(i):
            if f in [(x[1], x[2]) for x in vn.addr(i.o[0])[2] if x[0] == "f"]: r = True
        elif i.op == "call" and i.callee in s.mod.fns and depth < 3 and (i.callee.startswith("nkxVmObjectSet") or i.callee.startswith("nkiVmObjectSet")):
            r = r or stores(cx, s, i.callee, f, depth + 1)
    if blocks is None: s.memo0[k] = r
    return r


def named(cx, s, fn, base):
    """a loaded name is matched against the names the host registered"""
    vn = cx.vn(fn.name); r = set()
    for j in fn.all():
        if j.op == "call" and "strcmp" in (j.callee or "").lower():
            fs = [list(fields(vn, vn.expr(o)))[:1] for o in j.o]
            if any(vn.expr(o) and _from(vn, vn.expr(o), base) for o in j.o):
                for x in fs: r |= set(x)
    return r


def _from(vn, e, base):
    e = strip(e)
    if e[0] == "L": return vn.addr(vn.fn.insts[e[1]].o[0])[1] == base
    return e[0] == "gep" and e[1] == base or e == base


def has_field(cx, f): return any(x[1:3] == f for x in cx.ms.struct_fields(f[0]))


def anchor(s):
    n = max((n for n in s.fns if not n.startswith("nkx")), key=lambda n: depth(s, n))
    return s.mod.fns[n].blocks[0][0]


def excluded(cx, s):
    for fnn, iid in sorted(s.direct):
        i = s.mod.fns[fnn].insts[iid]; vn = cx.vn(fnn)
        if strip(vn.expr(i.o[3])) == ("c", 1): continue
        for f in FORBIDDEN:
            if f in s.dst(i): cx.bad("host-setting", i, "%s.%s, which belongs to the host, is taken from the saved state" % f, "%s.%s" % f)
        cx.ok("host-setting", sample=i.loc())
