"""C05: folding constants at compile time changes no result."""
import re
from nk.core import Broken
from nk.vn import strip
from nk.ops import Ops
from nk.emit import Emit
from nk.effects import FORMATTERS
from rules.c03 import emitters, emits, types_at

META = {"level": "other", "technique": "path-sensitive abstract interpretation of the folding routine over the finite domain of operator and operand token types, with values kept as terms; the term written as the folded literal is compared with the term the instruction handler pushes for the same operator and type",
        "note": "Every operator token with every combination of missing, integer, float and other operands is followed through every path. Division guards themselves (zero, overflow) are V04. That no more is folded than these operators is part of the rule; that anything is folded at all is not.",
        "explains": "folded: whenever the routine replaces an expression by a literal, its operands are literals of one type, the literal is the text of exactly the term the instruction emitted for that operator computes on that type (same operation, same operand order, 32-bit wrap, single precision, same conversion of the literals' texts as the code emitter uses), and the new literal has the operands' type. digits: the text is long enough to give the same value back (all digits of an integer, nine significant digits or hexadecimal for a float). kept: for any other combination the expression tree is left as it is."}

CASTS = ("trunc", "sext", "zext", "fpext", "fptrunc", "bitcast")
FOPS = {"fadd", "fsub", "fmul", "fdiv", "fneg", "frem"}


def check(cx, tier):
    mod = cx.mod
    toks = dict(mod.enums["NKTokenType"]); cx.toks = {v: k for k, v in toks.items()}
    INT, FLT = toks["NK_TOKENTYPE_INTEGER"], toks["NK_TOKENTYPE_FLOAT"]
    folders = [fn for fn in mod.fns.values() if folds(cx, fn)]
    if not folders: raise Broken("constant folding not found")
    want, conv = expected(cx, INT, FLT, toks)
    other = next(v for k, v in sorted(toks.items()) if k == "NK_TOKENTYPE_IDENTIFIER")
    for fn in folders:
        arg = next((k for k, t in enumerate(fn.ditypes[1:]) if "NKExpressionAstNode" in t), None)
        if arg is None: raise Broken("%s takes no expression" % fn.name)
        deep = fn.ditypes[arg + 1].count("*") == 2
        for t in sorted(cx.toks):
            for l in (None, INT, FLT, other):
                for r in (None, INT, FLT, other):
                    cfg = {"N.type": t, "N.l": l, "N.r": r}
                    W = Walk(cx, cfg)
                    for st in W.function(fn, {arg: ("p", "&N" if deep else "N")}): judge(cx, fn, W, st, t, l, r, INT, FLT, want, conv)
    cx.need("folded", 6); cx.need("kept", 50)


def folds(cx, fn):
    """the routine formats a number and gives it to a token"""
    fm = any(i.callee in FORMATTERS for i in fn.calls())
    if not fm: return False
    reads = any(i.callee in ("atol", "atoi", "atof", "strtol", "strtod", "strtof") for i in fn.calls())
    ast = any("NKExpressionAstNode" in t for t in fn.ditypes[1:])
    return reads and ast


# ---------------------------------------------------------------- what the instructions do
def expected(cx, INT, FLT, toks):
    """((token, operand count) -> {type: term}), literal conversions per type"""
    mod = cx.mod; O = Ops(cx); em = emitters(cx)
    table = {}; conv = {INT: set(), FLT: set()}
    for n in em:
        fn = mod.fns[n]; vn = cx.vn(n)
        for i in fn.calls():
            if not emits(cx, i.callee): continue
            ts = types_at(vn, i)
            for t in ts or ():
                if t in conv:
                    for o in i.o:
                        e = vn.expr(o)
                        while e[0] in CASTS: e = e[1]
                        if e[0] == "v": e = under(fn, e[1])
                        if e[0] == "call" and fn.insts[e[1]].callee in ("atol", "atoi", "atof", "strtol", "strtod", "strtof"): conv[t].add(fn.insts[e[1]].callee)
                if (i.callee or "").startswith("nkiCompilerAddInstruction") and len(i.o) > 1 and i.o[1][0] == "c": table.setdefault(t, set()).add(i.o[1][1])
    want = {}
    for t, codes in table.items():
        for c in codes:
            hs = {v[1] for v, _ in O.handlers.get(c, []) if v[0] == "fn"}
            for h in hs:
                if h not in mod.fns: continue
                pops, terms = handler(cx, mod.fns[h], INT, FLT)
                if terms: want.setdefault((t, pops), {}).update(terms)
    return want, conv


def under(fn, n):
    i = fn.insts[n]
    while i.op in CASTS and i.o[0][0] == "i": i = fn.insts[i.o[0][1]]
    return ("call", i.id) if i.op == "call" else ("v", i.id)


def handler(cx, fn, INT, FLT):
    """(operands popped, {literal type: term pushed})"""
    pops = [i for i in fn.calls("nkiVmStackPop")]
    pops.sort(key=lambda i: sum(1 for j in pops if fn.dominates(j, i)))
    name = {i.id: ("L" if k == len(pops) - 1 else "R") for k, i in enumerate(pops)}
    out = {}
    for i in fn.calls():
        ty = {"nkiVmStackPushInt": INT, "nkiVmStackPushFloat": FLT}.get(i.callee)
        if ty is None: continue
        t = hterm(cx, fn, i.o[1], name)
        if t is None or t[0] in ("L", "R"): continue
        out[ty] = t if ty not in out or out[ty] == t else None
    return len(pops), {k: v for k, v in out.items() if v}


def hterm(cx, fn, op, name, depth=0):
    if depth > 12: return None
    if op[0] == "c": return ("k", op[1])
    if op[0] == "fp": return ("k", op[1])
    if op[0] != "i": return None
    i = fn.insts[op[1]]
    if i.op == "load":
        a = cx.vn(fn.name).addr(i.o[0])
        return (name[a[1][1]],) if a[1][0] == "call" and a[1][1] in name else None
    if i.op == "call" and i.callee in ("nkiValueToInt", "nkiValueToFloat"):
        a = cx.vn(fn.name).addr(i.o[1])
        return (name[a[1][1]],) if a[1][0] == "call" and a[1][1] in name and not a[2] else None
    if i.op in CASTS: return hterm(cx, fn, i.o[0], name, depth + 1)
    if i.op in ("add", "sub", "mul", "sdiv", "srem", "fneg") or i.op in FOPS:
        xs = [hterm(cx, fn, o, name, depth + 1) for o in i.o]
        return norm((i.op,) + tuple(xs)) if all(xs) else None
    return None


def norm(t):
    if t[0] == "sub" and t[1] == ("k", 0): return ("neg", t[2])
    if t[0] == "fsub" and t[1] == ("k", -0.0) and str(t[1][1]) == "-0.0": return ("fneg", t[2])
    if t[0] in ("add", "mul", "fadd", "fmul"): return (t[0],) + tuple(sorted(t[1:], key=repr))
    return t


# ---------------------------------------------------------------- walking the folding routine
class Stop(Exception): pass


class Walk:
    """follows every path of a routine under one choice of token types; values are terms"""
    def __init__(self, cx, cfg):
        self.cx = cx; self.mod = cx.mod; self.cfg = cfg; self.steps = 0

    def function(self, fn, args, depth=0):
        """final states: dict(ret, ev)"""
        out = []
        work = [(0, None, {"env": {}, "mem": {}, "ev": []})]
        while work:
            b, prev, st = work.pop()
            self.steps += 1
            if self.steps > 4000: raise Broken("%s: too many paths" % fn.name)
            env = dict(st["env"]); mem = dict(st["mem"]); ev = list(st["ev"])
            S = {"env": env, "mem": mem, "ev": ev, "args": args, "fn": fn, "depth": depth}
            done = False
            ph = {}
            for i in fn.blocks[b]:
                if i.op == "phi":
                    for v, q in i.o:
                        if q == prev: ph[i.id] = self.val(S, v)
                    continue
                if ph: env.update(ph); ph = {}
                if i.op == "ret":
                    out.append({"ret": self.val(S, i.o[0]) if i.o else None, "ev": ev}); done = True; break
                if i.op in ("br", "switch"): break
                if i.op == "unreachable": done = True; break
                self.inst(S, i)
                if i.op == "call" and i.callee == "__assert_fail": done = True; break
            if ph: env.update(ph)
            if done: continue
            t = fn.blocks[b][-1]; ss = fn.succs[b]
            nxt = ss
            if t.op == "br" and t.o:
                c = self.val(S, t.o[0])
                if c[0] == "c": nxt = [t.t if c[1] else t.f]
            elif t.op == "switch":
                c = self.val(S, t.o[0])
                if c[0] == "c": nxt = [dict(cases(t)).get(c[1], t.default)]
            for s in nxt: work.append((s, b, {"env": env, "mem": mem, "ev": ev}))
        return out

    def val(self, S, op):
        if op[0] == "c": return ("c", op[1])
        if op[0] == "fp": return ("k", op[1])
        if op[0] == "null": return ("c", 0)
        if op[0] == "a": return S["args"].get(op[1], ("?", S["fn"].name, "a", op[1]))
        if op[0] == "g": return ("g", op[1])
        if op[0] == "cgep": return self.val(S, op[1]) if op[1][0] == "g" else ("?", str(op))
        if op[0] == "i": return S["env"].get(op[1], ("?", S["fn"].name, op[1], S["depth"]))
        return ("?", str(op))

    def inst(self, S, i):
        env = S["env"]
        if i.op == "alloca": env[i.id] = ("p", "@%d.%d" % (S["depth"], i.id)); return
        if i.op == "getelementptr":
            b = self.val(S, i.o[0])
            if b[0] == "p":
                s = b[1]
                for k, st in enumerate(i.path):
                    if st[0] == "f": s += "." + st[2]
                    elif st[0] == "x":
                        x = self.val(S, st[1])
                        if x == ("c", 0) and (k == 0 or not s.endswith("children")): continue
                        s += "[%s]" % (x[1] if x[0] == "c" else "?")
                env[i.id] = ("p", s)
            elif b[0] == "g":
                x = [self.val(S, st[1]) for st in i.path if st[0] == "x"]
                if x and all(y[0] == "c" for y in x): env[i.id] = ("gel", b[1], x[-1][1])
            elif b[0] == "o": env[i.id] = ("o", b[1], b[2] + tuple(st[2] for st in i.path if st[0] == "f"))
            return
        if i.op == "load": env[i.id] = self.load(S, i); return
        if i.op == "store": self.store(S, i); return
        if i.op == "icmp": env[i.id] = self.icmp(S, i); return
        if i.op == "select":
            c = self.val(S, i.o[0])
            if c[0] == "c": env[i.id] = self.val(S, i.o[1] if c[1] else i.o[2])
            return
        if i.op in CASTS:
            v = self.val(S, i.o[0])
            if v[0] == "c":
                k = v[1]
                if i.op == "zext": k &= 0xffffffffffffffff if k >= 0 else 0xff if k >= -128 else 0xffffffff
                env[i.id] = ("c", k)
            elif v[0] in ("p", "o", "k"): env[i.id] = v
            elif v[0] != "?": env[i.id] = (i.op, v, str(i.ty))
            return
        if i.op in ("call", "invoke"): self.call(S, i); return
        if i.op in ("and", "or", "xor"):
            a, b = [self.val(S, o) for o in i.o]
            if a[0] == b[0] == "c": env[i.id] = ("c", {"and": a[1] & b[1], "or": a[1] | b[1], "xor": a[1] ^ b[1]}[i.op])
            elif i.op == "and" and ("c", 0) in (a, b): env[i.id] = ("c", 0)
            return
        if i.op in ("add", "sub", "mul", "sdiv", "udiv", "srem", "urem", "shl") or i.op in FOPS or i.op in ("sitofp", "uitofp", "fptosi", "fptoui"):
            xs = [self.val(S, o) for o in i.o]
            if i.op in ("add", "sub") and all(x[0] == "c" for x in xs):
                k = xs[0][1] + xs[1][1] if i.op == "add" else xs[0][1] - xs[1][1]
                env[i.id] = ("c", (k + 2**31) % 2**32 - 2**31); return
            env[i.id] = (i.op,) + tuple(xs) + ((str(i.ty),) if i.op not in FOPS else (str(i.ty),))

    def load(self, S, i):
        a = self.val(S, i.o[0])
        if a[0] == "gel":
            o = self.mod.globals.get(a[1], {}); k = o.get("init")
            if o.get("const") and isinstance(k, list) and 0 <= a[2] < len(k) and isinstance(k[a[2]], list) and k[a[2]][:1] == ["c"]: return ("c", k[a[2]][1])
        if a[0] == "o": return S["mem"].get(a, ("o", a[1], a[2] + ("*",)))
        if a[0] != "p": return ("?", S["fn"].name, i.id, S["depth"])
        s = a[1]
        if s in S["mem"]: return S["mem"][s]
        if s == "&N": return ("p", "N")
        m = re.fullmatch(r"N\.children(?:\[(\d)\])?", s)
        if m: return ("c", 0) if self.cfg["N." + "lr"[int(m.group(1) or 0)]] is None else ("p", "N.children[%s]*" % (m.group(1) or 0))
        m = re.fullmatch(r"N(?:\.children\[(\d)\]\*)?\.opOrValue", s)
        if m: return ("p", s + "*")
        m = re.fullmatch(r"N(?:\.children\[(\d)\]\*)?\.opOrValue\*\.(\w+)", s)
        if m and m.group(2) == "type":
            return ("c", self.cfg["N.type" if m.group(1) is None else "N." + "lr"[int(m.group(1))]])
        if m and m.group(2) == "str": return ("str", {None: "N", "0": "L", "1": "R"}[m.group(1)])
        return ("?", s)

    def store(self, S, i):
        a = self.val(S, i.o[1]); v = self.val(S, i.o[0])
        if a[0] == "o": S["mem"][a] = v; return
        if a[0] != "p": return
        S["mem"][a[1]] = v
        if a[1] == "&N" or a[1].startswith("N"): S["ev"].append(("set", a[1], v, i, dict(S["mem"])))

    def icmp(self, S, i):
        a, b = [self.val(S, o) for o in i.o]
        if ("c", 0) in (a, b) and (a[0] in ("p", "o") or b[0] in ("p", "o")): return ("c", int(i.pred == "ne"))
        if a[0] == b[0] == "c":
            x, y = a[1], b[1]; M = 2 ** 32
            if i.pred.startswith("u"): x %= M; y %= M
            r = {"eq": x % M == y % M, "ne": x % M != y % M, "slt": x < y, "ult": x < y, "sle": x <= y, "ule": x <= y, "sgt": x > y, "ugt": x > y, "sge": x >= y, "uge": x >= y}[i.pred]
            return ("c", int(r))
        return ("?", S["fn"].name, i.id, S["depth"])

    def call(self, S, i):
        c = i.callee; env = S["env"]
        vs = [self.val(S, o) for o in i.o]
        if c in ("atol", "atoi", "atof", "strtol", "strtod", "strtof"):
            v = ("num", c, vs[0][1]) if vs[0][0] == "str" else ("?", "num")
            env[i.id] = ("trunc", v, "i32") if i.ty == "i32" and v[0] == "num" else ("fptrunc", v, "float") if i.ty == "float" and v[0] == "num" else v; return
        if c in FORMATTERS:
            f = text(self.mod, vs[FORMATTERS[c]]) if len(vs) > FORMATTERS[c] else None
            if vs[0][0] == "p": S["mem"]["text:" + vs[0][1]] = ("text", f, vs[FORMATTERS[c] + 1] if len(vs) > FORMATTERS[c] + 1 else None)
            return
        if c == "nkiStrdup":
            v = vs[-1]
            env[i.id] = S["mem"].get("text:" + v[1], ("?", "text")) if v[0] == "p" else ("dup", v); return
        if c not in self.mod.fns or S["depth"] > 3: return
        fn = self.mod.fns[c]
        if c.startswith(("nkiMalloc", "nkiMem", "nkiFree")):
            if i.ty == "ptr": env[i.id] = ("o", "%d.%d" % (S["depth"], i.id), ())
            return
        # a question about a node: answered under the same choice of types
        if c == S["fn"].name: return
        if fn.ret not in ("ptr", "void") and any(v[0] == "p" and v[1].startswith("N") for v in vs):
            rs = {r["ret"] for r in self.function(fn, dict(enumerate(vs)), S["depth"] + 1)}
            if len(rs) == 1 and next(iter(rs))[0] == "c": env[i.id] = next(iter(rs))
            return
        if i.ty == "ptr":
            env[i.id] = o = ("o", "%d.%d" % (S["depth"], i.id), ())
            S["mem"][("made", o[1])] = given(self.mod, fn, vs)


def given(mod, fn, vs):
    """value of the token type a node-making routine stores"""
    for i in fn.all():
        if i.op == "store" and mod.addr_field(fn, i.o[1]) == ("NKToken", "type"):
            if i.o[0][0] == "a": return vs[i.o[0][1]]
            if i.o[0][0] == "c": return ("c", i.o[0][1])
    return ("?", "type")


def cases(t):
    out = []
    for c in t.cases or []: out.append((c[0] if not isinstance(c[0], list) else c[0][1], c[1]))
    return out


def text(mod, v):
    if v[0] != "g": return None
    s = mod.globals[v[1]].get("init")
    return s.get("str", "").rstrip("\0") if isinstance(s, dict) else None


# ---------------------------------------------------------------- judging
def judge(cx, fn, W, st, t, l, r, INT, FLT, want, conv):
    sets = [e for e in st["ev"] if e[0] == "set"]
    name = cx.toks[t].replace("NK_TOKENTYPE_", "")
    if not sets: cx.ok("kept"); return
    at = sets[-1][3]
    what = lambda x: "nothing" if x is None else {INT: "an integer", FLT: "a float"}.get(x, "a value known only at run time")
    if l not in (INT, FLT) or r is not None and r != l:
        cx.bad("kept", at, "%s of %s and %s is replaced at compile time" % (name, what(l), what(r)), "%s/%s/%s" % (name, what(l), what(r))); return
    root = [e for e in sets if e[1] == "&N"]
    if not root: cx.bad("kept", at, "the expression is changed in place at compile time", name); return
    v, mem = root[-1][2], root[-1][4]
    if v[0] != "o": cx.bad("folded", at, "%s is replaced by something other than a new literal" % name, name); return
    ty = mem.get(("made", v[1]), ("?",)); tx = None
    for k, x in mem.items():
        if isinstance(k, tuple) and k[0] == "o" and k[1] == v[1]:
            if k[2][-1:] == ("type",): ty = x
            if k[2][-1:] == ("str",): tx = x
    if ty != ("c", l): cx.bad("folded", at, "the literal %s of %s is replaced by has another type" % (name, what(l)), name + "/type"); return
    n = 1 if r is None else 2
    w = want.get((t, n), {}).get(l)
    if w is None:
        if n == 1: cx.ok("kept"); return              # not an expression the parser makes
        cx.bad("folded", at, "%s is folded although no instruction computes it this way" % name, name); return
    if tx is None or tx[0] != "text": cx.bad("folded", at, "the literal %s is replaced by is not the computed value" % name, name + "/text"); return
    f, val = tx[1], tx[2]
    if not digits(f, l == FLT): cx.bad("digits", at, "the text of a folded %s (%s) does not give the same value back" % ("float" if l == FLT else "integer", f), f or "?"); return
    cx.ok("digits")
    got, used = fterm(val, l == FLT)
    if got is None or norm(got) != w: cx.bad("folded", at, "%s of %s gives another value when folded than at run time" % (name, what(l)), name + "/" + what(l)); return
    if conv[l] and not used <= conv[l]: cx.bad("folded", at, "the text of a literal is converted with %s when folded, %s otherwise" % (", ".join(sorted(used)), ", ".join(sorted(conv[l]))), name + "/conversion"); return
    cx.ok("folded", sample="%s of %s" % (name, what(l)))


def digits(f, flt):
    if f is None: return False
    if not flt: return bool(re.fullmatch(r"%(l|ll)?[di]", f))
    m = re.fullmatch(r"%[+ #-]*\.(\d+)(l?)([geGE])", f)
    if m: return int(m.group(1)) >= (9 if m.group(3) in "gG" else 8)
    return f in ("%a", "%A")


def fterm(v, flt, wide=True):
    """(term over L and R, conversions used) of a value in the folding routine, casts that change nothing aside"""
    used = set()
    def go(v, mod32):
        if v is None or v[0] in ("?", "p", "o"): return None
        if v[0] in ("c", "k"): return ("k", v[1])
        if v[0] == "num": return None              # a literal used without being brought to its run-time width
        if v[0] in CASTS:
            x = v[1]
            if x[0] == "num" and v[0] in ("trunc", "fptrunc"): used.add(x[1]); return (x[2],)
            if flt:
                if v[0] == "fpext": return go(x, mod32)
                if v[0] == "fptrunc":
                    # a double result of single operands, rounded once
                    return go(x, mod32) if x[0] in FOPS and all(o[0] in ("fpext", "k") for o in x[1:-1]) else None
                return None
            return go(x, mod32)
        if v[0] in ("add", "sub", "mul"):
            xs = [go(o, True) for o in v[1:-1]]
            return norm((v[0],) + tuple(xs)) if all(xs) and not flt else None
        if v[0] in ("sdiv", "srem"):
            if mod32 is None: pass
            xs = [go(o, False) if exact(o) else None for o in v[1:-1]]
            return (v[0],) + tuple(xs) if all(xs) and not flt else None
        if v[0] in FOPS:
            if not flt or v[-1] != "float": 
                if not (flt and v[-1] == "double"): return None
            xs = [go(o, True) for o in v[1:-1]]
            return norm((v[0],) + tuple(xs)) if all(xs) else None
        return None
    def exact(o): return o[0] in ("trunc", "sext", "c") and (o[0] == "c" or o[1][0] in ("num", "trunc"))
    if flt and v is not None and v[0] in FOPS: return None, used       # printed in double precision, never rounded to single
    return go(v, True), used
