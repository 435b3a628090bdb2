"""Path walk of a CFG region that carries the concrete values of the region's phis
(short constant loops are followed exactly, symbolic ones once per distinct state)."""
from .vn import NEG


def subst(e, env):
    if not isinstance(e, tuple) or not e: return e
    if e[0] == "phi" and len(e) == 2 and e[1] in env: return env[e[1]]
    r = tuple(subst(x, env) if isinstance(x, tuple) else x for x in e)
    return fold(r)


def fold(r):
    k = r[0]
    if k == "add" and r[1][0] == "c" and r[2][0] == "c": return ("c", r[1][1] + r[2][1])
    if k == "sub" and r[1][0] == "c" and r[2][0] == "c": return ("c", r[1][1] - r[2][1])
    if k in ("zext", "sext", "trunc") and r[1][0] == "c": return r[1]
    if k == "xor" and r[1][0] == "c" and r[2][0] == "c": return ("c", r[1][1] ^ r[2][1])
    if k == "icmp" and r[2][0] == "c" and r[3][0] == "c":
        a, b = r[2][1], r[3][1]; p = r[1]
        ua, ub = a & 0xffffffff, b & 0xffffffff
        v = {"eq": a == b, "ne": a != b, "ult": ua < ub, "ule": ua <= ub, "ugt": ua > ub, "uge": ua >= ub,
             "slt": a < b, "sle": a <= b, "sgt": a > b, "sge": a >= b}[p]
        return ("c", int(v))
    if k == "select" and r[1][0] == "c": return r[2] if r[1][1] else r[3]
    return r


def const_loops(fn, vn):
    """ids of phis worth carrying: every phi that is not fed by a symbolic induction"""
    out = set()
    for b in fn.rpo:
        for i in fn.blocks[b]:
            if i.op == "phi": out.add(i.id)
    return out


def walk(fn, vn, start_edges, body, visit, end, limit=4000, track=None, edge=None):
    """walk from the given (pred, block) edges; visit(inst, env, mark)-> new marks or None to cut;
    end(p, b, env, mark) -> True when the edge p->b ends a path (collected).  Returns the set of
    (p, b, marks) at the ends or None when too large."""
    out = set(); seen = set()
    st = [(p, b, (), frozenset()) for p, b in start_edges]
    while st:
        p, b, envt, mk = st.pop()
        env = dict(envt)
        new = dict(env)
        for i in fn.blocks[b]:
            if i.op != "phi": break
            if track is not None and i.id not in track: continue
            for v, q in i.o:
                if q == p:
                    x = subst(vn.expr(v), env)
                    new[i.id] = x
        # symbolic growth guard
        new = {k: v for k, v in new.items() if size(v) < 40}
        kk = (b, tuple(sorted(new.items(), key=repr)), mk)
        if kk in seen: continue
        seen.add(kk)
        if len(seen) > limit: return None
        dead = False
        for i in fn.blocks[b]:
            r = visit(i, new, mk)
            if r is None: dead = True; break
            mk = r
        if dead: continue
        t = fn.blocks[b][-1]
        succs = fn.succs[b]
        if t.op == "br" and t.o and t.t != t.f:
            c = subst(vn.expr(t.o[0]), new)
            if c[0] == "c": succs = [t.t if c[1] else t.f]
        elif t.op == "switch":
            c = subst(vn.expr(t.o[0]), new)
            if c[0] == "c":
                succs = [next((d for v, d in t.cases if v == c[1]), t.default)]
        for s in succs:
            if vn.infeasible(b, s): continue
            mk2 = mk
            if edge:
                mk2 = edge(b, s, new, mk)
                if mk2 is None: continue
            if end(b, s, new, mk2): out.add((b, s, mk2)); continue
            if body is not None and s not in body: out.add((b, s, mk2)); continue
            st.append((b, s, kk[1], mk2))
    return out


def size(e):
    if not isinstance(e, tuple): return 1
    return sum(size(x) for x in e) if len(repr(e)) < 2000 else 10**6
