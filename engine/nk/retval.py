"""Values a function may return on the paths that leave a given call."""
from .vn import strip


def feeding_phis(fn, op):
    out = set(); st = [op]
    while st:
        d = fn.idef(st.pop())
        if d is None or d.id in out: continue
        if d.op == "phi": out.add(d.id); st += [v for v, b in d.o]
        elif d.op in ("trunc", "zext", "sext", "freeze", "select", "bitcast"):
            st += d.o
    return out


class Walk:
    """exhaustive walk from just after `start` (or entry), following phi choices that feed the
    returned value. stop_edge(p,b): do not follow. visit(inst, env): called for every instruction;
    returning True ends that path."""
    def __init__(self, fn, vn, stop_edge=lambda p, b: False, visit=lambda i, st: False, track=()):
        self.fn = fn; self.vn = vn; self.stop_edge = stop_edge; self.visit = visit
        self.phis = set(track)
        for r in fn.exits():
            if r.o: self.phis |= feeding_phis(fn, r.o[0])

    def value(self, op, env):
        d = self.fn.idef(op)
        if d is None: return self.vn.expr(op)
        if d.op == "phi" and d.id in self.phis: return env.get(d.id, self.vn.expr(op))
        if d.op in ("trunc", "zext", "sext", "freeze"):
            x = self.value(d.o[0], env)
            if x[0] == "c": return x
            return (d.op, x) if strip(x) != x or True else x
        return self.vn.expr(op)

    def run(self, start=None, marks=()):
        """[(ret inst, value expr, marks)]; marks collect what visit returned as ('mark', m)"""
        fn = self.fn; out = []
        if start is None: st = [(0, 0, (), frozenset(marks))]
        else: st = [(start.blk, start.pos + 1, (), frozenset(marks))]
        seen = set()
        while st:
            b, p, envt, mk = st.pop()
            if p == 0:
                if (b, envt, mk) in seen: continue
                seen.add((b, envt, mk))
                if len(seen) > 20000: return None
            env = dict(envt); dead = False
            for i in fn.blocks[b][p:]:
                r = self.visit(i, mk)
                if r is True: dead = True; break
                if r: mk = mk | {r}
                if i.op == "ret": out.append((i, self.value(i.o[0], env) if i.o else None, mk))
                if i.op == "unreachable": dead = True; break
            if dead: continue
            for s in fn.succs[b]:
                if self.vn.infeasible(b, s) or self.stop_edge(b, s): continue
                e2 = dict(env)
                for i in fn.blocks[s]:
                    if i.op != "phi": break
                    if i.id in self.phis:
                        for v, q in i.o:
                            if q == b: e2[i.id] = self.value(v, env)
                st.append((s, 0, tuple(sorted(e2.items(), key=repr)), mk))
        return out


def deep(e):
    while e and e[0] in ("trunc", "zext", "sext", "freeze"): e = e[1]
    return e
