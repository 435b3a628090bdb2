"""Natural loops of a function."""

def loops(fn):
    """list of (header, body-set), innermost last per header"""
    if hasattr(fn, "_loops"): return fn._loops
    dom = fn.dom(); L = {}
    for b in fn.rpo:
        for s in fn.succs[b]:
            if s in dom[b]:
                body = L.setdefault(s, {s})
                st = [b]
                while st:
                    x = st.pop()
                    if x in body: continue
                    body.add(x); st.extend(fn.preds[x])
    fn._loops = sorted(L.items(), key=lambda x: len(x[1]))
    return fn._loops


def loops_of(fn, blk):
    """loops containing blk, innermost first"""
    return [(h, b) for h, b in loops(fn) if blk in b]


def exit_edges(fn, body):
    return [(p, s) for p in body for s in fn.succs[p] if s not in body]


def induction(fn, vn, phi):
    """(init expr, step) of an integer induction phi in its loop header, or None"""
    h = phi.blk
    body = None
    for hh, b in loops(fn):
        if hh == h: body = b
    if body is None: return None
    init = set(); step = set()
    for v, p in phi.o:
        if p in body:
            e = vn.expr(v)
            if e == ("phi", phi.id): step.add(0); continue
            if e[0] == "add" and e[1] == ("phi", phi.id) and e[2][0] == "c": step.add(e[2][1])
            elif e[0] == "add" and e[2] == ("phi", phi.id) and e[1][0] == "c": step.add(e[1][1])
            elif e[0] == "sub" and e[1] == ("phi", phi.id) and e[2][0] == "c": step.add(-e[2][1])
            else: return None
        else: init.add(vn.expr(v))
    if len(init) == 1 and len(step) == 1: return init.pop(), step.pop()
    return None


def _is(e, pred):
    while e and e[0] in ("zext", "sext", "trunc", "freeze"): e = e[1]
    return pred(e)


def index_covers(fn, vn, h, body, idx, is_extent, is_last=lambda e: False, live_exit=lambda p, s: True, use=None):
    """does the loop (h, body) visit idx = 0 .. extent-1?  None if yes, else why not.
    Accepts up and down counting, tests before or after the body."""
    from .vn import strip
    idx = strip(idx)
    ph = [i for i in fn.blocks[h] if i.op == "phi"]
    for p in ph:
        P = ("phi", p.id); ind = induction(fn, vn, p)
        if ind is None: continue
        init, step = ind
        init = strip(init)
        one = lambda e: e[0] == "add" and P in e[1:] and ("c", 1) in e[1:]
        dec = lambda e: e[0] == "add" and P in e[1:] and (("c", -1) in e[1:] or ("c", 0xffffffff) in e[1:]) or e[0] == "sub" and e[1] == P and e[2] == ("c", 1)
        if idx == P and step == 1 and init == ("c", 0): mode = "up"
        elif dec(idx) and step == -1 and _is(init, is_extent): mode = "down"
        elif idx == P and step == -1 and (_is(init, is_last) or init[0] in ("add", "sub") and _minus_one(init, is_extent)): mode = "downlast"
        else: continue
        why = None
        for a, b in exit_edges(fn, body):
            if not live_exit(a, b): continue
            ok = False
            # is the test made after the element was used in this round?
            post = h in fn.succs[a] if use is None else (use.blk == a or use.blk in fn.dom()[a])
            for f in vn.edge_facts(a, b):
                if len(f) != 3: continue
                pr, x, y = f[0], strip(f[1]), strip(f[2])
                if mode == "up":
                    if pr == "ule" and _is(x, is_extent) and (y == P or post and one(y)): ok = True
                    if pr == "ult" and _is(x, is_last) and y == P: ok = True
                    if pr == "ult" and x[0] == "c" and _is(("c", x[1] + 1), is_extent) and (y == P or post and one(y)): ok = True
                    if pr == "ule" and _is(x, is_last) and y == P and post: ok = True
                    if pr == "eq" and (y == P or one(y) or x == P or one(x)):
                        o = y if (x == P or one(x)) else x
                        v = x if (x == P or one(x)) else y
                        if _is(o, is_extent) and (v == P or post): ok = True
                        if _is(o, is_last) and v == P and post: ok = True
                else:
                    if pr == "eq" and y == ("c", 0) and (x == P and (mode == "down" or post) or dec(x) and post and mode == "down"): ok = True
                    if pr == "ule" and x == P and y == ("c", 0): ok = True
                    if pr == "ult" and x == P and y == ("c", 1): ok = True
                    if pr in ("slt",) and (x == P or dec(x)) and y == ("c", 0): ok = True
            if not ok:
                why = "it can end early at line %s" % fn.blocks[a][-1].ln; break
        if why is None: return None
        return why
    return "the visited index does not run over the whole extent"


def _minus_one(e, is_extent):
    if e[0] == "add": return any(c[0] == "c" and c[1] in (-1, 0xffffffff) for c in e[1:]) and any(_is(x, is_extent) for x in e[1:])
    return e[0] == "sub" and e[2] == ("c", 1) and _is(e[1], is_extent)
