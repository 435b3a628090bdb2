"""Stream vocabulary: who reads or writes the saved state."""
from .core import Broken
from .ir import *


def full_path(fn, op):
    """field path of an address through nested members, outermost first"""
    r = []
    while True:
        d = fn.idef(op)
        if d is None or d.op not in ("getelementptr", "bitcast"): return r
        if d.op == "getelementptr": r = [(x[1], x[2]) for x in d.path if x[0] == "f"] + r
        op = d.o[0]


class Stream:
    def __init__(self, cx):
        self.cx = cx; self.mod = mod = cx.mod
        # direct stream calls: through a parameter or a stored pointer of the writer type
        self.direct = []
        for fn in mod.fns.values():
            for i in fn.calls():
                if i.callee is not None or i.ty != "i8" or len(i.o) != 4: continue
                d = fn.idef(i.cv) if i.cv else None
                if d is not None and d.op == "load" and ("NKVM", "serializationState") in full_path(fn, d.o[0]): self.direct.append(i)
                elif i.cv and i.cv[0] == "a": self.direct.append(i)
                elif d is not None and d.op in ("phi", "select"): self.direct.append(i)
        if len(self.direct) < 20: raise Broken("stream calls not found")
        self.fns = {i.fn.name for i in self.direct}
        ch = True
        while ch:
            ch = False
            for n in list(self.fns):
                for c in mod.callers.get(n, ()):
                    if c.callee is None: continue
                    if c.fn.name not in self.fns: self.fns.add(c.fn.name); ch = True
        # functions that hand a result on
        self.checked = {n for n in self.fns if mod.fns[n].ret == "i8"}
        # callbacks of host/library data, run while saving or loading
        self.callbacks = []
        for fn in mod.fns.values():
            for i in fn.calls():
                if i.callee is None and any(c.endswith(".serializationCallback") for c in mod.cal(i)): self.callbacks.append(i)
        # the flag a failing stream call inside a callback sets
        self.flags = set()
        for n in self.fns:
            fn = mod.fns[n]
            for i in fn.all():
                if i.op == "store" and i.o[0][0] == "c" and i.o[0][1]:
                    p = full_path(fn, i.o[1])
                    if ("NKVM", "serializationState") in p: self.flags.add(tuple(p))

    def calls(self, fn):
        """calls in fn whose result says whether the stream worked"""
        return [i for i in fn.calls() if i in self.direct or (i.callee in self.checked)]

    def is_flag(self, fn, op): return tuple(full_path(fn, op)) in self.flags
