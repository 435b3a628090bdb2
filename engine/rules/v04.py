"""V04: the missing result of a lookup is never used as if it existed."""
from nk.core import Broken
from nk.nulls import Nulls
from nk.vn import show

META = {"level": "other", "technique": "interprocedural nullness dataflow: which functions, table slots, links and host callbacks may be null, and whether every use is dominated by a test",
        "note": "Covers results of every library function that may return null (except allocators, which only do so for size 0), table and bucket slots, list links, syntax-tree children, the current token, and optional host callbacks. Not covered: whether a compiler scope exists (C02) and whether an array pointer is null while its extent is 0 (V03).",
        "explains": "A function may return null when a return can be reached with a null constant, a nullable load or another nullable result (argument conditions kept). Every load, store, call or argument position that needs a valid pointer and receives a nullable one must be reached only through a branch that excludes null; a parameter used without a test makes its callers responsible. Indirect tests through helper functions (current token type, expression end) count when the helper returns a distinguishing constant for null."}

FIELDS = {("NKToken", "next"), ("NKTokenList", "first"), ("NKCompilerState", "currentToken"), ("NKVMExecutionContext", "parent"),
          ("NKError", "next"), ("NKErrorState", "firstError"), ("NKErrorState", "lastError"), ("NKVMTableHole", "next"),
          ("NKVMObject", "nextObjectWithExternalHandles"), ("NKVMObject", "previousExternalHandleListPtr"), ("NKVMObject", "externalData"),
          ("NKVMString", "nextInHashBucket"), ("NKVMObjectElement", "next"), ("NKExpressionAstNode", "stackNext"),
          ("NKVM", "objectsWithExternalHandles"), ("NKVMExternalType", "name"), ("NKVMExternalType", "gcMarkCallback"),
          ("NKVMExternalType", "cleanupCallback"), ("NKVMExternalType", "serializationCallback"), ("NKVMExternalFunction", "CFunctionCallback"),
          ("NKVMExternalSubsystemData", "serializationCallback"), ("NKVMExternalSubsystemData", "cleanupCallback"),
          ("NKVMExternalSubsystemData", "nextInHashTable")}
SLOTS = {("NKVMTable", "u"), ("NKVMTable", "objectTable"), ("NKVMTable", "stringTable"), ("NKVMObject", "hashBuckets"), ("NKVM", "stringsByHash"),
         ("NKVM", "subsystemDataTable"), ("NKExpressionAstNode", "children")}
# null only for a request of zero bytes
ALLOCATORS = {"nkiMalloc_real", "nkiMallocArray", "nkiRealloc", "nkiReallocArray", "nkiDefaultMalloc", "malloc", "realloc", "calloc"}
LOOKUPS = {"nkiVmObjectTableGetEntryById", "nkiVmStringTableGetEntryById", "nkiVmStringTableGetStringById", "nkiVmGetObjectFromValue",
           "nkiVmObjectFindOrAddEntry", "nkiVmObjectGetExternalData", "nkiFindExternalSubsystemData", "nkiVmFindGlobalVariable",
           "nkiVmGetExternalTypeName", "nkiCompilerLookupVariable", "nkiCompilerParseExpression", "nkiVmFindSourceMarker"}


def check(cx, tier):
    mod = cx.mod
    known = {f for s, f in FIELDS | SLOTS}
    N = Nulls(cx, FIELDS, SLOTS, ALLOCATORS)
    miss = [n for n in LOOKUPS if n not in N.nullfn]
    if len(miss) > 4: raise Broken("lookup functions not recognised: %s" % miss)
    for n in sorted(N.nullfn): cx.ok("may-fail", sample=n)
    for fn in mod.fns.values():
        vn = cx.vn(fn.name)
        for i, p, how in N.derefs(fn, vn):
            if p[0] == "a": continue
            why = N.maybe(vn, p, frozenset())
            if not why: continue
            cx.ok("use-of-nullable", sample="%s: %s %s" % (i.loc(), show(vn, p), how))
            w = N.unproved(fn, vn, i, p)
            if w: cx.bad("use-of-nullable", i, "%s may be null here (%s) and is %s" % (sh(vn, p), w, how), "%s/%s" % (w, how))
    cx.need("may-fail", 30)
    cx.need("use-of-nullable", 150)


def sh(vn, e):
    try: return show(vn, e)
    except Exception: return str(e)
