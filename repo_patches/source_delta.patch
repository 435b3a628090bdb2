From d0e36e650fc9849ca5493fcee8333068d7ea8c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:13 +0000
Subject: [PATCH 01/46] fix: return blocks to the host's allocator when
 deleting a catastrophically failed VM

---
 src/nkvm.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/nkvm.c b/src/nkvm.c
index e6cd7ee..ef5651b 100644
--- a/src/nkvm.c
+++ b/src/nkvm.c
@@ -290,7 +290,9 @@ void nkiVmDestroy(struct NKVM *vm)
 #if NK_EXTRA_FANCY_LEAK_TRACKING_LINUX
             free(vm->allocations->stackTrace);
 #endif
-            free(vm->allocations);
+            vm->freeReplacement(
+                vm->allocations,
+                vm->mallocAndFreeReplacementUserData);
             vm->allocations = next;
         }
 
-- 
2.43.0


From fb8b68a3befcd2b20bcf828733910dc90bc54e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:25 +0000
Subject: [PATCH 02/46] fix: reject strings whose table entry size would wrap
 around

---
 src/nkstring.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/nkstring.c b/src/nkstring.c
index 8158bd6..e871101 100644
--- a/src/nkstring.c
+++ b/src/nkstring.c
@@ -126,12 +126,19 @@ nkuint32_t nkiVmStringTableFindOrAddString(
         // yet, so we'll go ahead and make a new entry.
         {
             nkuint32_t len = nkiStrlen(str);
+            struct NKVMString *newString;
+            nkuint32_t index;
 
-            struct NKVMString *newString =
+            if(len >= NK_UINT_MAX - sizeof(struct NKVMString)) {
+                nkiAddError(vm, "String is too long to store.");
+                return NK_INVALID_VALUE;
+            }
+
+            newString =
                 (struct NKVMString *)nkiMalloc(
                     vm, sizeof(struct NKVMString) + len + 1);
 
-            nkuint32_t index = nkiTableAddEntry(vm, table, newString);
+            index = nkiTableAddEntry(vm, table, newString);
 
             if(index == NK_INVALID_VALUE) {
                 nkiFree(vm, newString);
-- 
2.43.0


From d01a485aef90338bee1c293d1ffbbc5021f79206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:25 +0000
Subject: [PATCH 03/46] fix: off-by-one in string literal concatenation length
 check

---
 src/nktoken.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/nktoken.c b/src/nktoken.c
index 9590642..ebf8bec 100644
--- a/src/nktoken.c
+++ b/src/nktoken.c
@@ -183,9 +183,11 @@ void nkiCompilerConsolidateStringLiterals(struct NKVM *vm, struct NKTokenList *t
             nkuint32_t len2 = nkiStrlen(tok->next->str);
             char *newStr;
 
-            // Truncate string for safety.
-            if(len2 > ~(nkuint32_t)0 - len1) {
-                len2 = ~(nkuint32_t)0 - len1;
+            // Don't make anything too big to have an addressable size
+            // (including terminator). Drop the second string instead.
+            if(len2 >= ~(nkuint32_t)0 - len1) {
+                len2 = 0;
+                next->str[0] = 0;
                 nkiAddError(vm, "String too long to concatenate.");
             }
 
-- 
2.43.0


From c738fb23ff2e330db199b382dacc907f294ba3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:30 +0000
Subject: [PATCH 04/46] fix: handle-count getter and nkxSerializeData need a
 recovery point before they can add errors

---
 src/nkx.c | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/nkx.c b/src/nkx.c
index d50e0e1..b270a4a 100644
--- a/src/nkx.c
+++ b/src/nkx.c
@@ -417,7 +417,12 @@ void nkxVmObjectReleaseHandle(struct NKVM *vm, struct NKValue *value)
 
 nkuint32_t nkxVmObjectGetExternalHandleCount(struct NKVM *vm, struct NKValue *value)
 {
-    return nkiVmObjectGetExternalHandleCount(vm, value);
+    nkuint32_t ret = 0;
+    NK_FAILURE_RECOVERY_DECL();
+    NK_SET_FAILURE_RECOVERY(ret);
+    ret = nkiVmObjectGetExternalHandleCount(vm, value);
+    NK_CLEAR_FAILURE_RECOVERY();
+    return ret;
 }
 
 void nkxSetUserData(struct NKVM *vm, void *userData)
@@ -974,15 +979,21 @@ nkbool nkxSerializerGetWriteMode(struct NKVM *vm)
 
 nkbool nkxSerializeData(struct NKVM *vm, void *data, nkuint32_t size)
 {
+    nkbool ret = nkfalse;
+    NK_FAILURE_RECOVERY_DECL();
+    NK_SET_FAILURE_RECOVERY(ret);
+
     if(!vm->serializationState.writer) {
         nkiAddError(vm, "Attempted to access serialization writer outside of serialization.");
-        return nkfalse;
+    } else {
+        ret = vm->serializationState.writer(
+            data, size,
+            vm->serializationState.userdata,
+            vm->serializationState.writeMode);
     }
 
-    return vm->serializationState.writer(
-        data, size,
-        vm->serializationState.userdata,
-        vm->serializationState.writeMode);
+    NK_CLEAR_FAILURE_RECOVERY();
+    return ret;
 }
 
 nkbool nkxInitSubsystem(
-- 
2.43.0


From 3e9c602a58ac900e95dedda444d5ab1a5d6e928d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:30 +0000
Subject: [PATCH 05/46] fix: no error allocation in the cleanup-safe object
 lookup

---
 src/nkobjs.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/nkobjs.c b/src/nkobjs.c
index 8384f1a..78ecd92 100644
--- a/src/nkobjs.c
+++ b/src/nkobjs.c
@@ -277,7 +277,6 @@ struct NKValue *nkiVmObjectFindOrAddEntry(
 struct NKVMObject *nkiVmGetObjectFromValue(struct NKVM *vm, struct NKValue *value)
 {
     if(!value) {
-        nkiAddError(vm, "Bad value in nkiVmGetObjectFromValue.");
         return NULL;
     }
 
-- 
2.43.0


From da7ca2241fbd10aaa0576bb79f7c1a75e68a8cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:53 +0000
Subject: [PATCH 06/46] fix: running out of memory while deleting a VM leaked
 everything left

---
 src/nkvm.c | 40 +++++++++++++++++++++++++---------------
 1 file changed, 25 insertions(+), 15 deletions(-)

diff --git a/src/nkvm.c b/src/nkvm.c
index ef5651b..d4ba8c5 100644
--- a/src/nkvm.c
+++ b/src/nkvm.c
@@ -259,6 +259,22 @@ void nkiVmInit(struct NKVM *vm)
     nkxCoroutineLibrary_init(vm);
 }
 
+// Catastrophic failure cleanup mode. Do not trust most internal
+// pointers and use the allocation tracker directly.
+static void nkiVmFreeAllAllocations(struct NKVM *vm)
+{
+    while(vm->allocations) {
+        struct NKMemoryHeader *next = vm->allocations->nextAllocation;
+#if NK_EXTRA_FANCY_LEAK_TRACKING_LINUX
+        free(vm->allocations->stackTrace);
+#endif
+        vm->freeReplacement(
+            vm->allocations,
+            vm->mallocAndFreeReplacementUserData);
+        vm->allocations = next;
+    }
+}
+
 void nkiVmDestroy(struct NKVM *vm)
 {
     // The external data table is still good, regardless of allocation
@@ -281,20 +297,7 @@ void nkiVmDestroy(struct NKVM *vm)
 
     if(vm->errorState.allocationFailure) {
 
-        // Catastrophic failure cleanup mode. Do not trust most
-        // internal pointers and use the allocation tracker directly.
-
-        // Now just free every allocation we've made.
-        while(vm->allocations) {
-            struct NKMemoryHeader *next = vm->allocations->nextAllocation;
-#if NK_EXTRA_FANCY_LEAK_TRACKING_LINUX
-            free(vm->allocations->stackTrace);
-#endif
-            vm->freeReplacement(
-                vm->allocations,
-                vm->mallocAndFreeReplacementUserData);
-            vm->allocations = next;
-        }
+        nkiVmFreeAllAllocations(vm);
 
 #if NK_EXTRA_FANCY_LEAK_TRACKING_LINUX
         nkiDumpLeakData(vm);
@@ -306,7 +309,14 @@ void nkiVmDestroy(struct NKVM *vm)
 
         NK_FAILURE_RECOVERY_DECL();
 
-        NK_SET_FAILURE_RECOVERY_VOID();
+        NK_SET_FAILURE_RECOVERY_BASE();
+        if(setjmp(catastrophicFailureJmpBuf)) {
+            // Something in here (a cleanup callback, for example) ran
+            // out of memory. Give back everything that's left.
+            NK_CLEAR_FAILURE_RECOVERY();
+            nkiVmFreeAllAllocations(vm);
+            return;
+        }
 
         // Nuke the entire static address space and stack, then force
         // a final garbage collection pass before we start making the
-- 
2.43.0


From 048b1e02b3f261048914864b004105dac79a3a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:53 +0000
Subject: [PATCH 07/46] fix: pass on catastrophic failures from GC, cleanup and
 serialization callbacks

---
 src/nkgc.c   | 6 ++++++
 src/nkobjs.c | 6 ++++++
 src/nksave.c | 3 +++
 3 files changed, 15 insertions(+)

diff --git a/src/nkgc.c b/src/nkgc.c
index 8ffbef8..98cfe10 100644
--- a/src/nkgc.c
+++ b/src/nkgc.c
@@ -181,6 +181,12 @@ void nkiVmGarbageCollect_markObject(
                 val.objectId = ob->objectTableIndex;
 
                 callback(vm, &val, ob->externalData, gcState);
+
+                // Pass on catastrophic failures from inside the
+                // callback. We can't continue with marks missing.
+                if(NK_CHECK_CATASTROPHE()) {
+                    NK_CATASTROPHE();
+                }
             }
         }
     }
diff --git a/src/nkobjs.c b/src/nkobjs.c
index 78ecd92..4c3f655 100644
--- a/src/nkobjs.c
+++ b/src/nkobjs.c
@@ -154,6 +154,12 @@ void nkiVmObjectTableCleanupObject(
 
                     cleanupCallback(vm, &val, ob->externalData);
                     ob->externalData = NULL;
+
+                    // Pass on catastrophic failures from inside the
+                    // callback.
+                    if(NK_CHECK_CATASTROPHE()) {
+                        NK_CATASTROPHE();
+                    }
                 }
 
             } else {
diff --git a/src/nksave.c b/src/nksave.c
index 4fa3d9c..a4b3efa 100644
--- a/src/nksave.c
+++ b/src/nksave.c
@@ -210,6 +210,9 @@ nkbool nkiSerializeErrorState(
         NKI_SERIALIZE_PUSHSERIALIZERSTATE();    \
         x;                                      \
         NKI_SERIALIZE_POPSERIALIZERSTATE();     \
+        if(NK_CHECK_CATASTROPHE()) {            \
+            NK_CATASTROPHE();                   \
+        }                                       \
     } while(0)
 
 nkbool nkiSerializeObject(
-- 
2.43.0


From 61c94276450d42289a5d2ebd798581626c594543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:53 +0000
Subject: [PATCH 08/46] fix: don't swallow catastrophic failures in callable
 object lookup

---
 src/nkopcode.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nkopcode.c b/src/nkopcode.c
index 4997d01..0f2d969 100644
--- a/src/nkopcode.c
+++ b/src/nkopcode.c
@@ -501,12 +501,12 @@ void nkiOpcode_call(struct NKVM *vm)
             }
 
             // Check for the function call field.
-            nkxValueSetString(vm, &index, "_exec");
+            nkiValueSetString(vm, &index, "_exec");
             functionIdValue = nkiVmObjectFindOrAddEntry_public(
                 vm, objectIdValue, &index, nktrue);
 
             // Check for the data field.
-            nkxValueSetString(vm, &index, "_data");
+            nkiValueSetString(vm, &index, "_data");
             callableObjectData = nkiVmObjectFindOrAddEntry_public(
                 vm, objectIdValue, &index, nktrue);
 
-- 
2.43.0


From fae1cefb2dbad7db24190dca2fba8870445b03d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:23 +0000
Subject: [PATCH 09/46] fix: host allocator callbacks were not given their user
 data pointer

---
 src/nkx.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/nkx.c b/src/nkx.c
index b270a4a..95a51d3 100644
--- a/src/nkx.c
+++ b/src/nkx.c
@@ -78,6 +78,8 @@ struct NKVM *nkxVmCreateEx(
     nkiMemset(vm, 0, sizeof(*vm));
     vm->mallocReplacement = params->mallocReplacement;
     vm->freeReplacement = params->freeReplacement;
+    vm->mallocAndFreeReplacementUserData =
+        params->mallocAndFreeReplacementUserData;
 
     NK_SET_FAILURE_RECOVERY(vm);
 
-- 
2.43.0


From 1b1d1a88827fb97faac16fa330f1782469dfbd58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:20 +0000
Subject: [PATCH 10/46] fix: is_finished() leaves the stack depth unchanged,
 declare it so

The instruction replaces its operand by the result, but was declared to
grow the stack, so locals declared after it were addressed wrongly.
---
 src/nkvm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nkvm.c b/src/nkvm.c
index d4ba8c5..b086e91 100644
--- a/src/nkvm.c
+++ b/src/nkvm.c
@@ -127,7 +127,7 @@ static void nkiVmInitOpcodeTable(void)
     NK_SETUP_OP(NK_OP_COROUTINE_CREATE,       nkiOpcode_coroutineCreate,        1);
     NK_SETUP_OP(NK_OP_COROUTINE_YIELD,        nkiOpcode_coroutineYield,         0);
     NK_SETUP_OP(NK_OP_COROUTINE_RESUME,       nkiOpcode_coroutineResume,        -1);
-    NK_SETUP_OP(NK_OP_COROUTINE_ISFINISHED,   nkiOpcode_coroutineIsFinished,    1);
+    NK_SETUP_OP(NK_OP_COROUTINE_ISFINISHED,   nkiOpcode_coroutineIsFinished,    0);
 
     NK_SETUP_OP(NK_OP_PUSHNIL,                nkiOpcode_pushNil,                1);
 
-- 
2.43.0


From faae6fa17fe87c3c3b0a9fab7388be9f6bc9d8bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:57 +0000
Subject: [PATCH 11/46] fix: array allocation helpers divided by a zero element
 size

---
 src/nkmem.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nkmem.c b/src/nkmem.c
index 40173cb..9d6315b 100644
--- a/src/nkmem.c
+++ b/src/nkmem.c
@@ -290,7 +290,7 @@ char *nkiStrdup(struct NKVM *vm, const char *str)
 // function to wrap all of them safely.
 void *nkiMallocArray(struct NKVM *vm, nkuint32_t size, nkuint32_t count)
 {
-    if(count >= ~(nkuint32_t)0 / size) {
+    if(size && count >= ~(nkuint32_t)0 / size) {
         nkiErrorStateSetAllocationFailFlag(vm);
         NK_CATASTROPHE();
         assert(0);
@@ -303,7 +303,7 @@ void *nkiMallocArray(struct NKVM *vm, nkuint32_t size, nkuint32_t count)
 // Thanks AFL! Looks like we needed one for realloc, too.
 void *nkiReallocArray(struct NKVM *vm, void *data, nkuint32_t size, nkuint32_t count)
 {
-    if(count >= ~(nkuint32_t)0 / size) {
+    if(size && count >= ~(nkuint32_t)0 / size) {
         nkiErrorStateSetAllocationFailFlag(vm);
         NK_CATASTROPHE();
         assert(0);
-- 
2.43.0


From 423e745e7b51287278e60b459640a3f66944c632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:57 +0000
Subject: [PATCH 12/46] fix: a stack created on demand got a zero sized block

---
 src/nkstack.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nkstack.c b/src/nkstack.c
index dc9fffc..b44bf8a 100644
--- a/src/nkstack.c
+++ b/src/nkstack.c
@@ -71,9 +71,10 @@ struct NKValue *nkiVmStackPush_internal(struct NKVM *vm)
         stack->values = (struct NKValue *)nkiReallocArray(
             vm,
             stack->values,
-            stack->capacity, sizeof(struct NKValue));
+            sizeof(struct NKValue), 1);
         nkiMemset(stack->values, 0, sizeof(struct NKValue));
         stack->capacity = 1;
+        stack->indexMask = 0;
     }
 
     // Grow the stack if necessary.
-- 
2.43.0


From 64da5c3fca3e8122751dbcfb797d5192e1a6c844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:23 +0000
Subject: [PATCH 13/46] fix: integer overflow in script arithmetic and constant
 folding was undefined

---
 src/nkopcode.c | 14 +++++++-------
 src/nkopt.c    | 16 +++++++++-------
 2 files changed, 16 insertions(+), 14 deletions(-)

diff --git a/src/nkopcode.c b/src/nkopcode.c
index 0f2d969..9b78d71 100644
--- a/src/nkopcode.c
+++ b/src/nkopcode.c
@@ -56,8 +56,8 @@ void nkiOpcode_add(struct NKVM *vm)
 
             nkiVmStackPushInt(
                 vm,
-                in1->intData +
-                nkiValueToInt(vm, in2));
+                (nkint32_t)((nkuint32_t)in1->intData +
+                    (nkuint32_t)nkiValueToInt(vm, in2)));
             break;
 
         case NK_VALUETYPE_FLOAT:
@@ -164,8 +164,8 @@ void nkiOpcode_subtract(struct NKVM *vm)
         case NK_VALUETYPE_INT:
             nkiVmStackPushInt(
                 vm,
-                in1->intData -
-                nkiValueToInt(vm, in2));
+                (nkint32_t)((nkuint32_t)in1->intData -
+                    (nkuint32_t)nkiValueToInt(vm, in2)));
             break;
 
         case NK_VALUETYPE_FLOAT:
@@ -200,8 +200,8 @@ void nkiOpcode_multiply(struct NKVM *vm)
         case NK_VALUETYPE_INT:
             nkiVmStackPushInt(
                 vm,
-                in1->intData *
-                nkiValueToInt(vm, in2));
+                (nkint32_t)((nkuint32_t)in1->intData *
+                    (nkuint32_t)nkiValueToInt(vm, in2)));
             break;
 
         case NK_VALUETYPE_FLOAT:
@@ -325,7 +325,7 @@ void nkiOpcode_negate(struct NKVM *vm)
         case NK_VALUETYPE_INT: {
             nkiVmStackPushInt(
                 vm,
-                -(in1->intData));
+                (nkint32_t)(0u - (nkuint32_t)in1->intData));
         } break;
 
         case NK_VALUETYPE_FLOAT: {
diff --git a/src/nkopt.c b/src/nkopt.c
index 8507c0e..b2e697c 100644
--- a/src/nkopt.c
+++ b/src/nkopt.c
@@ -85,28 +85,30 @@ struct NKExpressionAstNode *nkiCompilerMakeImmediateExpressionNode(
     return newNode;
 }
 
-#define NK_APPLY_MATH()                                                 \
+/* wrapType is the type to do everything but division in, so that */
+/* integer overflow wraps the same way it does at run time.      */
+#define NK_APPLY_MATH(wrapType)                                         \
     do {                                                                \
         switch((*node)->opOrValue->type) {                              \
                                                                         \
             case NK_TOKENTYPE_PLUS:                                     \
                 /* Addition. */                                         \
-                val = c0Val + c1Val;                                    \
+                val = (wrapType)c0Val + (wrapType)c1Val;                \
                 break;                                                  \
                                                                         \
             case NK_TOKENTYPE_MINUS:                                    \
                 if(!(*node)->children[1]) {                             \
                     /* Unary negation. */                               \
-                    val = -c0Val;                                       \
+                    val = -(wrapType)c0Val;                             \
                 } else {                                                \
                     /* Subtraction. */                                  \
-                    val = c0Val - c1Val;                                \
+                    val = (wrapType)c0Val - (wrapType)c1Val;            \
                 }                                                       \
                 break;                                                  \
                                                                         \
             case NK_TOKENTYPE_MULTIPLY:                                 \
                 /* Multiplication. */                                   \
-                val = c0Val * c1Val;                                    \
+                val = (wrapType)c0Val * (wrapType)c1Val;                \
                 break;                                                  \
                                                                         \
             case NK_TOKENTYPE_DIVIDE:                                   \
@@ -188,7 +190,7 @@ void nkiCompilerOptimizeConstants(
                     char tmp[NK_PRINTF_INTCHARSNEED];
 
                     // Do the actual operation.
-                    NK_APPLY_MATH();
+                    NK_APPLY_MATH(nkuint32_t);
 
                     // TODO: Use sprintf_s on non-DOS systems.
 
@@ -211,7 +213,7 @@ void nkiCompilerOptimizeConstants(
                     char tmp[NK_PRINTF_FLOATCHARSNEEDED + 1];
 
                     // Do the actual operation.
-                    NK_APPLY_MATH();
+                    NK_APPLY_MATH(float);
 
                     // We aren't using sprintf_s here for DOS
                     // compatibility.
-- 
2.43.0


From 703b9edb2bb204cc1cea9c6206510fd0f60b7058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:23 +0000
Subject: [PATCH 14/46] fix: converting an out of range float to an integer was
 undefined

---
 src/nkvalue.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/nkvalue.c b/src/nkvalue.c
index ea887c0..58f15f6 100644
--- a/src/nkvalue.c
+++ b/src/nkvalue.c
@@ -102,7 +102,15 @@ nkint32_t nkiValueToInt(struct NKVM *vm, struct NKValue *value)
             return value->intData;
 
         case NK_VALUETYPE_FLOAT:
-            return (int)value->floatData;
+            // Converting a value that does not fit is undefined in C, so
+            // saturate instead.
+            if(value->floatData >= 2147483648.0f) {
+                return 2147483647L;
+            }
+            if(!(value->floatData >= -2147483648.0f)) {
+                return -2147483647L - 1;
+            }
+            return (nkint32_t)value->floatData;
 
         case NK_VALUETYPE_STRING:
         {
-- 
2.43.0


From 290cd5eaed89e34373c34a44a42fd289b7454363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:32 +0000
Subject: [PATCH 15/46] fix: line counter overflow after a huge #line directive
 was undefined

---
 src/nktoken.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nktoken.c b/src/nktoken.c
index ebf8bec..f217cee 100644
--- a/src/nktoken.c
+++ b/src/nktoken.c
@@ -438,7 +438,7 @@ nkbool nkiCompilerTokenize(
         // Skip whitespace.
         while(i < len && nkiCompilerIsWhitespace(str[i])) {
             if(str[i] == '\n') {
-                lineNumber++;
+                lineNumber = (nkint32_t)((nkuint32_t)lineNumber + 1u);
                 actualLineNumber++;
             }
             i++;
-- 
2.43.0


From fefdea4a0a0b1db3f96d030fbc48851a49efb32a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:12 +0000
Subject: [PATCH 16/46] fix: a stream failure inside an external data
 serialization callback was reported as success

---
 src/nkcorout.c | 2 ++
 src/nksave.c   | 6 +++++-
 src/nkvm.h     | 1 +
 src/nkx.c      | 4 ++++
 4 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/nkcorout.c b/src/nkcorout.c
index 4377e5b..84d65d4 100644
--- a/src/nkcorout.c
+++ b/src/nkcorout.c
@@ -112,6 +112,7 @@ void nkiCoroutineLibrary_coroutineSerializeData(
                 vm, objectValue);
             nkiVmDeinitExecutionContext(vm, context);
             nkiFree(vm, context);
+            vm->serializationState.failed = nktrue;
             nkiAddError(vm, "Failed to set execution context for coroutine.");
             return;
         }
@@ -124,6 +125,7 @@ void nkiCoroutineLibrary_coroutineSerializeData(
                 vm->serializationState.userdata,
                 vm->serializationState.writeMode))
         {
+            vm->serializationState.failed = nktrue;
             nkiAddError(vm, "Coroutine serialization failed.");
         }
     } else {
diff --git a/src/nksave.c b/src/nksave.c
index a4b3efa..90a8442 100644
--- a/src/nksave.c
+++ b/src/nksave.c
@@ -198,7 +198,8 @@ nkbool nkiSerializeErrorState(
     nkbool oldWriteMode = vm->serializationState.writeMode;             \
     vm->serializationState.writer = writer;                             \
     vm->serializationState.userdata = userdata;                         \
-    vm->serializationState.writeMode = writeMode;
+    vm->serializationState.writeMode = writeMode;                       \
+    vm->serializationState.failed = nkfalse;
 
 #define NKI_SERIALIZE_POPSERIALIZERSTATE()              \
     vm->serializationState.userdata = oldUserdata;      \
@@ -213,6 +214,9 @@ nkbool nkiSerializeErrorState(
         if(NK_CHECK_CATASTROPHE()) {            \
             NK_CATASTROPHE();                   \
         }                                       \
+        if(vm->serializationState.failed) {     \
+            return nkfalse;                     \
+        }                                       \
     } while(0)
 
 nkbool nkiSerializeObject(
diff --git a/src/nkvm.h b/src/nkvm.h
index efaad10..0d67b68 100644
--- a/src/nkvm.h
+++ b/src/nkvm.h
@@ -256,6 +256,7 @@ struct NKVM
         NKVMSerializationWriter writer;
         void *userdata;
         nkbool writeMode;
+        nkbool failed; // Set if anything failed inside a callback.
     } serializationState;
 
     nkuint32_t instructionsLeftBeforeTimeout;
diff --git a/src/nkx.c b/src/nkx.c
index 95a51d3..447fd59 100644
--- a/src/nkx.c
+++ b/src/nkx.c
@@ -992,6 +992,10 @@ nkbool nkxSerializeData(struct NKVM *vm, void *data, nkuint32_t size)
             data, size,
             vm->serializationState.userdata,
             vm->serializationState.writeMode);
+
+        if(!ret) {
+            vm->serializationState.failed = nktrue;
+        }
     }
 
     NK_CLEAR_FAILURE_RECOVERY();
-- 
2.43.0


From e2a4b9de97e8d13565afd7d087f589ee4c861daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:44 +0000
Subject: [PATCH 17/46] fix: a failed load left a global variable count without
 its table

---
 src/nksave.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/nksave.c b/src/nksave.c
index 90a8442..f4a2188 100644
--- a/src/nksave.c
+++ b/src/nksave.c
@@ -950,6 +950,7 @@ nkbool nkiSerializeGlobalsList(
         }
         nkiFree(vm, vm->globalVariables);
         vm->globalVariables = NULL;
+        vm->globalVariableCount = 0;
     }
 
     NKI_SERIALIZE_BASIC(nkuint32_t, globalVariableCount);
-- 
2.43.0


From 4cdae3d9c9b84117b3cafb0f169842ae979774fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:02 +0000
Subject: [PATCH 18/46] fix: compiler recursion counter was not balanced, so
 long scripts hit the recursion limit

---
 src/nkcompil.c | 22 ++++++++++++++++++++--
 src/nkexpr.c   |  2 ++
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/nkcompil.c b/src/nkcompil.c
index 78d3843..17eba91 100644
--- a/src/nkcompil.c
+++ b/src/nkcompil.c
@@ -417,6 +417,7 @@ nkbool nkiCompilerCompileStatement(struct NKCompilerState *cs)
 
     if(nkiCompilerCurrentTokenType(cs) == NK_TOKENTYPE_INVALID) {
         nkiCompilerAddError(cs, "Ran out of tokens to parse.");
+        nkiCompilerPopRecursion(cs);
         return nkfalse;
     }
 
@@ -424,15 +425,24 @@ nkbool nkiCompilerCompileStatement(struct NKCompilerState *cs)
 
         case NK_TOKENTYPE_VAR:
             // "var" = Variable declaration.
-            return nkiCompilerCompileVariableDeclaration(cs);
+            if(!nkiCompilerCompileVariableDeclaration(cs)) {
+                nkiCompilerPopRecursion(cs);
+                return nkfalse;
+            }
+            break;
 
         case NK_TOKENTYPE_RETURN:
             // "return" = Return statement.
-            return nkiCompilerCompileReturnStatement(cs);
+            if(!nkiCompilerCompileReturnStatement(cs)) {
+                nkiCompilerPopRecursion(cs);
+                return nkfalse;
+            }
+            break;
 
         case NK_TOKENTYPE_CURLYBRACE_OPEN:
             // Curly braces mean we need to parse a block.
             if(!nkiCompilerCompileBlock(cs, nkfalse)) {
+                nkiCompilerPopRecursion(cs);
                 return nkfalse;
             }
             break;
@@ -440,6 +450,7 @@ nkbool nkiCompilerCompileStatement(struct NKCompilerState *cs)
         case NK_TOKENTYPE_IF:
             // "if" statements.
             if(!nkiCompilerCompileIfStatement(cs)) {
+                nkiCompilerPopRecursion(cs);
                 return nkfalse;
             }
             break;
@@ -447,6 +458,7 @@ nkbool nkiCompilerCompileStatement(struct NKCompilerState *cs)
         case NK_TOKENTYPE_WHILE:
             // "while" statements.
             if(!nkiCompilerCompileWhileStatement(cs)) {
+                nkiCompilerPopRecursion(cs);
                 return nkfalse;
             }
             break;
@@ -454,6 +466,7 @@ nkbool nkiCompilerCompileStatement(struct NKCompilerState *cs)
         case NK_TOKENTYPE_DO:
             // "do/while" statements.
             if(!nkiCompilerCompileDoWhileStatement(cs)) {
+                nkiCompilerPopRecursion(cs);
                 return nkfalse;
             }
             break;
@@ -461,6 +474,7 @@ nkbool nkiCompilerCompileStatement(struct NKCompilerState *cs)
         case NK_TOKENTYPE_FOR:
             // "for" statements.
             if(!nkiCompilerCompileForStatement(cs)) {
+                nkiCompilerPopRecursion(cs);
                 return nkfalse;
             }
             break;
@@ -468,6 +482,7 @@ nkbool nkiCompilerCompileStatement(struct NKCompilerState *cs)
         case NK_TOKENTYPE_BREAK:
             // "break" statements.
             if(!nkiCompilerCompileBreakStatement(cs)) {
+                nkiCompilerPopRecursion(cs);
                 return nkfalse;
             }
             break;
@@ -478,6 +493,7 @@ nkbool nkiCompilerCompileStatement(struct NKCompilerState *cs)
             struct NKToken *nextToken = nkiCompilerPeekToken(cs);
             if(nextToken && nextToken->type == NK_TOKENTYPE_IDENTIFIER) {
                 if(!nkiCompilerCompileFunctionDefinition(cs, nkfalse, NULL)) {
+                    nkiCompilerPopRecursion(cs);
                     return nkfalse;
                 }
                 break;
@@ -488,6 +504,7 @@ nkbool nkiCompilerCompileStatement(struct NKCompilerState *cs)
         default:
             // Fall back to just parsing an expression.
             if(!nkiCompilerCompileExpression(cs, nktrue)) {
+                nkiCompilerPopRecursion(cs);
                 return nkfalse;
             }
 
@@ -575,6 +592,7 @@ nkbool nkiCompilerCompileBlock(struct NKCompilerState *cs, nkbool noBracesOrCont
         noBracesOrContext)
     {
         nkiCompilerAddError(cs, "Extra closing curly brace.");
+        nkiCompilerPopRecursion(cs);
         return nkfalse;
     }
 
diff --git a/src/nkexpr.c b/src/nkexpr.c
index 9c605a1..95acae6 100644
--- a/src/nkexpr.c
+++ b/src/nkexpr.c
@@ -869,6 +869,7 @@ nkbool nkiCompilerEmitExpression(struct NKCompilerState *cs, struct NKExpression
     }
 
     if(!node) {
+        nkiCompilerPopRecursion(cs);
         return nkfalse;
     }
 
@@ -1012,6 +1013,7 @@ nkbool nkiCompilerEmitExpression(struct NKCompilerState *cs, struct NKExpression
             } else {
 
                 nkiCompilerAddError(cs, "Corrupted AST in FSE creation.");
+                nkiCompilerPopRecursion(cs);
                 return nkfalse;
             }
 
-- 
2.43.0


From 5be9fec0386dad1d3959047e85dac179f92d7dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:13 +0000
Subject: [PATCH 19/46] fix: a long operator chain overflowed the native stack
 in the compiler

---
 src/nkexpr.c | 51 +++++++++++++++++++++++++++++++++++----------------
 1 file changed, 35 insertions(+), 16 deletions(-)

diff --git a/src/nkexpr.c b/src/nkexpr.c
index 95acae6..5d1999a 100644
--- a/src/nkexpr.c
+++ b/src/nkexpr.c
@@ -43,26 +43,35 @@
 
 #include "nkcommon.h"
 
-// TODO: Make a non-recursive version of this.
+// This is not recursive, because the parser can build trees (long
+// operator chains and parameter lists) much deeper than the native
+// stack could handle. Left children are rotated out of the way until
+// the node we're on has no left child, so it can be freed before
+// moving on to its right child.
 void nkiCompilerDeleteExpressionNode(struct NKVM *vm, struct NKExpressionAstNode *node)
 {
-    if(!node) {
-        return;
-    }
+    while(node) {
 
-    if(node->ownedToken) {
-        nkiCompilerDeleteToken(vm, node->opOrValue);
-        node->opOrValue = NULL;
-    }
+        struct NKExpressionAstNode *next = node->children[0];
 
-    if(node->children[0]) {
-        nkiCompilerDeleteExpressionNode(vm, node->children[0]);
-    }
-    if(node->children[1]) {
-        nkiCompilerDeleteExpressionNode(vm, node->children[1]);
-    }
+        if(next) {
+
+            node->children[0] = next->children[1];
+            next->children[1] = node;
+
+        } else {
+
+            next = node->children[1];
 
-    nkiFree(vm, node);
+            if(node->ownedToken) {
+                nkiCompilerDeleteToken(vm, node->opOrValue);
+            }
+
+            nkiFree(vm, node);
+        }
+
+        node = next;
+    }
 }
 
 nkbool nkiCompilerIsSubexpressionEndingToken(struct NKToken *token)
@@ -1079,6 +1088,10 @@ struct NKExpressionAstNode *nkiCompilerCloneExpressionTree(
         return NULL;
     }
 
+    if(!nkiCompilerPushRecursion(cs)) {
+        return NULL;
+    }
+
     newNode = (struct NKExpressionAstNode *)nkiMalloc(
         cs->vm, sizeof(struct NKExpressionAstNode));
     nkiMemset(newNode, 0, sizeof(*newNode));
@@ -1100,6 +1113,7 @@ struct NKExpressionAstNode *nkiCompilerCloneExpressionTree(
     newNode->children[0] = nkiCompilerCloneExpressionTree(cs, node->children[0]);
     newNode->children[1] = nkiCompilerCloneExpressionTree(cs, node->children[1]);
 
+    nkiCompilerPopRecursion(cs);
     return newNode;
 }
 
@@ -1296,7 +1310,12 @@ struct NKExpressionAstNode *nkiCompilerCompileExpressionWithoutEmit(
     if(node) {
         nkiCompilerExpressionExpandIncrementsAndDecrements(
             cs, node, returnValueCanBeDiscarded);
-        nkiCompilerOptimizeConstants(cs->vm, &node);
+
+        // The recursion limit check inside the increment/decrement
+        // expansion rejects trees too deep for the optimizer, too.
+        if(!nkiGetErrorCount(cs->vm)) {
+            nkiCompilerOptimizeConstants(cs->vm, &node);
+        }
     }
 
     if(nkiGetErrorCount(cs->vm)) {
-- 
2.43.0


From 2bacf512c3e0b1451dc3d66763ae92dc7aeeb7b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:59 +0000
Subject: [PATCH 20/46] fix: a coroutine object without a context crashed
 resume, finished tests, shrinking, dumping and loading

---
 src/nkdbg.c    | 4 +++-
 src/nkopcode.c | 7 ++++++-
 src/nksave.c   | 1 +
 src/nkshrink.c | 4 +++-
 4 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/nkdbg.c b/src/nkdbg.c
index d25e48a..01e5eba 100644
--- a/src/nkdbg.c
+++ b/src/nkdbg.c
@@ -269,7 +269,9 @@ void nkiDbgDumpState(struct NKVM *vm, const char *script, FILE *stream)
             }
             fprintf(stream, "      externalDataType: " NK_PRINTF_UINT32 "\n", ob->externalDataType.id);
 
-            if(ob->externalDataType.id == vm->internalObjectTypes.coroutine.id) {
+            if(ob->externalData &&
+                ob->externalDataType.id == vm->internalObjectTypes.coroutine.id)
+            {
                 fprintf(stream, "      coroutine data:\n");
                 nkiDbgDumpExecutionContext(vm, stream, (struct NKVMExecutionContext*)ob->externalData);
             }
diff --git a/src/nkopcode.c b/src/nkopcode.c
index 9b78d71..a61d820 100644
--- a/src/nkopcode.c
+++ b/src/nkopcode.c
@@ -1285,7 +1285,7 @@ void nkiOpcode_coroutineResume(struct NKVM *vm)
             (struct NKVMExecutionContext *)nkxVmObjectGetExternalData(
                 vm, &coroutine);
 
-        if(context->coroutineState == NK_COROUTINE_INVALID) {
+        if(!context || context->coroutineState == NK_COROUTINE_INVALID) {
             nkiAddError(vm, "Tried to resume an invalid coroutine.");
             return;
         }
@@ -1350,6 +1350,11 @@ void nkiOpcode_coroutineIsFinished(struct NKVM *vm)
             (struct NKVMExecutionContext *)nkxVmObjectGetExternalData(
                 vm, &coroutine);
 
+        if(!context) {
+            nkiAddError(vm, "Tried to check for a finished coroutine with an invalid coroutine.");
+            return;
+        }
+
         returnValue.type = NK_VALUETYPE_INT;
         returnValue.intData = 0;
 
diff --git a/src/nksave.c b/src/nksave.c
index f4a2188..6e534d5 100644
--- a/src/nksave.c
+++ b/src/nksave.c
@@ -1362,6 +1362,7 @@ nkbool nkiSerializeActiveCoroutines(
                 executionContext = &vm->rootExecutionContext;
             } else if(inValue.type == NK_VALUETYPE_OBJECTID &&
                 object &&
+                object->externalData &&
                 object->externalDataType.id == vm->internalObjectTypes.coroutine.id)
             {
                 executionContext = (struct NKVMExecutionContext*)object->externalData;
diff --git a/src/nkshrink.c b/src/nkshrink.c
index 53d6e84..d5f6142 100644
--- a/src/nkshrink.c
+++ b/src/nkshrink.c
@@ -269,7 +269,9 @@ void nkiVmShrink(struct NKVM *vm)
         {
             struct NKVMExecutionContext *context =
                 (struct NKVMExecutionContext *)ob->externalData;
-            nkiVmShrinkStack(vm, &context->stack);
+            if(context) {
+                nkiVmShrinkStack(vm, &context->stack);
+            }
         }
     }
 }
-- 
2.43.0


From 4cc52bd6139f3fef19cd32ae5ee2a65638b249d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:52 +0000
Subject: [PATCH 21/46] fix: a field refused by the object size limit stayed in
 the object

---
 src/nkobjs.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/nkobjs.c b/src/nkobjs.c
index 4c3f655..5d1bf49 100644
--- a/src/nkobjs.c
+++ b/src/nkobjs.c
@@ -255,6 +255,13 @@ struct NKValue *nkiVmObjectFindOrAddEntry(
             return NULL;
         }
 
+        if(ob->size >= vm->limits.maxFieldsPerObject) {
+
+            nkiAddError(vm, "Reached object field count limit.");
+
+            return NULL;
+        }
+
         el = (struct NKVMObjectElement *)nkiMalloc(
             vm, sizeof(struct NKVMObjectElement));
         nkiMemset(el, 0, sizeof(struct NKVMObjectElement));
@@ -263,13 +270,6 @@ struct NKValue *nkiVmObjectFindOrAddEntry(
         *obList = el;
 
         ob->size++;
-        if(!ob->size || ob->size > vm->limits.maxFieldsPerObject) {
-            ob->size--;
-
-            nkiAddError(vm, "Reached object field count limit.");
-
-            return NULL;
-        }
     }
 
     return &el->value;
-- 
2.43.0


From febdf493927299c1db00d158539d5f789219b17f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:26 +0000
Subject: [PATCH 22/46] fix: instructions were executed although an error was
 already pending

---
 src/nkfunc.c |  6 ++++++
 src/nkvm.c   |  5 +++++
 src/nkx.c    | 10 +++++-----
 3 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/nkfunc.c b/src/nkfunc.c
index 00339f6..83d08c0 100644
--- a/src/nkfunc.c
+++ b/src/nkfunc.c
@@ -94,6 +94,12 @@ void nkiVmCallFunction(
         // Push argument count.
         nkiVmStackPushInt(vm, argumentCount);
 
+        // Don't run anything if an error is already pending (which
+        // includes running out of stack space just now).
+        if(nkiVmHasErrors(vm)) {
+            return;
+        }
+
         // Set the instruction pointer to a special return value we
         // use for external calls into the VM. This will push a
         // NK_UINT_MAX-1 pointer onto the stack, which the VM will
diff --git a/src/nkvm.c b/src/nkvm.c
index b086e91..7f2ab9c 100644
--- a/src/nkvm.c
+++ b/src/nkvm.c
@@ -437,6 +437,11 @@ void nkiVmIterate(struct NKVM *vm)
 
 nkbool nkiVmExecuteProgram(struct NKVM *vm)
 {
+    // Don't run anything if an error is already pending.
+    if(nkiVmHasErrors(vm)) {
+        return nkfalse;
+    }
+
     while(vm->instructions[
             vm->currentExecutionContext->instructionPointer &
             vm->instructionAddressMask].opcode != NK_OP_END)
diff --git a/src/nkx.c b/src/nkx.c
index 447fd59..41b7ee0 100644
--- a/src/nkx.c
+++ b/src/nkx.c
@@ -141,6 +141,11 @@ void nkxVmIterate(struct NKVM *vm, nkuint32_t count)
     NK_SET_FAILURE_RECOVERY_VOID();
     for(i = 0; i < count; i++) {
 
+        // Check for errors.
+        if(nkxVmHasErrors(vm)) {
+            break;
+        }
+
         // Check for end-of-program.
         if(vm->instructions[
                 vm->currentExecutionContext->instructionPointer &
@@ -150,11 +155,6 @@ void nkxVmIterate(struct NKVM *vm, nkuint32_t count)
             break;
         }
 
-        // Check for errors.
-        if(nkxVmHasErrors(vm)) {
-            break;
-        }
-
         nkiVmIterate(vm);
 
     }
-- 
2.43.0


From 51b437f67d30be2ff13a1914ba7062c38746ca31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:09 +0000
Subject: [PATCH 23/46] fix: a loaded state or a zero collection interval
 turned the instruction limit off

---
 src/nksave.c | 23 +++++++++++++++++++----
 src/nkvm.c   |  1 +
 src/nkx.c    |  5 +++++
 3 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/src/nksave.c b/src/nksave.c
index 6e534d5..c1240ed 100644
--- a/src/nksave.c
+++ b/src/nksave.c
@@ -778,16 +778,31 @@ nkbool nkiSerializeGcState(
     // limits are not set, but right now I think we should go with the
     // most consistency between serialized and deserialized versions
     // of stuff.
+    nkuint32_t gcInterval = vm->gcInfo.gcInterval;
+    nkuint32_t gcCountdown = vm->gcInfo.gcCountdown;
+
     NKI_SERIALIZE_BASIC(nkuint32_t, vm->gcInfo.lastGCPass);
-    NKI_SERIALIZE_BASIC(nkuint32_t, vm->gcInfo.gcInterval);
+    NKI_SERIALIZE_BASIC(nkuint32_t, gcInterval);
 
     // gcInterval needs a hard limit here because the instruction
     // count limit is only enforced on garbage collection intervals.
-    if(vm->gcInfo.gcInterval > 65536) {
-        vm->gcInfo.gcInterval = 65536;
+    if(gcInterval > 65536) {
+        gcInterval = 65536;
+    }
+    if(gcInterval < 1) {
+        gcInterval = 1;
+    }
+
+    NKI_SERIALIZE_BASIC(nkuint32_t, gcCountdown);
+
+    // The same goes for the remaining part of the current interval.
+    if(gcCountdown < 1 || gcCountdown > gcInterval) {
+        gcCountdown = gcInterval;
     }
 
-    NKI_SERIALIZE_BASIC(nkuint32_t, vm->gcInfo.gcCountdown);
+    vm->gcInfo.gcInterval = gcInterval;
+    vm->gcInfo.gcCountdown = gcCountdown;
+
     NKI_SERIALIZE_BASIC(nkuint32_t, vm->gcInfo.gcNewObjectInterval);
     NKI_SERIALIZE_BASIC(nkuint32_t, vm->gcInfo.gcNewObjectCountdown);
 
diff --git a/src/nkvm.c b/src/nkvm.c
index 7f2ab9c..559ba8c 100644
--- a/src/nkvm.c
+++ b/src/nkvm.c
@@ -418,6 +418,7 @@ void nkiVmIterate(struct NKVM *vm)
             if(vm->instructionsLeftBeforeTimeout < vm->gcInfo.gcInterval) {
                 nkiAddError(vm, "Instruction count limit reached.");
                 vm->instructionsLeftBeforeTimeout = 0;
+                vm->gcInfo.gcCountdown = vm->gcInfo.gcInterval;
                 return;
             }
             vm->instructionsLeftBeforeTimeout -= vm->gcInfo.gcInterval;
diff --git a/src/nkx.c b/src/nkx.c
index 41b7ee0..fbf6cf7 100644
--- a/src/nkx.c
+++ b/src/nkx.c
@@ -722,6 +722,11 @@ nkuint32_t nkxGetMaxAllocatedMemory(struct NKVM *vm)
 
 void nkxSetGarbageCollectionInterval(struct NKVM *vm, nkuint32_t gcInterval)
 {
+    // The instruction count limit is only enforced on garbage
+    // collection intervals, so there must always be one.
+    if(gcInterval < 1) {
+        gcInterval = 1;
+    }
     if(vm->gcInfo.gcCountdown > gcInterval) {
         vm->gcInfo.gcCountdown = gcInterval;
     }
-- 
2.43.0


From b621b08329f0dc76bed63df4835799a176707661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:20 +0000
Subject: [PATCH 24/46] fix: a collection's cleanup callback ran scripts with
 the instruction countdown at zero

---
 src/nkvm.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/nkvm.c b/src/nkvm.c
index 559ba8c..eef39d4 100644
--- a/src/nkvm.c
+++ b/src/nkvm.c
@@ -413,12 +413,16 @@ void nkiVmIterate(struct NKVM *vm)
     vm->gcInfo.gcCountdown--;
     if(!vm->gcInfo.gcCountdown) {
 
+        // Start the next interval first. A cleanup callback running
+        // scripts during the collection must not see a countdown of
+        // zero.
+        vm->gcInfo.gcCountdown = vm->gcInfo.gcInterval;
+
         // Thanks AFL!
         if(vm->instructionsLeftBeforeTimeout != NK_INVALID_VALUE) {
             if(vm->instructionsLeftBeforeTimeout < vm->gcInfo.gcInterval) {
                 nkiAddError(vm, "Instruction count limit reached.");
                 vm->instructionsLeftBeforeTimeout = 0;
-                vm->gcInfo.gcCountdown = vm->gcInfo.gcInterval;
                 return;
             }
             vm->instructionsLeftBeforeTimeout -= vm->gcInfo.gcInterval;
@@ -427,8 +431,12 @@ void nkiVmIterate(struct NKVM *vm)
         if(!vm->gcInfo.gcNewObjectCountdown) {
             nkiVmGarbageCollect(vm);
             vm->gcInfo.gcNewObjectCountdown = vm->gcInfo.gcNewObjectInterval;
+
+            // Cleanup callbacks may have added errors.
+            if(nkiVmHasErrors(vm)) {
+                return;
+            }
         }
-        vm->gcInfo.gcCountdown = vm->gcInfo.gcInterval;
     }
 
     // Do the instruction.
-- 
2.43.0


From 9dff7fc10199a51df5df0a751988e916b93ff36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:14 +0000
Subject: [PATCH 25/46] fix: releasing a handle that is not held wrapped the
 handle count

---
 src/nkobjs.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/nkobjs.c b/src/nkobjs.c
index 5d1bf49..6696a77 100644
--- a/src/nkobjs.c
+++ b/src/nkobjs.c
@@ -350,6 +350,7 @@ void nkiVmObjectReleaseHandle(struct NKVM *vm, struct NKValue *value)
     if(ob->externalHandleCount == 0) {
         nkiAddError(
             vm, "Tried to release handle for object with no external handles.");
+        return;
     }
 
     ob->externalHandleCount--;
-- 
2.43.0


From cf5e7639fcb0d48159fb26d62c2643399c310ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:48 +0000
Subject: [PATCH 26/46] fix: deleted objects stayed in the list of objects with
 external handles

---
 src/nkobjs.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/nkobjs.c b/src/nkobjs.c
index 6696a77..e497c06 100644
--- a/src/nkobjs.c
+++ b/src/nkobjs.c
@@ -60,6 +60,18 @@ void nkiVmObjectDelete(struct NKVM *vm, struct NKVMObject *ob)
             el = next;
         }
     }
+
+    // The host may still hold handles to this object (during VM
+    // destruction). Cleanup callbacks of other objects can still use
+    // the list.
+    if(ob->previousExternalHandleListPtr) {
+        *ob->previousExternalHandleListPtr = ob->nextObjectWithExternalHandles;
+        if(ob->nextObjectWithExternalHandles) {
+            ob->nextObjectWithExternalHandles->previousExternalHandleListPtr =
+                ob->previousExternalHandleListPtr;
+        }
+    }
+
     nkiFree(vm, ob);
 }
 
-- 
2.43.0


From a9007f2d3a57d37febc63da48759f0972310d497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:38 +0000
Subject: [PATCH 27/46] fix: a collection started inside a collection's
 callback reclaimed reachable objects

---
 src/nkgc.c | 11 +++++++++++
 src/nkvm.c |  1 +
 src/nkvm.h |  4 ++++
 3 files changed, 16 insertions(+)

diff --git a/src/nkgc.c b/src/nkgc.c
index 98cfe10..fcbe4e7 100644
--- a/src/nkgc.c
+++ b/src/nkgc.c
@@ -224,6 +224,15 @@ void nkiVmGarbageCollect_markStack(
 void nkiVmGarbageCollect(struct NKVM *vm)
 {
     struct NKVMGCState gcState;
+
+    // A collection started from inside another collection's callbacks
+    // would leave marks the outer one does not recognize, and clean
+    // up objects the outer one is about to clean up.
+    if(vm->gcInfo.collecting) {
+        return;
+    }
+    vm->gcInfo.collecting = nktrue;
+
     nkiMemset(&gcState, 0, sizeof(gcState));
     gcState.currentGCPass = ++vm->gcInfo.lastGCPass;
     gcState.vm = vm;
@@ -287,5 +296,7 @@ void nkiVmGarbageCollect(struct NKVM *vm)
             count++;
         }
     }
+
+    vm->gcInfo.collecting = nkfalse;
 }
 
diff --git a/src/nkvm.c b/src/nkvm.c
index eef39d4..ae64976 100644
--- a/src/nkvm.c
+++ b/src/nkvm.c
@@ -224,6 +224,7 @@ void nkiVmInit(struct NKVM *vm)
     vm->gcInfo.gcCountdown = vm->gcInfo.gcInterval;
     vm->gcInfo.gcNewObjectInterval = 256;
     vm->gcInfo.gcNewObjectCountdown = vm->gcInfo.gcNewObjectInterval;
+    vm->gcInfo.collecting = nkfalse;
 
     vm->functionCount = 0;
     vm->functionTable = NULL;
diff --git a/src/nkvm.h b/src/nkvm.h
index 0d67b68..c440de9 100644
--- a/src/nkvm.h
+++ b/src/nkvm.h
@@ -80,6 +80,10 @@ struct NKGarbageCollectionInfo
     nkuint32_t gcCountdown;
     nkuint32_t gcNewObjectInterval; // TODO: Move to VMLimits, maybe.
     nkuint32_t gcNewObjectCountdown;
+
+    // Set while a collection is running. External data callbacks must
+    // not start another one inside of it.
+    nkbool collecting;
 };
 
 struct NKVMExternalSubsystemData
-- 
2.43.0


From 5db711cbb507ed79723abea2442dd6b07584985c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:12 +0000
Subject: [PATCH 28/46] fix: objects created by cleanup callbacks were
 reclaimed by the collection still running

---
 src/nkobjs.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/nkobjs.c b/src/nkobjs.c
index e497c06..12d392e 100644
--- a/src/nkobjs.c
+++ b/src/nkobjs.c
@@ -132,6 +132,10 @@ nkuint32_t nkiVmObjectTableCreateObject(
         return NK_INVALID_VALUE;
     }
 
+    // Objects created by cleanup callbacks while a collection is
+    // running must survive that collection.
+    newObject->lastGCPass = vm->gcInfo.lastGCPass;
+
     // Tick the garbage collector so we eventually do another GC pass
     // when we have enough new objects.
     if(vm->gcInfo.gcNewObjectCountdown) {
-- 
2.43.0


From 5d1aef1cfd9ba5591e609a842f42cfd9afb62355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:59 +0000
Subject: [PATCH 29/46] fix: setting up an external function again leaked its
 type list, and left a dead pointer when memory ran out

---
 src/nkx.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/nkx.c b/src/nkx.c
index fbf6cf7..abdd5bc 100644
--- a/src/nkx.c
+++ b/src/nkx.c
@@ -447,9 +447,12 @@ static void nkiSetupExternalFunction_addArgs(
     NK_FAILURE_RECOVERY_DECL();
     NK_SET_FAILURE_RECOVERY_VOID();
 
-    if(func->argTypes) {
-        nkiFree(vm, func->argTypes);
-    }
+    // Clear the pointers before allocating. The caller looks at them
+    // even if we run out of memory here.
+    nkiFree(vm, func->argTypes);
+    func->argTypes = NULL;
+    nkiFree(vm, func->argExternalTypes);
+    func->argExternalTypes = NULL;
 
     func->argTypes = (enum NKValueType *)nkiMallocArray(
         vm,
-- 
2.43.0


From c574803a003caba4a2c8cb01a82d99b51fb7de87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:24 +0000
Subject: [PATCH 30/46] fix: a failed load freed the instructions but kept them
 in use, with an unchecked address mask

---
 src/nksave.c | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/nksave.c b/src/nksave.c
index c1240ed..fbeb473 100644
--- a/src/nksave.c
+++ b/src/nksave.c
@@ -604,6 +604,7 @@ nkbool nkiSerializeInstructions(struct NKVM *vm, NKVMSerializationWriter writer,
 {
     // Find the actual end of the instruction buffer.
     nkuint32_t instructionLimitSearch = vm->instructionAddressMask;
+    nkuint32_t instructionAddressMask = vm->instructionAddressMask;
     if(writeMode) {
         while(instructionLimitSearch && vm->instructions[instructionLimitSearch].opcode == NK_OP_NOP) {
             instructionLimitSearch--;
@@ -618,38 +619,44 @@ nkbool nkiSerializeInstructions(struct NKVM *vm, NKVMSerializationWriter writer,
     // something like a literal value instead of a real opcode, and if
     // we cut off the address mask before it, that would read the
     // wrong value.
-    NKI_SERIALIZE_BASIC(nkuint32_t, vm->instructionAddressMask);
+    NKI_SERIALIZE_BASIC(nkuint32_t, instructionAddressMask);
 
     // Thanks AFL! Instruction address mask of 2^32-1 means that the
     // actual allocation is 2^32, which overflows to zero, and we're
     // left in a situation where we think we have a giant instruction
     // buffer when we really have a NULL pointer.
-    if(vm->instructionAddressMask == ~(nkuint32_t)0) {
+    if(instructionAddressMask == ~(nkuint32_t)0) {
         nkiAddError(vm, "Instruction address mask is too large.");
         return nkfalse;
     }
 
-    if(!nkiIsPow2(vm->instructionAddressMask + 1)) {
+    if(!nkiIsPow2(instructionAddressMask + 1)) {
         nkiAddError(vm, "Instruction address mask is not a power of two minus one.");
         return nkfalse;
     }
 
-    if(instructionLimitSearch > vm->instructionAddressMask) {
+    if(instructionLimitSearch > instructionAddressMask) {
         nkiAddError(vm, "Too many instructions for given instruction address mask.");
         return nkfalse;
     }
 
     // Recreate the entire instruction space if we're reading.
     if(!writeMode) {
-        nkiFree(vm, vm->instructions);
 
         // Thanks AFL!
-        vm->instructions = (struct NKInstruction *)nkiMallocArray(
-            vm,
-            sizeof(struct NKInstruction),
-            vm->instructionAddressMask + 1);
+        struct NKInstruction *newInstructions =
+            (struct NKInstruction *)nkiMallocArray(
+                vm,
+                sizeof(struct NKInstruction),
+                instructionAddressMask + 1);
 
-        nkiMemset(vm->instructions, 0, sizeof(struct NKInstruction) * (vm->instructionAddressMask + 1));
+        nkiMemset(newInstructions, 0, sizeof(struct NKInstruction) * (instructionAddressMask + 1));
+
+        // The old instructions must stay intact until nothing can
+        // fail anymore.
+        nkiFree(vm, vm->instructions);
+        vm->instructions = newInstructions;
+        vm->instructionAddressMask = instructionAddressMask;
     }
 
     // Load/save the actual instructions themselves.
-- 
2.43.0


From af24ec862492a64da23481ebed1d5fca294bc9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:57 +0000
Subject: [PATCH 31/46] fix: loading a stack larger than its capacity left it
 in place for the garbage collector

---
 src/nksave.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/nksave.c b/src/nksave.c
index fbeb473..02d40ee 100644
--- a/src/nksave.c
+++ b/src/nksave.c
@@ -736,7 +736,12 @@ nkbool nkiSerializeStack(
         return nkfalse;
     }
 
-    stack->indexMask = stack->capacity - 1;
+    // Thanks AFL! This must be known before the stack changes. What a
+    // failed load leaves behind still gets garbage collected.
+    if(stackCapacity < stackSize) {
+        nkiAddError(vm, "Stack size exceeds stack capacity.");
+        return nkfalse;
+    }
 
     // Make new stack space for read mode.
     if(!writeMode) {
@@ -764,11 +769,6 @@ nkbool nkiSerializeStack(
             sizeof(struct NKValue) * (stack->capacity));
     }
 
-    // Thanks AFL!
-    if(stack->capacity < stack->size) {
-        return nkfalse;
-    }
-
     NKI_SERIALIZE_DATA(
         stack->values,
         sizeof(struct NKValue) * (stack->size));
-- 
2.43.0


From 7ab8dbe4cff1fc103af9b11a8b05191f5e44a08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:14 +0000
Subject: [PATCH 32/46] fix: a failed load gave the string table a capacity
 without a table

---
 src/nksave.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/nksave.c b/src/nksave.c
index 02d40ee..30701ea 100644
--- a/src/nksave.c
+++ b/src/nksave.c
@@ -437,20 +437,19 @@ nkbool nkiSerializeStringTable(
     // capacity, if we're in READ mode.
     if(!writeMode) {
         nkiVmStringTableDestroy(vm);
-        vm->stringTable.capacity = capacity;
 
         // Thanks AFL! String table size can cause a 32-bit integer
         // overflow after being multiplied by the size of the string
         // pointer. (FIXME: We might not need this after the addition
         // of nkiMallocArray.)
-        if(~(nkuint32_t)0 / sizeof(struct NKVMString*) <= vm->stringTable.capacity) {
+        if(~(nkuint32_t)0 / sizeof(struct NKVMString*) <= capacity) {
             nkiAddError(vm, "String table too large.");
             return nkfalse;
         }
 
         vm->stringTable.stringTable =
             (struct NKVMString **)nkiMallocArray(
-                vm, sizeof(struct NKVMString*), vm->stringTable.capacity);
+                vm, sizeof(struct NKVMString*), capacity);
 
         // Note: Memset takes a size_t here, which on 64-bit bit can
         // take higher values than our nkuint32_t type passed into
@@ -458,7 +457,9 @@ nkbool nkiSerializeStringTable(
         // than it's possible for us to allocate, even with the same
         // equation!
         nkiMemset(vm->stringTable.stringTable, 0,
-            vm->stringTable.capacity * sizeof(struct NKVMString*));
+            capacity * sizeof(struct NKVMString*));
+
+        vm->stringTable.capacity = capacity;
     }
 
     // Thanks AFL!
-- 
2.43.0


From b2f518b7cc0318ad51ccac10456e6540623a5b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:27 +0000
Subject: [PATCH 33/46] fix: asking whether the program ended crashed in a
 machine that ran out of memory

---
 src/nkx.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/nkx.c b/src/nkx.c
index abdd5bc..da1fa55 100644
--- a/src/nkx.c
+++ b/src/nkx.c
@@ -1137,6 +1137,12 @@ void nkxValueSetFunction(struct NKVM *vm, struct NKValue *value, NKVMInternalFun
 
 nkbool nkxVmProgramHasEnded(struct NKVM *vm)
 {
+    // There may be nothing left to look at after running out of
+    // memory.
+    if(vm->errorState.allocationFailure) {
+        return nktrue;
+    }
+
     return vm->instructions[
         vm->currentExecutionContext->instructionPointer &
         vm->instructionAddressMask].opcode == NK_OP_END;
-- 
2.43.0


From 121e571755341ecb468c8fb42b87947f97668386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:54 +0000
Subject: [PATCH 34/46] fix: cleanup callbacks on VM deletion must not start a
 nested collection

---
 src/nkvm.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/nkvm.c b/src/nkvm.c
index ae64976..27cb760 100644
--- a/src/nkvm.c
+++ b/src/nkvm.c
@@ -332,6 +332,11 @@ void nkiVmDestroy(struct NKVM *vm)
 
         nkiVmGarbageCollect(vm);
 
+        // Everything left is about to be cleaned up. Cleanup callbacks
+        // must not start another collection from in here, or it could
+        // clean up the same object again.
+        vm->gcInfo.collecting = nktrue;
+
         nkiVmObjectTableCleanAllObjects(vm);
 
         nkiVmStringTableCleanAllStrings(vm);
-- 
2.43.0


From 160c879636d0d237acac98b41027259c3a8613e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:55 +0000
Subject: [PATCH 35/46] fix: reject unknown coroutine states when loading a
 saved state

---
 src/nksave.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/nksave.c b/src/nksave.c
index 30701ea..5809fb7 100644
--- a/src/nksave.c
+++ b/src/nksave.c
@@ -1468,6 +1468,13 @@ nkbool nkiSerializeExecutionContext(
             nkuint32_t,
             context->coroutineState);
 
+        // Anything else was never a coroutine state.
+        if(!writeMode && context->coroutineState > NK_COROUTINE_FINISHED) {
+            context->coroutineState = NK_COROUTINE_INVALID;
+            nkiAddError(vm, "Invalid coroutine state in saved coroutine.");
+            return nkfalse;
+        }
+
     }
 
     return nktrue;
-- 
2.43.0


From f4e6091b805467d503043c050662fb553a3c810b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:49 +0000
Subject: [PATCH 36/46] fix: loading one external function no longer forgets
 the internal ids of those loaded before

---
 src/nksave.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/nksave.c b/src/nksave.c
index 5809fb7..3287332 100644
--- a/src/nksave.c
+++ b/src/nksave.c
@@ -827,6 +827,14 @@ nkbool nkiSerializeFunctionTable_inner(
 {
     nkuint32_t i;
 
+    // Clear out the internal function values, in case we don't
+    // actually find some of the functions.
+    if(!writeMode) {
+        for(i = 0; i < vm->externalFunctionCount; i++) {
+            vm->externalFunctionTable[i].internalFunctionId.id = NK_INVALID_VALUE;
+        }
+    }
+
     for(i = 0; i < tmpExternalFunctionCount; i++) {
 
         struct NKVMExternalFunction tmpExternalFunc = {0};
@@ -848,12 +856,6 @@ nkbool nkiSerializeFunctionTable_inner(
             nkuint32_t n;
 
             for(n = 0; n < vm->externalFunctionCount; n++) {
-
-                // Clear out the internal function value,
-                // in case we don't actually find
-                // something.
-                vm->externalFunctionTable[n].internalFunctionId.id = NK_INVALID_VALUE;
-
                 if(!nkiStrcmp(tmpExternalFunc.name, vm->externalFunctionTable[n].name)) {
                     functionIdMapping[i].id = n;
                     vm->externalFunctionTable[n].internalFunctionId =
-- 
2.43.0


From 7506fdc39e9efd838c41db441fa95516fc6414b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:21 +0000
Subject: [PATCH 37/46] fix: an unterminated string in a preprocessor directive
 is an error, not a read past the text

---
 src/nktoken.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/nktoken.c b/src/nktoken.c
index f217cee..3b2c2c1 100644
--- a/src/nktoken.c
+++ b/src/nktoken.c
@@ -324,7 +324,18 @@ nkbool nkiCompilerGetPreprocessorTokens(
             // Attempt to parse a quoted string.
             while(1) {
 
-                if(str[k] == '\\') {
+                if(!str[k]) {
+
+                    // Ran out of text before the final '"'.
+                    nkiAddErrorEx(
+                        vm, lineNumber, fileIndex,
+                        "Unterminated string in preprocessor directive.");
+
+                    nkiCompilerFreeStringList(vm, tokens, tokenCount);
+
+                    return nkfalse;
+
+                } else if(str[k] == '\\') {
 
                     skipNext = !skipNext;
 
-- 
2.43.0


From 8424ebe17ec345c61abde3845355421ea6647992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:45 +0000
Subject: [PATCH 38/46] fix: compiling a script file whose length cannot be
 determined is an error, not a write outside the buffer

---
 src/nkx.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/nkx.c b/src/nkx.c
index da1fa55..6f760f5 100644
--- a/src/nkx.c
+++ b/src/nkx.c
@@ -260,6 +260,7 @@ nkbool nkxCompilerCompileScriptFile(
 {
     struct NKVM *vm = cs->vm;
     FILE *in = fopen(scriptFilename, "rb");
+    long fileLength;
     nkuint32_t len;
     char *buf;
     nkbool success;
@@ -274,16 +275,29 @@ nkbool nkxCompilerCompileScriptFile(
 
     // Read file length.
     fseek(in, 0, SEEK_END);
-    len = ftell(in);
+    fileLength = ftell(in);
     fseek(in, 0, SEEK_SET);
 
+    // Bail out if there is no usable length (a directory or a pipe) or
+    // not enough address space for the text and its terminator.
+    if(fileLength < 0 || (unsigned long)fileLength >= NK_UINT_MAX) {
+        NK_FAILURE_RECOVERY_DECL();
+        fclose(in);
+        NK_SET_FAILURE_RECOVERY(nkfalse);
+        nkiCompilerAddError(cs, "Cannot determine length of script file.");
+        NK_CLEAR_FAILURE_RECOVERY();
+        return nkfalse;
+    }
+
+    len = (nkuint32_t)fileLength;
+
     buf = (char *)malloc(len + 1);
     if(!buf) {
         fclose(in);
         nkiErrorStateSetAllocationFailFlag(vm);
         return nkfalse;
     }
-    fread(buf, len, 1, in);
+    len = (nkuint32_t)fread(buf, 1, len, in);
     buf[len] = 0;
 
     fclose(in);
-- 
2.43.0


From 5c6c356119faf85a2abe784da8086d4a39411da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:24 +0000
Subject: [PATCH 39/46] fix: reject an operator in the place of a value

A token that is not the start of a value was taken as one by the
expression parser, so an expression like '*;' compiled to an instruction
that consumed operands nothing had put on the stack.
---
 src/nkexpr.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/nkexpr.c b/src/nkexpr.c
index 5d1999a..4d545d0 100644
--- a/src/nkexpr.c
+++ b/src/nkexpr.c
@@ -381,6 +381,16 @@ struct NKExpressionAstNode *nkiCompilerParseExpression(struct NKCompilerState *c
 
                     valueNode->ownedToken = nktrue;
 
+                } else if(
+                    nkiCompilerGetPrecedence(nkiCompilerCurrentTokenType(cs)) != -1 ||
+                    nkiCompilerIsPostfixOperator(*currentToken))
+                {
+                    // An operator where a value should be.
+                    nkiCompilerAddError(cs, "Operator with no value.");
+                    NK_CLEANUP_INLOOP();
+                    nkiCompilerPopRecursion(cs);
+                    return NULL;
+
                 } else {
 
                     // Function-style expression names get routed
-- 
2.43.0


From e9a06fced1a1e74f88bd89d37d04c5a0dccabfcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:24 +0000
Subject: [PATCH 40/46] fix: report failure when compilation recorded an error

Some errors (an unknown variable, a return outside of a function) do not
stop the parser; nkxCompilerCompileScript still reported success.
---
 src/nkcompil.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/nkcompil.c b/src/nkcompil.c
index 17eba91..3e51c4c 100644
--- a/src/nkcompil.c
+++ b/src/nkcompil.c
@@ -1228,6 +1228,11 @@ nkbool nkiCompilerCompileScript(
     cs->currentFileIndex = NK_INVALID_VALUE;
     nkiCompilerDestroyTokenList(cs->vm, &tokenList);
 
+    // Not every error stops the parser.
+    if(nkiGetErrorCount(cs->vm)) {
+        success = nkfalse;
+    }
+
     nkiCompilerPopRecursion(cs);
     return success;
 }
-- 
2.43.0


From 9794f2707906310b81c2c3d1a9e19d332c1b54c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:24 +0000
Subject: [PATCH 41/46] fix: loading over a machine that has objects releases
 them first

---
 src/nksave.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/nksave.c b/src/nksave.c
index 3287332..06fd7b3 100644
--- a/src/nksave.c
+++ b/src/nksave.c
@@ -317,6 +317,13 @@ nkbool nkiSerializeObjectTable(
 
     } else {
 
+        // Give up whatever objects exist already. Cleanup callbacks
+        // must not start a collection from in here.
+        nkbool wasCollecting = vm->gcInfo.collecting;
+        vm->gcInfo.collecting = nktrue;
+        nkiVmObjectTableCleanAllObjects(vm);
+        vm->gcInfo.collecting = wasCollecting;
+
         // Reallocate the object table if we're reading.
         nkiFree(vm, vm->objectTable.objectTable);
         vm->objectTable.objectTable = NULL;
-- 
2.43.0


From 3d530b3e2e4691802d7bd987e25e8f4a7d2cd769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:24 +0000
Subject: [PATCH 42/46] fix: errors read from a saved state are added to the
 errors the machine has

---
 src/nksave.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nksave.c b/src/nksave.c
index 06fd7b3..44e73b8 100644
--- a/src/nksave.c
+++ b/src/nksave.c
@@ -172,7 +172,8 @@ nkbool nkiSerializeErrorState(
     } else {
 
         nkuint32_t errorNum;
-        struct NKError **lastPtr = &vm->errorState.firstError;
+        struct NKError **lastPtr = vm->errorState.firstError ?
+            &vm->errorState.lastError->next : &vm->errorState.firstError;
 
         for(errorNum = 0; errorNum < errorCount; errorNum++) {
             char *errorText = NULL;
-- 
2.43.0


From 4c080b4d59b03a1d5e05d432b081a02b3bcd66f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:51:34 +0000
Subject: [PATCH 43/46] fix: shrinking lost references to moved objects and
 strings held by suspended coroutines

---
 src/nkshrink.c | 67 +++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 53 insertions(+), 14 deletions(-)

diff --git a/src/nkshrink.c b/src/nkshrink.c
index d5f6142..fc44456 100644
--- a/src/nkshrink.c
+++ b/src/nkshrink.c
@@ -43,6 +43,55 @@
 
 #include "nkcommon.h"
 
+static void nkiVmMoveStackReferences(
+    struct NKVMStack *stack,
+    enum NKValueType type,
+    nkuint32_t oldSlot,
+    nkuint32_t newSlot)
+{
+    nkuint32_t i;
+    for(i = 0; i < stack->size; i++) {
+        struct NKValue *value = &stack->values[i];
+        if(type == NK_VALUETYPE_OBJECTID && value->type == NK_VALUETYPE_OBJECTID) {
+            if(value->objectId == oldSlot) {
+                value->objectId = newSlot;
+            }
+        } else if(type == NK_VALUETYPE_STRING && value->type == NK_VALUETYPE_STRING) {
+            if(value->stringTableEntry == oldSlot) {
+                value->stringTableEntry = newSlot;
+            }
+        }
+    }
+}
+
+// Rewrite the references on the root stack and on the stacks of all
+// coroutines, whether or not they are currently running.
+static void nkiVmMoveAllStackReferences(
+    struct NKVM *vm,
+    enum NKValueType type,
+    nkuint32_t oldSlot,
+    nkuint32_t newSlot)
+{
+    nkuint32_t i;
+
+    nkiVmMoveStackReferences(
+        &vm->rootExecutionContext.stack, type, oldSlot, newSlot);
+
+    for(i = 0; i < vm->objectTable.capacity; i++) {
+        struct NKVMObject *ob = vm->objectTable.objectTable[i];
+        if(ob && ob->externalDataType.id ==
+            vm->internalObjectTypes.coroutine.id)
+        {
+            struct NKVMExecutionContext *context =
+                (struct NKVMExecutionContext *)ob->externalData;
+            if(context) {
+                nkiVmMoveStackReferences(
+                    &context->stack, type, oldSlot, newSlot);
+            }
+        }
+    }
+}
+
 void nkiVmMoveObject(struct NKVM *vm, nkuint32_t oldSlot, nkuint32_t newSlot)
 {
     assert(vm->objectTable.capacity > newSlot);
@@ -58,13 +107,8 @@ void nkiVmMoveObject(struct NKVM *vm, nkuint32_t oldSlot, nkuint32_t newSlot)
         nkuint32_t i;
 
         // Rewrite all stack references.
-        for(i = 0; i < vm->currentExecutionContext->stack.size; i++) {
-            if(vm->currentExecutionContext->stack.values[i].type == NK_VALUETYPE_OBJECTID) {
-                if(vm->currentExecutionContext->stack.values[i].objectId == oldSlot) {
-                    vm->currentExecutionContext->stack.values[i].objectId = newSlot;
-                }
-            }
-        }
+        nkiVmMoveAllStackReferences(
+            vm, NK_VALUETYPE_OBJECTID, oldSlot, newSlot);
 
         // Rewrite all static references.
         for(i = 0; i <= vm->staticAddressMask; i++) {
@@ -111,13 +155,8 @@ void nkiVmMoveString(struct NKVM *vm, nkuint32_t oldSlot, nkuint32_t newSlot)
     vm->stringTable.stringTable[oldSlot] = NULL;
 
     // Rewrite all stack references.
-    for(i = 0; i < vm->currentExecutionContext->stack.size; i++) {
-        if(vm->currentExecutionContext->stack.values[i].type == NK_VALUETYPE_STRING) {
-            if(vm->currentExecutionContext->stack.values[i].stringTableEntry == oldSlot) {
-                vm->currentExecutionContext->stack.values[i].stringTableEntry = newSlot;
-            }
-        }
-    }
+    nkiVmMoveAllStackReferences(
+        vm, NK_VALUETYPE_STRING, oldSlot, newSlot);
 
     // Rewrite all static references.
     for(i = 0; i <= vm->staticAddressMask; i++) {
-- 
2.43.0


From 83559baa6f23a7d0dafc8561ee9e1c372f1f1546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:13 +0000
Subject: [PATCH 44/46] fix: shrinking left fields whose key is a moved object
 in the bucket of the old id

---
 src/nkshrink.c | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/nkshrink.c b/src/nkshrink.c
index fc44456..37044fa 100644
--- a/src/nkshrink.c
+++ b/src/nkshrink.c
@@ -125,14 +125,25 @@ void nkiVmMoveObject(struct NKVM *vm, nkuint32_t oldSlot, nkuint32_t newSlot)
             if(ob) {
                 nkuint32_t k;
                 for(k = 0; k < nkiVMObjectHashBucketCount; k++) {
-                    struct NKVMObjectElement *el;
-                    for(el = ob->hashBuckets[k]; el; el = el->next) {
-                        if(el->key.type == NK_VALUETYPE_OBJECTID && el->key.objectId == oldSlot) {
-                            el->key.objectId = newSlot;
-                        }
+                    struct NKVMObjectElement **elPtr = &ob->hashBuckets[k];
+                    while(*elPtr) {
+                        struct NKVMObjectElement *el = *elPtr;
                         if(el->value.type == NK_VALUETYPE_OBJECTID && el->value.objectId == oldSlot) {
                             el->value.objectId = newSlot;
                         }
+                        if(el->key.type == NK_VALUETYPE_OBJECTID && el->key.objectId == oldSlot) {
+                            // The new ID belongs in a different
+                            // bucket, most likely.
+                            struct NKVMObjectElement **bucket;
+                            *elPtr = el->next;
+                            el->key.objectId = newSlot;
+                            bucket = &ob->hashBuckets[
+                                nkiValueHash(vm, &el->key) & (nkiVMObjectHashBucketCount - 1)];
+                            el->next = *bucket;
+                            *bucket = el;
+                        } else {
+                            elPtr = &el->next;
+                        }
                     }
                 }
             }
-- 
2.43.0


From ced065a99dfa3747a19e286eab8616383635826a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:50:35 +0000
Subject: [PATCH 45/46] fix: keep the full precision of folded float constants

---
 src/nkopt.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nkopt.c b/src/nkopt.c
index b2e697c..2760be9 100644
--- a/src/nkopt.c
+++ b/src/nkopt.c
@@ -222,7 +222,8 @@ void nkiCompilerOptimizeConstants(
                     // non-DOS systems.
 
                     // Set the string for the result.
-                    sprintf(tmp, "%f", val);
+                    // Enough digits to get the exact same value back.
+                    sprintf(tmp, "%.9g", val);
                     newNode->opOrValue->str = nkiStrdup(vm, tmp);
 
                     // Replace the original node.
-- 
2.43.0


From b84b0447062fe6045e6ecf511a97fcce840c8c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:50:35 +0000
Subject: [PATCH 46/46] fix: do not fold constants of different types

---
 src/nkopt.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/nkopt.c b/src/nkopt.c
index 2760be9..d2bbc27 100644
--- a/src/nkopt.c
+++ b/src/nkopt.c
@@ -166,6 +166,14 @@ void nkiCompilerOptimizeConstants(
             canOptimize = nkfalse;
         }
 
+        // Leave conversions between types to the instructions.
+        if(canOptimize && (*node)->children[1] &&
+            (*node)->children[0]->opOrValue->type !=
+            (*node)->children[1]->opOrValue->type)
+        {
+            canOptimize = nkfalse;
+        }
+
         if(canOptimize) {
 
             // Make a new literal value node with the same type as
-- 
2.43.0

