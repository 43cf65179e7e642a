From 422820fa70d01972ee403072bc1641f015aed861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:36 +0000
Subject: [PATCH 01/99] Add guarded monitoring hooks to the VM (DUCKLISP_VERIF)

---
 duckVM.c | 37 +++++++++++++++++++++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/duckVM.c b/duckVM.c
index ef9fde8..4fa4ef0 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -29,6 +29,18 @@ SOFTWARE.
 #include "DuckLib/string.h"
 #include "duckLisp.h"
 
+#ifdef DUCKLISP_VERIF
+/* Monitoring hooks. The definitions are provided by the program that runs the monitors. */
+/* Return true to collect garbage before this allocation. */
+dl_bool_t duckVM_verif_allocating(duckVM_t *duckVM);
+void duckVM_verif_allocated(duckVM_t *duckVM, duckVM_object_t *object);
+void duckVM_verif_collecting(duckVM_t *duckVM);
+void duckVM_verif_collected(duckVM_t *duckVM);
+void duckVM_verif_quitting(duckVM_t *duckVM);
+/* Return an error to stop the VM before executing the instruction at `ip`. */
+dl_error_t duckVM_verif_step(duckVM_t *duckVM, duckVM_object_t *bytecode, dl_uint8_t *ip);
+#endif /* DUCKLISP_VERIF */
+
 
 duckVM_object_t duckVM_object_makeUpvalueArray(duckVM_object_t **upvalues, dl_size_t length);
 
@@ -90,6 +102,9 @@ static dl_error_t duckVM_gclist_quit(duckVM_gclist_t *gclist) {
 	dl_error_t e = dl_error_ok;
 	dl_error_t eError = dl_error_ok;
 
+#ifdef DUCKLISP_VERIF
+	duckVM_verif_quitting(gclist->duckVM);
+#endif /* DUCKLISP_VERIF */
 	e = dl_free(gclist->memoryAllocation, (void **) &gclist->freeObjects);
 	gclist->freeObjects_length = 0;
 
@@ -217,6 +232,10 @@ static dl_error_t duckVM_gclist_garbageCollect(duckVM_t *duckVM) {
 	duckVM_gclist_t *gclistPointer = &duckVM->gclist;
 	duckVM_gclist_t gclistCopy = duckVM->gclist;
 
+#ifdef DUCKLISP_VERIF
+	duckVM_verif_collecting(duckVM);
+#endif /* DUCKLISP_VERIF */
+
 	for (dl_ptrdiff_t i = 0; (dl_size_t) i < gclistCopy.objects_length; i++) {
 		gclistCopy.objectInUse[i] = dl_false;
 	}
@@ -307,6 +326,10 @@ static dl_error_t duckVM_gclist_garbageCollect(duckVM_t *duckVM) {
 		}
 	}
 
+#ifdef DUCKLISP_VERIF
+	duckVM_verif_collected(duckVM);
+#endif /* DUCKLISP_VERIF */
+
  cleanup:
 	return e;
 }
@@ -317,6 +340,13 @@ static dl_error_t duckVM_gclist_pushObject(duckVM_t *duckVM, duckVM_object_t **o
 
 	duckVM_gclist_t *gclist = &duckVM->gclist;
 
+#ifdef DUCKLISP_VERIF
+	if (duckVM_verif_allocating(duckVM)) {
+		e = duckVM_gclist_garbageCollect(duckVM);
+		if (e) goto cleanup;
+	}
+#endif /* DUCKLISP_VERIF */
+
 	// Try once
 	if (gclist->freeObjects_length == 0) {
 		// STOP THE WORLD
@@ -338,6 +368,9 @@ static dl_error_t duckVM_gclist_pushObject(duckVM_t *duckVM, duckVM_object_t **o
 	}
 
 	duckVM_object_t *heapObject = gclist->freeObjects[--gclist->freeObjects_length];
+#ifdef DUCKLISP_VERIF
+	duckVM_verif_allocated(duckVM, heapObject);
+#endif /* DUCKLISP_VERIF */
 	*heapObject = objectIn;
 	if (objectIn.type == duckVM_object_type_upvalueArray) {
 		if (objectIn.value.upvalue_array.length > 0) {
@@ -4663,6 +4696,10 @@ dl_error_t duckVM_executeWithIp(duckVM_t *duckVM,
 	duckVM->currentBytecode = bytecodeObject;
 	if (bytecode_length == 0) goto cleanup;
 	do {
+#ifdef DUCKLISP_VERIF
+		e = duckVM_verif_step(duckVM, bytecodeObject, ip);
+		if (e) break;
+#endif /* DUCKLISP_VERIF */
 		e = duckVM_executeInstruction(duckVM, bytecodeObject, &ip, &halt);
 	} while (!e && (halt == duckVM_halt_mode_run));
 	duckVM->currentBytecode = dl_null;
-- 
2.43.0


From ce35e339ae89470e3a1ce101ab022ab26acc66a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:42 +0000
Subject: [PATCH 02/99] fix: concatenate reads past the end of substrings

The length field of a string is the end of the slice, not its length, so
concatenating a substring or the CDR of a string appended bytes beyond it.
---
 duckVM.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/duckVM.c b/duckVM.c
index 4fa4ef0..b5c3803 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -4426,7 +4426,7 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 			if (object1.type == duckVM_object_type_string) {
 				object1_string = (object1.value.string.internalString->value.internalString.value
 				                  + object1.value.string.offset);
-				object1_string_length = object1.value.string.length;
+				object1_string_length = object1.value.string.length - object1.value.string.offset;
 			}
 			else {
 				object1_string = object1.value.symbol.internalString->value.internalString.value;
@@ -4435,7 +4435,7 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 			if (object2.type == duckVM_object_type_string) {
 				object2_string = (object2.value.string.internalString->value.internalString.value
 				                  + object2.value.string.offset);
-				object2_string_length = object2.value.string.length;
+				object2_string_length = object2.value.string.length - object2.value.string.offset;
 			}
 			else {
 				object2_string = object2.value.symbol.internalString->value.internalString.value;
-- 
2.43.0


From 7509427a3438ed4f436073d339a90416769c0c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:26 +0000
Subject: [PATCH 03/99] fix: make-string ignores errors in its argument

A bad element only ended the inner loop, so a null or empty string was used
afterwards. Nil elements and empty vectors dereferenced a null pointer.
---
 duckVM.c | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/duckVM.c b/duckVM.c
index b5c3803..fe922b3 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -4262,13 +4262,18 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 			e = dl_array_get(&duckVM->stack, &object1, duckVM->stack.elements_length - ptrdiff1);
 			if (e) break;
 			if (object1.type == duckVM_object_type_vector) {
-				dl_size_t vector_length = object1.value.vector.internal_vector->value.internal_vector.length;
-				string_length = vector_length - object1.value.vector.offset;
-				e = DL_MALLOC(duckVM->memoryAllocation, &string, string_length, dl_uint8_t);
-				if (e) break;
+				dl_size_t vector_length = 0;
+				if (object1.value.vector.internal_vector != dl_null) {
+					vector_length = object1.value.vector.internal_vector->value.internal_vector.length;
+				}
+				if (vector_length > (dl_size_t) object1.value.vector.offset) {
+					string_length = vector_length - object1.value.vector.offset;
+					e = DL_MALLOC(duckVM->memoryAllocation, &string, string_length, dl_uint8_t);
+					if (e) break;
+				}
 				for (dl_ptrdiff_t i = object1.value.vector.offset; (dl_size_t) i < vector_length; i++) {
 					duckVM_object_t *element = object1.value.vector.internal_vector->value.internal_vector.values[i];
-					if (element->type != duckVM_object_type_integer) {
+					if ((element == dl_null) || (element->type != duckVM_object_type_integer)) {
 						e = dl_error_invalidValue;
 						eError = duckVM_error_pushRuntime(duckVM,
 						                                  DL_STR("duckVM_execute->make-string: All elements of vector must be integers."));
@@ -4280,6 +4285,7 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 					/* Truncate to 8 bits. */
 					string[i - object1.value.vector.offset] = element->value.integer;
 				}
+				if (e) break;
 			}
 			else if (object1.type == duckVM_object_type_list) {
 				dl_array_t string_array;
@@ -4291,7 +4297,7 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 					}
 					else if (objectPtr1->type == duckVM_object_type_cons) {
 						duckVM_object_t *car = objectPtr1->value.cons.car;
-						if (car->type != duckVM_object_type_integer) {
+						if ((car == dl_null) || (car->type != duckVM_object_type_integer)) {
 							e = dl_error_invalidValue;
 							eError = duckVM_error_pushRuntime(duckVM,
 							                                  DL_STR("duckVM_execute->make-string: All list elements must be integers."));
@@ -4320,6 +4326,7 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 						break;
 					}
 				}
+				if (e) break;
 				string = string_array.elements;
 				string_length = string_array.elements_length;
 			}
@@ -4328,20 +4335,16 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 				eError = duckVM_error_pushRuntime(duckVM,
 				                                  DL_STR("duckVM_execute->make-string: Only vector arguments are supported."));
 				if (eError) e = eError;
-				eError = DL_FREE(duckVM->memoryAllocation, &string);
-				if (eError) e = eError;
 				break;
 			}
 			object1.type = duckVM_object_type_internalString;
 			object1.value.internalString.value = string;
 			object1.value.internalString.value_length = string_length;
 			e = duckVM_gclist_pushObject(duckVM, &objectPtr1, object1);
-			if (e) {
+			if (string != dl_null) {
 				eError = DL_FREE(duckVM->memoryAllocation, &string);
-				if (eError) e = eError;
-				break;
+				if (!e) e = eError;
 			}
-			e = DL_FREE(duckVM->memoryAllocation, &string);
 			if (e) break;
 			object1.type = duckVM_object_type_string;
 			object1.value.string.internalString = objectPtr1;
-- 
2.43.0


From 1c36395fe83ab567e57f5bd6bb9c5aafd4294210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:26 +0000
Subject: [PATCH 04/99] fix: concatenate and symbol-string fail on empty
 strings and stripped symbols

---
 duckVM.c | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/duckVM.c b/duckVM.c
index fe922b3..8192274 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -4217,7 +4217,10 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 		object2.type = duckVM_object_type_string;
 		object2.value.string.internalString = object1.value.symbol.internalString;
 		object2.value.string.offset = 0;
-		object2.value.string.length = object1.value.symbol.internalString->value.internalString.value_length;
+		object2.value.string.length = 0;
+		if (object1.value.symbol.internalString != dl_null) {
+			object2.value.string.length = object1.value.symbol.internalString->value.internalString.value_length;
+		}
 		e = stack_push(duckVM, &object2);
 		if (e) break;
 		break;
@@ -4427,20 +4430,24 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 			dl_uint8_t *object2_string = dl_null;
 			dl_size_t object2_string_length = 0;
 			if (object1.type == duckVM_object_type_string) {
-				object1_string = (object1.value.string.internalString->value.internalString.value
-				                  + object1.value.string.offset);
+				if (object1.value.string.internalString != dl_null) {
+					object1_string = (object1.value.string.internalString->value.internalString.value
+					                  + object1.value.string.offset);
+				}
 				object1_string_length = object1.value.string.length - object1.value.string.offset;
 			}
-			else {
+			else if (object1.value.symbol.internalString != dl_null) {
 				object1_string = object1.value.symbol.internalString->value.internalString.value;
 				object1_string_length = object1.value.symbol.internalString->value.internalString.value_length;
 			}
 			if (object2.type == duckVM_object_type_string) {
-				object2_string = (object2.value.string.internalString->value.internalString.value
-				                  + object2.value.string.offset);
+				if (object2.value.string.internalString != dl_null) {
+					object2_string = (object2.value.string.internalString->value.internalString.value
+					                  + object2.value.string.offset);
+				}
 				object2_string_length = object2.value.string.length - object2.value.string.offset;
 			}
-			else {
+			else if (object2.value.symbol.internalString != dl_null) {
 				object2_string = object2.value.symbol.internalString->value.internalString.value;
 				object2_string_length = object2.value.symbol.internalString->value.internalString.value_length;
 			}
@@ -4450,11 +4457,13 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 			e = duckVM_gclist_pushObject(duckVM, &objectPtr1, object3);
 			if (e) break;
 			objectPtr1->value.internalString.value_length = object1_string_length + object2_string_length;
-			e = DL_REALLOC(duckVM->memoryAllocation,
-			               &objectPtr1->value.internalString.value,
-			               objectPtr1->value.internalString.value_length,
-			               dl_uint8_t);
-			if (e) break;
+			if (objectPtr1->value.internalString.value_length > 0) {
+				e = DL_REALLOC(duckVM->memoryAllocation,
+				               &objectPtr1->value.internalString.value,
+				               objectPtr1->value.internalString.value_length,
+				               dl_uint8_t);
+				if (e) break;
+			}
 			/**/ dl_memcopy_noOverlap((objectPtr1->value.internalString.value + object1_string_length),
 			                          object2_string,
 			                          object2_string_length);
-- 
2.43.0


From 01ecf8d413ea13fca7c4eceb0124856ddcd503f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:34 +0000
Subject: [PATCH 05/99] fix: vector elements collected while the vector is
 being built

The collector skipped the elements of a vector until all of them had been
allocated, so a collection in between freed those that were already there.
---
 duckVM.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/duckVM.c b/duckVM.c
index 8192274..0771fa0 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -3199,6 +3199,11 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 			internal_vector.value.internal_vector.length = size1;
 			e = duckVM_gclist_pushObject(duckVM, &object1.value.vector.internal_vector, internal_vector);
 			if (e) break;
+			/* The GC has to trace the elements that have already been allocated. */
+			DL_DOTIMES(k, size1) {
+				object1.value.vector.internal_vector->value.internal_vector.values[k] = dl_null;
+			}
+			object1.value.vector.internal_vector->value.internal_vector.initialized = dl_true;
 		}
 		/* Immediately push on stack so that the GC can see it. Allocating elements could trigger a GC. */
 		e = dl_array_pushElement(&duckVM->stack, &object1);
@@ -3240,7 +3245,6 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 		/* Break push_scope abstraction. */
 		e = dl_array_pushElement(&duckVM->upvalue_stack, dl_null);
 		if (e) break;
-		object1.value.vector.internal_vector->value.internal_vector.initialized = dl_true;
 		DL_ARRAY_GETTOPADDRESS(duckVM->stack, duckVM_object_t) = object1;
 		break;
 
@@ -3307,6 +3311,11 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 			internal_vector.value.internal_vector.length = size1;
 			e = duckVM_gclist_pushObject(duckVM, &object1.value.vector.internal_vector, internal_vector);
 			if (e) break;
+			/* The GC has to trace the elements that have already been allocated. */
+			DL_DOTIMES(k, size1) {
+				object1.value.vector.internal_vector->value.internal_vector.values[k] = dl_null;
+			}
+			object1.value.vector.internal_vector->value.internal_vector.initialized = dl_true;
 		}
 		/* Immediately push on stack so that the GC can see it. Allocating elements could trigger a GC. */
 		e = dl_array_pushElement(&duckVM->stack, &object1);
@@ -3324,7 +3333,6 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 		/* Break push_scope abstraction. */
 		e = dl_array_pushElement(&duckVM->upvalue_stack, dl_null);
 		if (e) break;
-		object1.value.vector.internal_vector->value.internal_vector.initialized = dl_true;
 		DL_ARRAY_GETTOPADDRESS(duckVM->stack, duckVM_object_t) = object1;
 		break;
 
-- 
2.43.0


From ef9699201119080031b281c16f12127d93de3f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:46 +0000
Subject: [PATCH 06/99] fix: operands of the 16-bit form of = are decoded twice

---
 duckVM.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/duckVM.c b/duckVM.c
index 0771fa0..85360ad 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -2809,6 +2809,7 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 			ptrdiff1 = *(ip++) + (ptrdiff1 << 8);
 			ptrdiff2 = *(ip++);
 			ptrdiff2 = *(ip++) + (ptrdiff2 << 8);
+			parsedBytecode = dl_true;
 		}
 		// Fall through
 	case duckLisp_instruction_equal8:
-- 
2.43.0


From 18d8c698c4bfcd470381180a2a8e9f42c0d2d67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:08 +0000
Subject: [PATCH 07/99] fix: VM loses track of the bytecode that is running

After a call into other bytecode, the caller's bytecode was still used to make
closures and to trace, so closures referred to the wrong code and running code
could be collected. Calls from C cleared the bytecode of the caller and let the
collector mark an object that was not on the heap.
---
 duckVM.c | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/duckVM.c b/duckVM.c
index 85360ad..4a36506 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -4685,6 +4685,7 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 	}
  cleanup:
 	*ipPtr = ip;
+	duckVM->currentBytecode = bytecode;
 	return e;
 }
 
@@ -4693,9 +4694,10 @@ dl_error_t duckVM_executeWithIp(duckVM_t *duckVM,
                                 dl_ptrdiff_t ipOffset,
                                 dl_size_t bytecode_length) {
 	dl_error_t e = dl_error_ok;
+	/* This function can be reentered by callbacks. */
+	duckVM_object_t *callerBytecode = duckVM->currentBytecode;
 
 	duckVM_halt_mode_t halt = duckVM_halt_mode_run;
-	/* Why a reference to bytecode? So it can be switched out with other bytecodes by `duckVM_executeInstruction`. */
 	duckVM_object_t *bytecodeObject;
 	dl_uint8_t *ip = dl_null;
 	if ((ipOffset < 0) || (bytecode_length <= (dl_size_t) ipOffset)) {
@@ -4715,15 +4717,15 @@ dl_error_t duckVM_executeWithIp(duckVM_t *duckVM,
 	}
 	ip = &bytecodeObject->value.bytecode.bytecode[ipOffset];
 	duckVM->currentBytecode = bytecodeObject;
-	if (bytecode_length == 0) goto cleanup;
 	do {
 #ifdef DUCKLISP_VERIF
-		e = duckVM_verif_step(duckVM, bytecodeObject, ip);
+		e = duckVM_verif_step(duckVM, duckVM->currentBytecode, ip);
 		if (e) break;
 #endif /* DUCKLISP_VERIF */
-		e = duckVM_executeInstruction(duckVM, bytecodeObject, &ip, &halt);
+		/* The current bytecode is switched out with other bytecodes by `duckVM_executeInstruction`. */
+		e = duckVM_executeInstruction(duckVM, duckVM->currentBytecode, &ip, &halt);
 	} while (!e && (halt == duckVM_halt_mode_run));
-	duckVM->currentBytecode = dl_null;
+	duckVM->currentBytecode = callerBytecode;
 
  cleanup: return e;
 }
@@ -5644,16 +5646,15 @@ dl_error_t duckVM_call(duckVM_t *duckVM, dl_ptrdiff_t stackIndex, dl_uint8_t num
 		{
 			/* Call bytecode. */
 			dl_uint8_t shim_bytecode[] = {duckLisp_instruction_halt};
-			duckVM_object_t shim_bytecode_object[] = {duckVM_object_makeBytecode(shim_bytecode,
-			                                                                     sizeof(shim_bytecode) / sizeof(*shim_bytecode))};
 			dl_uint8_t *shim_ip = shim_bytecode;
 
 			duckVM_object_t *bytecode_object = functionObject.value.closure.bytecode;
 			duckVM_bytecode_t bytecode = bytecode_object->value.bytecode;
 			dl_ptrdiff_t bytecode_offset = functionObject.value.closure.name;
+			/* The shim isn't on the heap, so the collector must not see it. */
 			e = call_stack_push(duckVM,
 			                    shim_ip,
-			                    shim_bytecode_object,
+			                    duckVM->currentBytecode,
 			                    &functionObject.value.closure.upvalue_array->value.upvalue_array);
 			if (e) break;
 			/* stack: function *args */
-- 
2.43.0


From 2a81413c9fca80e7391a19d226df102577d211a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:06 +0000
Subject: [PATCH 08/99] fix: upvalues of a running function can be collected

The upvalue array of a running closure was not a root, so it was freed when the
closure became unreachable, for instance when a function replaced itself in the
composite that was called.
---
 duckVM.c | 45 ++++++++++++++++++++++++++++-----------------
 duckVM.h |  2 +-
 2 files changed, 29 insertions(+), 18 deletions(-)

diff --git a/duckVM.c b/duckVM.c
index 4a36506..01ce81a 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -278,6 +278,15 @@ static dl_error_t duckVM_gclist_garbageCollect(duckVM_t *duckVM) {
 		}
 	}
 
+	/* Upvalues of the functions that are running. Their closures might not be reachable any longer. */
+	DL_DOTIMES(i, duckVM->upvalue_array_call_stack.elements_length) {
+		duckVM_object_t *object = DL_ARRAY_GETADDRESS(duckVM->upvalue_array_call_stack, duckVM_object_t *, i);
+		if (object != dl_null) {
+			e = duckVM_gclist_markObject(gclistPointer, object, dl_false);
+			if (e) goto cleanup;
+		}
+	}
+
 	/* Current bytecode */
 	if (duckVM->currentBytecode != dl_null) {
 		e = duckVM_gclist_markObject(gclistPointer, duckVM->currentBytecode, dl_false);
@@ -484,7 +493,7 @@ dl_error_t duckVM_init(duckVM_t *duckVM, dl_memoryAllocation_t *memoryAllocation
 	                   dl_array_strategy_double);
 	/**/ dl_array_init(&duckVM->upvalue_array_call_stack,
 	                   duckVM->memoryAllocation,
-	                   sizeof(duckVM_upvalueArray_t),
+	                   sizeof(duckVM_object_t *),
 	                   dl_array_strategy_double);
 	e = dl_array_pushElement(&duckVM->upvalue_array_call_stack, dl_null);
 	if (e) goto cleanup;
@@ -512,9 +521,9 @@ void duckVM_quit(duckVM_t *duckVM) {
 	e = dl_array_quit(&duckVM->globals);
 	e = dl_array_quit(&duckVM->globals_map);
 	e = dl_array_quit(&duckVM->call_stack);
+	e = dl_array_quit(&duckVM->upvalue_array_call_stack);
 	duckVM->currentBytecode = dl_null;
 	e = duckVM_gclist_garbageCollect(duckVM);
-	e = dl_array_quit(&duckVM->upvalue_array_call_stack);
 	/**/ duckVM_gclist_quit(&duckVM->gclist);
 	e = dl_array_quit(&duckVM->errors);
 	duckVM->duckLisp = dl_null;
@@ -583,14 +592,14 @@ static dl_error_t stack_set(duckVM_t *duckVM, duckVM_object_t *element, dl_ptrdi
 static dl_error_t call_stack_push(duckVM_t *duckVM,
                                   dl_uint8_t *ip,
                                   duckVM_object_t *bytecode,
-                                  duckVM_upvalueArray_t *upvalueArray) {
+                                  duckVM_object_t *upvalueArray) {
 	dl_error_t e = dl_error_ok;
 	duckVM_callFrame_t frame;
 	frame.ip = ip;
 	frame.bytecode = bytecode;
 	e = dl_array_pushElement(&duckVM->call_stack, &frame);
 	if (e) goto cleanup;
-	e = dl_array_pushElement(&duckVM->upvalue_array_call_stack, upvalueArray);
+	e = dl_array_pushElement(&duckVM->upvalue_array_call_stack, &upvalueArray);
 	if (e) goto cleanup;
  cleanup:
 	if (e) {
@@ -997,7 +1006,7 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 	case duckLisp_instruction_pushUpvalue8:
 		ptrdiff1 = *(ip++) + (ptrdiff1 << 8);
 		{
-			duckVM_upvalueArray_t upvalueArray;
+			duckVM_object_t *upvalueArray = dl_null;
 			if (ptrdiff1 < 0) {
 				e = dl_error_invalidValue;
 				eError = duckVM_error_pushRuntime(duckVM,
@@ -1012,7 +1021,7 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 				if (!e) e = eError;
 				break;
 			}
-			e = duckVM_upvalueArray_getUpvalue(duckVM, upvalueArray, &object1, ptrdiff1);
+			e = duckVM_upvalueArray_getUpvalue(duckVM, upvalueArray->value.upvalue_array, &object1, ptrdiff1);
 			if (e) {
 				eError = duckVM_error_pushRuntime(duckVM,
 				                                  DL_STR("duckVM_execute->push-upvalue: duckVM_upvalueArray_getUpvalue failed."));
@@ -1169,8 +1178,8 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 				upvalue.value.upvalue.type = duckVM_upvalue_type_heap_upvalue;
 				/* Link new upvalue to upvalue from current context. */
 				upvalue.value.upvalue.value.heap_upvalue = (DL_ARRAY_GETTOPADDRESS(duckVM->upvalue_array_call_stack,
-				                                                                   duckVM_upvalueArray_t)
-				                                            .upvalues[ptrdiff1]);
+				                                                                   duckVM_object_t *)
+				                                            ->value.upvalue_array.upvalues[ptrdiff1]);
 				e = duckVM_gclist_pushObject(duckVM, &upvalue_pointer, upvalue);
 				if (e) {
 					eError = duckVM_error_pushRuntime(duckVM,
@@ -1345,7 +1354,7 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 			e = dl_array_get(&duckVM->stack, &object1, duckVM->stack.elements_length - ptrdiff2);
 			if (e) break;
 			duckVM_object_t *upvalue = DL_ARRAY_GETTOPADDRESS(duckVM->upvalue_array_call_stack,
-			                                                  duckVM_upvalueArray_t).upvalues[ptrdiff1];
+			                                                  duckVM_object_t *)->value.upvalue_array.upvalues[ptrdiff1];
 			if (upvalue->value.upvalue.type == duckVM_upvalue_type_stack_index) {
 				e = dl_array_set(&duckVM->stack, &object1, upvalue->value.upvalue.value.stack_index);
 				if (e) break;
@@ -1435,7 +1444,7 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 			break;
 		}
 		/* Call. */
-		e = call_stack_push(duckVM, ip, bytecode, &object1.value.closure.upvalue_array->value.upvalue_array);
+		e = call_stack_push(duckVM, ip, bytecode, object1.value.closure.upvalue_array);
 		if (e) break;
 		bytecode = object1.value.closure.bytecode;
 		ip = &bytecode->value.bytecode.bytecode[object1.value.closure.name];
@@ -1566,7 +1575,7 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 			}
 		}
 		/* Call. */
-		e = call_stack_push(duckVM, ip, bytecode, &object1.value.closure.upvalue_array->value.upvalue_array);
+		e = call_stack_push(duckVM, ip, bytecode, object1.value.closure.upvalue_array);
 		if (e) break;
 		bytecode = object1.value.closure.bytecode;
 		ip = &bytecode->value.bytecode.bytecode[object1.value.closure.name];
@@ -5655,7 +5664,7 @@ dl_error_t duckVM_call(duckVM_t *duckVM, dl_ptrdiff_t stackIndex, dl_uint8_t num
 			e = call_stack_push(duckVM,
 			                    shim_ip,
 			                    duckVM->currentBytecode,
-			                    &functionObject.value.closure.upvalue_array->value.upvalue_array);
+			                    functionObject.value.closure.upvalue_array);
 			if (e) break;
 			/* stack: function *args */
 			e = duckVM_executeWithIp(duckVM, bytecode.bytecode, bytecode_offset, bytecode.bytecode_length);
@@ -7081,11 +7090,13 @@ dl_error_t duckVM_prettyPrint(dl_array_t *string_array, duckVM_t duckVM) {
 	e = dl_array_pushElements(string_array, DL_STR("upvalue_array_call_stack = {"));
 	if (e) goto cleanup;
 	DL_DOTIMES(i, duckVM.upvalue_array_call_stack.elements_length) {
-		e = duckVM_upvalueArray_prettyPrint(string_array,
-		                                    DL_ARRAY_GETADDRESS(duckVM.upvalue_array_call_stack,
-		                                                        duckVM_upvalueArray_t,
-		                                                        i),
-		                                    duckVM);
+		duckVM_object_t *upvalueArray = DL_ARRAY_GETADDRESS(duckVM.upvalue_array_call_stack, duckVM_object_t *, i);
+		if (upvalueArray == dl_null) {
+			e = dl_array_pushElements(string_array, DL_STR("NULL"));
+		}
+		else {
+			e = duckVM_upvalueArray_prettyPrint(string_array, upvalueArray->value.upvalue_array, duckVM);
+		}
 		if (e) goto cleanup;
 		if ((dl_size_t) i != duckVM.upvalue_array_call_stack.elements_length - 1) {
 			e = dl_array_pushElements(string_array, DL_STR(", "));
diff --git a/duckVM.h b/duckVM.h
index d2153ce..edebc2d 100644
--- a/duckVM.h
+++ b/duckVM.h
@@ -59,7 +59,7 @@ typedef struct duckVM_s {
 	/* I'm lazy and I don't want to bother with correct GC. */
 	struct duckVM_object_s *currentBytecode;
 	dl_array_t upvalue_stack;  /* duckVM_upvalue_t * */
-	dl_array_t upvalue_array_call_stack;  /* duckVM_upvalueArray_t */
+	dl_array_t upvalue_array_call_stack;  /* duckVM_object_t *; null where the function has no upvalues. */
 	/* Addressed by symbol number. */
 	dl_array_t globals;  /* duckVM_object_t * */
 	dl_array_t globals_map;  /* dl_ptrdiff_t */
-- 
2.43.0


From 347f7ee7f4c559ceaf5cac221ca794b6ac0a20d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:06 +0000
Subject: [PATCH 09/99] fix: garbage collector frees reachable objects when
 marking runs out of memory

---
 duckVM.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/duckVM.c b/duckVM.c
index 01ce81a..6e8d597 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -221,7 +221,10 @@ static dl_error_t duckVM_gclist_markObject(duckVM_gclist_t *gclist, duckVM_objec
 	}
 
  cleanup:
-	e = dl_array_quit(&dispatchStack);
+	{
+		dl_error_t eError = dl_array_quit(&dispatchStack);
+		if (!e) e = eError;
+	}
 	return e;
 }
 
-- 
2.43.0


From 15131854e68c6c4aed252c1ac4c53a3a9b0bb8c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:06 +0000
Subject: [PATCH 10/99] fix: softReset fails when an instruction stopped half
 way through a push

---
 duckVM.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/duckVM.c b/duckVM.c
index 6e8d597..99192c8 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -4807,9 +4807,14 @@ dl_error_t duckVM_allocateHeapObject(duckVM_t *duckVM, duckVM_object_t **heapObj
 
 dl_error_t duckVM_softReset(duckVM_t *duckVM) {
 	dl_error_t e = dl_error_ok;
-	e = stack_pop_multiple(duckVM, duckVM->stack.elements_length);
+	/* The lengths of parallel stacks differ if an instruction failed between the pushes. */
+	e = dl_array_popElements(&duckVM->stack, dl_null, duckVM->stack.elements_length);
 	if (e) goto cleanup;
-	e = dl_array_popElements(&duckVM->upvalue_array_call_stack, dl_null, duckVM->call_stack.elements_length);
+	e = dl_array_popElements(&duckVM->upvalue_stack, dl_null, duckVM->upvalue_stack.elements_length);
+	if (e) goto cleanup;
+	e = dl_array_popElements(&duckVM->upvalue_array_call_stack,
+	                         dl_null,
+	                         duckVM->upvalue_array_call_stack.elements_length - 1);
 	if (e) goto cleanup;
 	e = dl_array_popElements(&duckVM->call_stack, dl_null, duckVM->call_stack.elements_length);
 	if (e) goto cleanup;
-- 
2.43.0


From 9ceb00b64e51705acc8d67c4de8ba1e3a85786fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:29 +0000
Subject: [PATCH 11/99] fix: closures read other variables after an error and
 softReset

Variables captured by closures that survive a softReset stayed bound to stack
slots, which the next execution reuses. Move them to the heap as the end of
their scope would have done.
---
 duckVM.c | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/duckVM.c b/duckVM.c
index 99192c8..23dfd95 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -4807,6 +4807,25 @@ dl_error_t duckVM_allocateHeapObject(duckVM_t *duckVM, duckVM_object_t **heapObj
 
 dl_error_t duckVM_softReset(duckVM_t *duckVM) {
 	dl_error_t e = dl_error_ok;
+	/* Closures that outlive the reset take their captured variables with them. */
+	DL_DOTIMES(i, duckVM->upvalue_stack.elements_length) {
+		duckVM_object_t *upvalue = DL_ARRAY_GETADDRESS(duckVM->upvalue_stack, duckVM_object_t *, i);
+		if ((upvalue == dl_null) || ((dl_size_t) i >= duckVM->stack.elements_length)) continue;
+		duckVM_object_t *heapObject = dl_null;
+		dl_error_t eUpvalue
+			= duckVM_gclist_pushObject(duckVM,
+			                           &heapObject,
+			                           DL_ARRAY_GETADDRESS(duckVM->stack, duckVM_object_t, i));
+		if (eUpvalue) {
+			/* No memory. Make sure that accesses to the variable fail. */
+			upvalue->value.upvalue.value.stack_index = -1;
+		}
+		else {
+			upvalue->value.upvalue.type = duckVM_upvalue_type_heap_object;
+			upvalue->value.upvalue.value.heap_object = heapObject;
+		}
+		DL_ARRAY_GETADDRESS(duckVM->upvalue_stack, duckVM_object_t *, i) = dl_null;
+	}
 	/* The lengths of parallel stacks differ if an instruction failed between the pushes. */
 	e = dl_array_popElements(&duckVM->stack, dl_null, duckVM->stack.elements_length);
 	if (e) goto cleanup;
-- 
2.43.0


From 45fcc9fdbe88939f7dfef391af1278aaefb12648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:29 +0000
Subject: [PATCH 12/99] fix: failed pushes leave the VM's parallel stacks with
 different lengths

---
 duckVM.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/duckVM.c b/duckVM.c
index 23dfd95..6345bc5 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -539,6 +539,10 @@ static dl_error_t stack_push(duckVM_t *duckVM, duckVM_object_t *object) {
 	e = dl_array_pushElement(&duckVM->stack, object);
 	if (e) goto cleanup;
 	e = dl_array_pushElement(&duckVM->upvalue_stack, dl_null);
+	if (e) {
+		/* The stacks have to stay parallel. */
+		(void) dl_array_popElement(&duckVM->stack, dl_null);
+	}
  cleanup:
 	if (e) {
 		dl_error_t eError = duckVM_error_pushRuntime(duckVM, DL_STR("stack_push: Failed."));
@@ -603,7 +607,10 @@ static dl_error_t call_stack_push(duckVM_t *duckVM,
 	e = dl_array_pushElement(&duckVM->call_stack, &frame);
 	if (e) goto cleanup;
 	e = dl_array_pushElement(&duckVM->upvalue_array_call_stack, &upvalueArray);
-	if (e) goto cleanup;
+	if (e) {
+		/* The stacks have to stay parallel. */
+		(void) dl_array_popElement(&duckVM->call_stack, dl_null);
+	}
  cleanup:
 	if (e) {
 		dl_error_t eError = duckVM_error_pushRuntime(duckVM, DL_STR("call_stack_push: Failed."));
@@ -1595,7 +1602,7 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 	case duckLisp_instruction_call8:
 		ptrdiff1 = *(ip++) + (ptrdiff1 << 8);
 		ptrdiff2 = *(ip++);
-		call_stack_push(duckVM, ip, bytecode, dl_null);
+		e = call_stack_push(duckVM, ip, bytecode, dl_null);
 		if (e) break;
 		if (opcode == duckLisp_instruction_call32) {
 			if (ptrdiff1 & 0x80000000ULL) {
-- 
2.43.0


From 7670a7cb348b62b92a95c9db86d8d965de0a6e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:29 +0000
Subject: [PATCH 13/99] fix: failed allocation leaves a heap object that points
 at foreign memory

When the contents of an object could not be allocated, the object kept the
pointer of its prototype, and the collector freed memory it did not own.
---
 duckVM.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/duckVM.c b/duckVM.c
index 6345bc5..a47168e 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -350,6 +350,7 @@ static dl_error_t duckVM_gclist_pushObject(duckVM_t *duckVM, duckVM_object_t **o
 	dl_error_t e = dl_error_ok;
 	dl_error_t eError = dl_error_ok;
 
+	duckVM_object_t *heapObject = dl_null;
 	duckVM_gclist_t *gclist = &duckVM->gclist;
 
 #ifdef DUCKLISP_VERIF
@@ -379,7 +380,7 @@ static dl_error_t duckVM_gclist_pushObject(duckVM_t *duckVM, duckVM_object_t **o
 		}
 	}
 
-	duckVM_object_t *heapObject = gclist->freeObjects[--gclist->freeObjects_length];
+	heapObject = gclist->freeObjects[--gclist->freeObjects_length];
 #ifdef DUCKLISP_VERIF
 	duckVM_verif_allocated(duckVM, heapObject);
 #endif /* DUCKLISP_VERIF */
@@ -473,7 +474,11 @@ static dl_error_t duckVM_gclist_pushObject(duckVM_t *duckVM, duckVM_object_t **o
 	*objectOut = heapObject;
 
  cleanup:
-
+	if (e && heapObject) {
+		/* Its contents were not allocated, so the object must not be finalized. */
+		heapObject->type = duckVM_object_type_none;
+		gclist->freeObjects[gclist->freeObjects_length++] = heapObject;
+	}
 	return e;
 }
 
-- 
2.43.0


From a3c2de90ca5f61bb887e848a280d9fe6e69b73d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:04 +0000
Subject: [PATCH 14/99] fix: integer division by zero kills the host process

---
 duckVM.c | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/duckVM.c b/duckVM.c
index a47168e..bbdb340 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -799,6 +799,30 @@ static dl_error_t duckVM_instruction_prepareForFuncall(duckVM_t *duckVM,
 }                
 
 
+/* Integer division traps on some operands. */
+static dl_error_t checkDivision(duckVM_t *duckVM, duckVM_object_t *dividend, duckVM_object_t *divisor) {
+	dl_error_t e = dl_error_ok;
+	if (((dividend->type != duckVM_object_type_integer) && (dividend->type != duckVM_object_type_bool))
+	    || ((divisor->type != duckVM_object_type_integer) && (divisor->type != duckVM_object_type_bool))) {
+		return e;
+	}
+	dl_ptrdiff_t n = ((dividend->type == duckVM_object_type_integer)
+	                  ? dividend->value.integer
+	                  : dividend->value.boolean);
+	dl_ptrdiff_t d = (divisor->type == duckVM_object_type_integer) ? divisor->value.integer : divisor->value.boolean;
+	if (d == 0) {
+		e = dl_error_invalidValue;
+		dl_error_t eError = duckVM_error_pushRuntime(duckVM, DL_STR("duckVM_execute->divide: Division by zero."));
+		if (eError) e = eError;
+	}
+	else if ((d == -1) && (n < 0) && (n == (dl_ptrdiff_t) (0 - (dl_size_t) n))) {
+		e = dl_error_invalidValue;
+		dl_error_t eError = duckVM_error_pushRuntime(duckVM, DL_STR("duckVM_execute->divide: Integer overflow."));
+		if (eError) e = eError;
+	}
+	return e;
+}
+
 int duckVM_executeInstruction(duckVM_t *duckVM,
                               duckVM_object_t *bytecode,
                               unsigned char **ipPtr,
@@ -2088,6 +2112,8 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 		if (e) break;
 		e = dl_array_get(&duckVM->stack, &object2, duckVM->stack.elements_length - ptrdiff2);
 		if (e) break;
+		e = checkDivision(duckVM, &object1, &object2);
+		if (e) break;
 		switch (object1.type) {
 		case duckVM_object_type_float:
 			switch (object2.type) {
@@ -2160,6 +2186,8 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 		if (e) break;
 		e = dl_array_get(&duckVM->stack, &object2, duckVM->stack.elements_length - ptrdiff2);
 		if (e) break;
+		e = checkDivision(duckVM, &object1, &object2);
+		if (e) break;
 		switch (object1.type) {
 		case duckVM_object_type_float:
 			switch (object2.type) {
@@ -2229,6 +2257,8 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 		if (e) break;
 		e = dl_array_get(&duckVM->stack, &object2, duckVM->stack.elements_length - ptrdiff2);
 		if (e) break;
+		e = checkDivision(duckVM, &object1, &object2);
+		if (e) break;
 		switch (object1.type) {
 		case duckVM_object_type_float:
 			switch (object2.type) {
-- 
2.43.0


From 574ae0a4a848122d07aaf2508e4f5526e3b7cb05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:36 +0000
Subject: [PATCH 15/99] fix: accesses to vectors that have no such element

Empty vectors dereferenced a null pointer, set-vector-element accepted negative
indices into the part of the vector before a CDR, and set-car wrote beyond the
end of vectors that had been truncated.
---
 duckVM.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/duckVM.c b/duckVM.c
index bbdb340..ea07203 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -3457,6 +3457,7 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 		if (object1.type == duckVM_object_type_vector) {
 			ptrdiff1 = object2.value.integer;
 			if ((ptrdiff1 < 0)
+			    || (object1.value.vector.internal_vector == dl_null)
 			    || ((dl_size_t) (ptrdiff1 + object1.value.vector.offset)
 			        >= object1.value.vector.internal_vector->value.internal_vector.length)) {
 				e = dl_error_invalidValue;
@@ -3470,7 +3471,9 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 		}
 		else if (object1.type == duckVM_object_type_string) {
 			ptrdiff1 = object2.value.integer;
-			if ((ptrdiff1 < 0) || ((dl_size_t) ptrdiff1 >= object1.value.string.length - object1.value.string.offset)) {
+			if ((ptrdiff1 < 0)
+			    || (object1.value.string.internalString == dl_null)
+			    || ((dl_size_t) ptrdiff1 >= object1.value.string.length - object1.value.string.offset)) {
 				e = dl_error_invalidValue;
 				eError = duckVM_error_pushRuntime(duckVM,
 				                                  DL_STR("duckVM_execute->get-vector-element: String index out of bounds."));
@@ -3568,8 +3571,10 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 
 		/* Vector bounds check. */
 		ptrdiff2 = object2.value.integer;
-		if ((dl_size_t) (ptrdiff2 + object1.value.vector.offset)
-		    >= object1.value.vector.internal_vector->value.internal_vector.length) {
+		if ((ptrdiff2 < 0)
+		    || (object1.value.vector.internal_vector == dl_null)
+		    || ((dl_size_t) (ptrdiff2 + object1.value.vector.offset)
+		        >= object1.value.vector.internal_vector->value.internal_vector.length)) {
 			e = dl_error_invalidValue;
 			break;
 		}
@@ -3832,7 +3837,9 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 			}
 		}
 		else if ((object2.type == duckVM_object_type_vector)
-		         && (object2.value.vector.internal_vector != dl_null)) {
+		         && (object2.value.vector.internal_vector != dl_null)
+		         && ((dl_size_t) object2.value.vector.offset
+		             < object2.value.vector.internal_vector->value.internal_vector.length)) {
 			e = duckVM_gclist_pushObject(duckVM, &objectPtr1, object1);
 			if (e) break;
 			(object2.value.vector.internal_vector
-- 
2.43.0


From f47ad801698e8e5c7fdc1ca4d2c134515481f1a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:36 +0000
Subject: [PATCH 16/99] fix: set-cdr removes the current element of a vector
 too

The reference says that the sequence is truncated right after the current
element. Setting the CDR of a vector that had been truncated before the current
element made elements that had been freed visible again.
---
 duckVM.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/duckVM.c b/duckVM.c
index ea07203..3e65a00 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -3896,11 +3896,13 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 		}
 		else if ((object2.type == duckVM_object_type_vector)
 		         && (object2.value.vector.internal_vector != dl_null)
+		         && ((dl_size_t) object2.value.vector.offset
+		             < object2.value.vector.internal_vector->value.internal_vector.length)
 		         && (((object1.type == duckVM_object_type_vector)
 		              && (object1.value.vector.internal_vector == dl_null))
 		             || ((object1.type == duckVM_object_type_list)
 		                 && (object1.value.list == dl_null)))) {
-			object2.value.vector.internal_vector->value.internal_vector.length = object2.value.vector.offset;
+			object2.value.vector.internal_vector->value.internal_vector.length = object2.value.vector.offset + 1;
 		}
 		else {
 			e = dl_error_invalidValue;
-- 
2.43.0


From 0477d1f203b5601a4202e2c9e825b76e3099d827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:25 +0000
Subject: [PATCH 17/99] fix: integer literals wider than 32 bits are truncated

---
 assembler.c | 30 +++++++++++++++++++++++++++---
 duckLisp.h  |  1 +
 duckVM.c    | 14 ++++++++++++++
 3 files changed, 42 insertions(+), 3 deletions(-)

diff --git a/assembler.c b/assembler.c
index 4132d82..73b4a60 100644
--- a/assembler.c
+++ b/assembler.c
@@ -525,7 +525,9 @@ dl_error_t duckLisp_assemble(duckLisp_t *duckLisp,
 		}
 		case duckLisp_instructionClass_pushInteger: {
 			dl_bool_t sign = args[0].value.integer < 0;
-			unsigned long long absolute = sign ? -args[0].value.integer : args[0].value.integer;
+			unsigned long long absolute = (sign
+			                               ? -(unsigned long long) args[0].value.integer
+			                               : (unsigned long long) args[0].value.integer);
 
 			switch (args[0].type) {
 			case duckLisp_instructionArgClass_type_integer:
@@ -537,16 +539,20 @@ dl_error_t duckLisp_assemble(duckLisp_t *duckLisp,
 					currentInstruction.byte = duckLisp_instruction_pushInteger16;
 					byte_length = 2;
 				}
-				else {
+				else if (absolute < 0x80000000LU) {
 					currentInstruction.byte = duckLisp_instruction_pushInteger32;
 					byte_length = 4;
 				}
+				else {
+					currentInstruction.byte = duckLisp_instruction_pushInteger64;
+					byte_length = 8;
+				}
 				e = dl_array_pushElements(&currentArgs, dl_null, byte_length);
 				if (e) {
 					goto cleanup;
 				}
 				for (dl_ptrdiff_t n = 0; (dl_size_t) n < byte_length; n++) {
-					DL_ARRAY_GETADDRESS(currentArgs, dl_uint8_t, n) = ((args[0].value.integer
+					DL_ARRAY_GETADDRESS(currentArgs, dl_uint8_t, n) = (((dl_uint64_t) args[0].value.integer
 					                                                    >> 8*(byte_length - n - 1))
 					                                                   & 0xFFU);
 				}
@@ -2877,6 +2883,7 @@ dl_error_t duckLisp_disassemble(dl_array_t *string,
 		{duckLisp_instruction_pushInteger8, DL_STR("integer.8 1")},
 		{duckLisp_instruction_pushInteger16, DL_STR("integer.16 2")},
 		{duckLisp_instruction_pushInteger32, DL_STR("integer.32 4")},
+		{duckLisp_instruction_pushInteger64, DL_STR("integer.64 8")},
 		{duckLisp_instruction_pushDoubleFloat, DL_STR("double-float f")},
 		{duckLisp_instruction_pushIndex8, DL_STR("index.8 1")},
 		{duckLisp_instruction_pushIndex16, DL_STR("index.16 2")},
@@ -3139,6 +3146,23 @@ dl_error_t duckLisp_disassemble(dl_array_t *string,
 					--format_length;
 					break;
 				}
+				case '8': {
+					e = dl_array_pushElement(&disassembly, " ");
+					if (e) goto cleanup;
+					DL_DOTIMES(m, 8) {
+						bytecode_index++;
+						dl_uint8_t code = bytecode[bytecode_index];
+						char hexChar = dl_nybbleToHexChar((code >> 4) & 0x0F);
+						e = dl_array_pushElement(&disassembly, &hexChar);
+						if (e) goto cleanup;
+						hexChar = dl_nybbleToHexChar(code & 0x0F);
+						e = dl_array_pushElement(&disassembly, &hexChar);
+						if (e) goto cleanup;
+					}
+					format++;
+					--format_length;
+					break;
+				}
 				case 'v': {
 					format++;
 					--format_length;
diff --git a/duckLisp.h b/duckLisp.h
index f84b804..a526fed 100644
--- a/duckLisp.h
+++ b/duckLisp.h
@@ -289,6 +289,7 @@ typedef enum {
 	duckLisp_instruction_pushInteger8,
 	duckLisp_instruction_pushInteger16,
 	duckLisp_instruction_pushInteger32,
+	duckLisp_instruction_pushInteger64,
 
 	duckLisp_instruction_pushDoubleFloat,
 
diff --git a/duckVM.c b/duckVM.c
index 3e65a00..0abfe4a 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -994,6 +994,20 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 		}
 		break;
 
+	case duckLisp_instruction_pushInteger64: {
+		dl_uint64_t integer = 0;
+		DL_DOTIMES(k, 8) {
+			integer = *(ip++) + (integer << 8);
+		}
+		object1 = duckVM_object_makeInteger((dl_ptrdiff_t) integer);
+		e = stack_push(duckVM, &object1);
+		if (e) {
+			eError = duckVM_error_pushRuntime(duckVM, DL_STR("duckVM_execute->push-integer: stack_push failed."));
+			if (!e) e = eError;
+		}
+		break;
+	}
+
 	case duckLisp_instruction_pushDoubleFloat: {
 		dl_uint64_t totallyNotADoubleFloat = 0;
 		totallyNotADoubleFloat = *(ip++);
-- 
2.43.0


From 5bb53406af530d19035983fb158cd6ab62ac2aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:17 +0000
Subject: [PATCH 18/99] fix: an empty expression that contains blanks or
 comments is a syntax error

---
 parser.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser.c b/parser.c
index 594c512..9168e13 100644
--- a/parser.c
+++ b/parser.c
@@ -294,6 +294,8 @@ static dl_error_t parse_literalExpression(duckLisp_t *duckLisp,
 		goto cleanup;
 	}
 
+	(void) parse_irrelevant(dl_null, source, source_length, dl_null, &indexCopy, dl_false);
+
 	while (dl_true) {
 		duckLisp_ast_compoundExpression_t subCompoundExpression;
 		dl_ptrdiff_t subIndex = indexCopy;
@@ -419,6 +421,8 @@ static dl_error_t parse_expression(duckLisp_t *duckLisp,
 		goto cleanup;
 	}
 
+	(void) parse_irrelevant(dl_null, source, source_length, dl_null, &indexCopy, dl_false);
+
 	while (dl_true) {
 		duckLisp_ast_compoundExpression_t subCompoundExpression;
 		dl_ptrdiff_t subIndex = indexCopy;
-- 
2.43.0


From 519f7100c455c14b0844f4a43e2a7905212ecf56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:17 +0000
Subject: [PATCH 19/99] fix: parser reads past the end of the source

---
 DuckLib/string.c | 18 ++++++++----------
 duckLisp.c       |  7 +------
 parser.c         | 18 ++++++------------
 3 files changed, 15 insertions(+), 28 deletions(-)

diff --git a/DuckLib/string.c b/DuckLib/string.c
index de6bcea..7a2081d 100644
--- a/DuckLib/string.c
+++ b/DuckLib/string.c
@@ -256,6 +256,11 @@ dl_error_t dl_string_toDouble(double *result, const dl_uint8_t *string, const dl
 
 	*result = 0.0;
 
+	if ((dl_size_t) index >= string_length) {
+		e = dl_error_invalidValue;
+		goto cleanup;
+	}
+
 	if (string[index] == '-') {
 		index++;
 
@@ -324,16 +329,9 @@ dl_error_t dl_string_toDouble(double *result, const dl_uint8_t *string, const dl
 			index++;
 		}
 
-		if (string[index] == '.') {
+		if (((dl_size_t) index < string_length) && (string[index] == '.')) {
 			index++;
-
-			if ((dl_size_t) index >= string_length) {
-				// eError = duckLisp_error_push(duckLisp, DL_STR("Expected a digit after decimal point."), index);
-				// e = eError ? eError : dl_error_bufferOverflow;
-				// This is expected. 1. 234.e61  435. for example.
-				goto cleanup;
-			}
-
+			/* A missing fraction is expected. 1. 234.e61 435. for example. */
 			power = 1;
 		}
 
@@ -351,7 +349,7 @@ dl_error_t dl_string_toDouble(double *result, const dl_uint8_t *string, const dl
 	}
 
 	// …e3
-	if (dl_string_toLower(string[index]) == 'e') {
+	if (((dl_size_t) index < string_length) && (dl_string_toLower(string[index]) == 'e')) {
 		index++;
 
 		if ((dl_size_t) index >= string_length) {
diff --git a/duckLisp.c b/duckLisp.c
index b4e164e..9532fe2 100644
--- a/duckLisp.c
+++ b/duckLisp.c
@@ -2150,15 +2150,10 @@ dl_error_t duckLisp_loadString(duckLisp_t *duckLisp,
 	dl_ptrdiff_t index = -1;
 	duckLisp_ast_compoundExpression_t ast;
 	dl_array_t bytecodeArray;
-	dl_bool_t result = dl_false;
 
 	/**/ duckLisp_ast_compoundExpression_init(&ast);
 
-	// Trim whitespace from the beginning of the file.
-	do {
-		if (dl_string_isSpace(*source)) source++;
-	} while (result);
-
+	/* The parser skips whitespace at the beginning of the file. */
 	index = 0;
 
 	/* Parse. */
diff --git a/parser.c b/parser.c
index 9168e13..b355008 100644
--- a/parser.c
+++ b/parser.c
@@ -155,7 +155,7 @@ static dl_error_t parse_comment(duckLisp_t *duckLisp,
 	dl_ptrdiff_t start_index = *index;
 	dl_ptrdiff_t stop_index = start_index;
 
-	if (source[stop_index] != ';') {
+	if ((stop_index >= (dl_ptrdiff_t) source_length) || (source[stop_index] != ';')) {
 		return dl_error_invalidValue;
 	}
 
@@ -182,7 +182,7 @@ dl_error_t parse_irrelevant(duckLisp_t *duckLisp,
 		if (indexCopy >= (dl_ptrdiff_t) source_length) {
 			return dl_error_invalidValue;
 		}
-		while (dl_string_isSpace(source[indexCopy])) indexCopy++;
+		while ((indexCopy < (dl_ptrdiff_t) source_length) && dl_string_isSpace(source[indexCopy])) indexCopy++;
 		dl_error_t e = parse_comment(dl_null, source, source_length, dl_null, &indexCopy, dl_false);
 		if (e) break;
 	}
@@ -854,7 +854,7 @@ static dl_error_t parse_int(duckLisp_t *duckLisp,
 			indexCopy++;
 			hexadecimal = dl_true;
 
-			if (!dl_string_isHexadecimalDigit(source[indexCopy])) {
+			if ((indexCopy >= (dl_ptrdiff_t) source_length) || !dl_string_isHexadecimalDigit(source[indexCopy])) {
 				eError = duckLisp_error_pushSyntax(duckLisp,
 				                                   DL_STR("Expected a digit in integer."),
 				                                   fileName,
@@ -1047,16 +1047,10 @@ static dl_error_t parse_float(duckLisp_t *duckLisp,
 			indexCopy++;
 		}
 
-		if (source[indexCopy] == '.') {
+		if ((indexCopy < (dl_ptrdiff_t) source_length) && (source[indexCopy] == '.')) {
 			hasDecimalPointOrExponent = dl_true;
 			indexCopy++;
-
-			if (indexCopy >= (dl_ptrdiff_t) source_length) {
-				// eError = duckLisp_error_pushSyntax(duckLisp, DL_STR("Expected a digit after decimal point."), index);
-				// e = eError ? eError : dl_error_bufferOverflow;
-				/* This is expected. 1. 234.e61 435. for example. */
-				goto cleanup;
-			}
+			/* A missing fraction is expected. 1. 234.e61 435. for example. */
 		}
 
 		while ((indexCopy < (dl_ptrdiff_t) source_length)
@@ -1068,7 +1062,7 @@ static dl_error_t parse_float(duckLisp_t *duckLisp,
 	}
 
 	/* …e3 */
-	if (dl_string_toLower(source[indexCopy]) == 'e') {
+	if ((indexCopy < (dl_ptrdiff_t) source_length) && (dl_string_toLower(source[indexCopy]) == 'e')) {
 		hasDecimalPointOrExponent = dl_true;
 		indexCopy++;
 
-- 
2.43.0


From d6b225a1fde1fadc14b43bbe0b14b3cd7000cc91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:17 +0000
Subject: [PATCH 20/99] fix: literals that end the source are not recognised

---
 parser.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/parser.c b/parser.c
index b355008..4953887 100644
--- a/parser.c
+++ b/parser.c
@@ -233,7 +233,7 @@ static dl_error_t parse_literalExpression(duckLisp_t *duckLisp,
 	expression.compoundExpressions_length = 0;
 
 	/* Basic syntax checks. Need space for two parentheses and the first character must be a parenthesis. */
-	if (indexCopy + 3 >= (dl_ptrdiff_t) source_length) {
+	if (indexCopy + 2 >= (dl_ptrdiff_t) source_length) {
 		eError = duckLisp_error_pushSyntax(duckLisp,
 		                                   DL_STR("Not an expression: file too short."),
 		                                   fileName,
@@ -691,7 +691,7 @@ static dl_error_t parse_bool(duckLisp_t *duckLisp,
 	const dl_size_t sizeOfTrue = sizeof("true") - 1;
 	const dl_size_t sizeOfFalse = sizeof("false") - 1;
 
-	if (source_length <= indexCopy + sizeOfTrue) {
+	if (source_length < indexCopy + sizeOfTrue) {
 		eError = duckLisp_error_pushSyntax(duckLisp,
 		                                   DL_STR("Encountered EOF"),
 		                                   fileName,
@@ -709,7 +709,7 @@ static dl_error_t parse_bool(duckLisp_t *duckLisp,
 		stop_index += sizeOfTrue;
 	}
 	else {
-		if (source_length <= indexCopy + sizeOfFalse) {
+		if (source_length < indexCopy + sizeOfFalse) {
 			eError = duckLisp_error_pushSyntax(duckLisp,
 			                                   DL_STR("Encountered EOF"),
 			                                   fileName,
@@ -1188,6 +1188,7 @@ static dl_error_t parse_string(duckLisp_t *duckLisp,
 	dl_ptrdiff_t start_index = *index;
 	dl_ptrdiff_t indexCopy = start_index;
 	dl_ptrdiff_t stop_index = start_index;
+	dl_bool_t closed = dl_false;
 
 	if (indexCopy >= (dl_ptrdiff_t) source_length) {
 		eError = duckLisp_error_pushSyntax(duckLisp,
@@ -1227,13 +1228,14 @@ static dl_error_t parse_string(duckLisp_t *duckLisp,
 			}
 			else if (source[indexCopy] == '"') {
 				indexCopy++;
+				closed = dl_true;
 				break;
 			}
 
 			indexCopy++;
 		}
 
-		if (indexCopy >= (dl_ptrdiff_t) source_length) {
+		if (!closed) {
 			e = dl_error_invalidValue;
 			eError = duckLisp_error_pushSyntax(duckLisp,
 			                                   DL_STR("String missing closing quote."),
-- 
2.43.0


From 8d0c02ae857b764cb3e2700df318b86802ef30dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:36 +0000
Subject: [PATCH 21/99] fix: identifiers that start with true or false are
 split in two

---
 parser.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/parser.c b/parser.c
index 4953887..320bbfa 100644
--- a/parser.c
+++ b/parser.c
@@ -741,6 +741,21 @@ static dl_error_t parse_bool(duckLisp_t *duckLisp,
 		}
 	}
 
+	if ((stop_index < (dl_ptrdiff_t) source_length) && isIdentifierSymbol(source[stop_index])) {
+		/* This is an identifier that starts like a boolean. */
+		eError = duckLisp_error_pushSyntax(duckLisp,
+		                                   DL_STR("Expected a \"true\" or \"false\" in boolean."),
+		                                   fileName,
+		                                   fileName_length,
+		                                   source,
+		                                   source_length,
+		                                   start_index,
+		                                   indexCopy,
+		                                   throwErrors);
+		e = eError ? eError : dl_error_invalidValue;
+		goto cleanup;
+	}
+
 	duckLisp_ast_bool_t boolean;
 	e = dl_string_toBool(&boolean.value, &source[start_index], stop_index - start_index);
 	if (e) {
-- 
2.43.0


From 7aded008efbd02de0e015bc810c419bc0c2c4833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:36 +0000
Subject: [PATCH 22/99] fix: syntax errors leak the expressions that were
 parsed so far

---
 parser.c | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/parser.c b/parser.c
index 320bbfa..ca03915 100644
--- a/parser.c
+++ b/parser.c
@@ -27,6 +27,7 @@ SOFTWARE.
 #include "parenthesis-inferrer.h"
 #endif /* USE_PARENTHESIS_INFERENCE */
 #include "DuckLib/string.h"
+#include "parser.h"
 
 
 static dl_error_t duckLisp_error_pushSyntax(duckLisp_t *duckLisp,
@@ -336,7 +337,10 @@ static dl_error_t parse_literalExpression(duckLisp_t *duckLisp,
 		               &expression.compoundExpressions,
 		               expressionMemorySize,
 		               duckLisp_ast_compoundExpression_t);
-		if (e) goto cleanup;
+		if (e) {
+			(void) duckLisp_ast_compoundExpression_quit(duckLisp->memoryAllocation, &subCompoundExpression);
+			goto cleanup;
+		}
 
 		expression.compoundExpressions[expression.compoundExpressions_length] = subCompoundExpression;
 		expression.compoundExpressions_length++;
@@ -349,6 +353,12 @@ static dl_error_t parse_literalExpression(duckLisp_t *duckLisp,
 	*index = indexCopy;
 
  cleanup:
+	if (e) {
+		(void) duckLisp_ast_expression_quit(duckLisp->memoryAllocation, &expression);
+		duckLisp_ast_compoundExpression_init(compoundExpression);
+		return e;
+	}
+
 	compoundExpression->type = duckLisp_ast_type_literalExpression;
 	compoundExpression->value.expression = expression;
 
@@ -463,7 +473,10 @@ static dl_error_t parse_expression(duckLisp_t *duckLisp,
 		               &expression.compoundExpressions,
 		               expressionMemorySize,
 		               duckLisp_ast_compoundExpression_t);
-		if (e) goto cleanup;
+		if (e) {
+			(void) duckLisp_ast_compoundExpression_quit(duckLisp->memoryAllocation, &subCompoundExpression);
+			goto cleanup;
+		}
 
 		expression.compoundExpressions[expression.compoundExpressions_length] = subCompoundExpression;
 		expression.compoundExpressions_length++;
@@ -476,6 +489,12 @@ static dl_error_t parse_expression(duckLisp_t *duckLisp,
 	*index = indexCopy;
 
  cleanup:
+	if (e) {
+		(void) duckLisp_ast_expression_quit(duckLisp->memoryAllocation, &expression);
+		duckLisp_ast_compoundExpression_init(compoundExpression);
+		return e;
+	}
+
 	compoundExpression->type = duckLisp_ast_type_expression;
 	compoundExpression->value.expression = expression;
 
@@ -1335,6 +1354,8 @@ dl_error_t duckLisp_ast_compoundExpression_quit(dl_memoryAllocation_t *memoryAll
 	dl_error_t e = dl_error_ok;
 
 	switch (compoundExpression->type) {
+	case duckLisp_ast_type_none:
+		break;
 	case duckLisp_ast_type_string:
 		(void) ast_string_quit(memoryAllocation, &compoundExpression->value.string);
 		break;
@@ -1480,7 +1501,7 @@ dl_error_t duckLisp_parse_compoundExpression(duckLisp_t *duckLisp,
 			*index = localIndex;
 			compoundExpression->type = readerStruct[i].type;
 			e = runAction(duckLisp, compoundExpression);
-			if (e) goto cleanup;
+			if (e) (void) duckLisp_ast_compoundExpression_quit(duckLisp->memoryAllocation, compoundExpression);
 			goto cleanup;
 		}
 		if (e != dl_error_invalidValue) {
-- 
2.43.0


From 8746b08e47ffdeaae945def9651d54dd92fcb4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:13 +0000
Subject: [PATCH 23/99] fix: long fractions and large exponents of float
 literals

---
 DuckLib/string.c | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/DuckLib/string.c b/DuckLib/string.c
index 7a2081d..677ca12 100644
--- a/DuckLib/string.c
+++ b/DuckLib/string.c
@@ -253,6 +253,8 @@ dl_error_t dl_string_toDouble(double *result, const dl_uint8_t *string, const dl
 	dl_bool_t negative = dl_false;
 	dl_ptrdiff_t power = 0;
 	dl_bool_t power_negative = dl_false;
+	/* Powers of ten that are too large for an integer are needed here. */
+	double place = 1.0;
 
 	*result = 0.0;
 
@@ -281,19 +283,19 @@ dl_error_t dl_string_toDouble(double *result, const dl_uint8_t *string, const dl
 			goto cleanup;
 		}
 
-		power = 10;
+		place = 10.0;
 
 		if (!dl_string_isDigit(string[index])) {
 			e = dl_error_invalidValue;
 			goto cleanup;
 		}
 
-		*result += (double) (string[index] - '0') / (double) power;
+		*result += (double) (string[index] - '0') / place;
 
 		index++;
 
 		while (((dl_size_t) index < string_length) && (dl_string_toLower(string[index]) != 'e')) {
-			power = 10 * power;
+			place = 10.0 * place;
 
 			tempBool = dl_string_isDigit(string[index]);
 			if (!tempBool) {
@@ -301,7 +303,7 @@ dl_error_t dl_string_toDouble(double *result, const dl_uint8_t *string, const dl
 				goto cleanup;
 			}
 
-			*result += (double) (string[index] - '0') / (double) power;
+			*result += (double) (string[index] - '0') / place;
 			index++;
 		}
 	}
@@ -332,17 +334,16 @@ dl_error_t dl_string_toDouble(double *result, const dl_uint8_t *string, const dl
 		if (((dl_size_t) index < string_length) && (string[index] == '.')) {
 			index++;
 			/* A missing fraction is expected. 1. 234.e61 435. for example. */
-			power = 1;
 		}
 
 		while (((dl_size_t) index < string_length) && (dl_string_toLower(string[index]) != 'e')) {
-			power = 10 * power;
+			place = 10.0 * place;
 			if (!dl_string_isDigit(string[index])) {
 				e = dl_error_invalidValue;
 				goto cleanup;
 			}
 
-			*result += (double) (string[index] - '0') / (double) power;
+			*result += (double) (string[index] - '0') / place;
 
 			index++;
 		}
@@ -383,17 +384,13 @@ dl_error_t dl_string_toDouble(double *result, const dl_uint8_t *string, const dl
 				goto cleanup;
 			}
 
-			power = power * 10 + string[index] - '0';
+			/* No double survives an exponent this large. */
+			if (power < 100000) power = power * 10 + string[index] - '0';
 
 			index++;
 		}
 
 		if (power_negative) {
-			if (power == 0) {
-				e = dl_error_invalidValue;
-				goto cleanup;
-			}
-
 			for (dl_ptrdiff_t i = 0; i < power; i++) {
 				*result /= 10.0;
 			}
-- 
2.43.0


From ff0d08746d8d774bb7091e2c23d20a9ef7bb3475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:13 +0000
Subject: [PATCH 24/99] fix: integer literals that do not fit an integer
 overflow

---
 DuckLib/string.c | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/DuckLib/string.c b/DuckLib/string.c
index 677ca12..7c9f596 100644
--- a/DuckLib/string.c
+++ b/DuckLib/string.c
@@ -98,6 +98,7 @@ dl_error_t dl_string_toPtrdiff(dl_ptrdiff_t *result, const dl_uint8_t *string, c
 	dl_bool_t tempBool;
 	dl_bool_t negative = dl_false;
 	dl_bool_t hexadecimal = dl_false;
+	const dl_ptrdiff_t minimum = -(dl_ptrdiff_t) ((dl_size_t) -1 / 2) - 1;
 
 	*result = 0;
 
@@ -145,22 +146,27 @@ dl_error_t dl_string_toPtrdiff(dl_ptrdiff_t *result, const dl_uint8_t *string, c
 			goto cleanup;
 		}
 
-		if (hexadecimal) {
-			*result = (*result * 16
-			           + (('0' <= string[index]) && (string[index] <= '9')
-			              ? string[index] - '0'
-			              : ('a' <= string[index]) && (string[index] <= 'f')
-			              ? string[index] - 'a' + 10
-			              : (string[index] - 'A' + 10)));
-		}
-		else {
-			*result = *result * 10 + (string[index] - '0');
+		const dl_ptrdiff_t base = hexadecimal ? 16 : 10;
+		const dl_ptrdiff_t digit = (!hexadecimal || (('0' <= string[index]) && (string[index] <= '9'))
+		                            ? string[index] - '0'
+		                            : ('a' <= string[index]) && (string[index] <= 'f')
+		                            ? string[index] - 'a' + 10
+		                            : (string[index] - 'A' + 10));
+		/* The value is accumulated as a negative number since the smallest integer has no positive counterpart. */
+		if (*result < (minimum + digit) / base) {
+			e = dl_error_invalidValue;
+			goto cleanup;
 		}
+		*result = *result * base - digit;
 
 		index++;
 	}
 
-	if (negative) {
+	if (!negative) {
+		if (*result == minimum) {
+			e = dl_error_invalidValue;
+			goto cleanup;
+		}
 		*result = -*result;
 	}
 
-- 
2.43.0


From b393b778e43ecb8e10004b9bef7b3a43f8459ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:19 +0000
Subject: [PATCH 25/99] fix: empty strings are true at run time and false at
 compile time

---
 duckVM.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/duckVM.c b/duckVM.c
index 0abfe4a..ad2228c 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -1783,7 +1783,9 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 				truthy = dl_true;
 			}
 			else if (object1.type == duckVM_object_type_string) {
-				truthy = dl_true;
+				/* As in constant conditions, the empty string is false. */
+				truthy = ((object1.value.string.internalString != dl_null)
+				          && (object1.value.string.offset < (dl_ptrdiff_t) object1.value.string.length));
 			}
 			else if (object1.type == duckVM_object_type_vector) {
 				truthy = ((object1.value.vector.internal_vector != dl_null)
-- 
2.43.0


From 1e4acfc6b9e353300cbc4034e5e1809bc8ae4a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:19 +0000
Subject: [PATCH 26/99] fix: not rejects strings and negates vectors that were
 emptied

---
 duckVM.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/duckVM.c b/duckVM.c
index ad2228c..8ece6e1 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -1871,7 +1871,14 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 		switch (object1.type) {
 		case duckVM_object_type_vector:
 			object1.type = duckVM_object_type_bool;
-			object1.value.boolean = object1.value.vector.internal_vector == dl_null;
+			object1.value.boolean = ((object1.value.vector.internal_vector == dl_null)
+			                         || ((dl_size_t) object1.value.vector.offset
+			                             >= object1.value.vector.internal_vector->value.internal_vector.length));
+			break;
+		case duckVM_object_type_string:
+			object1.type = duckVM_object_type_bool;
+			object1.value.boolean = ((object1.value.string.internalString == dl_null)
+			                         || (object1.value.string.offset >= (dl_ptrdiff_t) object1.value.string.length));
 			break;
 		case duckVM_object_type_list:
 			object1.type = duckVM_object_type_bool;
@@ -1889,7 +1896,7 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 		default:
 			e = dl_error_invalidValue;
 			eError = duckVM_error_pushRuntime(duckVM,
-			                                  DL_STR("duckVM_execute->not: Object is not a boolean, integer, float, list, or vector."));
+			                                  DL_STR("duckVM_execute->not: Object is not a boolean, integer, float, list, vector, or string."));
 			if (!e) e = eError;
 			goto cleanup;
 		}
-- 
2.43.0


From c100c0f23147ee17527d9723b5a999207369ab7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:56 +0000
Subject: [PATCH 27/99] fix: calling a callback whose global was reassigned
 jumps to an arbitrary address

---
 duckVM.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/duckVM.c b/duckVM.c
index 8ece6e1..b23ff13 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -1693,6 +1693,13 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 				if (!e) e = eError;
 				break;
 			}
+			if ((global == dl_null) || (global->type != duckVM_object_type_function)) {
+				e = dl_error_invalidValue;
+				eError = duckVM_error_pushRuntime(duckVM,
+				                                  DL_STR("duckVM_execute->c-call: Global is no longer a callback."));
+				if (!e) e = eError;
+				break;
+			}
 			e = global->value.function.callback(duckVM);
 			if (e) {
 				eError = duckVM_error_pushRuntime(duckVM, DL_STR("duckVM_execute->c-call: C callback returned error."));
-- 
2.43.0


From 2be43f19f3871e5a8397fcb0490c1af087366844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:56 +0000
Subject: [PATCH 28/99] fix: apply drops arguments that the closure has no
 parameters for

---
 duckVM.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/duckVM.c b/duckVM.c
index b23ff13..aff1d63 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -1622,7 +1622,7 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 			if (e) break;
 		}
 		else {
-			if (object1.value.closure.arity != uint8) {
+			if ((object1.value.closure.arity != uint8) || (rest.value.list != dl_null)) {
 				e = dl_error_invalidValue;
 				break;
 			}
-- 
2.43.0


From 1bce53d89512882be8ad8fbafe2dc17ff3fbd027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:56 +0000
Subject: [PATCH 29/99] fix: apply rejects callbacks

---
 duckVM.c | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/duckVM.c b/duckVM.c
index aff1d63..93d2d6d 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -1518,10 +1518,10 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 		while (object1.type == duckVM_object_type_composite) {
 			object1 = *object1.value.composite->value.internalComposite.function;
 		}
-		if (object1.type != duckVM_object_type_closure) {
+		if ((object1.type != duckVM_object_type_closure) && (object1.type != duckVM_object_type_function)) {
 			e = dl_error_invalidValue;
 			eError = duckVM_error_pushRuntime(duckVM,
-			                                  DL_STR("duckVM_execute->apply: Applied object is not a closure."));
+			                                  DL_STR("duckVM_execute->apply: Applied object is not a callback or closure."));
 			if (eError) e = eError;
 			break;
 		}
@@ -1533,7 +1533,8 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 			e = dl_error_invalidValue;
 			break;
 		}
-		while ((uint8 < object1.value.closure.arity) && (rest.value.list != dl_null)) {
+		while ((uint8 < (object1.type == duckVM_object_type_function ? DL_UINT8_MAX : object1.value.closure.arity))
+		       && (rest.value.list != dl_null)) {
 			if (rest.value.list->type != duckVM_object_type_cons) {
 				e = dl_error_invalidValue;
 				eError = duckVM_error_pushRuntime(duckVM,
@@ -1558,6 +1559,21 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 			uint8++;
 		}
 		if (e) break;
+		if (object1.type == duckVM_object_type_function) {
+			if (rest.value.list != dl_null) {
+				e = dl_error_invalidValue;
+				eError = duckVM_error_pushRuntime(duckVM, DL_STR("duckVM_execute->apply: Too many arguments."));
+				if (eError) e = eError;
+				break;
+			}
+			e = object1.value.function.callback(duckVM);
+			if (e) {
+				eError = duckVM_error_pushRuntime(duckVM,
+				                                  DL_STR("duckVM_execute->apply: C callback returned error."));
+				if (!e) e = eError;
+			}
+			break;
+		}
 		if (object1.value.closure.variadic) {
 			if (uint8 < object1.value.closure.arity) {
 				e = dl_error_invalidValue;
-- 
2.43.0


From 92cfa4b3a5e8b10a38a224437b0c100b51c85dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:39 +0000
Subject: [PATCH 30/99] fix: argument counts above 255 are truncated

---
 emitters.c | 19 +++++++++++++++++--
 emitters.h |  4 ++--
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/emitters.c b/emitters.c
index 5e48a69..2990b21 100644
--- a/emitters.c
+++ b/emitters.c
@@ -1034,6 +1034,13 @@ dl_error_t duckLisp_emit_pushClosure(duckLisp_t *duckLisp,
 	                   sizeof(duckLisp_instructionArgClass_t),
 	                   dl_array_strategy_double);
 
+	if (arity > DL_UINT8_MAX) {
+		e = dl_error_invalidValue;
+		eError = duckLisp_error_pushRuntime(duckLisp, DL_STR("lambda: Functions have at most 255 parameters."));
+		if (eError) e = eError;
+		goto cleanup;
+	}
+
 	// Write instruction.
 	instruction.instructionClass = (variadic
 	                                ? duckLisp_instructionClass_pushVaClosure
@@ -1197,9 +1204,13 @@ dl_error_t duckLisp_emit_funcall(duckLisp_t *duckLisp,
                                  duckLisp_compileState_t *compileState,
                                  dl_array_t *assembly,
                                  dl_ptrdiff_t index,
-                                 dl_uint8_t arity) {
+                                 dl_size_t arity) {
 	duckLisp_instructionArgClass_t argument0 = {0};
 	duckLisp_instructionArgClass_t argument1 = {0};
+	if (arity > DL_UINT8_MAX) {
+		dl_error_t eError = duckLisp_error_pushRuntime(duckLisp, DL_STR("funcall: Functions have at most 255 arguments."));
+		return eError ? eError : dl_error_invalidValue;
+	}
 	/* Function index. */
 	argument0.type = duckLisp_instructionArgClass_type_index;
 	argument0.value.index = duckLisp_localsLength_get(compileState) - index;
@@ -1218,9 +1229,13 @@ dl_error_t duckLisp_emit_apply(duckLisp_t *duckLisp,
                                duckLisp_compileState_t *compileState,
                                dl_array_t *assembly,
                                dl_ptrdiff_t index,
-                               dl_uint8_t arity) {
+                               dl_size_t arity) {
 	duckLisp_instructionArgClass_t argument0 = {0};
 	duckLisp_instructionArgClass_t argument1 = {0};
+	if (arity > DL_UINT8_MAX) {
+		dl_error_t eError = duckLisp_error_pushRuntime(duckLisp, DL_STR("apply: Functions have at most 255 arguments."));
+		return eError ? eError : dl_error_invalidValue;
+	}
 	/* Function index. */
 	argument0.type = duckLisp_instructionArgClass_type_index;
 	argument0.value.index = duckLisp_localsLength_get(compileState) - index;
diff --git a/emitters.h b/emitters.h
index f5d009a..1350968 100644
--- a/emitters.h
+++ b/emitters.h
@@ -358,13 +358,13 @@ dl_error_t duckLisp_emit_funcall(duckLisp_t *duckLisp,
                                  duckLisp_compileState_t *compileState,
                                  dl_array_t *assembly,
                                  dl_ptrdiff_t index,
-                                 dl_uint8_t arity);
+                                 dl_size_t arity);
 
 dl_error_t duckLisp_emit_apply(duckLisp_t *duckLisp,
                                duckLisp_compileState_t *compileState,
                                dl_array_t *assembly,
                                dl_ptrdiff_t index,
-                               dl_uint8_t arity);
+                               dl_size_t arity);
 
 dl_error_t duckLisp_emit_acall(duckLisp_t *duckLisp,
                                duckLisp_compileState_t *compileState,
-- 
2.43.0


From 5e5ab197092ee5cf0a42bceec34c653fcfa665ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:39 +0000
Subject: [PATCH 31/99] fix: funcall without arguments reads past the end of
 the expression

---
 generators.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/generators.c b/generators.c
index 58a4722..c64daa6 100644
--- a/generators.c
+++ b/generators.c
@@ -3334,6 +3334,9 @@ dl_error_t duckLisp_generator_funcall2(duckLisp_t *duckLisp,
 	dl_ptrdiff_t innerStartStack_length;
 	dl_ptrdiff_t outerStartStack_length;
 
+	e = duckLisp_checkArgsAndReportError(duckLisp, *expression, 2, dl_true);
+	if (e) goto cleanup;
+
 	e = duckLisp_compile_compoundExpression(duckLisp,
 	                                        compileState,
 	                                        assembly,
-- 
2.43.0


From 2305a58fe20a1eeeef8b5056d893a0ad719ebe38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:02 +0000
Subject: [PATCH 32/99] fix: every digit of a fraction adds a rounding error to
 the float

---
 DuckLib/string.c | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/DuckLib/string.c b/DuckLib/string.c
index 7c9f596..ac45ec1 100644
--- a/DuckLib/string.c
+++ b/DuckLib/string.c
@@ -296,20 +296,22 @@ dl_error_t dl_string_toDouble(double *result, const dl_uint8_t *string, const dl
 			goto cleanup;
 		}
 
-		*result += (double) (string[index] - '0') / place;
+		*result = (double) (string[index] - '0');
 
 		index++;
 
 		while (((dl_size_t) index < string_length) && (dl_string_toLower(string[index]) != 'e')) {
-			place = 10.0 * place;
-
 			tempBool = dl_string_isDigit(string[index]);
 			if (!tempBool) {
 				e = dl_error_invalidValue;
 				goto cleanup;
 			}
 
-			*result += (double) (string[index] - '0') / place;
+			/* Digits past the precision of a double are insignificant. */
+			if (*result < 1e18) {
+				place = 10.0 * place;
+				*result = *result * 10.0 + (double) (string[index] - '0');
+			}
 			index++;
 		}
 	}
@@ -343,17 +345,22 @@ dl_error_t dl_string_toDouble(double *result, const dl_uint8_t *string, const dl
 		}
 
 		while (((dl_size_t) index < string_length) && (dl_string_toLower(string[index]) != 'e')) {
-			place = 10.0 * place;
 			if (!dl_string_isDigit(string[index])) {
 				e = dl_error_invalidValue;
 				goto cleanup;
 			}
 
-			*result += (double) (string[index] - '0') / place;
+			/* Digits past the precision of a double are insignificant. */
+			if (*result < 1e18) {
+				place = 10.0 * place;
+				*result = *result * 10.0 + (double) (string[index] - '0');
+			}
 
 			index++;
 		}
 	}
+	/* One division is exact or rounded once. Dividing every digit loses precision. */
+	*result /= place;
 
 	// …e3
 	if (((dl_size_t) index < string_length) && (dl_string_toLower(string[index]) == 'e')) {
-- 
2.43.0


From 586003bcb412e8648108a4904e893d6c65855532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:02 +0000
Subject: [PATCH 33/99] fix: dl_realloc copies memory of other blocks and loses
 the block when it fails

---
 DuckLib/memory.c | 53 +++++++++++++++++++++++++++---------------------
 1 file changed, 30 insertions(+), 23 deletions(-)

diff --git a/DuckLib/memory.c b/DuckLib/memory.c
index 110538b..80d0f79 100644
--- a/DuckLib/memory.c
+++ b/DuckLib/memory.c
@@ -799,9 +799,8 @@ dl_error_t dl_realloc(dl_memoryAllocation_t *memoryAllocation, void **memory, dl
 	dl_ptrdiff_t newBlock = -1;
 
 	dl_bool_t blockFits = dl_false;
-#ifdef MEMCHECK
-	dl_size_t oldSize;
-#endif
+	dl_size_t oldSize = 0;
+	dl_ptrdiff_t previousBlock = -1;
 	
 	if (*memory == dl_null) {
 		error = dl_malloc(memoryAllocation, memory, size);
@@ -821,9 +820,13 @@ dl_error_t dl_realloc(dl_memoryAllocation_t *memoryAllocation, void **memory, dl
 		goto l_cleanup;
 	}
 
-#ifdef MEMCHECK
+	// Reserve the descriptor before anything changes. If this fails, then the old allocation is still intact.
+	error = dl_memory_reserveTableEntries(memoryAllocation, 1);
+	if (error) {
+		goto l_cleanup;
+	}
+
 	oldSize = memoryAllocation->blockList[currentBlock].block_size;
-#endif
 	
 	// Mark deleted just in case we find that we can expand our block.
 	memoryAllocation->blockList[currentBlock].allocated = dl_false;
@@ -836,23 +839,27 @@ dl_error_t dl_realloc(dl_memoryAllocation_t *memoryAllocation, void **memory, dl
 	
 	blockFits = (memoryAllocation->blockList[currentBlock].block_size >= size);
 	
-	if (!blockFits) {
-		/* No error */ dl_memory_mergeBlockBefore(memoryAllocation, dl_null, currentBlock);
-	}
-	
-	memoryAllocation->blockList[currentBlock].allocated = dl_true;
-	error = dl_memory_reserveTableEntries(memoryAllocation, 1);
-	if (error) {
-		goto l_cleanup;
-	}
-	memoryAllocation->blockList[currentBlock].allocated = dl_false;
-	
-	
 	newBlock = currentBlock;
 	if (!blockFits) {
 		error = dl_memory_findBlock(memoryAllocation, &newBlock, size, memoryAllocation->fit);
 		if (error) {
-			goto l_cleanup;
+			previousBlock = memoryAllocation->blockList[currentBlock].previousBlock;
+			if ((previousBlock == -1)
+			    || memoryAllocation->blockList[previousBlock].allocated
+			    || (memoryAllocation->blockList[previousBlock].block_size
+			        + memoryAllocation->blockList[currentBlock].block_size
+			        < size)) {
+				// The old allocation survives a failure.
+				if (memoryAllocation->blockList[currentBlock].block_size != oldSize) {
+					(void) dl_memory_splitBlock(memoryAllocation, currentBlock, oldSize);
+				}
+				memoryAllocation->blockList[currentBlock].allocated = dl_true;
+				memoryAllocation->used = dl_max(memoryAllocation->used, (dl_size_t) (memoryAllocation->blockList[currentBlock].block_size + (char *) memoryAllocation->blockList[currentBlock].block - (char *) memoryAllocation->memory));
+				goto l_cleanup;
+			}
+			/* No error */ dl_memory_mergeBlockBefore(memoryAllocation, dl_null, currentBlock);
+			newBlock = currentBlock;
+			error = dl_error_ok;
 		}
 	}
 	
@@ -867,14 +874,11 @@ dl_error_t dl_realloc(dl_memoryAllocation_t *memoryAllocation, void **memory, dl
 		// Copy.
 #ifdef MEMCHECK
 		VALGRIND_MAKE_MEM_UNDEFINED(memoryAllocation->blockList[newBlock].block, size);
-		VALGRIND_MAKE_MEM_DEFINED(*memory, memoryAllocation->blockList[currentBlock].block_size);
+		VALGRIND_MAKE_MEM_DEFINED(*memory, oldSize);
 #endif /* MEMCHECK */
 		dl_memcopy(memoryAllocation->blockList[newBlock].block,
 		           *memory,
-		           dl_min(size, memoryAllocation->blockList[currentBlock].block_size));
-		if (error) {
-			goto l_cleanup;
-		}
+		           dl_min(size, oldSize));
 #ifdef MEMCHECK
 		VALGRIND_MAKE_MEM_NOACCESS(*memory, oldSize);
 		VALGRIND_MAKE_MEM_UNDEFINED(memoryAllocation->blockList[newBlock].block + oldSize, size - oldSize);
@@ -897,6 +901,9 @@ dl_error_t dl_realloc(dl_memoryAllocation_t *memoryAllocation, void **memory, dl
 	
 	// Mark allocated.
 	memoryAllocation->blockList[newBlock].allocated = dl_true;
+	if (newBlock != currentBlock) {
+		/* No error */ dl_memory_mergeBlockBefore(memoryAllocation, dl_null, currentBlock);
+	}
     
 	// Pass the memory.
 	*memory = memoryAllocation->blockList[newBlock].block;
-- 
2.43.0


From 43cc8150fe475463e3e7668ab5c0e134f56c6cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:02 +0000
Subject: [PATCH 34/99] fix: the allocator frees its own block list when the
 list can't grow

---
 DuckLib/memory.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/DuckLib/memory.c b/DuckLib/memory.c
index 80d0f79..afd87f6 100644
--- a/DuckLib/memory.c
+++ b/DuckLib/memory.c
@@ -576,7 +576,18 @@ dl_error_t dl_memory_reserveTableEntries(dl_memoryAllocation_t *memoryAllocation
 			// Find a larger memory block for the table.
 			error = dl_memory_findBlock(memoryAllocation, &newBlock, (memoryAllocation->blockList_length + entries_left) * sizeof(dl_memoryBlock_t),
 			                            memoryAllocation->fit);
-			if (error) goto cleanup;
+			if (error) {
+				// Keep the table. Its block might start earlier now.
+				blockListEntry = &memoryAllocation->blockList[memoryAllocation->blockList_indexOfBlockList];
+				blockListEntry->allocated = dl_true;
+				tempMemory = blockListEntry->block;
+				memoryAllocation->used = dl_max(memoryAllocation->used, (dl_size_t) (blockListEntry->block_size + (char *) tempMemory - (char *) memoryAllocation->memory));
+				(void) dl_memcopy(tempMemory,
+				                  memoryAllocation->blockList,
+				                  memoryAllocation->blockList_length * sizeof(dl_memoryBlock_t));
+				memoryAllocation->blockList = tempMemory;
+				goto cleanup;
+			}
 			
 			// Copy block list to new location.
 			tempMemory = memoryAllocation->blockList[newBlock].block;
-- 
2.43.0


From 4a26480b5222d044516d34812a35bfa923382391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:02 +0000
Subject: [PATCH 35/99] fix: the allocator reads before its block list when the
 last block is freed

---
 DuckLib/memory.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/DuckLib/memory.c b/DuckLib/memory.c
index afd87f6..f0d00d1 100644
--- a/DuckLib/memory.c
+++ b/DuckLib/memory.c
@@ -550,7 +550,8 @@ dl_error_t dl_memory_reserveTableEntries(dl_memoryAllocation_t *memoryAllocation
 		
 		memoryAllocation->blockList[memoryAllocation->blockList_indexOfBlockList].allocated = dl_false;
 		
-		if (memoryAllocation->blockList[memoryAllocation->blockList[memoryAllocation->blockList_indexOfBlockList].nextBlock].nextBlock == -1) {
+		if ((memoryAllocation->blockList[memoryAllocation->blockList_indexOfBlockList].nextBlock == -1)
+		    || (memoryAllocation->blockList[memoryAllocation->blockList[memoryAllocation->blockList_indexOfBlockList].nextBlock].nextBlock == -1)) {
 			memoryAllocation->used = (char *) memoryAllocation->blockList[memoryAllocation->blockList_indexOfBlockList].block - (char *) memoryAllocation->memory;
 		}
 		
@@ -789,7 +790,8 @@ dl_error_t dl_free(dl_memoryAllocation_t *memoryAllocation, void **memory) {
 		
 	memoryAllocation->blockList[block].allocated = dl_false;
 
-	if (memoryAllocation->blockList[memoryAllocation->blockList[block].nextBlock].nextBlock == -1) {
+	if ((memoryAllocation->blockList[block].nextBlock == -1)
+	    || (memoryAllocation->blockList[memoryAllocation->blockList[block].nextBlock].nextBlock == -1)) {
 		memoryAllocation->used = (char *) memoryAllocation->blockList[block].block - (char *) memoryAllocation->memory;
 	}
 	
@@ -842,7 +844,8 @@ dl_error_t dl_realloc(dl_memoryAllocation_t *memoryAllocation, void **memory, dl
 	// Mark deleted just in case we find that we can expand our block.
 	memoryAllocation->blockList[currentBlock].allocated = dl_false;
 	
-	if (memoryAllocation->blockList[memoryAllocation->blockList[currentBlock].nextBlock].nextBlock == -1) {
+	if ((memoryAllocation->blockList[currentBlock].nextBlock == -1)
+	    || (memoryAllocation->blockList[memoryAllocation->blockList[currentBlock].nextBlock].nextBlock == -1)) {
 		memoryAllocation->used = (char *) memoryAllocation->blockList[currentBlock].block - (char *) memoryAllocation->memory;
 	}
 	
-- 
2.43.0


From acc68bedec9fb59195350b21f42defdcfdb43e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:14 +0000
Subject: [PATCH 36/99] fix: next-fit allocations follow descriptors that no
 longer describe a block

---
 DuckLib/memory.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/DuckLib/memory.c b/DuckLib/memory.c
index f0d00d1..4ef3620 100644
--- a/DuckLib/memory.c
+++ b/DuckLib/memory.c
@@ -374,7 +374,9 @@ dl_error_t dl_memory_findBlock(dl_memoryAllocation_t *memoryAllocation, dl_ptrdi
 	dl_ptrdiff_t currentBlock = -1;
 	dl_bool_t found = dl_false;
 	
-	if (fit == dl_memoryFit_next) {
+	// The descriptor of the most recent block might have been merged into another one.
+	if ((fit == dl_memoryFit_next)
+	    && !memoryAllocation->blockList[memoryAllocation->mostRecentBlock].unlinked) {
 		currentBlock = memoryAllocation->blockList[memoryAllocation->mostRecentBlock].nextBlock;
 	}
 	else {
-- 
2.43.0


From 520ae77323e5d8c5db23259aca8a83e3464ee0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:14 +0000
Subject: [PATCH 37/99] fix: empty and huge allocations depend on the allocator

---
 DuckLib/memory.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/DuckLib/memory.c b/DuckLib/memory.c
index 4ef3620..c461c45 100644
--- a/DuckLib/memory.c
+++ b/DuckLib/memory.c
@@ -727,11 +727,13 @@ dl_error_t dl_malloc(dl_memoryAllocation_t *memoryAllocation, void **memory, dl_
 
 	dl_ptrdiff_t block = -1;
 
-	if (size == 0) {
-		error = dl_error_invalidValue;
+	// More than the whole pool. Rounding this up might overflow.
+	if (size > memoryAllocation->size) {
+		error = dl_error_outOfMemory;
 		goto cleanup;
 	}
 
+	// Empty allocations get a block too, as they do with `malloc`.
 	size += DL_ALIGNMENT - (size & (DL_ALIGNMENT - 1));
 
 	error = dl_memory_reserveTableEntries(memoryAllocation, 1);
@@ -822,8 +824,8 @@ dl_error_t dl_realloc(dl_memoryAllocation_t *memoryAllocation, void **memory, dl
 		goto l_cleanup;
 	}
 
-	if (size == 0) {
-		error = dl_error_invalidValue;
+	if (size > memoryAllocation->size) {
+		error = dl_error_outOfMemory;
 		goto l_cleanup;
 	}
 	
@@ -967,10 +969,12 @@ dl_error_t dl_free(dl_memoryAllocation_t *memoryAllocation, void **memory) {
 
 dl_error_t dl_realloc(dl_memoryAllocation_t *memoryAllocation, void **memory, dl_size_t size) {
 	(void) memoryAllocation;
-	*(dl_uint8_t **) memory = realloc(*(dl_uint8_t **) memory, size);
-	if (*(dl_uint8_t **) memory == NULL) {
+	/* `realloc` frees the memory if the size is zero, and it keeps the memory if it fails. */
+	void *newMemory = realloc(*(dl_uint8_t **) memory, (size > 0) ? size : 1);
+	if (newMemory == NULL) {
 		return dl_error_outOfMemory;
 	}
+	*memory = newMemory;
 	return dl_error_ok;
 }
 
-- 
2.43.0


From d761b14c3ec191f3a3eb84e43b707edabbd2e985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:54 +0000
Subject: [PATCH 38/99] fix: globals whose number equals a stack index are
 never set

---
 emitters.c | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/emitters.c b/emitters.c
index 2990b21..fa06e9e 100644
--- a/emitters.c
+++ b/emitters.c
@@ -768,8 +768,6 @@ dl_error_t duckLisp_emit_setStatic(duckLisp_t *duckLisp,
 	duckLisp_instructionArgClass_t argument0 = {0};
 	duckLisp_instructionArgClass_t argument1 = {0};
 
-	if (destination_static_index == source_stack_index) goto cleanup;
-
 	argument0.type = duckLisp_instructionArgClass_type_index;
 	argument0.value.index = duckLisp_localsLength_get(compileState) - source_stack_index;
 	argument1.type = duckLisp_instructionArgClass_type_index;
@@ -781,7 +779,6 @@ dl_error_t duckLisp_emit_setStatic(duckLisp_t *duckLisp,
 	                                 argument0,
 	                                 argument1);
 	duckLisp_localsLength_decrement(compileState);
- cleanup:
 	return e;
 }
 
-- 
2.43.0


From d04f698f9e584b0a56a67e6f7036b17fb5ab1471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:05 +0000
Subject: [PATCH 39/99] fix: the disassembler misreads the operands of vector
 instructions

---
 assembler.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/assembler.c b/assembler.c
index 73b4a60..198a64c 100644
--- a/assembler.c
+++ b/assembler.c
@@ -2963,9 +2963,9 @@ dl_error_t duckLisp_disassemble(dl_array_t *string,
 		{duckLisp_instruction_cons8, DL_STR("cons.8 1 1")},
 		{duckLisp_instruction_cons16, DL_STR("cons.16 2 2")},
 		{duckLisp_instruction_cons32, DL_STR("cons.32 4 4")},
-		{duckLisp_instruction_vector8, DL_STR("vector.8 1 V0")},
-		{duckLisp_instruction_vector16, DL_STR("vector.16 2 V0")},
-		{duckLisp_instruction_vector32, DL_STR("vector.32 4 V0")},
+		{duckLisp_instruction_vector8, DL_STR("vector.8 1 v0")},
+		{duckLisp_instruction_vector16, DL_STR("vector.16 2 v0")},
+		{duckLisp_instruction_vector32, DL_STR("vector.32 4 v0")},
 		{duckLisp_instruction_makeVector8, DL_STR("makeVector.8 1 1")},
 		{duckLisp_instruction_makeVector16, DL_STR("makeVector.16 2 2")},
 		{duckLisp_instruction_makeVector32, DL_STR("makeVector.32 4 4")},
-- 
2.43.0


From 30c0476cc4dd1c88bc657746c1bee6de9c2908de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:27 +0000
Subject: [PATCH 40/99] fix: jumps and closures point at wrong code when
 address sizes oscillate

The size optimisation stopped after ten passes, or when growing and shrinking
addresses cancelled out, even if addresses were still inconsistent. Sizes now
only grow until every address fits.
---
 assembler.c | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/assembler.c b/assembler.c
index 198a64c..8693202 100644
--- a/assembler.c
+++ b/assembler.c
@@ -2647,11 +2647,9 @@ dl_error_t duckLisp_assemble(duckLisp_t *duckLisp,
 
 		{
 			dl_ptrdiff_t offset;
-			dl_size_t iteration = 0;
 			do {
 				/* printf("\n"); */
 				offset = 0;
-				iteration++;
 				for (dl_ptrdiff_t j = 0; (dl_size_t) j < 2 * newLinkArray.links_length; j++) {
 					unsigned char newSize;
 					dl_ptrdiff_t difference;
@@ -2682,6 +2680,8 @@ dl_error_t duckLisp_assemble(duckLisp_t *duckLisp,
 
 						/* Range calculation */
 						difference = link.target - (link.source + link.size);
+						/* This pass has not moved the targets of forward jumps yet. */
+						if (linkArray.links[index].target >= linkArray.links[index].source) difference += offset;
 
 						/* Size calculation */
 						if ((DL_INT8_MAX >= difference) && (difference >= DL_INT8_MIN)) {
@@ -2702,16 +2702,15 @@ dl_error_t duckLisp_assemble(duckLisp_t *duckLisp,
 						/*        difference, */
 						/*        link.size, */
 						/*        newSize); */
-						if (newSize != link.size) {
+						/* Addresses never shrink, so this terminates when every address fits. */
+						if (newSize > link.size) {
 							offset += newSize - link.size;
 							link.size = newSize;
 						}
 					}
 					newLinkArray.links[index] = link;
 				}
-				/* I haven't checked if it terminates after I changed `newSize > link.size` to `newSize != link.size`,
-				   thus the `iteration < 10`. */
-			} while ((offset != 0) && (iteration < 10));
+			} while (offset != 0);
 		}
 
 		e = dl_free(duckLisp->memoryAllocation, (void *) &jumpLinkPointers);
-- 
2.43.0


From f300ac1045307b98f2f2b41dca4a0aab33fded33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:34 +0000
Subject: [PATCH 41/99] fix: length of vectors that were truncated before the
 current element is negative

---
 duckVM.c | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/duckVM.c b/duckVM.c
index 93d2d6d..9291ec2 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -4292,10 +4292,14 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 				}
 			}
 			else if (object1.type == duckVM_object_type_vector) {
-				object2.value.integer = (object1.value.vector.internal_vector
-				                         ? (object1.value.vector.internal_vector->value.internal_vector.length
-				                            - object1.value.vector.offset)
-				                         : 0);
+				object2.value.integer = 0;
+				/* The vector may have been truncated before the current element. */
+				if ((object1.value.vector.internal_vector != dl_null)
+				    && ((dl_size_t) object1.value.vector.offset
+				        < object1.value.vector.internal_vector->value.internal_vector.length)) {
+					(object2.value.integer
+					 = object1.value.vector.internal_vector->value.internal_vector.length - object1.value.vector.offset);
+				}
 			}
 			else if (object1.type == duckVM_object_type_string) {
 				object2.value.integer = object1.value.string.length - object1.value.string.offset;
@@ -5439,7 +5443,10 @@ dl_error_t duckVM_vector_getLength(duckVM_vector_t vector, dl_size_t *length) {
 	duckVM_internalVector_t internalVector;
 	dl_error_t e = duckVM_vector_getInternalVector(vector, &internalVector);
 	if (e) return e;
-	*length = internalVector.length - vector.offset;
+	/* The vector may have been truncated before this element. */
+	*length = (((dl_size_t) vector.offset < internalVector.length)
+	           ? internalVector.length - vector.offset
+	           : 0);
 	return e;
 }
 
@@ -6983,9 +6990,8 @@ dl_error_t duckVM_length(duckVM_t *duckVM, dl_size_t *length) {
 		case duckVM_object_type_vector: {
 			duckVM_vector_t vector = sequence.value.vector;
 			duckVM_object_t *internal_vector = vector.internal_vector;
-			local_length = (internal_vector
-			                ? (internal_vector->value.internal_vector.length - vector.offset)
-			                : 0);
+			local_length = 0;
+			if (internal_vector != dl_null) e = duckVM_vector_getLength(vector, &local_length);
 			break;
 		}
 		case duckVM_object_type_string: {
-- 
2.43.0


From fb077530348e1acaec2eaaff04a222ad05dd144c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:31 +0000
Subject: [PATCH 42/99] fix: macros and compile-time variables of earlier
 sources shadow those of later ones

---
 duckLisp.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/duckLisp.c b/duckLisp.c
index 9532fe2..2cfdb33 100644
--- a/duckLisp.c
+++ b/duckLisp.c
@@ -2203,6 +2203,10 @@ dl_error_t duckLisp_loadString(duckLisp_t *duckLisp,
 		*bytecode_length = 0;
 	}
 
+	/* The compile-time variables and macros of one source are not visible to the next one. */
+	eError = duckVM_softReset(&duckLisp->vm);
+	if (eError) e = eError;
+
 	eError = duckLisp_ast_compoundExpression_quit(duckLisp->memoryAllocation, &ast);
 	if (eError) e = eError;
 
-- 
2.43.0


From 24b28ad3fc1482e0fbf4d6ba16792671aef1a617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:44 +0000
Subject: [PATCH 43/99] fix: symbols returned by comptime are evaluated as
 variables

---
 duckLisp.c | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/duckLisp.c b/duckLisp.c
index 2cfdb33..f03c997 100644
--- a/duckLisp.c
+++ b/duckLisp.c
@@ -798,6 +798,31 @@ dl_error_t duckLisp_objectToAST(duckLisp_t *duckLisp,
 		                          object->value.symbol.internalString->value.internalString.value,
 		                          object->value.symbol.internalString->value.internalString.value_length);
 		ast->type = duckLisp_ast_type_identifier;
+		if (!useExprs) {
+			/* The value is the symbol itself: (__quote symbol) */
+			duckLisp_ast_compoundExpression_t symbolAst = *ast;
+			duckLisp_ast_compoundExpression_t quoteAst;
+			e = dl_malloc(duckLisp->memoryAllocation,
+			              (void **) &quoteAst.value.identifier.value,
+			              sizeof("__quote") - 1);
+			if (e) break;
+			/**/ dl_memcopy_noOverlap(quoteAst.value.identifier.value, DL_STR("__quote"));
+			quoteAst.value.identifier.value_length = sizeof("__quote") - 1;
+			quoteAst.type = duckLisp_ast_type_identifier;
+			e = dl_malloc(duckLisp->memoryAllocation,
+			              (void **) &ast->value.expression.compoundExpressions,
+			              2 * sizeof(duckLisp_ast_compoundExpression_t));
+			if (e) {
+				*ast = symbolAst;
+				eError = dl_free(duckLisp->memoryAllocation, (void **) &quoteAst.value.identifier.value);
+				if (eError) e = eError;
+				break;
+			}
+			ast->value.expression.compoundExpressions[0] = quoteAst;
+			ast->value.expression.compoundExpressions[1] = symbolAst;
+			ast->value.expression.compoundExpressions_length = 2;
+			ast->type = duckLisp_ast_type_expression;
+		}
 		break;
 	case duckVM_object_type_function:
 		e = dl_error_invalidValue;
-- 
2.43.0


From 180aedd9a69f77e8071552a7c869795bc1815296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:19 +0000
Subject: [PATCH 44/99] fix: the error keyword exists only under its alias

---
 duckLisp.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/duckLisp.c b/duckLisp.c
index f03c997..8eb926f 100644
--- a/duckLisp.c
+++ b/duckLisp.c
@@ -1928,6 +1928,7 @@ dl_error_t duckLisp_init(duckLisp_t *duckLisp,
 		{DL_STR("__symbol-id"), duckLisp_generator_symbolId, DL_STR("(I)"), dl_null, 0},
 		{DL_STR("symbol-id"), duckLisp_generator_symbolId, DL_STR("(I)"), dl_null, 0},
 		{DL_STR("__error"), duckLisp_generator_error, DL_STR("(I)"), dl_null, 0},
+		{DL_STR("error"), duckLisp_generator_error, DL_STR("(I)"), dl_null, 0},
 		{dl_null, 0, dl_null, dl_null, 0, dl_null, 0}
 	};
 
-- 
2.43.0


From 5b2bb5699e009a2232e3d1b20428c4046036dc2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:56 +0000
Subject: [PATCH 45/99] fix: a macro that returns a dotted list overflows the
 expression

---
 generators.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/generators.c b/generators.c
index c64daa6..150adcf 100644
--- a/generators.c
+++ b/generators.c
@@ -1064,6 +1064,7 @@ dl_size_t duckLisp_consList_length(duckVM_object_t *cons) {
 		}
 		else {
 			cons = dl_null;
+			length++;
 		}
 	}
 	return length;
-- 
2.43.0


From 4b374c0026d619c6ba2c17241cdb8bfc8ddefa68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:36 +0000
Subject: [PATCH 46/99] fix: expressions under construction are collected when
 read or inference allocates

---
 duckLisp.c | 44 ++++++++++++++++++++++++++++++++++----------
 1 file changed, 34 insertions(+), 10 deletions(-)

diff --git a/duckLisp.c b/duckLisp.c
index 8eb926f..9ff472d 100644
--- a/duckLisp.c
+++ b/duckLisp.c
@@ -858,6 +858,11 @@ dl_error_t duckLisp_astToObject(duckLisp_t *duckLisp,
 		/* Fall through */
 	case duckLisp_ast_type_literalExpression: {
 		duckVM_object_t *tailPointer = dl_null;
+		/* The list and its next element are kept on the stack so that they are not collected. */
+		duckVM_object_t list = duckVM_object_makeList(dl_null);
+		e = duckVM_object_push(duckVM, &list);
+		if (e) break;
+		dl_size_t listIndex = duckVM->stack.elements_length - 1;
 		DL_DOTIMES(j, ast.value.expression.compoundExpressions_length) {
 			duckVM_object_t head;
 			e = duckLisp_astToObject(duckLisp,
@@ -868,13 +873,22 @@ dl_error_t duckLisp_astToObject(duckLisp_t *duckLisp,
 			                           - 1
 			                           - j]));
 			if (e) break;
+			e = duckVM_object_push(duckVM, &head);
+			if (e) break;
+			duckVM_object_t tail = duckVM_object_makeCons(dl_null, tailPointer);
+			e = duckVM_allocateHeapObject(duckVM, &tailPointer, tail);
+			if (e) break;
+			DL_ARRAY_GETADDRESS(duckVM->stack, duckVM_object_t, listIndex).value.list = tailPointer;
 			duckVM_object_t *headPointer;
 			e = duckVM_allocateHeapObject(duckVM, &headPointer, head);
 			if (e) break;
-			duckVM_object_t tail = duckVM_object_makeCons(headPointer, tailPointer);
-			e = duckVM_allocateHeapObject(duckVM, &tailPointer, tail);
+			tailPointer->value.cons.car = headPointer;
+			e = duckVM_pop(duckVM);
 			if (e) break;
 		}
+		if (e) break;
+		e = duckVM_pop(duckVM);
+		if (e) break;
 		object->type = duckVM_object_type_list;
 		object->value.list = tailPointer;
 		break;
@@ -1581,6 +1595,9 @@ dl_error_t duckLisp_callback_read(duckVM_t *duckVM) {
 				e = duckLisp_astToObject(duckLisp, duckVM, &astObject, ast);
 				if (e) goto cleanupAst;
 			}
+			/* Keep the expression on the stack so that it is not collected. */
+			e = duckVM_object_push(duckVM, &astObject);
+			if (e) goto cleanupAst;
 
 		cleanupAst:
 			eError = duckLisp_ast_compoundExpression_quit(memoryAllocation, &ast);
@@ -1588,27 +1605,34 @@ dl_error_t duckLisp_callback_read(duckVM_t *duckVM) {
 			if (e) goto cleanupString;
 		}
 
+		/* stack: ast */
 		e = duckVM_pushCons(duckVM);
 		if (e) goto cleanupString;
-		/* stack: (()) */
+		/* stack: ast (()) */
 		e = duckVM_pushInteger(duckVM);
 		if (e) goto cleanupString;
-		/* stack: (()) 0 */
+		/* stack: ast (()) 0 */
 		e = duckVM_setInteger(duckVM, status);
 		if (e) goto cleanupString;
-		/* stack: (()) status */
+		/* stack: ast (()) status */
 		e = duckVM_setRest(duckVM, -2);
 		if (e) goto cleanupString;
-		/* stack: (() . status) status */
+		/* stack: ast (() . status) status */
 		e = duckVM_pop(duckVM);
 		if (e) goto cleanupString;
-		/* stack: (() . status) */
-		e = duckVM_object_push(duckVM, &astObject);
+		/* stack: ast (() . status) */
+		e = duckVM_push(duckVM, -2);
 		if (e) goto cleanupString;
-		/* stack: (() . status) ast */
+		/* stack: ast (() . status) ast */
 		e = duckVM_setFirst(duckVM, -2);
 		if (e) goto cleanupString;
-		/* stack: (ast . status) ast */
+		/* stack: ast (ast . status) ast */
+		e = duckVM_pop(duckVM);
+		if (e) goto cleanupString;
+		/* stack: ast (ast . status) */
+		e = duckVM_copyFromTop(duckVM, -2);
+		if (e) goto cleanupString;
+		/* stack: (ast . status) (ast . status) */
 		e = duckVM_pop(duckVM);
 		if (e) goto cleanupString;
 		/* stack: (ast . status) */
-- 
2.43.0


From a545f5b91c71e6991ccf5df175ae6d69800a627a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:11 +0000
Subject: [PATCH 47/99] fix: reports of unterminated expressions read past the
 source

---
 parser.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parser.c b/parser.c
index ca03915..9b8395d 100644
--- a/parser.c
+++ b/parser.c
@@ -56,6 +56,8 @@ static dl_error_t duckLisp_error_pushSyntax(duckLisp_t *duckLisp,
 
 	/* This is inefficient. That should be OK as this is only run a few times max per compile. */
 	DL_DOTIMES(i, start_index) {
+		/* An expression that isn't terminated starts or ends after the last character. */
+		if ((dl_size_t) i >= source_length) break;
 		if (source[i] == '\n') {
 			line++;
 			start_column = 0;
-- 
2.43.0


From b5e3cf18936cfbe80c47950d60fe693f15752cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:24 +0000
Subject: [PATCH 48/99] fix: the value of a macro that expands to a local
 variable is not pushed

---
 generators.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generators.c b/generators.c
index 150adcf..78cfa16 100644
--- a/generators.c
+++ b/generators.c
@@ -3711,7 +3711,7 @@ dl_error_t duckLisp_generator_macro(duckLisp_t *duckLisp,
 	                                        &ast,
 	                                        index,
 	                                        dl_null,
-	                                        dl_false);
+	                                        dl_true);
 	if (e) goto cleanupAST;
 
 	/* HACK: We can't pass a compound expression up, but we can replace an expression. This is so the noscope generator
-- 
2.43.0


From a70706d87537fb74ddf5669505fc15bb9ff0a132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:59 +0000
Subject: [PATCH 49/99] fix: keep macro expansions in the syntax tree when the
 compilation of a body fails

---
 generators.c | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/generators.c b/generators.c
index 78cfa16..b56b74e 100644
--- a/generators.c
+++ b/generators.c
@@ -1021,12 +1021,12 @@ dl_error_t duckLisp_generator_noscope2(duckLisp_t *duckLisp,
 	subExpression.compoundExpressions_length = expression->compoundExpressions_length - 1;
 
 	e = duckLisp_generator_noscope(duckLisp, compileState, assembly, &subExpression);
-	if (e) goto cleanup;
-
+	/* Macros may have replaced expressions, even if there was an error. */
 	(void) dl_memcopy_noOverlap(&expression->compoundExpressions[1],
 	                            subExpression.compoundExpressions,
 	                            ((expression->compoundExpressions_length - 1)
 	                             * sizeof(duckLisp_ast_compoundExpression_t)));
+	if (e) goto cleanup;
 
  cleanup:
 	eError = DL_FREE(duckLisp->memoryAllocation, &subExpression.compoundExpressions);
@@ -1580,12 +1580,12 @@ dl_error_t duckLisp_generator_lambda_raw(duckLisp_t *duckLisp,
 			progn.compoundExpressions_length = expression->compoundExpressions_length - 2;
 
 			e = duckLisp_generator_expression(duckLisp, compileState, &bodyAssembly, &progn);
-			if (e) goto cleanupProgn;
-
+			/* Macros may have replaced expressions, even if there was an error. */
 			(void) dl_memcopy_noOverlap(&expression->compoundExpressions[2],
 			                            progn.compoundExpressions,
 			                            ((expression->compoundExpressions_length - 2)
 			                             * sizeof(duckLisp_ast_compoundExpression_t)));
+			if (e) goto cleanupProgn;
 
 		cleanupProgn:
 			eError = DL_FREE(duckLisp->memoryAllocation, &progn.compoundExpressions);
@@ -2187,12 +2187,12 @@ dl_error_t duckLisp_generator_while(duckLisp_t *duckLisp,
 				progn.compoundExpressions_length = expression->compoundExpressions_length - 2;
 
 				e = duckLisp_generator_expression(duckLisp, compileState, assembly, &progn);
-				if (e) goto cleanupProgn1;
-
+				/* Macros may have replaced expressions, even if there was an error. */
 				(void) dl_memcopy_noOverlap(&expression->compoundExpressions[2],
 				                            progn.compoundExpressions,
 				                            ((expression->compoundExpressions_length - 2)
 				                             * sizeof(duckLisp_ast_compoundExpression_t)));
+				if (e) goto cleanupProgn1;
 
 			cleanupProgn1:
 				eError = DL_FREE(duckLisp->memoryAllocation, &progn.compoundExpressions);
@@ -2265,12 +2265,12 @@ dl_error_t duckLisp_generator_while(duckLisp_t *duckLisp,
 				progn.compoundExpressions_length = expression->compoundExpressions_length - 2;
 
 				e = duckLisp_generator_expression(duckLisp, compileState, assembly, &progn);
-				if (e) goto cleanupProgn2;
-
+				/* Macros may have replaced expressions, even if there was an error. */
 				(void) dl_memcopy_noOverlap(&expression->compoundExpressions[2],
 				                            progn.compoundExpressions,
 				                            ((expression->compoundExpressions_length - 2)
 				                             * sizeof(duckLisp_ast_compoundExpression_t)));
+				if (e) goto cleanupProgn2;
 
 			cleanupProgn2:
 				eError = DL_FREE(duckLisp->memoryAllocation, &progn.compoundExpressions);
@@ -2437,12 +2437,12 @@ dl_error_t duckLisp_generator_unless(duckLisp_t *duckLisp,
 			progn.compoundExpressions_length = expression->compoundExpressions_length - 2;
 
 			e = duckLisp_generator_expression(duckLisp, compileState, assembly, &progn);
-			if (e) goto cleanupProgn1;
-
+			/* Macros may have replaced expressions, even if there was an error. */
 			(void) dl_memcopy_noOverlap(&expression->compoundExpressions[2],
 			                            progn.compoundExpressions,
 			                            ((expression->compoundExpressions_length - 2)
 			                             * sizeof(duckLisp_ast_compoundExpression_t)));
+			if (e) goto cleanupProgn1;
 
 		cleanupProgn1:
 			eError = DL_FREE(duckLisp->memoryAllocation, &progn.compoundExpressions);
@@ -2485,12 +2485,12 @@ dl_error_t duckLisp_generator_unless(duckLisp_t *duckLisp,
 			progn.compoundExpressions_length = expression->compoundExpressions_length - 2;
 
 			e = duckLisp_generator_expression(duckLisp, compileState, assembly, &progn);
-			if (e) goto cleanupProgn2;
-
+			/* Macros may have replaced expressions, even if there was an error. */
 			(void) dl_memcopy_noOverlap(&expression->compoundExpressions[2],
 			                            progn.compoundExpressions,
 			                            ((expression->compoundExpressions_length - 2)
 			                             * sizeof(duckLisp_ast_compoundExpression_t)));
+			if (e) goto cleanupProgn2;
 
 		cleanupProgn2:
 			eError = DL_FREE(duckLisp->memoryAllocation, &progn.compoundExpressions);
@@ -2619,12 +2619,12 @@ dl_error_t duckLisp_generator_when(duckLisp_t *duckLisp,
 			progn.compoundExpressions_length = expression->compoundExpressions_length - 2;
 
 			e = duckLisp_generator_expression(duckLisp, compileState, assembly, &progn);
-			if (e) goto cleanupProgn1;
-
+			/* Macros may have replaced expressions, even if there was an error. */
 			(void) dl_memcopy_noOverlap(&expression->compoundExpressions[2],
 			                            progn.compoundExpressions,
 			                            ((expression->compoundExpressions_length - 2)
 			                             * sizeof(duckLisp_ast_compoundExpression_t)));
+			if (e) goto cleanupProgn1;
 
 		cleanupProgn1:
 			eError = DL_FREE(duckLisp->memoryAllocation, &progn.compoundExpressions);
@@ -2677,12 +2677,12 @@ dl_error_t duckLisp_generator_when(duckLisp_t *duckLisp,
 			progn.compoundExpressions_length = expression->compoundExpressions_length - 2;
 
 			e = duckLisp_generator_expression(duckLisp, compileState, assembly, &progn);
-			if (e) goto cleanupProgn2;
-
+			/* Macros may have replaced expressions, even if there was an error. */
 			(void) dl_memcopy_noOverlap(&expression->compoundExpressions[2],
 			                            progn.compoundExpressions,
 			                            ((expression->compoundExpressions_length - 2)
 			                             * sizeof(duckLisp_ast_compoundExpression_t)));
+			if (e) goto cleanupProgn2;
 
 		cleanupProgn2:
 			eError = DL_FREE(duckLisp->memoryAllocation, &progn.compoundExpressions);
-- 
2.43.0


From 080dabe72507e6dc52bf93b9c8d4835a1a32787c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:59 +0000
Subject: [PATCH 50/99] fix: do not read the result of a compile-time
 evaluation that failed

---
 generators.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generators.c b/generators.c
index b56b74e..dedf099 100644
--- a/generators.c
+++ b/generators.c
@@ -1263,7 +1263,6 @@ dl_error_t duckLisp_generator_comptime(duckLisp_t *duckLisp,
 		}
 
 		e = duckVM_execute(&duckLisp->vm, bytecode.elements, bytecode.elements_length);
-		returnValue = DL_ARRAY_GETTOPADDRESS(duckLisp->vm.stack, duckVM_object_t);
 		eError = dl_array_pushElements(&duckLisp->errors,
 		                               duckLisp->vm.errors.elements,
 		                               duckLisp->vm.errors.elements_length);
@@ -1271,6 +1270,7 @@ dl_error_t duckLisp_generator_comptime(duckLisp_t *duckLisp,
 		eError = dl_array_popElements(&duckLisp->vm.errors, dl_null, duckLisp->vm.errors.elements_length);
 		if (eError) e = eError;
 		if (e) goto cleanup;
+		returnValue = DL_ARRAY_GETTOPADDRESS(duckLisp->vm.stack, duckVM_object_t);
 
 		e = duckLisp_objectToAST(duckLisp, &returnCompoundExpression, &returnValue, dl_false);
 		if (e) goto cleanup;
-- 
2.43.0


From 19a506dc0ea35f1e8fb026b823dc2b6bb7f618e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:02 +0000
Subject: [PATCH 51/99] fix: give var, defun and noscope forms outside of a
 body a value

---
 duckLisp.c   | 25 ++++++++++++++++++++++++-
 duckLisp.h   |  3 +++
 generators.c |  4 ++++
 3 files changed, 31 insertions(+), 1 deletion(-)

diff --git a/duckLisp.c b/duckLisp.c
index 9ff472d..af9af3a 100644
--- a/duckLisp.c
+++ b/duckLisp.c
@@ -954,6 +954,8 @@ dl_error_t duckLisp_compile_compoundExpression(duckLisp_t *duckLisp,
 
 	dl_ptrdiff_t temp_index;
 	duckLisp_ast_type_t temp_type;
+	const dl_bool_t formIsInBody = compileState->formIsInBody;
+	compileState->formIsInBody = dl_false;
 
 	duckLisp->generators_recursion_depth++;
 	if (duckLisp->generators_recursion_depth >= duckLisp->generators_max_recursion_depth) {
@@ -1081,6 +1083,7 @@ dl_error_t duckLisp_compile_compoundExpression(duckLisp_t *duckLisp,
 		break;
 	case duckLisp_ast_type_expression:
 		temp_index = -1;
+		compileState->formIsInBody = formIsInBody;
 		e = duckLisp_compile_expression(duckLisp,
 		                                compileState,
 		                                assembly,
@@ -1130,6 +1133,8 @@ dl_error_t duckLisp_compile_expression(duckLisp_t *duckLisp,
 
 	duckLisp_functionType_t functionType;
 	dl_ptrdiff_t functionIndex = -1;
+	const dl_bool_t formIsInBody = compileState->formIsInBody;
+	compileState->formIsInBody = dl_false;
 
 	dl_error_t (*generatorCallback)(duckLisp_t*, duckLisp_compileState_t*, dl_array_t*, duckLisp_ast_expression_t*);
 
@@ -1192,10 +1197,27 @@ dl_error_t duckLisp_compile_expression(duckLisp_t *duckLisp,
 		case duckLisp_functionType_generator:
 			e = dl_array_get(&duckLisp->generators_stack, &generatorCallback, functionIndex);
 			if (e) goto cleanup;
-			e = generatorCallback(duckLisp, compileState, assembly, expression);
+			if (!formIsInBody
+			    && ((generatorCallback == duckLisp_generator_createVar_dummy)
+			        || (generatorCallback == duckLisp_generator_defun_dummy)
+			        || (generatorCallback == duckLisp_generator_noscope2_dummy))) {
+				/* There is no enclosing body that could handle this form, so it is a body of its own. */
+				duckLisp_ast_compoundExpression_t form;
+				duckLisp_ast_expression_t body;
+				form.type = duckLisp_ast_type_expression;
+				form.value.expression = *expression;
+				body.compoundExpressions = &form;
+				body.compoundExpressions_length = 1;
+				e = duckLisp_generator_expression(duckLisp, compileState, assembly, &body);
+				*expression = form.value.expression;
+			}
+			else {
+				e = generatorCallback(duckLisp, compileState, assembly, expression);
+			}
 			if (e) goto cleanup;
 			break;
 		case duckLisp_functionType_macro:
+			compileState->formIsInBody = formIsInBody;
 			e = duckLisp_generator_macro(duckLisp, compileState, assembly, expression, index);
 			break;
 		default:
@@ -2169,6 +2191,7 @@ void duckLisp_compileState_init(duckLisp_t *duckLisp, duckLisp_compileState_t *c
 	/**/ duckLisp_subCompileState_init(duckLisp->memoryAllocation, &compileState->runtimeCompileState);
 	/**/ duckLisp_subCompileState_init(duckLisp->memoryAllocation, &compileState->comptimeCompileState);
 	compileState->currentCompileState = &compileState->runtimeCompileState;
+	compileState->formIsInBody = dl_false;
 }
 
 dl_error_t duckLisp_compileState_quit(duckLisp_t *duckLisp, duckLisp_compileState_t *compileState) {
diff --git a/duckLisp.h b/duckLisp.h
index a526fed..ef16ec6 100644
--- a/duckLisp.h
+++ b/duckLisp.h
@@ -137,6 +137,9 @@ typedef struct duckLisp_compileState_s {
 	duckLisp_subCompileState_t runtimeCompileState;
 	duckLisp_subCompileState_t comptimeCompileState;
 	duckLisp_subCompileState_t *currentCompileState;
+	/* True if the next form to be compiled is part of a body. Only there, `duckLisp_generator_noscope` handles `__var`,
+	   `__defun`, and `__noscope`. */
+	dl_bool_t formIsInBody;
 } duckLisp_compileState_t;
 
 #ifdef USE_DATALOGGING
diff --git a/generators.c b/generators.c
index dedf099..846c314 100644
--- a/generators.c
+++ b/generators.c
@@ -890,6 +890,7 @@ dl_error_t duckLisp_generator_noscope(duckLisp_t *duckLisp,
 		/* Always compile the form. This works with `__var`, `__defun` and `__noscope` because global dummy generators
 		   are defined that do nothing. The reason for always compiling is so that those keywords can be returned from
 		   macros. So this statement can be thought of as "compile form" or as "macroexpand all". */
+		compileState->formIsInBody = dl_true;
 		e = duckLisp_compile_compoundExpression(duckLisp,
 		                                        compileState,
 		                                        assembly,
@@ -3560,6 +3561,8 @@ dl_error_t duckLisp_generator_macro(duckLisp_t *duckLisp,
 	duckLisp_instruction_t haltInstruction = duckLisp_instruction_halt;
 	duckLisp_subCompileState_t *lastSubCompileState = compileState->currentCompileState;
 	dl_ptrdiff_t functionIndex = -1;
+	const dl_bool_t formIsInBody = compileState->formIsInBody;
+	compileState->formIsInBody = dl_false;
 	/**/ dl_array_init(&bytecode, duckLisp->memoryAllocation, sizeof(dl_uint8_t), dl_array_strategy_double);
 	dl_array_t argumentAssembly;
 	/**/ dl_array_init(&argumentAssembly,
@@ -3703,6 +3706,7 @@ dl_error_t duckLisp_generator_macro(duckLisp_t *duckLisp,
 	compileState->currentCompileState->locals_length = lastLocalsLength;
 	compileState->currentCompileState = lastSubCompileState;
 
+	compileState->formIsInBody = formIsInBody;
 	e = duckLisp_compile_compoundExpression(duckLisp,
 	                                        compileState,
 	                                        assembly,
-- 
2.43.0


From f45d57cd2155a7759abe161ccb0e53be8ddb524f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:36 +0000
Subject: [PATCH 52/99] fix: refuse forms of the wrong type instead of only
 reporting them

---
 duckLisp.c   |  6 +++---
 generators.c | 22 +++++++++++-----------
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/duckLisp.c b/duckLisp.c
index af9af3a..23abcf3 100644
--- a/duckLisp.c
+++ b/duckLisp.c
@@ -1102,7 +1102,7 @@ dl_error_t duckLisp_compile_compoundExpression(duckLisp_t *duckLisp,
 		e = dl_array_pushElements(&eString, DL_STR(": Unsupported data type."));
 		if (e) goto cleanup;
 		eError = duckLisp_error_pushRuntime(duckLisp, eString.elements, eString.elements_length * eString.element_size);
-		if (eError) e = eError;
+		e = eError ? eError : dl_error_invalidValue;
 		goto cleanup;
 	}
 
@@ -1222,7 +1222,7 @@ dl_error_t duckLisp_compile_expression(duckLisp_t *duckLisp,
 			break;
 		default:
 			eError = duckLisp_error_pushRuntime(duckLisp, DL_STR("Invalid function type. Can't happen."));
-			if (eError) e = eError;
+			e = eError ? eError : dl_error_invalidValue;
 			goto cleanup;
 		}
 		break;
@@ -1232,7 +1232,7 @@ dl_error_t duckLisp_compile_expression(duckLisp_t *duckLisp,
 		e = dl_array_pushElements(&eString, DL_STR(": Unsupported data type."));
 		if (e) goto cleanup;
 		eError = duckLisp_error_pushRuntime(duckLisp, eString.elements, eString.elements_length * eString.element_size);
-		if (eError) e = eError;
+		e = eError ? eError : dl_error_invalidValue;
 		goto cleanup;
 	}
 
diff --git a/generators.c b/generators.c
index 846c314..e170019 100644
--- a/generators.c
+++ b/generators.c
@@ -722,7 +722,7 @@ dl_error_t duckLisp_generator_quote_helper(duckLisp_t *duckLisp,
 		e = dl_array_pushElements(&eString, DL_STR(": Unsupported data type."));
 		if (e) goto cleanup;
 		eError = duckLisp_error_pushRuntime(duckLisp, eString.elements, eString.elements_length * eString.element_size);
-		if (eError) e = eError;
+		e = eError ? eError : dl_error_invalidValue;
 		goto cleanup;
 	}
 
@@ -851,7 +851,7 @@ dl_error_t duckLisp_generator_quote(duckLisp_t *duckLisp,
 		e = dl_array_pushElements(&eString, DL_STR(": Unsupported data type."));
 		if (e) goto cleanup;
 		eError = duckLisp_error_pushRuntime(duckLisp, eString.elements, eString.elements_length * eString.element_size);
-		if (eError) e = eError;
+		e = eError ? eError : dl_error_invalidValue;
 		goto cleanup;
 	}
 
@@ -1743,7 +1743,7 @@ dl_error_t duckLisp_generator_createVar_raw(duckLisp_t *duckLisp,
 		e = dl_array_pushElements(&eString, DL_STR("\" should be an identifier."));
 		if (e) goto cleanup;
 		eError = duckLisp_error_pushRuntime(duckLisp, eString.elements, eString.elements_length * eString.element_size);
-		if (eError) e = eError;
+		e = eError ? eError : dl_error_invalidValue;
 		goto cleanup;
 	}
 
@@ -1832,7 +1832,7 @@ dl_error_t duckLisp_generator_global(duckLisp_t *duckLisp,
 		e = dl_array_pushElements(&eString, DL_STR("\" should be an identifier."));
 		if (e) goto cleanup;
 		eError = duckLisp_error_pushRuntime(duckLisp, eString.elements, eString.elements_length * eString.element_size);
-		if (eError) e = eError;
+		e = eError ? eError : dl_error_invalidValue;
 		goto cleanup;
 	}
 
@@ -2149,7 +2149,7 @@ dl_error_t duckLisp_generator_while(duckLisp_t *duckLisp,
 		e = dl_array_pushElements(&eString, DL_STR("while: Unsupported data type."));
 		if (e) goto cleanup;
 		eError = duckLisp_error_pushRuntime(duckLisp, eString.elements, eString.elements_length * eString.element_size);
-		if (eError) e = eError;
+		e = eError ? eError : dl_error_invalidValue;
 		goto cleanup;
 	}
 
@@ -2416,7 +2416,7 @@ dl_error_t duckLisp_generator_unless(duckLisp_t *duckLisp,
 		e = dl_array_pushElements(&eString, DL_STR("unless: Unsupported data type."));
 		if (e) goto cleanup;
 		eError = duckLisp_error_pushRuntime(duckLisp, eString.elements, eString.elements_length * eString.element_size);
-		if (eError) e = eError;
+		e = eError ? eError : dl_error_invalidValue;
 		goto cleanup;
 	}
 
@@ -2601,7 +2601,7 @@ dl_error_t duckLisp_generator_when(duckLisp_t *duckLisp,
 		e = dl_array_pushElements(&eString, DL_STR("when: Unsupported data type."));
 		if (e) goto cleanup;
 		eError = duckLisp_error_pushRuntime(duckLisp, eString.elements, eString.elements_length * eString.element_size);
-		if (eError) e = eError;
+		e = eError ? eError : dl_error_invalidValue;
 		goto cleanup;
 	}
 
@@ -2788,7 +2788,7 @@ dl_error_t duckLisp_generator_if(duckLisp_t *duckLisp,
 		e = dl_array_pushElements(&eString, DL_STR("if: Unsupported data type."));
 		if (e) goto cleanup;
 		eError = duckLisp_error_pushRuntime(duckLisp, eString.elements, eString.elements_length * eString.element_size);
-		if (eError) e = eError;
+		e = eError ? eError : dl_error_invalidValue;
 		goto cleanup;
 	}
 
@@ -3089,7 +3089,7 @@ dl_error_t duckLisp_generator_label(duckLisp_t *duckLisp,
 		e = dl_array_pushElements(&eString, DL_STR("\" should be an identifier."));
 		if (e) goto cleanup;
 		eError = duckLisp_error_pushRuntime(duckLisp, eString.elements, eString.elements_length * eString.element_size);
-		if (eError) e = eError;
+		e = eError ? eError : dl_error_invalidValue;
 		goto cleanup;
 	}
 
@@ -3135,7 +3135,7 @@ dl_error_t duckLisp_generator_goto(duckLisp_t *duckLisp,
 		e = dl_array_pushElements(&eString, DL_STR("\" should be an identifier."));
 		if (e) goto cleanup;
 		eError = duckLisp_error_pushRuntime(duckLisp, eString.elements, eString.elements_length * eString.element_size);
-		if (eError) e = eError;
+		e = eError ? eError : dl_error_invalidValue;
 		goto cleanup;
 	}
 
@@ -3495,7 +3495,7 @@ dl_error_t duckLisp_generator_callback(duckLisp_t *duckLisp,
 	                                             expression->compoundExpressions[0].value.string.value_length);
 	if (e || callback_key == -1) {
 		eError = duckLisp_error_pushRuntime(duckLisp, DL_STR("callback: Could not find callback name."));
-		if (eError) e = eError;
+		e = eError ? eError : dl_error_invalidValue;
 		goto cleanup;
 	}
 
-- 
2.43.0


From fe12af5b7fed09adfbd108ade2cb54de299a0cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:43 +0000
Subject: [PATCH 53/99] fix: keep macro expansions in the syntax tree when a
 defun fails

---
 generators.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/generators.c b/generators.c
index e170019..b08e398 100644
--- a/generators.c
+++ b/generators.c
@@ -1922,16 +1922,17 @@ dl_error_t duckLisp_generator_defun(duckLisp_t *duckLisp,
 	var.compoundExpressions[2].value.expression = lambda;
 	{
 		e = duckLisp_generator_createVar_raw(duckLisp, compileState, assembly, &var);
-		if (e) goto cleanup;
 
+		/* Macros may have replaced expressions, even if there was an error. */
 		for (dl_ptrdiff_t i = 2; (dl_size_t) i < expression->compoundExpressions_length; i++) {
 			expression->compoundExpressions[i] = lambda.compoundExpressions[i - 1];
 		}
 		expression->compoundExpressions[1] = var.compoundExpressions[1];
 
-		e = DL_FREE(duckLisp->memoryAllocation, (void **) &var.compoundExpressions);
-		if (e) goto cleanup;
-		e = DL_FREE(duckLisp->memoryAllocation, (void **) &lambda.compoundExpressions);
+		eError = DL_FREE(duckLisp->memoryAllocation, (void **) &var.compoundExpressions);
+		if (!e) e = eError;
+		eError = DL_FREE(duckLisp->memoryAllocation, (void **) &lambda.compoundExpressions);
+		if (!e) e = eError;
 		if (e) goto cleanup;
 
 		/* HACK */
-- 
2.43.0


From 30b991cba1a06c27cf18f7fd134a6342aa80b6b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:20 +0000
Subject: [PATCH 54/99] fix: encode upvalue indices greater than 255 in
 assignments to upvalues

---
 assembler.c | 25 ++++++++++++-------------
 duckVM.c    |  4 ++++
 2 files changed, 16 insertions(+), 13 deletions(-)

diff --git a/assembler.c b/assembler.c
index 8693202..293a87f 100644
--- a/assembler.c
+++ b/assembler.c
@@ -783,21 +783,12 @@ dl_error_t duckLisp_assemble(duckLisp_t *duckLisp,
 		case duckLisp_instructionClass_setUpvalue: {
 			if (args[0].type == duckLisp_instructionArgClass_type_index) {
 				dl_ptrdiff_t offset = 0;
-				byte_length = 1;
-				e = dl_array_pushElements(&currentArgs, dl_null, byte_length);
-				if (e) goto cleanup;
-				for (dl_ptrdiff_t n = 0; (dl_size_t) n < byte_length; n++) {
-					DL_ARRAY_GETADDRESS(currentArgs, dl_uint8_t, n) = ((args[0].value.integer
-					                                                    >> 8*(byte_length - n - 1))
-					                                                   & 0xFFU);
-				}
-				offset += byte_length;
 				/* I'm not checking if it's negative since I'm lazy and that should never happen. */
-				if (args[0].value.index < 0x100LL) {
+				if ((args[0].value.index < 0x100LL) && (args[1].value.index < 0x100LL)) {
 					currentInstruction.byte = duckLisp_instruction_setUpvalue8;
 					byte_length = 1;
 				}
-				else if (args[0].value.index < 0x10000LL) {
+				else if ((args[0].value.index < 0x10000LL) && (args[1].value.index < 0x10000LL)) {
 					currentInstruction.byte = duckLisp_instruction_setUpvalue16;
 					byte_length = 2;
 				}
@@ -807,6 +798,14 @@ dl_error_t duckLisp_assemble(duckLisp_t *duckLisp,
 				}
 				e = dl_array_pushElements(&currentArgs, dl_null, byte_length);
 				if (e) goto cleanup;
+				for (dl_ptrdiff_t n = 0; (dl_size_t) n < byte_length; n++) {
+					DL_ARRAY_GETADDRESS(currentArgs, dl_uint8_t, n) = ((args[0].value.integer
+					                                                    >> 8*(byte_length - n - 1))
+					                                                   & 0xFFU);
+				}
+				offset += byte_length;
+				e = dl_array_pushElements(&currentArgs, dl_null, byte_length);
+				if (e) goto cleanup;
 				for (dl_ptrdiff_t n = 0; (dl_size_t) n < byte_length; n++) {
 					DL_ARRAY_GETADDRESS(currentArgs, dl_uint8_t, offset + n) = ((args[1].value.integer
 					                                                             >> 8*(byte_length - n - 1))
@@ -2900,8 +2899,8 @@ dl_error_t duckLisp_disassemble(dl_array_t *string,
 		{duckLisp_instruction_pushGlobal16, DL_STR("global.8 2")},
 		{duckLisp_instruction_pushGlobal32, DL_STR("global.8 4")},
 		{duckLisp_instruction_setUpvalue8, DL_STR("set-upvalue.8 1 1")},
-		{duckLisp_instruction_setUpvalue16, DL_STR("set-upvalue.16 1 2")},
-		{duckLisp_instruction_setUpvalue32, DL_STR("set-upvalue.32 1 4")},
+		{duckLisp_instruction_setUpvalue16, DL_STR("set-upvalue.16 2 2")},
+		{duckLisp_instruction_setUpvalue32, DL_STR("set-upvalue.32 4 4")},
 		{duckLisp_instruction_setGlobal8, DL_STR("set-global.8 1 1")},
 		{duckLisp_instruction_setGlobal16, DL_STR("set-global.16 2 2")},
 		{duckLisp_instruction_setGlobal32, DL_STR("set-global.32 4 4")},
diff --git a/duckVM.c b/duckVM.c
index 9291ec2..c36ff22 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -1378,6 +1378,9 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 
 	case duckLisp_instruction_setUpvalue32:
 		ptrdiff1 = *(ip++);
+		ptrdiff1 = *(ip++) + (ptrdiff1 << 8);
+		ptrdiff1 = *(ip++) + (ptrdiff1 << 8);
+		ptrdiff1 = *(ip++) + (ptrdiff1 << 8);
 		ptrdiff2 = *(ip++);
 		ptrdiff2 = *(ip++) + (ptrdiff2 << 8);
 		ptrdiff2 = *(ip++) + (ptrdiff2 << 8);
@@ -1387,6 +1390,7 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 	case duckLisp_instruction_setUpvalue16:
 		if (!parsedBytecode) {
 			ptrdiff1 = *(ip++);
+			ptrdiff1 = *(ip++) + (ptrdiff1 << 8);
 			ptrdiff2 = *(ip++);
 			ptrdiff2 = *(ip++) + (ptrdiff2 << 8);
 			parsedBytecode = dl_true;
-- 
2.43.0


From 00d9f16ea1064f0dcfa06936cdc69645f0f340c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:20 +0000
Subject: [PATCH 55/99] fix: release upvalues when there are many of them or
 when they lie deep in the stack

---
 assembler.c | 28 +++++++++++++++-------------
 duckVM.c    |  7 +++++++
 2 files changed, 22 insertions(+), 13 deletions(-)

diff --git a/assembler.c b/assembler.c
index 293a87f..ff5ea71 100644
--- a/assembler.c
+++ b/assembler.c
@@ -2133,21 +2133,23 @@ dl_error_t duckLisp_assemble(duckLisp_t *duckLisp,
 			break;
 		}
 		case duckLisp_instructionClass_releaseUpvalues: {
-			byte_length = 1;
+			/* All of the arguments, including the number of upvalues, have the same size. */
+			dl_size_t maximum = instruction.args.elements_length;
 			DL_DOTIMES(k, instruction.args.elements_length) {
 				dl_size_t arg = args[k].value.integer;
-				if (arg < 0x00000100UL) {
-					currentInstruction.byte = duckLisp_instruction_releaseUpvalues8;
-					byte_length = 1;
-				}
-				else if (arg < 0x00010000UL) {
-					currentInstruction.byte = duckLisp_instruction_releaseUpvalues16;
-					byte_length = 2;
-				}
-				else {
-					currentInstruction.byte = duckLisp_instruction_releaseUpvalues32;
-					byte_length = 4;
-				}
+				if (arg > maximum) maximum = arg;
+			}
+			if (maximum < 0x00000100UL) {
+				currentInstruction.byte = duckLisp_instruction_releaseUpvalues8;
+				byte_length = 1;
+			}
+			else if (maximum < 0x00010000UL) {
+				currentInstruction.byte = duckLisp_instruction_releaseUpvalues16;
+				byte_length = 2;
+			}
+			else {
+				currentInstruction.byte = duckLisp_instruction_releaseUpvalues32;
+				byte_length = 4;
 			}
 			dl_ptrdiff_t index = 0;
 			// Number of upvalues
diff --git a/duckVM.c b/duckVM.c
index c36ff22..7c76f6c 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -1334,6 +1334,13 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 	case duckLisp_instruction_releaseUpvalues16:
 	case duckLisp_instruction_releaseUpvalues8:
 		size1 = *(ip++);
+		if (opcode == duckLisp_instruction_releaseUpvalues32) {
+			size1 = *(ip++) + (size1 << 8);
+			size1 = *(ip++) + (size1 << 8);
+		}
+		if (opcode != duckLisp_instruction_releaseUpvalues8) {
+			size1 = *(ip++) + (size1 << 8);
+		}
 
 		DL_DOTIMES(k, size1) {
 			ptrdiff1 = *(ip++);
-- 
2.43.0


From 26994e4145a5db0a8cc1b9c9cf200e0a9538a136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:12 +0000
Subject: [PATCH 56/99] fix: encode vectors of values that lie deep in the
 stack

---
 assembler.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/assembler.c b/assembler.c
index ff5ea71..fab8c59 100644
--- a/assembler.c
+++ b/assembler.c
@@ -1306,11 +1306,16 @@ dl_error_t duckLisp_assemble(duckLisp_t *duckLisp,
 		case duckLisp_instructionClass_vector: {
 			if (args[0].type == duckLisp_instructionArgClass_type_index) {
 				dl_ptrdiff_t index = 0;
-				if ((unsigned long) args[0].value.index < 0x100UL) {
+				/* All of the arguments, including the length of the vector, have the same size. */
+				dl_ptrdiff_t maximum = args[0].value.index;
+				DL_DOTIMES(l, instruction.args.elements_length) {
+					if (args[l].value.index > maximum) maximum = args[l].value.index;
+				}
+				if ((unsigned long) maximum < 0x100UL) {
 					currentInstruction.byte = duckLisp_instruction_vector8;
 					byte_length = 1;
 				}
-				else if ((unsigned int) args[0].value.index < 0x10000UL) {
+				else if ((unsigned long) maximum < 0x10000UL) {
 					currentInstruction.byte = duckLisp_instruction_vector16;
 					byte_length = 2;
 				}
-- 
2.43.0


From 1df9ec9bebd2c1fef62416fbef23631e283861c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:28 +0000
Subject: [PATCH 57/99] fix: branch on conditions that leave more than 255
 temporaries

---
 emitters.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/emitters.c b/emitters.c
index fa06e9e..dd025b6 100644
--- a/emitters.c
+++ b/emitters.c
@@ -1447,6 +1447,19 @@ dl_error_t duckLisp_emit_brnz(duckLisp_t *duckLisp,
 		goto cleanup;
 	}
 
+	if (pops > DL_UINT8_MAX) {
+		/* The instruction can't pop that many objects, so only leave the condition for it. */
+		e = duckLisp_emit_move(duckLisp,
+		                       compileState,
+		                       assembly,
+		                       duckLisp_localsLength_get(compileState) - pops,
+		                       duckLisp_localsLength_get(compileState) - 1);
+		if (e) goto cleanup;
+		e = duckLisp_emit_pop(duckLisp, compileState, assembly, pops - 1);
+		if (e) goto cleanup;
+		pops = 1;
+	}
+
 	/* `label_index` should never equal -1 after this function exits. */
 	e = duckLisp_scope_getLabelFromName(compileState->currentCompileState, &label_index, label, label_length);
 	if (e) goto cleanup;
-- 
2.43.0


From 073a4e8c915075ac59ae30ac9103d1f360b5722d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:59 +0000
Subject: [PATCH 58/99] fix: encode substrings whose last index lies deep in
 the stack

---
 assembler.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/assembler.c b/assembler.c
index fab8c59..b78e754 100644
--- a/assembler.c
+++ b/assembler.c
@@ -2088,12 +2088,14 @@ dl_error_t duckLisp_assemble(duckLisp_t *duckLisp,
 			    && (args[2].type == duckLisp_instructionArgClass_type_index)) {
 				dl_ptrdiff_t index = 0;
 				if (((unsigned long) args[0].value.index < 0x100UL)
-				    && ((unsigned long) args[1].value.index < 0x100UL)) {
+				    && ((unsigned long) args[1].value.index < 0x100UL)
+				    && ((unsigned long) args[2].value.index < 0x100UL)) {
 					currentInstruction.byte = duckLisp_instruction_substring8;
 					byte_length = 1;
 				}
 				else if (((unsigned int) args[0].value.index < 0x10000UL)
-				         && ((unsigned int) args[1].value.index < 0x10000UL)) {
+				         && ((unsigned int) args[1].value.index < 0x10000UL)
+				         && ((unsigned int) args[2].value.index < 0x10000UL)) {
 					currentInstruction.byte = duckLisp_instruction_substring16;
 					byte_length = 2;
 				}
-- 
2.43.0


From 6fe514d98a8c4e1855808dd0127bd686622e4755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:01 +0000
Subject: [PATCH 59/99] fix: bound the recursion depth of quicksort

---
 DuckLib/sort.c | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/DuckLib/sort.c b/DuckLib/sort.c
index 8cb341d..8790565 100644
--- a/DuckLib/sort.c
+++ b/DuckLib/sort.c
@@ -69,15 +69,23 @@ dl_ptrdiff_t partition_lomuto(void *array, const dl_size_t size, const dl_ptrdif
 	return index;
 }
 
-void quicksort_lomuto(void *array, const dl_size_t length, const dl_size_t size, const dl_ptrdiff_t low, const dl_ptrdiff_t high, int (*comparison)(const void *l, const void *r, const void *context), const void *context) {
+void quicksort_lomuto(void *array, const dl_size_t length, const dl_size_t size, dl_ptrdiff_t low, dl_ptrdiff_t high, int (*comparison)(const void *l, const void *r, const void *context), const void *context) {
 	dl_ptrdiff_t pivot;
 	
-	if ((low >= high) || (low < 0)) return;
+	while ((low < high) && (low >= 0)) {
 
-	pivot = partition_lomuto(array, size, low, high, comparison, context);
+		pivot = partition_lomuto(array, size, low, high, comparison, context);
 
-	quicksort_lomuto(array, length, size, low, pivot - 1, comparison, context);
-	quicksort_lomuto(array, length, size, pivot + 1, high, comparison, context);
+		/* Recurse into the smaller part only, so that the recursion depth is logarithmic. */
+		if (pivot - low < high - pivot) {
+			quicksort_lomuto(array, length, size, low, pivot - 1, comparison, context);
+			low = pivot + 1;
+		}
+		else {
+			quicksort_lomuto(array, length, size, pivot + 1, high, comparison, context);
+			high = pivot - 1;
+		}
+	}
 }
 
 
@@ -103,14 +111,21 @@ dl_ptrdiff_t partition_hoare(void *array, const dl_size_t size, const dl_ptrdiff
 	}
 }
 
-void quicksort_hoare(void *array, const dl_size_t length, const dl_size_t size, const dl_ptrdiff_t low, const dl_ptrdiff_t high, int (*comparison)(const void *l, const void *r, const void *context), const void *context) {
+void quicksort_hoare(void *array, const dl_size_t length, const dl_size_t size, dl_ptrdiff_t low, dl_ptrdiff_t high, int (*comparison)(const void *l, const void *r, const void *context), const void *context) {
 	dl_ptrdiff_t pivot;
 	
-	if ((low >= 0) && (high >= 0) && (low < high)) {
+	while ((low >= 0) && (high >= 0) && (low < high)) {
 		
 		pivot = partition_hoare(array, size, low, high, comparison, context);
 		
-		quicksort_hoare(array, length, size, low, pivot, comparison, context);
-		quicksort_hoare(array, length, size, pivot + 1, high, comparison, context);
+		/* Recurse into the smaller part only, so that the recursion depth is logarithmic. */
+		if (pivot - low < high - pivot) {
+			quicksort_hoare(array, length, size, low, pivot, comparison, context);
+			low = pivot + 1;
+		}
+		else {
+			quicksort_hoare(array, length, size, pivot + 1, high, comparison, context);
+			high = pivot;
+		}
 	}
 }
-- 
2.43.0


From 99d06603e0a591c3442afa03d2bb52557b548826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:22 +0000
Subject: [PATCH 60/99] fix: freeing nothing is an error of the bundled
 allocator, and ends the release of everything else

---
 DuckLib/memory.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DuckLib/memory.c b/DuckLib/memory.c
index c461c45..375ab55 100644
--- a/DuckLib/memory.c
+++ b/DuckLib/memory.c
@@ -777,8 +777,8 @@ dl_error_t dl_free(dl_memoryAllocation_t *memoryAllocation, void **memory) {
 
 	dl_ptrdiff_t block = -1;
 
+	/* As with the other allocator, there is nothing to do if nothing was allocated. */
 	if (*memory == dl_null) {
-		error = dl_error_nullPointer;
 		goto l_cleanup;
 	}
 
-- 
2.43.0


From e3d44235fa73d6f162679e1df91200275f6bbed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:34 +0000
Subject: [PATCH 61/99] fix: without jump optimization, the table of links is
 never freed

---
 assembler.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/assembler.c b/assembler.c
index b78e754..59f19e8 100644
--- a/assembler.c
+++ b/assembler.c
@@ -2821,6 +2821,9 @@ dl_error_t duckLisp_assemble(duckLisp_t *duckLisp,
 				DL_ARRAY_GETADDRESS(bytecodeList, byteLink_t, source + j).byte = byte;
 			}
 		}
+
+		e = dl_free(duckLisp->memoryAllocation, (void *) &linkArray.links);
+		if (e) goto cleanup;
 	}
 #endif
 
-- 
2.43.0


From f40e6279a282b7ffbf0fc32cf1ac486202989347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:39 +0000
Subject: [PATCH 62/99] fix: a failed insertion into a trie is reported and
 leaves the trie as it was

---
 DuckLib/trie.c | 74 ++++++++++++++++++++++++++++----------------------
 1 file changed, 42 insertions(+), 32 deletions(-)

diff --git a/DuckLib/trie.c b/DuckLib/trie.c
index 9ca3f95..e4dbe1c 100644
--- a/DuckLib/trie.c
+++ b/DuckLib/trie.c
@@ -171,9 +171,9 @@ static dl_error_t dl_trie_insert_helper(dl_trie_t *trie,
 				                          &key[name_index],
 				                          key_length - name_index,
 				                          index);
-				if (*success) break;
+				if (e || *success) break;
 			}
-			if (!*success) {
+			if (!e && !*success) {
 				/* No child nodes match at all, so create a new one. */
 				e = dl_trie_pushNode(trie, node, &key[name_index], key_length - name_index, index);
 				if (e) break;
@@ -184,28 +184,32 @@ static dl_error_t dl_trie_insert_helper(dl_trie_t *trie,
 		/* Correct, but key is too short for this node. */
 		else if ((dl_size_t) name_index == key_length) {
 			/* Split. */
-			/* Save current node. (Save the children!) */
-			dl_trie_node_t tempNode = *node;
-			/* Reinitialize the node. Put the index here. */
-			/**/ dl_trie_init_node(node,
+			/* The current node is not touched until nothing can fail any more. */
+			dl_trie_node_t newNode;
+			/* Put the index here. */
+			/**/ dl_trie_init_node(&newNode,
 			                       index,
 			                       dl_null,
 			                       0,
 			                       dl_null,
 			                       dl_null);
-			/* Push the saved node into the newly initialized node. */
+			/* Push the current node into the newly initialized node. */
 			e = dl_trie_pushNode(trie,
-			                     node,
+			                     &newNode,
 			                     &(*node_name)[name_index],
 			                     *node_name_length - name_index,
-			                     tempNode.index);
-			if (e) break;
-			node->value.nodes[0] = tempNode;
-
-			e = dl_realloc(trie->memoryAllocation,
-			               (void **) node_name,
-			               name_index * sizeof(dl_uint8_t));
-			if (e) break;
+			                     node->index);
+			if (!e) {
+				e = dl_realloc(trie->memoryAllocation,
+				               (void **) node_name,
+				               name_index * sizeof(dl_uint8_t));
+			}
+			if (e) {
+				(void) dl_trie_quit_node(trie, &newNode);
+				break;
+			}
+			newNode.value.nodes[0] = *node;
+			*node = newNode;
 			/* Trim current node's name to match key. */
 			*node_name_length = name_index;
 
@@ -216,37 +220,43 @@ static dl_error_t dl_trie_insert_helper(dl_trie_t *trie,
 		else if (key[name_index] != (*node_name)[name_index]) {  /* Exit point */
 			if (name_index != 0) {
 				/* Split. */
-				dl_trie_node_t tempNode = *node;
-				dl_trie_init_node(node,
+				dl_trie_node_t newNode;
+				dl_trie_init_node(&newNode,
 				                  -1,
 				                  dl_null,
 				                  0,
 				                  dl_null,
 				                  dl_null);
 				e = dl_trie_pushNode(trie,
-				                     node,
+				                     &newNode,
 				                     &(*node_name)[name_index],
 				                     *node_name_length - name_index,
 				                     100);  /* Index doesn't seem to matter here. */
-				if (e) break;
 
 				/* Add node. */
-				e = dl_trie_pushNode(trie,
-				                     node,
-				                     &key[name_index],
-				                     key_length - name_index,
-				                     index);
-				if (e) break;
+				if (!e) {
+					e = dl_trie_pushNode(trie,
+					                     &newNode,
+					                     &key[name_index],
+					                     key_length - name_index,
+					                     index);
+				}
+				/* Delete the redundant end of the original node's key. */
+				if (!e) {
+					e = dl_realloc(trie->memoryAllocation,
+					               (void **) node_name,
+					               name_index * sizeof(dl_uint8_t));
+				}
+				if (e) {
+					(void) dl_trie_quit_node(trie, &newNode);
+					break;
+				}
 				/* Next node. */
 				// node = &node->value.nodes[0];
 				/* Splice to finish split. */
-				node->value.nodes[0] = tempNode;
+				newNode.value.nodes[0] = *node;
+				*node = newNode;
 
-				/* Delete the redundant end of the original node's key. */
-				e = dl_realloc(trie->memoryAllocation,
-				               (void **) node_name,
-				               name_index * sizeof(dl_uint8_t));
-				if (e) break;
 				*node_name_length = name_index;
 
 				*success = dl_true;
-- 
2.43.0


From 37f5a68836b02ca4d62cef2ff0db63b5ad58c4ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:39 +0000
Subject: [PATCH 63/99] fix: a symbol that could not be created shares its
 number with the next one

---
 duckLisp.c   | 20 ++++++++++++++------
 generators.c | 36 ++++++++++++------------------------
 2 files changed, 26 insertions(+), 30 deletions(-)

diff --git a/duckLisp.c b/duckLisp.c
index 23abcf3..67167b5 100644
--- a/duckLisp.c
+++ b/duckLisp.c
@@ -203,17 +203,25 @@ dl_error_t duckLisp_symbol_create(duckLisp_t *duckLisp, const dl_uint8_t *name,
 	dl_ptrdiff_t key = duckLisp_symbol_nameToValue(duckLisp, name, name_length);
 	if (key == -1) {
 		duckLisp_ast_identifier_t tempIdentifier;
-		e = dl_trie_insert(&duckLisp->symbols_trie,
-		                   name,
-		                   name_length,
-		                   duckLisp->symbols_array.elements_length);
-		if (e) goto l_cleanup;
 		tempIdentifier.value_length = name_length;
 		e = dl_malloc(duckLisp->memoryAllocation, (void **) &tempIdentifier.value, name_length);
 		if (e) goto l_cleanup;
 		/**/ dl_memcopy_noOverlap(tempIdentifier.value, name, name_length);
 		e = dl_array_pushElement(&duckLisp->symbols_array, (void *) &tempIdentifier);
-		if (e) goto l_cleanup;
+		if (e) {
+			(void) dl_free(duckLisp->memoryAllocation, (void **) &tempIdentifier.value);
+			goto l_cleanup;
+		}
+		/* The name must not lead to a symbol that does not exist, so this comes last. */
+		e = dl_trie_insert(&duckLisp->symbols_trie,
+		                   name,
+		                   name_length,
+		                   duckLisp->symbols_array.elements_length - 1);
+		if (e) {
+			(void) dl_array_popElement(&duckLisp->symbols_array, dl_null);
+			(void) dl_free(duckLisp->memoryAllocation, (void **) &tempIdentifier.value);
+			goto l_cleanup;
+		}
 	}
 
  l_cleanup:
diff --git a/generators.c b/generators.c
index b08e398..ebc513e 100644
--- a/generators.c
+++ b/generators.c
@@ -624,7 +624,6 @@ dl_error_t duckLisp_generator_quote_helper(duckLisp_t *duckLisp,
 	dl_array_t tempString;
 	dl_ptrdiff_t temp_index;
 	/**/ dl_array_init(&tempString, duckLisp->memoryAllocation, sizeof(char), dl_array_strategy_double);
-	duckLisp_ast_identifier_t tempIdentifier;
 
 	/*
 	  Recursively convert to a tree made of lists.
@@ -664,18 +663,13 @@ dl_error_t duckLisp_generator_quote_helper(duckLisp_t *duckLisp,
 		                  tree->value.identifier.value_length);
 		if (temp_index < 0) {
 			/* It's not. Intern it. */
-			temp_index = duckLisp->symbols_array.elements_length;
-			e = dl_trie_insert(&duckLisp->symbols_trie,
-			                   tree->value.identifier.value,
-			                   tree->value.identifier.value_length,
-			                   duckLisp->symbols_array.elements_length);
-			if (e) goto cleanup;
-			tempIdentifier.value_length = tree->value.identifier.value_length;
-			e = dl_malloc(duckLisp->memoryAllocation, (void **) &tempIdentifier.value, tempIdentifier.value_length);
-			if (e) goto cleanup;
-			/**/ dl_memcopy_noOverlap(tempIdentifier.value, tree->value.identifier.value, tempIdentifier.value_length);
-			e = dl_array_pushElement(&duckLisp->symbols_array, (void *) &tempIdentifier);
+			e = duckLisp_symbol_create(duckLisp,
+			                           tree->value.identifier.value,
+			                           tree->value.identifier.value_length);
 			if (e) goto cleanup;
+			temp_index = duckLisp_symbol_nameToValue(duckLisp,
+			                                         tree->value.identifier.value,
+			                                         tree->value.identifier.value_length);
 		}
 		/* Push symbol */
 		e = duckLisp_emit_pushSymbol(duckLisp,
@@ -752,7 +746,6 @@ dl_error_t duckLisp_generator_quote(duckLisp_t *duckLisp,
 	dl_ptrdiff_t temp_index = -1;
 	dl_uint8_t *functionName = expression->compoundExpressions[0].value.identifier.value;
 	dl_size_t functionName_length = expression->compoundExpressions[0].value.identifier.value_length;
-	duckLisp_ast_identifier_t tempIdentifier;
 
 	/*
 	  Recursively convert to a tree made of lists.
@@ -795,18 +788,13 @@ dl_error_t duckLisp_generator_quote(duckLisp_t *duckLisp,
 		                  tree->value.identifier.value_length);
 		if (temp_index < 0) {
 			// It's not. Intern it.
-			temp_index = duckLisp->symbols_array.elements_length;
-			e = dl_trie_insert(&duckLisp->symbols_trie,
-			                   tree->value.identifier.value,
-			                   tree->value.identifier.value_length,
-			                   duckLisp->symbols_array.elements_length);
-			if (e) goto cleanup;
-			tempIdentifier.value_length = tree->value.identifier.value_length;
-			e = dl_malloc(duckLisp->memoryAllocation, (void **) &tempIdentifier.value, tempIdentifier.value_length);
-			if (e) goto cleanup;
-			/**/ dl_memcopy_noOverlap(tempIdentifier.value, tree->value.identifier.value, tempIdentifier.value_length);
-			e = dl_array_pushElement(&duckLisp->symbols_array, (void *) &tempIdentifier);
+			e = duckLisp_symbol_create(duckLisp,
+			                           tree->value.identifier.value,
+			                           tree->value.identifier.value_length);
 			if (e) goto cleanup;
+			temp_index = duckLisp_symbol_nameToValue(duckLisp,
+			                                         tree->value.identifier.value,
+			                                         tree->value.identifier.value_length);
 		}
 		// Push symbol
 		e = duckLisp_emit_pushSymbol(duckLisp,
-- 
2.43.0


From a8d53f6e98c00c195d790de8e9222b8acb7f1538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:10 +0000
Subject: [PATCH 64/99] fix: a failed insertion into the trie of a scope leaves
 the scope with freed memory

---
 duckLisp.c | 34 +++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/duckLisp.c b/duckLisp.c
index 67167b5..a602d45 100644
--- a/duckLisp.c
+++ b/duckLisp.c
@@ -727,6 +727,7 @@ dl_error_t duckLisp_register_label(duckLisp_t *duckLisp,
                                    dl_uint8_t *name,
                                    const dl_size_t name_length) {
 	dl_error_t e = dl_error_ok;
+	dl_error_t eError = dl_error_ok;
 
 	duckLisp_scope_t scope;
 
@@ -734,12 +735,12 @@ dl_error_t duckLisp_register_label(duckLisp_t *duckLisp,
 	if (e) goto l_cleanup;
 
 	e = dl_trie_insert(&scope.labels_trie, name, name_length, subCompileState->label_number);
+	/* Even a failed insertion can have moved the trie. */
+	eError = scope_setTop(subCompileState, &scope);
+	if (!e) e = eError;
 	if (e) goto l_cleanup;
 	subCompileState->label_number++;
 
-	e = scope_setTop(subCompileState, &scope);
-	if (e) goto l_cleanup;
-
  l_cleanup:
 
 	return e;
@@ -2299,6 +2300,7 @@ dl_error_t duckLisp_scope_addObject(duckLisp_t *duckLisp,
                                     const dl_uint8_t *name,
                                     const dl_size_t name_length) {
 	dl_error_t e = dl_error_ok;
+	dl_error_t eError = dl_error_ok;
 
 	duckLisp_scope_t scope;
 
@@ -2307,9 +2309,9 @@ dl_error_t duckLisp_scope_addObject(duckLisp_t *duckLisp,
 	if (e) goto cleanup;
 
 	e = dl_trie_insert(&scope.locals_trie, name, name_length, duckLisp_localsLength_get(compileState));
-	if (e) goto cleanup;
-
-	e = scope_setTop(compileState->currentCompileState, &scope);
+	/* Even a failed insertion can have moved the trie. */
+	eError = scope_setTop(compileState->currentCompileState, &scope);
+	if (!e) e = eError;
 	if (e) goto cleanup;
 
  cleanup:
@@ -2341,6 +2343,7 @@ dl_error_t duckLisp_addInterpretedFunction(duckLisp_t *duckLisp,
                                            duckLisp_compileState_t *compileState,
                                            const duckLisp_ast_identifier_t name) {
 	dl_error_t e = dl_error_ok;
+	dl_error_t eError = dl_error_ok;
 
 	duckLisp_scope_t scope;
 
@@ -2353,12 +2356,12 @@ dl_error_t duckLisp_addInterpretedFunction(duckLisp_t *duckLisp,
 	                   name.value,
 	                   name.value_length,
 	                   duckLisp_localsLength_get(compileState));
-	if (e) goto cleanup;
-
-	e = dl_trie_insert(&scope.functions_trie, name.value, name.value_length, duckLisp_functionType_ducklisp);
-	if (e) goto cleanup;
-
-	e = scope_setTop(compileState->currentCompileState, &scope);
+	if (!e) {
+		e = dl_trie_insert(&scope.functions_trie, name.value, name.value_length, duckLisp_functionType_ducklisp);
+	}
+	/* Even a failed insertion can have moved the tries. */
+	eError = scope_setTop(compileState->currentCompileState, &scope);
+	if (!e) e = eError;
 	if (e) goto cleanup;
 
  cleanup: return e;
@@ -2369,6 +2372,7 @@ dl_error_t duckLisp_addInterpretedGenerator(duckLisp_t *duckLisp,
                                             duckLisp_compileState_t *compileState,
                                             const duckLisp_ast_identifier_t name) {
 	dl_error_t e = dl_error_ok;
+	dl_error_t eError = dl_error_ok;
 
 	duckLisp_scope_t scope;
 	duckLisp_subCompileState_t *originalSubCompileState = compileState->currentCompileState;
@@ -2383,9 +2387,9 @@ dl_error_t duckLisp_addInterpretedGenerator(duckLisp_t *duckLisp,
 		                   name.value,
 		                   name.value_length,
 		                   duckLisp_functionType_macro);
-		if (e) goto cleanup;
-
-		e = scope_setTop(compileState->currentCompileState, &scope);
+		/* Even a failed insertion can have moved the trie. */
+		eError = scope_setTop(compileState->currentCompileState, &scope);
+		if (!e) e = eError;
 		if (e) goto cleanup;
 	}
 	if (compileState->currentCompileState == &compileState->runtimeCompileState) {
-- 
2.43.0


From d169df459ee154e1d79064d0204f7caa7dc381ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:10 +0000
Subject: [PATCH 65/99] fix: `intern` loses its errors

---
 duckLisp.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/duckLisp.c b/duckLisp.c
index a602d45..fdea77e 100644
--- a/duckLisp.c
+++ b/duckLisp.c
@@ -1535,7 +1535,8 @@ dl_error_t duckLisp_callback_intern(duckVM_t *duckVM) {
 		if (e) goto cleanupString;
 
 	cleanupString:
-		e = DL_FREE(duckVM->memoryAllocation, &string);
+		eError = DL_FREE(duckVM->memoryAllocation, &string);
+		if (!e) e = eError;
 		if (e) goto cleanup;
 	}
 
-- 
2.43.0


From e0f475251c766955418b57ee80e075edeaaf0f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:10 +0000
Subject: [PATCH 66/99] fix: a string that cannot be allocated is replaced with
 garbage

---
 duckVM.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/duckVM.c b/duckVM.c
index 7c76f6c..6afbfba 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -935,6 +935,7 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 				 = duckVM_error_pushRuntime(duckVM,
 				                            DL_STR("duckVM_execute->push-string: duckVM_object_makeString failed.")));
 				if (!e) e = eError;
+				break;
 			}
 			e = stack_push(duckVM, &object1);
 			if (e) {
-- 
2.43.0


From e6d4498c403be86bee9056d671d656210b5239dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:37 +0000
Subject: [PATCH 67/99] fix: quitting after a failed initialization uses
 uninitialized memory

---
 duckLisp.c | 11 ++++++-----
 duckVM.c   | 19 +++++++++++++------
 2 files changed, 19 insertions(+), 11 deletions(-)

diff --git a/duckLisp.c b/duckLisp.c
index fdea77e..6eb3b6f 100644
--- a/duckLisp.c
+++ b/duckLisp.c
@@ -2065,6 +2065,12 @@ dl_error_t duckLisp_init(duckLisp_t *duckLisp,
 
 	duckLisp->userData = dl_null;
 
+	/* This comes first because `duckLisp_quit` quits the VM. */
+	error = duckVM_init(&duckLisp->vm, duckLisp->memoryAllocation, maxComptimeVmObjects);
+	if (error) goto cleanup;
+
+	duckLisp->vm.duckLisp = duckLisp;
+
 	for (dl_ptrdiff_t i = 0; generators[i].name != dl_null; i++) {
 		error = duckLisp_addGenerator(duckLisp,
 		                              generators[i].callback,
@@ -2085,11 +2091,6 @@ dl_error_t duckLisp_init(duckLisp_t *duckLisp,
 		}
 	}
 
-	error = duckVM_init(&duckLisp->vm, duckLisp->memoryAllocation, maxComptimeVmObjects);
-	if (error) goto cleanup;
-
-	duckLisp->vm.duckLisp = duckLisp;
-
 	for (dl_ptrdiff_t i = 0; callbacks[i].name != dl_null; i++) {
 		error = duckLisp_linkCFunction(duckLisp,
 		                               callbacks[i].callback,
diff --git a/duckVM.c b/duckVM.c
index 6afbfba..9ea5b9d 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -65,19 +65,22 @@ dl_error_t duckVM_gclist_init(duckVM_gclist_t *gclist,
 
 	gclist->memoryAllocation = memoryAllocation;
 	gclist->duckVM = duckVM;
+	gclist->objects = dl_null;
+	gclist->objects_length = 0;
+	gclist->freeObjects = dl_null;
+	gclist->freeObjects_length = 0;
+	gclist->objectInUse = dl_null;
 
 
 	e = dl_malloc(gclist->memoryAllocation,
 				  (void **) &gclist->objects,
 				  maxObjects * sizeof(duckVM_object_t));
 	if (e) goto cleanup;
-	gclist->objects_length = maxObjects;
 
 	e = dl_malloc(gclist->memoryAllocation,
 				  (void **) &gclist->freeObjects,
 				  maxObjects * sizeof(duckVM_object_t *));
 	if (e) goto cleanup;
-	gclist->freeObjects_length = maxObjects;
 
 
 	e = dl_malloc(gclist->memoryAllocation,
@@ -85,6 +88,9 @@ dl_error_t duckVM_gclist_init(duckVM_gclist_t *gclist,
 				  maxObjects * sizeof(dl_bool_t));
 	if (e) goto cleanup;
 
+	gclist->objects_length = maxObjects;
+	gclist->freeObjects_length = maxObjects;
+
 
 	/**/ dl_memclear(gclist->objects, gclist->objects_length * sizeof(duckVM_object_t));
 
@@ -503,8 +509,6 @@ dl_error_t duckVM_init(duckVM_t *duckVM, dl_memoryAllocation_t *memoryAllocation
 	                   duckVM->memoryAllocation,
 	                   sizeof(duckVM_object_t *),
 	                   dl_array_strategy_double);
-	e = dl_array_pushElement(&duckVM->upvalue_array_call_stack, dl_null);
-	if (e) goto cleanup;
 	/**/ dl_array_init(&duckVM->globals,
 	                   duckVM->memoryAllocation,
 	                   sizeof(duckVM_object_t *),
@@ -513,10 +517,13 @@ dl_error_t duckVM_init(duckVM_t *duckVM, dl_memoryAllocation_t *memoryAllocation
 	                   duckVM->memoryAllocation,
 	                   sizeof(dl_ptrdiff_t),
 	                   dl_array_strategy_double);
-	e = duckVM_gclist_init(&duckVM->gclist, duckVM->memoryAllocation, duckVM, maxObjects);
-	if (e) goto cleanup;
 	duckVM->duckLisp = dl_null;
 	duckVM->userData = dl_null;
+	/* `duckVM_quit` has to be possible if one of these fails. */
+	e = duckVM_gclist_init(&duckVM->gclist, duckVM->memoryAllocation, duckVM, maxObjects);
+	if (e) goto cleanup;
+	e = dl_array_pushElement(&duckVM->upvalue_array_call_stack, dl_null);
+	if (e) goto cleanup;
 
  cleanup:
 	return e;
-- 
2.43.0


From 9b844fd011a4f80c4b0235f047fb9ccf76b20ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:37 +0000
Subject: [PATCH 68/99] fix: the name of a generator that could not be added
 leads to the next one

---
 duckLisp.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/duckLisp.c b/duckLisp.c
index 6eb3b6f..77dbe56 100644
--- a/duckLisp.c
+++ b/duckLisp.c
@@ -2411,12 +2411,12 @@ dl_error_t duckLisp_addParserAction(duckLisp_t *duckLisp,
 	dl_error_t e = dl_error_ok;
 
 	/* Record the generator stack index. */
+	e = dl_array_pushElement(&duckLisp->parser_actions_array, &callback);
+	if (e) goto cleanup;
 	e = dl_trie_insert(&duckLisp->parser_actions_trie,
 	                   name,
 	                   name_length,
-	                   duckLisp->parser_actions_array.elements_length);
-	if (e) goto cleanup;
-	e = dl_array_pushElement(&duckLisp->parser_actions_array, &callback);
+	                   duckLisp->parser_actions_array.elements_length - 1);
 	if (e) goto cleanup;
 
  cleanup:
@@ -2441,12 +2441,12 @@ dl_error_t duckLisp_addGenerator(duckLisp_t *duckLisp,
 	dl_error_t e = dl_error_ok;
 
 	/* Record the generator stack index. */
+	e = dl_array_pushElement(&duckLisp->generators_stack, &callback);
+	if (e) goto cleanup;
 	e = dl_trie_insert(&duckLisp->generators_trie,
 	                   name,
 	                   name_length,
-	                   duckLisp->generators_stack.elements_length);
-	if (e) goto cleanup;
-	e = dl_array_pushElement(&duckLisp->generators_stack, &callback);
+	                   duckLisp->generators_stack.elements_length - 1);
 	if (e) goto cleanup;
 
 #ifdef USE_PARENTHESIS_INFERENCE
-- 
2.43.0


From 3d52834f5c41145ac208f23c4faf2ffebdfc5156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:17 +0000
Subject: [PATCH 69/99] fix: the size of the memory of a huge vector overflows

---
 duckVM.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/duckVM.c b/duckVM.c
index 9ea5b9d..4d36742 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -412,10 +412,16 @@ static dl_error_t duckVM_gclist_pushObject(duckVM_t *duckVM, duckVM_object_t **o
 	}
 	else if (objectIn.type == duckVM_object_type_internalVector) {
 		if (objectIn.value.internal_vector.length > 0) {
-			e = DL_MALLOC(duckVM->memoryAllocation,
-			              (void **) &heapObject->value.internal_vector.values,
-			              objectIn.value.internal_vector.length,
-			              duckVM_object_t **);
+			if (objectIn.value.internal_vector.length > (dl_size_t) -1 / sizeof(duckVM_object_t *)) {
+				/* The size of the memory can't be expressed. */
+				e = dl_error_outOfMemory;
+			}
+			else {
+				e = DL_MALLOC(duckVM->memoryAllocation,
+				              (void **) &heapObject->value.internal_vector.values,
+				              objectIn.value.internal_vector.length,
+				              duckVM_object_t **);
+			}
 			if (e) {
 				eError = duckVM_error_pushRuntime(duckVM,
 				                                  DL_STR("duckVM_gclist_pushObject: Vector allocation failed."));
-- 
2.43.0


From 4a0baf489036bcd1d7fbc3e28eddd1d7e74619f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:52 +0000
Subject: [PATCH 70/99] fix: duckVM_setGlobal dereferences a null pointer

---
 duckVM.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/duckVM.c b/duckVM.c
index 4d36742..e671542 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -4981,10 +4981,13 @@ dl_error_t duckVM_pushGlobal(duckVM_t *duckVM, const dl_ptrdiff_t key) {
 
 /* Set the specified global variable to the value of the object on top of the stack. */
 dl_error_t duckVM_setGlobal(duckVM_t *duckVM, const dl_ptrdiff_t key) {
-	duckVM_object_t *object = dl_null;
-	dl_error_t e = stack_getTop(duckVM, object);
+	duckVM_object_t object;
+	duckVM_object_t *heapObject = dl_null;
+	dl_error_t e = stack_getTop(duckVM, &object);
+	if (e) return e;
+	e = duckVM_allocateHeapObject(duckVM, &heapObject, object);
 	if (e) return e;
-	return duckVM_global_set(duckVM, object, key);
+	return duckVM_global_set(duckVM, heapObject, key);
 }
 
 
-- 
2.43.0


From b750ff51152a0d432ac90adefd25b4be843d7dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:52 +0000
Subject: [PATCH 71/99] fix: a global variable that could not be added shifts
 the values of the later ones

---
 duckVM.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/duckVM.c b/duckVM.c
index e671542..d06f1cc 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -679,7 +679,11 @@ dl_error_t duckVM_global_set(duckVM_t *duckVM, duckVM_object_t *value, dl_ptrdif
 	e = dl_array_pushElement(globals, &value);
 	if (e) goto cleanup;
 	e = dl_array_pushElement(globals_map, &key);
-	if (e) goto cleanup;
+	if (e) {
+		/* The arrays have to stay parallel. */
+		(void) dl_array_popElement(globals, dl_null);
+		goto cleanup;
+	}
 
  cleanup:
 	return e;
-- 
2.43.0


From 1e5fec00ee085c80ac58c9052afd6449754f582b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:52 +0000
Subject: [PATCH 72/99] fix: duckVM_copySymbolName does not return the length
 of a symbol without a name

---
 duckVM.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/duckVM.c b/duckVM.c
index d06f1cc..0960dc1 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -6111,7 +6111,7 @@ dl_error_t duckVM_copySymbolName(duckVM_t *duckVM, dl_uint8_t **name, dl_size_t
 		}
 		else {
 			*name = dl_null;
-			name_length = 0;
+			*name_length = 0;
 			/* OK: This is symbol "compression". */
 		}
 	} while (0);
-- 
2.43.0


From a094870393eb9ffb84db6cb2121ddfa84f87b2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:52 +0000
Subject: [PATCH 73/99] fix: the tail of a vector that was truncated before it
 is not empty for duckVM_isEmpty

---
 duckVM.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/duckVM.c b/duckVM.c
index 0960dc1..635a4ee 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -5656,7 +5656,10 @@ dl_error_t duckVM_isEmptyVector(duckVM_t *duckVM, dl_bool_t *result) {
 	if (object.type == duckVM_object_type_vector) {
 		duckVM_object_t *internal_vector_object = object.value.vector.internal_vector;
 		if (internal_vector_object) {
-			*result = (0 == internal_vector_object->value.internal_vector.length);
+			dl_size_t length;
+			e = duckVM_vector_getLength(object.value.vector, &length);
+			if (e) return e;
+			*result = (0 == length);
 		}
 		else {
 			*result = dl_true;
@@ -5708,7 +5711,10 @@ dl_error_t duckVM_isEmpty(duckVM_t *duckVM, dl_bool_t *result) {
 	case duckVM_object_type_vector: {
 		duckVM_object_t *internal_vector_object = object.value.vector.internal_vector;
 		if (internal_vector_object) {
-			*result = (0 == internal_vector_object->value.internal_vector.length);
+			dl_size_t length;
+			e = duckVM_vector_getLength(object.value.vector, &length);
+			if (e) return e;
+			*result = (0 == length);
 		}
 		else {
 			*result = dl_true;
-- 
2.43.0


From 3fc9359dd66f6fc0f73399f83dc41193cfb188d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:52 +0000
Subject: [PATCH 74/99] fix: duckVM_pushComposite lets the collector free the
 value of the slots

---
 duckVM.c | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/duckVM.c b/duckVM.c
index 635a4ee..6952946 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -6201,17 +6201,20 @@ dl_error_t duckVM_copyType(duckVM_t *duckVM, dl_size_t *type) {
 dl_error_t duckVM_pushComposite(duckVM_t *duckVM, dl_size_t type) {
 	dl_error_t e = dl_error_ok;
 	do {
-		duckVM_object_t nil;
-		duckVM_object_t *nil_pointer;
+		duckVM_object_t *nil_pointer = dl_null;
 		duckVM_object_t object;
-		nil.type = duckVM_object_type_list;
-		nil.value.list = dl_null;
-		e = duckVM_allocateHeapObject(duckVM, &nil_pointer, nil);
-		if (e) break;
-		e = duckVM_object_makeComposite(duckVM, &object, type, nil_pointer, nil_pointer);
+		e = duckVM_object_makeComposite(duckVM, &object, type, dl_null, dl_null);
 		if (e) break;
+		/* Immediately push on stack so that the GC can see it. Allocating the slots could trigger a GC. */
 		e = duckVM_object_push(duckVM, &object);
 		if (e) break;
+		e = duckVM_allocateHeapObject(duckVM, &nil_pointer, duckVM_object_makeList(dl_null));
+		if (e) {
+			(void) duckVM_pop(duckVM);
+			break;
+		}
+		object.value.composite->value.internalComposite.value = nil_pointer;
+		object.value.composite->value.internalComposite.function = nil_pointer;
 	} while (0);
 	return e;
 }
-- 
2.43.0


From c0a9c7da41d3ffcfa1e45cdd701988e46e6e6d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:52 +0000
Subject: [PATCH 75/99] fix: duckVM_setCompositeFunction does not accept
 negative indices

---
 duckVM.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/duckVM.c b/duckVM.c
index 6952946..f6ae88e 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -6318,7 +6318,7 @@ dl_error_t duckVM_setCompositeFunction(duckVM_t *duckVM, dl_ptrdiff_t stack_inde
 		duckVM_object_t *heap_value = dl_null;
 		e = dl_array_getTop(&duckVM->stack, &value);
 		if (e) break;
-		e = dl_array_get(&duckVM->stack, &composite, stack_index);
+		e = stack_get(duckVM, &composite, stack_index);
 		if (e) break;
 		if (duckVM_object_type_composite != composite.type) {
 			e = dl_error_invalidValue;
-- 
2.43.0


From 7cc7cb3ce243f2b180829e40374ebfda7de22362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:52 +0000
Subject: [PATCH 76/99] fix: duckVM_pushVector pushes a vector of null pointers
 and hides its errors

---
 duckVM.c | 38 ++++++++++++++++++++++----------------
 1 file changed, 22 insertions(+), 16 deletions(-)

diff --git a/duckVM.c b/duckVM.c
index f6ae88e..3807a31 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -6370,24 +6370,30 @@ dl_error_t duckVM_pushVector(duckVM_t *duckVM, dl_size_t length) {
 	dl_error_t e = dl_error_ok;
 	do {
 		duckVM_object_t vector;
-		dl_array_t array;
+		duckVM_object_t *internal_vector = dl_null;
 		duckVM_object_t *nil_pointer = dl_null;
-		(void) dl_array_init(&array, duckVM->memoryAllocation, sizeof(duckVM_object_t *), dl_array_strategy_fit);
-		do {
-			DL_DOTIMES(k, length) {
-				e = dl_array_pushElement(&array, &nil_pointer);
-				if (e) break;
-			}
-			if (e) break;
-			e = duckVM_allocateHeapObject(duckVM, &nil_pointer, duckVM_object_makeList(dl_null));
-			if (e) break;
-			e = duckVM_object_makeVector(duckVM, &vector, array);
-			if (e) break;
-			e = stack_push(duckVM, &vector);
-			if (e) break;
-		} while (0);
-		e = dl_array_quit(&array);
+		e = duckVM_allocateHeapObject(duckVM,
+		                              &internal_vector,
+		                              duckVM_object_makeInternalVector(dl_null, length, dl_false));
+		if (e) break;
+		DL_DOTIMES(k, length) {
+			internal_vector->value.internal_vector.values[k] = dl_null;
+		}
+		internal_vector->value.internal_vector.initialized = dl_true;
+		vector.type = duckVM_object_type_vector;
+		vector.value.vector.internal_vector = internal_vector;
+		vector.value.vector.offset = 0;
+		/* Immediately push on stack so that the GC can see it. Allocating the elements could trigger a GC. */
+		e = stack_push(duckVM, &vector);
 		if (e) break;
+		e = duckVM_allocateHeapObject(duckVM, &nil_pointer, duckVM_object_makeList(dl_null));
+		if (e) {
+			(void) duckVM_pop(duckVM);
+			break;
+		}
+		DL_DOTIMES(k, length) {
+			internal_vector->value.internal_vector.values[k] = nil_pointer;
+		}
 	} while (0);
 	return e;
 }
-- 
2.43.0


From 1a85852b69a0dd57aae5b4c0baac02943efa3cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:52 +0000
Subject: [PATCH 77/99] fix: duckVM_string_getElement ignores the bounds of the
 string

---
 duckVM.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/duckVM.c b/duckVM.c
index 3807a31..04cb989 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -5302,7 +5302,10 @@ dl_error_t duckVM_string_getElement(duckVM_string_t string, dl_uint8_t *byte, dl
 	duckVM_internalString_t internalString;
 	dl_error_t e = duckVM_string_getInternalString(string, &internalString);
 	if (e) return e;
-	*byte = internalString.value[index];
+	if ((dl_size_t) index >= string.length - string.offset) {
+		return dl_error_invalidValue;
+	}
+	*byte = internalString.value[string.offset + index];
 	return e;
 }
 
-- 
2.43.0


From 3be58953a33649b3a25d20238de8d9841591654a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:52 +0000
Subject: [PATCH 78/99] fix: access to a missing upvalue from the C API reads
 out of bounds

---
 duckVM.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/duckVM.c b/duckVM.c
index 04cb989..b076ae6 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -5390,6 +5390,7 @@ dl_error_t duckVM_upvalueArray_getUpvalue(duckVM_t *duckVM,
 	dl_error_t e = dl_error_ok;
 
 	if (object == dl_null) return dl_error_nullPointer;
+	if ((dl_size_t) index >= upvalueArray.length) return dl_error_invalidValue;
 
 	duckVM_object_t *upvalueObject = upvalueArray.upvalues[index];
 
@@ -5426,6 +5427,7 @@ dl_error_t duckVM_upvalueArray_setUpvalue(duckVM_t *duckVM,
 	dl_error_t e = dl_error_ok;
 
 	if (object == dl_null) return dl_error_nullPointer;
+	if ((dl_size_t) index >= upvalueArray.length) return dl_error_invalidValue;
 
 	duckVM_object_t *upvalueObject = upvalueArray.upvalues[index];
 
-- 
2.43.0


From ee04a856b387cbd68592ae62d83dba74c2c86f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:52 +0000
Subject: [PATCH 79/99] fix: duckVM_pushFirst and duckVM_pushRest push an
 object after an error

---
 duckVM.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/duckVM.c b/duckVM.c
index b076ae6..7a7bcdc 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -6566,6 +6566,7 @@ dl_error_t duckVM_pushFirst(duckVM_t *duckVM) {
 			break;
 		}
 		}
+		if (e) break;
 		e = duckVM_object_push(duckVM, &first);
 		if (e) break;
 	} while (0);
@@ -6630,7 +6631,8 @@ dl_error_t duckVM_pushRest(duckVM_t *duckVM) {
 			dl_ptrdiff_t offset = vector.offset;
 			rest = sequence;
 			offset++;
-			if ((dl_size_t) offset >= vector.internal_vector->value.internal_vector.length) {
+			if ((vector.internal_vector == dl_null)
+			    || ((dl_size_t) offset >= vector.internal_vector->value.internal_vector.length)) {
 				e = dl_error_invalidValue;
 				eError = duckVM_error_pushRuntime(duckVM,
 				                             DL_STR("duckVM_pushRest: Vector is empty."));
@@ -6670,6 +6672,7 @@ dl_error_t duckVM_pushRest(duckVM_t *duckVM) {
 			break;
 		}
 		}
+		if (e) break;
 		e = duckVM_object_push(duckVM, &rest);
 		if (e) break;
 	} while (0);
-- 
2.43.0


From 53178f331382061cead919a53c4747cab8dd69eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:52 +0000
Subject: [PATCH 80/99] fix: duckVM_pushElement pushes the cons instead of the
 element, and fails on short lists

---
 duckVM.c | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/duckVM.c b/duckVM.c
index 7a7bcdc..98ff27d 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -6861,7 +6861,25 @@ dl_error_t duckVM_pushElement(duckVM_t *duckVM, dl_ptrdiff_t sequence_index) {
 				}
 			}
 			if (e) break;
-			element = *element_pointer;
+			if ((sequence_index < 0)
+			    || (element_pointer == dl_null)
+			    || (duckVM_object_type_cons != element_pointer->type)) {
+				e = dl_error_invalidValue;
+				eError = duckVM_error_pushRuntime(duckVM,
+				                                  DL_STR("duckVM_pushElement: Ran out of elements in list."));
+				if (eError) e = eError;
+				break;
+			}
+			element_pointer = element_pointer->value.cons.car;
+			if (element_pointer == dl_null) {
+				element = duckVM_object_makeList(dl_null);
+			}
+			else if (duckVM_object_type_cons == element_pointer->type) {
+				element = duckVM_object_makeList(element_pointer);
+			}
+			else {
+				element = *element_pointer;
+			}
 			break;
 		}
 		case duckVM_object_type_vector: {
-- 
2.43.0


From e6f4e9a8547026daca7aff532969d54a0f8dda67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:52 +0000
Subject: [PATCH 81/99] fix: duckVM_setElement always sets the first element of
 lists, and ignores other types

---
 duckVM.c | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/duckVM.c b/duckVM.c
index 98ff27d..b3c0426 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -6941,20 +6941,14 @@ dl_error_t duckVM_setElement(duckVM_t *duckVM, dl_ptrdiff_t sequence_index, dl_p
 		type = sequence.type;
 		switch (type) {
 		case duckVM_object_type_list: {
-			duckVM_list_t list = sequence.value.list;
-			if (list) {
-				list->value.cons.car = value_pointer;
-			}
-			else {
-				/* Nil */
+			duckVM_object_t *element_pointer = sequence.value.list;
+			if (sequence_index < 0) {
 				e = dl_error_invalidValue;
 				eError = duckVM_error_pushRuntime(duckVM,
-				                                  DL_STR("duckVM_setElement: List is nil."));
+				                                  DL_STR("duckVM_setElement: Index is negative."));
+				if (eError) e = eError;
 				break;
 			}
-			break;
-			/* This looks like a bug: */ }{
-			duckVM_object_t *element_pointer = sequence.value.list;
 			DL_DOTIMES(k, sequence_index) {
 				if (element_pointer) {
 					if (duckVM_object_type_cons == element_pointer->type) {
@@ -7018,6 +7012,7 @@ dl_error_t duckVM_setElement(duckVM_t *duckVM, dl_ptrdiff_t sequence_index, dl_p
 			break;
 		}
 		default: {
+			e = dl_error_invalidValue;
 			eError = duckVM_error_pushRuntime(duckVM,
 			                                  DL_STR("duckVM_setElement: Unsupported object type."));
 			if (eError) e = eError;
-- 
2.43.0


From 18b9c5a644fc51298ca90a81c25b68e20d045477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:52 +0000
Subject: [PATCH 82/99] fix: duckVM_setRest with a list makes a list that ends
 after the cons

---
 duckVM.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/duckVM.c b/duckVM.c
index b3c0426..933e872 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -6780,7 +6780,8 @@ dl_error_t duckVM_setRest(duckVM_t *duckVM, dl_ptrdiff_t stack_index) {
 		case duckVM_object_type_list: {
 			duckVM_list_t list = sequence.value.list;
 			if (list) {
-				list->value.cons.cdr = value_pointer;
+				/* The CDR of a list has to point to the next cons directly. */
+				list->value.cons.cdr = ((duckVM_object_type_list == value.type) ? value.value.list : value_pointer);
 			}
 			else {
 				e = dl_error_invalidValue;
-- 
2.43.0


From 28f27907d1a6d10fe43688e4df9e650a31575af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:45 +0000
Subject: [PATCH 83/99] fix: duckVM_pushElement does not end if the index is
 negative and the list is circular

---
 duckVM.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/duckVM.c b/duckVM.c
index 933e872..0c98f2b 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -6844,6 +6844,13 @@ dl_error_t duckVM_pushElement(duckVM_t *duckVM, dl_ptrdiff_t sequence_index) {
 		switch (type) {
 		case duckVM_object_type_list: {
 			duckVM_object_t *element_pointer = sequence.value.list;
+			if (sequence_index < 0) {
+				e = dl_error_invalidValue;
+				eError = duckVM_error_pushRuntime(duckVM,
+				                                  DL_STR("duckVM_pushElement: Index is negative."));
+				if (eError) e = eError;
+				break;
+			}
 			DL_DOTIMES(k, sequence_index) {
 				if (element_pointer) {
 					if (duckVM_object_type_cons == element_pointer->type) {
@@ -6862,8 +6869,7 @@ dl_error_t duckVM_pushElement(duckVM_t *duckVM, dl_ptrdiff_t sequence_index) {
 				}
 			}
 			if (e) break;
-			if ((sequence_index < 0)
-			    || (element_pointer == dl_null)
+			if ((element_pointer == dl_null)
 			    || (duckVM_object_type_cons != element_pointer->type)) {
 				e = dl_error_invalidValue;
 				eError = duckVM_error_pushRuntime(duckVM,
-- 
2.43.0


From bc32d0cf8225cff36fb06fff9394cf706846e5b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:58 +0000
Subject: [PATCH 84/99] fix: dl_memory_usage counts the contents of unused
 descriptors

---
 DuckLib/memory.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/DuckLib/memory.c b/DuckLib/memory.c
index 375ab55..4b6f4eb 100644
--- a/DuckLib/memory.c
+++ b/DuckLib/memory.c
@@ -943,7 +943,8 @@ void dl_memory_usage(dl_size_t *bytes, const dl_memoryAllocation_t memoryAllocat
 	const dl_size_t blockList_length = memoryAllocation.blockList_length;
 	dl_size_t sum = 0;
 	for (dl_ptrdiff_t i = 0; (dl_size_t) i < blockList_length; i++) {
-		if (blockList[i].allocated) {
+		// The descriptors of unlinked blocks describe nothing.
+		if (!blockList[i].unlinked && blockList[i].allocated) {
 			sum += blockList[i].block_size;
 		}
 	}
-- 
2.43.0


From 920e3c78876dca99ec93caa19b3928747f8ef617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:11 +0000
Subject: [PATCH 85/99] fix: next fit does not find the room before the block
 that it starts with

---
 DuckLib/memory.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/DuckLib/memory.c b/DuckLib/memory.c
index 4b6f4eb..9835963 100644
--- a/DuckLib/memory.c
+++ b/DuckLib/memory.c
@@ -372,6 +372,7 @@ dl_error_t dl_memory_findBlock(dl_memoryAllocation_t *memoryAllocation, dl_ptrdi
 	
 	dl_ptrdiff_t optimumBlock = -1;
 	dl_ptrdiff_t currentBlock = -1;
+	dl_ptrdiff_t startBlock = -1;
 	dl_bool_t found = dl_false;
 	
 	// The descriptor of the most recent block might have been merged into another one.
@@ -379,10 +380,11 @@ dl_error_t dl_memory_findBlock(dl_memoryAllocation_t *memoryAllocation, dl_ptrdi
 	    && !memoryAllocation->blockList[memoryAllocation->mostRecentBlock].unlinked) {
 		currentBlock = memoryAllocation->blockList[memoryAllocation->mostRecentBlock].nextBlock;
 	}
-	else {
+	if (currentBlock == -1) {
 		currentBlock = memoryAllocation->firstBlock;
 	}
-	
+	startBlock = currentBlock;
+
 	// Find the smallest of the empty blocks.
 	while (!found && (currentBlock != -1)) {
 		if (!memoryAllocation->blockList[currentBlock].allocated && (memoryAllocation->blockList[currentBlock].block_size >= size)) {
@@ -417,6 +419,11 @@ dl_error_t dl_memory_findBlock(dl_memoryAllocation_t *memoryAllocation, dl_ptrdi
 			}
 		}
 		currentBlock = memoryAllocation->blockList[currentBlock].nextBlock;
+		// There might be room before the block that the search started with.
+		if ((currentBlock == -1) && (startBlock != memoryAllocation->firstBlock)) {
+			currentBlock = memoryAllocation->firstBlock;
+			startBlock = memoryAllocation->firstBlock;
+		}
 	}
 	
 	if (optimumBlock == -1) {
-- 
2.43.0


From 19f39a4c8d7dbbb2cc4f76231f31c5d47d3d7012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:11 +0000
Subject: [PATCH 86/99] fix: dl_array_copy leaks the copy and returns the
 original

---
 DuckLib/array.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/DuckLib/array.c b/DuckLib/array.c
index 68e1c37..507943f 100644
--- a/DuckLib/array.c
+++ b/DuckLib/array.c
@@ -240,8 +240,6 @@ dl_error_t dl_array_copy(dl_array_t *arrayDestination, dl_array_t arraySource) {
 	                  arraySource.elements,
 	                  arraySource.elements_length * arraySource.element_size);
 	
-	*arrayDestination = arraySource;
-	
  cleanup: return e;
 }
 
-- 
2.43.0


From 9783ab5c6aa78dac53c52ff5c38ea54cb5a97ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:11 +0000
Subject: [PATCH 87/99] fix: heapsort of an empty array does not end

---
 DuckLib/sort.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/DuckLib/sort.c b/DuckLib/sort.c
index 8790565..6d0ea37 100644
--- a/DuckLib/sort.c
+++ b/DuckLib/sort.c
@@ -36,6 +36,8 @@ void heapify(void *array, dl_size_t length, dl_size_t size, int (*comparison)(co
 
 void heapsort(void *array, dl_size_t length, dl_size_t size, int (*comparison)(const void *l, const void *r, const void *context), const void *context) {
 
+	if (length == 0) return;
+
 	/**/ heapify(array, length, size, comparison, context);
 
 	for (dl_ptrdiff_t end = length - 1; end > 0; --end) {
-- 
2.43.0


From d1b56c27a73c6be99fb57349b0ef0a5d7affb688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:40 +0000
Subject: [PATCH 88/99] fix: bytecode that executes other bytecode from a
 callback can be collected

The scripts of the parenthesis inferrer do this when they infer their arguments.
---
 duckVM.c | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/duckVM.c b/duckVM.c
index 0c98f2b..3594a1b 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -4873,7 +4873,22 @@ dl_error_t duckVM_executeWithIp(duckVM_t *duckVM,
 }
 
 dl_error_t duckVM_execute(duckVM_t *duckVM, dl_uint8_t *bytecode, dl_size_t bytecode_length) {
-	return duckVM_executeWithIp(duckVM, bytecode, 0, bytecode_length);
+	dl_error_t e = dl_error_ok;
+	duckVM_object_t *callerBytecode = duckVM->currentBytecode;
+
+	/* Callbacks can execute other bytecode. Keep the caller's bytecode where the collector finds it. */
+	if (callerBytecode != dl_null) {
+		e = call_stack_push(duckVM, dl_null, callerBytecode, dl_null);
+		if (e) goto cleanup;
+	}
+	e = duckVM_executeWithIp(duckVM, bytecode, 0, bytecode_length);
+	if (e) goto cleanup;
+	if (callerBytecode != dl_null) {
+		dl_uint8_t *ip = dl_null;
+		e = call_stack_pop(duckVM, &ip, &callerBytecode);
+	}
+
+ cleanup: return e;
 }
 
 dl_error_t duckVM_linkCFunction(duckVM_t *duckVM, dl_ptrdiff_t key, dl_error_t (*callback)(duckVM_t *)) {
-- 
2.43.0


From 2059019b5f73ef3a169ba1619e523167cbdd6b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:40 +0000
Subject: [PATCH 89/99] fix: the head of a literal expression is always taken
 for an identifier

`(quote #(1 2 3))` dereferenced the number as the name of an identifier.
---
 parenthesis-inferrer.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/parenthesis-inferrer.c b/parenthesis-inferrer.c
index dfd82d8..4058cd1 100644
--- a/parenthesis-inferrer.c
+++ b/parenthesis-inferrer.c
@@ -1565,8 +1565,10 @@ static dl_error_t infer_expression(inferrerState_t *state,
 
 	if (compoundExpression->type == duckLisp_ast_type_literalExpression) {
 		/* Don't type-check. */
-		e = infer_callback(state, head, dl_false);
-		if (e) goto cleanup;
+		if (head->type == duckLisp_ast_type_callback) {
+			e = infer_callback(state, head, dl_false);
+			if (e) goto cleanup;
+		}
 		/* Run argument inference */
 
 		e = inferArguments(state, fileName, fileName_length, expression, 1, dl_false);
-- 
2.43.0


From e83ed9038e4074c2ceeffc35b8bca0c7bf3ed8b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:12 +0000
Subject: [PATCH 90/99] fix: declaration scripts cannot contain empty or nested
 literal expressions

---
 parenthesis-inferrer.c | 5 ++++-
 parser.h               | 1 +
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/parenthesis-inferrer.c b/parenthesis-inferrer.c
index 4058cd1..ffcc8f9 100644
--- a/parenthesis-inferrer.c
+++ b/parenthesis-inferrer.c
@@ -1024,7 +1024,7 @@ static dl_error_t compileAndAddDeclaration(inferrerState_t *state,
                                            const dl_uint8_t *name,
                                            const dl_size_t name_length,
                                            const duckLisp_ast_compoundExpression_t typeAst,
-                                           const duckLisp_ast_compoundExpression_t scriptAst) {
+                                           duckLisp_ast_compoundExpression_t scriptAst) {
 	dl_error_t e = dl_error_ok;
 	(void) fileName;
 	(void) fileName_length;
@@ -1036,6 +1036,9 @@ static dl_error_t compileAndAddDeclaration(inferrerState_t *state,
 		dl_array_t bytecodeArray;
 		duckLisp_compileState_t compileState;
 
+		/* The compiler does not know literal expressions and callbacks. */
+		(void) parser_postprocess_compoundExpression(&scriptAst);
+
 		(void) duckLisp_compileState_init(&state->duckLisp, &compileState);
 		e = duckLisp_compileAST(&state->duckLisp, &compileState, &bytecodeArray, scriptAst, dl_false);
 		if (e) goto cleanup;
diff --git a/parser.h b/parser.h
index 00986e1..71bdb9d 100644
--- a/parser.h
+++ b/parser.h
@@ -42,6 +42,7 @@ dl_error_t duckLisp_read(duckLisp_t *duckLisp,
                          duckLisp_ast_compoundExpression_t *ast,
                          dl_ptrdiff_t index,
                          dl_bool_t throwErrors);
+void parser_postprocess_compoundExpression(duckLisp_ast_compoundExpression_t *compoundExpression);
 dl_error_t duckLisp_parse_compoundExpression(duckLisp_t *duckLisp,
 #ifdef USE_PARENTHESIS_INFERENCE
                                              const dl_bool_t parenthesisInferenceEnabled,
-- 
2.43.0


From 3fbbf666a313232b985d0ba10609678f029d6a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:43 +0000
Subject: [PATCH 91/99] fix: initialization reads a field that is not
 initialized yet

---
 duckLisp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/duckLisp.c b/duckLisp.c
index 77dbe56..1e1b77a 100644
--- a/duckLisp.c
+++ b/duckLisp.c
@@ -1689,7 +1689,7 @@ dl_error_t duckLisp_init(duckLisp_t *duckLisp,
 	dl_error_t error = dl_error_ok;
 	dl_error_t eError = dl_error_ok;
 	dl_array_t eString;
-	(void) dl_array_init(&eString, duckLisp->memoryAllocation, sizeof(char), dl_array_strategy_double);
+	(void) dl_array_init(&eString, memoryAllocation, sizeof(char), dl_array_strategy_double);
 
 	/* All language-defined generators go here. */
 	struct {
-- 
2.43.0


From 36a260f6ce35e3b3d0f754241edce994b94bc0d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:43 +0000
Subject: [PATCH 92/99] fix: declaration scripts are run with an uninitialized
 file name

---
 parenthesis-inferrer.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parenthesis-inferrer.c b/parenthesis-inferrer.c
index ffcc8f9..7cc063a 100644
--- a/parenthesis-inferrer.c
+++ b/parenthesis-inferrer.c
@@ -452,7 +452,7 @@ static dl_error_t inferrerState_prettyPrint(dl_array_t *string_array, inferrerSt
 
 typedef struct {
 	inferrerState_t *state;
-	dl_uint8_t *fileName;
+	const dl_uint8_t *fileName;
 	dl_size_t fileName_length;
 	inferrerType_t type;
 	dl_ptrdiff_t *type_index;
@@ -1131,6 +1131,8 @@ static dl_error_t runVm(inferrerState_t *state,
 
 	vmContext_t context;
 	context.state = state;
+	context.fileName = state->fileName;
+	context.fileName_length = state->fileName_length;
 	context.type = type;
 	context.type_index = type_index;
 	context.expression = expression;
-- 
2.43.0


From 7116b0a7eea11b3acc586f358f9f54e174b6ee4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:44 +0000
Subject: [PATCH 93/99] fix: disassembler misreads stripped symbols

---
 assembler.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/assembler.c b/assembler.c
index 59f19e8..5aaa810 100644
--- a/assembler.c
+++ b/assembler.c
@@ -2885,9 +2885,9 @@ dl_error_t duckLisp_disassemble(dl_array_t *string,
 		{duckLisp_instruction_pushSymbol8, DL_STR("symbol.8 1 1 s1")},
 		{duckLisp_instruction_pushSymbol16, DL_STR("symbol.16 2 2 s1")},
 		{duckLisp_instruction_pushSymbol32, DL_STR("symbol.32 4 4 s1")},
-		{duckLisp_instruction_pushStrippedSymbol8, DL_STR("stripped-symbol.8 1 1 s1")},
-		{duckLisp_instruction_pushStrippedSymbol16, DL_STR("stripped-symbol.16 2 2 s1")},
-		{duckLisp_instruction_pushStrippedSymbol32, DL_STR("stripped-symbol.32 4 4 s1")},
+		{duckLisp_instruction_pushStrippedSymbol8, DL_STR("stripped-symbol.8 1")},
+		{duckLisp_instruction_pushStrippedSymbol16, DL_STR("stripped-symbol.16 2")},
+		{duckLisp_instruction_pushStrippedSymbol32, DL_STR("stripped-symbol.32 4")},
 		{duckLisp_instruction_pushBooleanFalse, DL_STR("false")},
 		{duckLisp_instruction_pushBooleanTrue, DL_STR("true")},
 		{duckLisp_instruction_pushInteger8, DL_STR("integer.8 1")},
-- 
2.43.0


From d6931289688c12c97172343da76bb8f9263f68cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:44 +0000
Subject: [PATCH 94/99] fix: disassembler gives all widths of global the same
 name

---
 assembler.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/assembler.c b/assembler.c
index 5aaa810..10ecd48 100644
--- a/assembler.c
+++ b/assembler.c
@@ -2908,8 +2908,8 @@ dl_error_t duckLisp_disassemble(dl_array_t *string,
 		{duckLisp_instruction_pushVaClosure16, DL_STR("variadic-closure.16 2 1 4 V2")},
 		{duckLisp_instruction_pushVaClosure32, DL_STR("variadic-closure.32 4 1 4 V2")},
 		{duckLisp_instruction_pushGlobal8, DL_STR("global.8 1")},
-		{duckLisp_instruction_pushGlobal16, DL_STR("global.8 2")},
-		{duckLisp_instruction_pushGlobal32, DL_STR("global.8 4")},
+		{duckLisp_instruction_pushGlobal16, DL_STR("global.16 2")},
+		{duckLisp_instruction_pushGlobal32, DL_STR("global.32 4")},
 		{duckLisp_instruction_setUpvalue8, DL_STR("set-upvalue.8 1 1")},
 		{duckLisp_instruction_setUpvalue16, DL_STR("set-upvalue.16 2 2")},
 		{duckLisp_instruction_setUpvalue32, DL_STR("set-upvalue.32 4 4")},
-- 
2.43.0


From 43b0186275bf9d2a90e00b47763287fc9217307a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:35 +0000
Subject: [PATCH 95/99] fix: set-vector-element can't reach a value far down
 the stack

---
 assembler.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/assembler.c b/assembler.c
index 10ecd48..fd4e812 100644
--- a/assembler.c
+++ b/assembler.c
@@ -1441,12 +1441,14 @@ dl_error_t duckLisp_assemble(duckLisp_t *duckLisp,
 			if (args[0].type == duckLisp_instructionArgClass_type_index) {
 				dl_ptrdiff_t index = 0;
 				if (((unsigned long) args[0].value.index < 0x100UL)
-				    && ((unsigned long) args[1].value.index < 0x100UL)) {
+				    && ((unsigned long) args[1].value.index < 0x100UL)
+				    && ((unsigned long) args[2].value.index < 0x100UL)) {
 					currentInstruction.byte = duckLisp_instruction_setVecElt8;
 					byte_length = 1;
 				}
 				else if (((unsigned int) args[0].value.index < 0x10000UL)
-				         && ((unsigned int) args[1].value.index < 0x10000UL)) {
+				         && ((unsigned int) args[1].value.index < 0x10000UL)
+				         && ((unsigned int) args[2].value.index < 0x10000UL)) {
 					currentInstruction.byte = duckLisp_instruction_setVecElt16;
 					byte_length = 2;
 				}
-- 
2.43.0


From 403ed90411b207b1036aaf882c7a7078a7c256a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:53 +0000
Subject: [PATCH 96/99] fix: a comment at the end of an open expression is
 reported as unbalanced

---
 parser.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser.c b/parser.c
index 9b8395d..a6a1873 100644
--- a/parser.c
+++ b/parser.c
@@ -183,6 +183,7 @@ dl_error_t parse_irrelevant(duckLisp_t *duckLisp,
 	dl_ptrdiff_t indexCopy = *index;
 	while (dl_true) {
 		if (indexCopy >= (dl_ptrdiff_t) source_length) {
+			*index = indexCopy;
 			return dl_error_invalidValue;
 		}
 		while ((indexCopy < (dl_ptrdiff_t) source_length) && dl_string_isSpace(source[indexCopy])) indexCopy++;
-- 
2.43.0


From da4b7e17512b9ba04e4af1e433b2ce1bdf71737a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:53 +0000
Subject: [PATCH 97/99] fix: a source that ends with a parenthesis that opens
 is refused without a message

---
 parser.c | 14 --------------
 1 file changed, 14 deletions(-)

diff --git a/parser.c b/parser.c
index a6a1873..c6b13a6 100644
--- a/parser.c
+++ b/parser.c
@@ -420,20 +420,6 @@ static dl_error_t parse_expression(duckLisp_t *duckLisp,
 
 	indexCopy++;
 
-	if (indexCopy >= (dl_ptrdiff_t) source_length) {
-		eError = duckLisp_error_pushSyntax(duckLisp,
-		                                   DL_STR("Not an expression: file too short."),
-		                                   fileName,
-		                                   fileName_length,
-		                                   source,
-		                                   source_length,
-		                                   *index,
-		                                   indexCopy,
-		                                   throwErrors);
-		e = eError ? eError : dl_error_invalidValue;
-		goto cleanup;
-	}
-
 	(void) parse_irrelevant(dl_null, source, source_length, dl_null, &indexCopy, dl_false);
 
 	while (dl_true) {
-- 
2.43.0


From d0465239b9704a2768be6a46a65640b4fdcc0831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:53 +0000
Subject: [PATCH 98/99] fix: a source that ends in an escape sequence is
 reported as unbalanced

---
 parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser.c b/parser.c
index c6b13a6..134f2aa 100644
--- a/parser.c
+++ b/parser.c
@@ -1244,7 +1244,7 @@ static dl_error_t parse_string(duckLisp_t *duckLisp,
 					                                   source_length,
 					                                   start_index,
 					                                   indexCopy,
-					                                   throwErrors);
+					                                   dl_true);
 					e = eError ? eError : dl_error_invalidValue;
 					goto cleanup;
 				}
-- 
2.43.0


From ccd64e8bed949f0e8bf013878ccbae6190c1caf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:21 +0000
Subject: [PATCH 99/99] fix: an error of substring is reported for concatenate

---
 duckVM.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/duckVM.c b/duckVM.c
index 3594a1b..ba1a310 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -4732,7 +4732,7 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 		if (object3.type != duckVM_object_type_integer) {
 			e = dl_error_invalidValue;
 			eError = duckVM_error_pushRuntime(duckVM,
-			                                  DL_STR("duckVM_execute->concatenate: dl_array_get failed."));
+			                                  DL_STR("duckVM_execute->substring: dl_array_get failed."));
 			if (!e) e = eError;
 			break;
 		}
-- 
2.43.0

