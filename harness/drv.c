/* Case driver: runs batches of duck-lisp cases against the real library while the monitors in this file watch.

   Input (file named by argv[1]): a sequence of
     CASE <id> key=value ...\n
     <op> <args>\n[<blob of the announced length>\n]
     END\n
   Output: one line per observation. A crash, sanitizer report or timeout ends the process; the caller sees the last
   BEGIN without END and resumes with the next case. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <inttypes.h>
#include <signal.h>
#include <unistd.h>
#include <math.h>
#include <sys/time.h>
#include "duckLisp.h"
#include "duckVM.h"
#include "DuckLib/array.h"
#include "DuckLib/core.h"
#include "DuckLib/memory.h"
#include "DuckLib/string.h"

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define HAVE_ASAN 1
#endif
#endif
#ifdef __SANITIZE_ADDRESS__
#define HAVE_ASAN 1
#endif
#ifdef HAVE_ASAN
#include <sanitizer/asan_interface.h>
#else
#define ASAN_POISON_MEMORY_REGION(a, n) ((void) (a), (void) (n))
#define ASAN_UNPOISON_MEMORY_REGION(a, n) ((void) (a), (void) (n))
#endif

/* ------------------------------------------------------------------ state */

static struct {
	long long budget;       /* instruction budget */
	long long steps;
	int overBudget;
	long gcPeriod;          /* force a collection before every n-th allocation; 0 = never */
	long allocs;
	long collections;
	long forced;
	int poison, unbal, noReset;
	int checkHeap;
	long heapChecks;
	long maxStack;
	int crossCheckFailed;
	char crossMsg[256];
	unsigned char opcodes[256];
	long faultAt;           /* fail the n-th dl_malloc/dl_realloc from arming; 0 = never */
	long faultCount;
	int faultArmed;
	int faultHits;
	int faultSticky;
	long userCreated, userDestroyed, userDouble, userMarked;
	long long totalSteps;
	long live, mallocs;     /* blocks handed out and not yet returned */
	long maxLive;
	long maxReach[2], maxSlack; /* most reachable objects at a collection: run time, compile time */
} M;

static void monitorFail(const char *msg) {
	if (!M.crossCheckFailed) {
		M.crossCheckFailed = 1;
		snprintf(M.crossMsg, sizeof M.crossMsg, "%s", msg);
	}
}

/* ------------------------------------------------------------------ allocation faults (link with --wrap) */

dl_error_t __real_dl_malloc(dl_memoryAllocation_t *ma, void **memory, dl_size_t size);
dl_error_t __real_dl_realloc(dl_memoryAllocation_t *ma, void **memory, dl_size_t size);
dl_error_t __wrap_dl_malloc(dl_memoryAllocation_t *ma, void **memory, dl_size_t size);
dl_error_t __wrap_dl_realloc(dl_memoryAllocation_t *ma, void **memory, dl_size_t size);
dl_error_t __real_dl_free(dl_memoryAllocation_t *ma, void **memory);
dl_error_t __wrap_dl_free(dl_memoryAllocation_t *ma, void **memory);

static int faultNow(void) {
	if (!M.faultArmed) return 0;
	M.faultCount++;
	if (!M.faultAt) return 0;
	if ((M.faultCount == M.faultAt) || (M.faultSticky && (M.faultCount > M.faultAt))) {
		M.faultHits++;
		return 1;
	}
	return 0;
}
dl_error_t __wrap_dl_malloc(dl_memoryAllocation_t *ma, void **memory, dl_size_t size) {
	if (faultNow()) { *memory = NULL; return dl_error_outOfMemory; }
	dl_error_t e = __real_dl_malloc(ma, memory, size);
	if (!e) { M.live++; M.mallocs++; if (M.live > M.maxLive) M.maxLive = M.live; }
	return e;
}
dl_error_t __wrap_dl_realloc(dl_memoryAllocation_t *ma, void **memory, dl_size_t size) {
	if (faultNow()) return dl_error_outOfMemory;
	int fresh = *memory == NULL;
	dl_error_t e = __real_dl_realloc(ma, memory, size);
	if (!e && fresh) { M.live++; M.mallocs++; }
	return e;
}
dl_error_t __wrap_dl_free(dl_memoryAllocation_t *ma, void **memory) {
	int some = *memory != NULL;
	dl_error_t e = __real_dl_free(ma, memory);
	if (some && !e) M.live--;
	return e;
}

#include "print.h"
static uint64_t fnv(const unsigned char *p, size_t n) {
	uint64_t h = 1469598103934665603ull;
	for (size_t i = 0; i < n; i++) { h ^= p[i]; h *= 1099511628211ull; }
	return h;
}

#include "decode.h"

/* ------------------------------------------------------------------ VM monitors */

dl_bool_t duckVM_verif_allocating(duckVM_t *duckVM);
void duckVM_verif_allocated(duckVM_t *duckVM, duckVM_object_t *object);
void duckVM_verif_collecting(duckVM_t *duckVM);
void duckVM_verif_collected(duckVM_t *duckVM);
void duckVM_verif_quitting(duckVM_t *duckVM);
dl_error_t duckVM_verif_step(duckVM_t *duckVM, duckVM_object_t *bytecode, dl_uint8_t *ip);

dl_bool_t duckVM_verif_allocating(duckVM_t *duckVM) {
	(void) duckVM;
	M.allocs++;
	if (M.gcPeriod && (M.allocs % M.gcPeriod == 0)) { M.forced++; return dl_true; }
	return dl_false;
}
void duckVM_verif_allocated(duckVM_t *duckVM, duckVM_object_t *object) {
	duckVM_gclist_t *g = &duckVM->gclist;
	if (object < g->objects || object >= g->objects + g->objects_length)
		monitorFail("allocated object lies outside the heap");
	ASAN_UNPOISON_MEMORY_REGION(object, sizeof *object);
}
void duckVM_verif_collecting(duckVM_t *duckVM) {
	M.collections++;
	if (M.poison)
		ASAN_UNPOISON_MEMORY_REGION(duckVM->gclist.objects,
		                            duckVM->gclist.objects_length * sizeof(duckVM_object_t));
}

/* Independent reachability. Recomputes, from the VM's roots and without the collector's own marker, which heap objects
   are reachable, and compares it with what the collector decided. */
static unsigned char *reach;
static duckVM_object_t **work;
static size_t reachCap, workLen;
static void workPush(duckVM_gclist_t *g, duckVM_object_t *o) {
	if (!o) return;
	if (o < g->objects || o >= g->objects + g->objects_length) { monitorFail("reachable pointer outside the heap"); return; }
	size_t i = (size_t) (o - g->objects);
	if (reach[i]) return;
	reach[i] = 1;
	work[workLen++] = o;
}
static void scanUser(duckVM_gclist_t *g, duckVM_object_t *o);
static void scan(duckVM_gclist_t *g, duckVM_object_t *o) {
	switch (o->type) {
	case duckVM_object_type_list: workPush(g, o->value.list); break;
	case duckVM_object_type_cons: workPush(g, o->value.cons.car); workPush(g, o->value.cons.cdr); break;
	case duckVM_object_type_closure:
		workPush(g, o->value.closure.upvalue_array); workPush(g, o->value.closure.bytecode); break;
	case duckVM_object_type_upvalue:
		if (o->value.upvalue.type == duckVM_upvalue_type_heap_object) workPush(g, o->value.upvalue.value.heap_object);
		else if (o->value.upvalue.type == duckVM_upvalue_type_heap_upvalue) workPush(g, o->value.upvalue.value.heap_upvalue);
		break;
	case duckVM_object_type_upvalueArray:
		for (dl_size_t k = 0; k < o->value.upvalue_array.length; k++) workPush(g, o->value.upvalue_array.upvalues[k]);
		break;
	case duckVM_object_type_vector: workPush(g, o->value.vector.internal_vector); break;
	case duckVM_object_type_internalVector:
		if (o->value.internal_vector.initialized)
			for (dl_size_t k = 0; k < o->value.internal_vector.length; k++) workPush(g, o->value.internal_vector.values[k]);
		break;
	case duckVM_object_type_string: workPush(g, o->value.string.internalString); break;
	case duckVM_object_type_symbol: workPush(g, o->value.symbol.internalString); break;
	case duckVM_object_type_composite: workPush(g, o->value.composite); break;
	case duckVM_object_type_internalComposite:
		workPush(g, o->value.internalComposite.value); workPush(g, o->value.internalComposite.function); break;
	case duckVM_object_type_user: scanUser(g, o); break;
	default: break;
	}
}
void duckVM_verif_collected(duckVM_t *duckVM) {
	mapAge++;
	duckVM_gclist_t *g = &duckVM->gclist;
	if (M.checkHeap) {
		M.heapChecks++;
		if (reachCap < g->objects_length) {
			reachCap = g->objects_length;
			reach = realloc(reach, reachCap);
			work = realloc(work, reachCap * sizeof *work);
		}
		if (g->objects_length) memset(reach, 0, g->objects_length);
		workLen = 0;
		for (dl_size_t i = 0; i < duckVM->stack.elements_length; i++)
			scan(g, &((duckVM_object_t *) duckVM->stack.elements)[i]);
		for (dl_size_t i = 0; i < duckVM->upvalue_stack.elements_length; i++)
			workPush(g, ((duckVM_object_t **) duckVM->upvalue_stack.elements)[i]);
		for (dl_size_t i = 0; i < duckVM->globals.elements_length; i++)
			workPush(g, ((duckVM_object_t **) duckVM->globals.elements)[i]);
		for (dl_size_t i = 0; i < duckVM->call_stack.elements_length; i++)
			workPush(g, ((duckVM_callFrame_t *) duckVM->call_stack.elements)[i].bytecode);
		workPush(g, duckVM->currentBytecode);
		for (dl_size_t i = 0; i < duckVM->upvalue_array_call_stack.elements_length; i++)
			workPush(g, ((duckVM_object_t **) duckVM->upvalue_array_call_stack.elements)[i]);
		while (workLen) scan(g, work[--workLen]);
		size_t live = 0;
		for (size_t i = 0; i < g->objects_length; i++) live += reach[i];
		static unsigned char *isFree; static size_t freeCap;
		if (freeCap < g->objects_length) { freeCap = g->objects_length; isFree = realloc(isFree, freeCap); }
		if (g->objects_length) memset(isFree, 0, g->objects_length);
		for (size_t i = 0; i < g->freeObjects_length; i++) {
			duckVM_object_t *o = g->freeObjects[i];
			if (o < g->objects || o >= g->objects + g->objects_length) { monitorFail("free list entry outside the heap"); continue; }
			size_t k = (size_t) (o - g->objects);
			if (isFree[k]) monitorFail("object twice on the free list");
			isFree[k] = 1;
			if (reach[k]) monitorFail("reachable object was freed");
		}
		if (live > g->objects_length - g->freeObjects_length) monitorFail("more reachable objects than retained ones");
		/* Garbage must be returned. */
		if ((long) live > M.maxReach[duckVM->duckLisp != NULL]) M.maxReach[duckVM->duckLisp != NULL] = (long) live;
		long slack = (long) (g->objects_length - g->freeObjects_length) - (long) live;
		if (slack > M.maxSlack) M.maxSlack = slack;
		if (g->objects_length - g->freeObjects_length > live) monitorFail("collector retains unreachable objects");
	}
	if (M.poison)
		for (size_t i = 0; i < g->freeObjects_length; i++)
			ASAN_POISON_MEMORY_REGION(g->freeObjects[i], sizeof(duckVM_object_t));
}
void duckVM_verif_quitting(duckVM_t *duckVM) {
	ASAN_UNPOISON_MEMORY_REGION(duckVM->gclist.objects, duckVM->gclist.objects_length * sizeof(duckVM_object_t));
}
dl_error_t duckVM_verif_step(duckVM_t *duckVM, duckVM_object_t *bytecode, dl_uint8_t *ip) {
	M.steps++;
	M.totalSteps++;
	M.opcodes[*ip] = 1;
	if ((long) duckVM->stack.elements_length > M.maxStack) M.maxStack = (long) duckVM->stack.elements_length;
	if (duckVM->stack.elements_length != duckVM->upvalue_stack.elements_length)
		monitorFail("data stack and upvalue stack lengths differ between instructions");
	if (duckVM->upvalue_array_call_stack.elements_length != duckVM->call_stack.elements_length + 1)
		monitorFail("call stack and upvalue-array stack lengths differ between instructions");
	if (optCode && !M.crossCheckFailed) codeStep(duckVM, bytecode, ip);
	if (M.budget && M.steps > M.budget) { M.overBudget = 1; return dl_error_cantHappen; }
	return dl_error_ok;
}

/* ------------------------------------------------------------------ canonical printing */

static void printTop(duckVM_object_t *o) { nodeBudget = 3000; printValue(o, 0); }

/* ------------------------------------------------------------------ callbacks */

static long traceBudget;
static int mute;  /* compile-time output goes to the trace with another tag */

static dl_error_t top(duckVM_t *vm, duckVM_object_t **o) {
	if (vm->stack.elements_length == 0) return dl_error_bufferUnderflow;
	*o = &((duckVM_object_t *) vm->stack.elements)[vm->stack.elements_length - 1];
	return dl_error_ok;
}
static dl_error_t cb_emit(duckVM_t *vm) {
	duckVM_object_t *o;
	dl_error_t e = top(vm, &o);
	if (e) return e;
	if (traceBudget-- > 0) {
		fputs(vm->duckLisp ? "c " : "T ", out);
		nodeBudget = 300;
		printValue(o, 0);
		fputc('\n', out);
	}
	return dl_error_ok;
}
static dl_error_t cb_fail(duckVM_t *vm) {
	(void) duckVM_error_pushRuntime(vm, DL_STR("cb-fail"));
	return dl_error_invalidValue;
}
static dl_error_t cb_gc(duckVM_t *vm) {
	dl_error_t e = duckVM_garbageCollect(vm);
	if (e) return e;
	return duckVM_pushNil(vm);
}
static dl_error_t callN(duckVM_t *vm, int n) {
	/* stack: f a1 ... an */
	static int depth;
	dl_size_t before = duckVM_stackLength(vm);
	if (before < (dl_size_t) n + 1) return dl_error_bufferUnderflow;
	/* C functions must be given as many arguments as they take. */
	int isC = ((duckVM_object_t *) vm->stack.elements)[before - 1 - (dl_size_t) n].type == duckVM_object_type_function;
	/* A program's own recursion through the host ends somewhere. */
	if (depth >= 150) return dl_error_bufferOverflow;
	depth++;
	dl_error_t e = duckVM_call(vm, -1 - n, (dl_uint8_t) n);
	depth--;
	if (e) return e;
	/* stack: f result */
	if (duckVM_stackLength(vm) != before - (dl_size_t) n + 1) {
		if (!isC && !M.unbal) monitorFail("duckVM_call left the stack unbalanced");
		return dl_error_shouldntHappen;
	}
	e = duckVM_copyFromTop(vm, -2);
	if (e) return e;
	return duckVM_pop(vm);
}
static dl_error_t cb_call0(duckVM_t *vm) { return callN(vm, 0); }
static dl_error_t cb_call1(duckVM_t *vm) { return callN(vm, 1); }
static dl_error_t cb_call2(duckVM_t *vm) { return callN(vm, 2); }
static dl_error_t cb_call3(duckVM_t *vm) { return callN(vm, 3); }
/* (cb-add a b), a plain function of two integers. */
static dl_error_t cb_sub(duckVM_t *vm) {
	dl_ptrdiff_t a, b;
	dl_error_t e = duckVM_copySignedInteger(vm, &b);
	if (e) return e;
	e = duckVM_pop(vm);
	if (e) return e;
	e = duckVM_copySignedInteger(vm, &a);
	if (e) return e;
	return duckVM_setInteger(vm, a - b);
}
static dl_error_t cb_seven(duckVM_t *vm) {
	dl_error_t e = duckVM_pushInteger(vm);
	if (e) return e;
	return duckVM_setInteger(vm, 7);
}

/* User objects with destructors. `data` points to a record that lives until the case ends. */
/* As in the project's own example: the value that programs copy around is a handle without a destructor, and its marker
   keeps one object on the heap alive that has the destructor. */
typedef struct userRec_s { int destroyed; duckVM_object_t *inner; duckVM_object_t *child; struct userRec_s *next; } userRec_t;
static userRec_t *userRecs;
static dl_error_t userDestroy(duckVM_gclist_t *g, duckVM_object_t *o) {
	(void) g;
	userRec_t *r = o->value.user.data;
	if (r->destroyed++) { M.userDouble++; monitorFail("user destructor ran twice"); }
	if (r->inner != o) monitorFail("user destructor was given another object");
	M.userDestroyed++;
	return dl_error_ok;
}
static dl_error_t userMark(duckVM_gclist_t *g, dl_array_t *stack, duckVM_object_t *o) {
	(void) g;
	userRec_t *r = o->value.user.data;
	M.userMarked++;
	if (r->destroyed) monitorFail("destroyed user object marked");
	if (r->child) return dl_array_pushElement(stack, &r->child);
	return dl_error_ok;
}
static dl_error_t handleMark(duckVM_gclist_t *g, dl_array_t *stack, duckVM_object_t *o) {
	(void) g;
	userRec_t *r = o->value.user.data;
	if (r->destroyed) monitorFail("handle outlived its user object");
	if (r->inner) return dl_array_pushElement(stack, &r->inner);
	if (r->child) return dl_array_pushElement(stack, &r->child);
	return dl_error_ok;
}
static void scanUser(duckVM_gclist_t *g, duckVM_object_t *o) {
	userRec_t *r = o->value.user.data;
	if (o->value.user.marker == handleMark) workPush(g, r->inner);
	workPush(g, r->child);
}
static dl_error_t cb_user(duckVM_t *vm) {
	/* (cb-user child) wraps the argument. */
	duckVM_object_t *o;
	dl_error_t e = top(vm, &o);
	if (e) return e;
	duckVM_object_t child = *o;
	userRec_t *r = calloc(1, sizeof *r);
	r->next = userRecs;
	userRecs = r;
	duckVM_object_t handle = duckVM_object_makeUser(r, handleMark, NULL);
	e = duckVM_object_push(vm, &handle);
	if (e) return e;
	duckVM_object_t *heap = NULL;
	e = duckVM_allocateHeapObject(vm, &heap, child);
	if (e) return e;
	r->child = heap;
	duckVM_object_t *inner = NULL;
	e = duckVM_allocateHeapObject(vm, &inner, duckVM_object_makeUser(r, userMark, userDestroy));
	if (e) return e;
	r->inner = inner;
	M.userCreated++;
	e = duckVM_copyFromTop(vm, -2);
	if (e) return e;
	return duckVM_pop(vm);
}

static dl_error_t cb_api(duckVM_t *vm);

static struct { const char *name; dl_error_t (*f)(duckVM_t *); const char *type; } callbacks[] = {
	{"emit", cb_emit, "(I)"},
	{"cb-fail", cb_fail, "(I)"},
	{"cb-gc", cb_gc, "()"},
	{"cb-call0", cb_call0, "(I)"},
	{"cb-call1", cb_call1, "(I I)"},
	{"cb-call2", cb_call2, "(I I I)"},
	{"cb-call3", cb_call3, "(I I I I)"},
	{"cb-sub", cb_sub, "(I I)"},
	{"cb-seven", cb_seven, "()"},
	{"cb-user", cb_user, "(I)"},
	{"cb-api", cb_api, "(I)"},
};
#define NCB (sizeof callbacks / sizeof *callbacks)

/* ------------------------------------------------------------------ instance */

static dl_memoryAllocation_t ma;
static void *pool;
static duckLisp_t dl;
static duckVM_t vm;
static duckVM_t *const hostVm = &vm;

static int haveDl, haveVm, haveMa;
static size_t optObjs, optCobjs, optPool;
static long long optNcb;
static long optParseDepth, optGenDepth;
static int optInfer, optFit, optStrip, optExt, optMsg;

#include "ext.h"

static void reportErrors(const char *tag, dl_array_t *errors) {
	if (errors->elements_length) {
		fprintf(out, "%s ", tag);
		size_t n = errors->elements_length;
		printBytes(errors->elements, optMsg || n < 400 ? n : 400);
		fputc('\n', out);
	}
	(void) dl_array_clear(errors);
}

static dl_error_t startDl(void) {
	/* As on a host's stack: nothing may depend on what was there before initialization. */
	memset(&dl, 0xA5, sizeof(dl));
	dl_error_t e = duckLisp_init(&dl, &ma, optCobjs
#ifdef USE_PARENTHESIS_INFERENCE
	                             , optCobjs
#endif
	                             );
	haveDl = 1;
	if (e) return e;
	if (optParseDepth) dl.parser_max_recursion_depth = optParseDepth;
	if (optGenDepth) dl.generators_max_recursion_depth = optGenDepth;
	/* Others before the ones that are used, so that those have large indices. */
	for (long i = 0; i < optNcb; i++) {
		char name[32];
		int n = sprintf(name, "dummy%ld", i);
		e = duckLisp_linkCFunction(&dl, callbacks[0].f, (dl_uint8_t *) name, (size_t) n
#ifdef USE_PARENTHESIS_INFERENCE
		                           , (dl_uint8_t *) callbacks[0].type, strlen(callbacks[0].type)
#endif
		                           );
		if (e) return e;
	}
	for (size_t i = 0; i < NCB; i++) {
		e = duckLisp_linkCFunction(&dl, callbacks[i].f, (dl_uint8_t *) callbacks[i].name, strlen(callbacks[i].name)
#ifdef USE_PARENTHESIS_INFERENCE
		                           , (dl_uint8_t *) callbacks[i].type, strlen(callbacks[i].type)
#endif
		                           );
		if (e) return e;
	}
	return optExt ? extAdd(&dl) : e;
}
static dl_error_t linkVm(void) {
	for (size_t i = 0; i < NCB; i++) {
		dl_ptrdiff_t key = duckLisp_symbol_nameToValue(&dl, (dl_uint8_t *) callbacks[i].name, strlen(callbacks[i].name));
		dl_error_t e = duckVM_linkCFunction(&vm, key, callbacks[i].f);
		if (e) return e;
	}
	return dl_error_ok;
}
static dl_error_t startVm(void) {
	mapAge++;
	memset(&vm, 0xA5, sizeof(vm));
	dl_error_t e = duckVM_init(&vm, &ma, optObjs);
	haveVm = 1;
	if (e) return e;
	return linkVm();
}
static void stopAll(void) {
	if (haveVm) { duckVM_quit(&vm); haveVm = 0; }
	if (haveDl) { duckLisp_quit(&dl); haveDl = 0; }
	#ifdef USE_DUCKLIB_MALLOC
	if (haveMa) { dl_memory_quit(&ma); haveMa = 0; }
#endif
	if (pool) { ASAN_UNPOISON_MEMORY_REGION(pool, optPool); free(pool); pool = NULL; }
}

static dl_uint8_t *lastCode;
static dl_size_t lastCode_length;

static void dropCode(void) {
	if (lastCode) (void) dl_free(&ma, (void **) &lastCode);
	lastCode = NULL;
	lastCode_length = 0;
}

static dl_error_t compile(const unsigned char *src, size_t n) {
	dropCode();
	M.steps = 0;
	M.overBudget = 0;
	trailForget(&dl.vm);
	dl.stripSymbolNames = optStrip;
	/* An exact-size copy, so that reads past the source are seen. */
	unsigned char *copy = malloc(n ? n : 1);
	memcpy(copy, src, n);
	dl_error_t e = duckLisp_loadString(&dl,
#ifdef USE_PARENTHESIS_INFERENCE
	                                   optInfer,
#endif
	                                   &lastCode, &lastCode_length, copy, n, DL_STR("<case>"));
	free(copy);
	if (e) { lastCode = NULL; lastCode_length = 0; }
	else if (optCode) (void) mapOf(lastCode, lastCode_length, 1);
	if (printIds == 9) fprintf(out, "v %zu\n", (size_t) dl.vm.stack.elements_length);
	return e;
}

static void afterRun(dl_error_t e) {
	duckVM_object_t *o;
	dl_size_t len = vm.stack.elements_length;
	fprintf(out, "R %d %ld ", (int) e, (long) len);
	if (M.overBudget) fputs("BUDGET", out);
	else if (e) fputs("ERR", out);
	else if (top(&vm, &o)) fputs("EMPTY", out);
	else printTop(o);
	fputc('\n', out);
}

static void run(dl_uint8_t *code, dl_size_t length) {
	M.steps = 0;
	M.overBudget = 0;
	trailForget(&vm);
	size_t frames = vm.call_stack.elements_length, height = vm.stack.elements_length;
	dl_error_t e = duckVM_execute(&vm, code, length);
	afterRun(e);
	reportErrors("E", &vm.errors);
	if (!e) {
		if (vm.call_stack.elements_length != frames) monitorFail("call stack changed by an execution");
		if (vm.stack.elements_length != vm.upvalue_stack.elements_length) monitorFail("stack lengths differ after execution");
		/* The caller of a plain top-level form finds its temporaries below the value. */
		while (!e && duckVM_stackLength(&vm) > height) e = duckVM_pop(&vm);
		if (e) monitorFail("could not pop the results");
	}
	else if (M.noReset) { /* As the project's own REPL does it. */ }
	else { e = duckVM_softReset(&vm); if (e) fprintf(out, "SOFTRESET %d\n", (int) e); }
}

/* Bytecode that is executed later, perhaps several times or on several VMs. The copies are of exact size. */
#define NSLOT 64
static struct { dl_uint8_t *code; dl_size_t length; } slots[NSLOT];

static void onTimeout(int sig) {
	(void) sig;
	static const char m[] = "\nTIMEOUT\n";
	fflush(out);
	(void) !write(1, m, sizeof m - 1);
	_exit(77);
}

#include "apiops.h"

int main(int argc, char **argv) {
	out = stdout;
	decodeInit();
	if (argc < 2) return 2;
	FILE *in = fopen(argv[1], "rb");
	if (!in) return 2;
	static char bigbuf[1 << 16];
	setvbuf(out, bigbuf, _IOFBF, sizeof bigbuf);
	char line[4096];
	unsigned char *blob = NULL;
	size_t blobCap = 0;
	int sigCpu = 20;
	signal(SIGPROF, onTimeout);
	while (fgets(line, sizeof line, in)) {
		char id[256];
		if (sscanf(line, "CASE %255s", id) != 1) continue;
		memset(&M, 0, sizeof M);
		optObjs = 20000; optCobjs = 20000; optPool = 64u << 20; optParseDepth = 0; optGenDepth = 0; optInfer = 0; optNcb = 0;
		optFit = dl_memoryFit_best;
		M.budget = 3000000;
		traceBudget = 2000;
		printIds = 0; optCode = 0; optStrip = 0; optExt = 0; optMsg = 0; extCompiled = 0;
		codeSeen = codeInstructions = codeFrames = codeOperands = 0;
		trailForget(NULL);
		mapsClear();
		long faultAt = 0;
		int faultPhase = 0;
		sigCpu = 20;
		int stats = 0, leakCheck = 0, hashes = 0;
		for (char *p = strtok(line, " \n"); p; p = strtok(NULL, " \n")) {
			char *v = strchr(p, '=');
			if (!v) continue;
			*v++ = 0;
			long long x = strtoll(v, NULL, 10);
			if (!strcmp(p, "objs")) optObjs = x;
			else if (!strcmp(p, "cobjs")) optCobjs = x;
			else if (!strcmp(p, "pool")) optPool = x;
			else if (!strcmp(p, "fit")) optFit = (int) x;
			else if (!strcmp(p, "pdepth")) optParseDepth = x;
			else if (!strcmp(p, "gdepth")) optGenDepth = x;
			else if (!strcmp(p, "infer")) optInfer = (int) x;
			else if (!strcmp(p, "budget")) M.budget = x;
			else if (!strcmp(p, "gc")) M.gcPeriod = x;
			else if (!strcmp(p, "poison")) M.poison = (int) x;
			else if (!strcmp(p, "unbal")) M.unbal = (int) x;
			else if (!strcmp(p, "noreset")) M.noReset = (int) x;
			else if (!strcmp(p, "check")) M.checkHeap = (int) x;
			else if (!strcmp(p, "fault")) faultAt = x;
			else if (!strcmp(p, "sticky")) M.faultSticky = (int) x;
			else if (!strcmp(p, "phase")) faultPhase = (int) x;  /* 0: from start; 1: from first L */
			else if (!strcmp(p, "ids")) printIds = (int) x;
			else if (!strcmp(p, "ncb")) optNcb = x;
			else if (!strcmp(p, "cpu")) sigCpu = (int) x;
			else if (!strcmp(p, "code")) optCode = (int) x;
			else if (!strcmp(p, "strip")) optStrip = (int) x;
			else if (!strcmp(p, "ext")) optExt = (int) x;
			else if (!strcmp(p, "msg")) optMsg = (int) x;
			else if (!strcmp(p, "khash")) hashes = (int) x;
			else if (!strcmp(p, "leak")) leakCheck = (int) x;
			else if (!strcmp(p, "stats")) stats = (int) x;
		}
		fprintf(out, "BEGIN %s\n", id);
		fflush(out);
		struct itimerval tv = {{0, 0}, {sigCpu, 0}};
		setitimer(ITIMER_PROF, &tv, NULL);
		M.faultAt = faultAt;
		M.faultArmed = (faultPhase == 0);
		dl_error_t e = dl_error_ok;
#ifdef USE_DUCKLIB_MALLOC
		pool = malloc(optPool);
		e = dl_memory_init(&ma, pool, optPool, optFit);
		haveMa = 1;
#endif
		if (!e) e = startDl();
		if (!e) e = startVm();
		int failedStart = e != dl_error_ok;
		if (e) fprintf(out, "START %d\n", (int) e);
		while (fgets(line, sizeof line, in)) {
			char op[32];
			size_t len = 0;
			if (!strncmp(line, "END", 3)) break;
			op[0] = 0;
			char *h = strrchr(line, '#');
			if (h) {
				len = strtoull(h + 1, NULL, 10);
				if (len + 1 > blobCap) { blobCap = len * 2 + 64; blob = realloc(blob, blobCap); }
				if (fread(blob, 1, len, in) != len) return 2;
				(void) fgetc(in);
			}
			if (failedStart) continue;
			if (sscanf(line, "%31s", op) != 1) continue;
			if (!strcmp(op, "L") || !strcmp(op, "l")) {
				if (faultPhase == 1) M.faultArmed = 1;
				e = compile(blob, len);
				if (e) fprintf(out, "C %d\n", (int) e);
				else if (op[0] == 'l' || hashes) fprintf(out, "K %zu %016" PRIx64 "\n", (size_t) lastCode_length, fnv(lastCode, lastCode_length));
				reportErrors("E", &dl.errors);
#ifdef USE_PARENTHESIS_INFERENCE
				(void) dl_array_clear(&dl.inferrerLog);
#endif
				if (!e && op[0] == 'L') run(lastCode, lastCode_length);
				dropCode();
			}
			else if (!strcmp(op, "K")) {
				unsigned k = (unsigned) atoi(line + 2) % NSLOT;
				e = compile(blob, len);
				if (e) fprintf(out, "C %d\n", (int) e);
				reportErrors("E", &dl.errors);
				if (!e) {
					free(slots[k].code);
					slots[k].code = malloc(lastCode_length);
					slots[k].length = lastCode_length;
					memcpy(slots[k].code, lastCode, lastCode_length);
				}
				dropCode();
			}
			else if (!strcmp(op, "X")) {
				unsigned k = (unsigned) atoi(line + 2) % NSLOT;
				if (slots[k].code) {
					uint64_t before = fnv(slots[k].code, slots[k].length);
					run(slots[k].code, slots[k].length);
					if (fnv(slots[k].code, slots[k].length) != before) monitorFail("executing bytecode changed it");
				}
				else fprintf(out, "X missing\n");
			}
			else if (!strcmp(op, "H")) {
				char kind[32] = "";
				(void) sscanf(line, "%*s %31s", kind);
				e = extAddAs(&dl, kind, blob, len);
				fprintf(out, "H %d\n", (int) e);
			}
			else if (!strcmp(op, "I")) optInfer = atoi(line + 2);
			else if (!strcmp(op, "G")) { e = duckVM_garbageCollect(&vm); if (!e) e = duckVM_garbageCollect(&dl.vm); fprintf(out, "G %d %zu %ld\n", (int) e, vm.gclist.objects_length - vm.gclist.freeObjects_length, M.live); }
			else if (!strcmp(op, "S")) { e = duckVM_softReset(&vm); fprintf(out, "S %d\n", (int) e); }
			else if (!strcmp(op, "V")) { duckVM_quit(&vm); haveVm = 0; e = startVm(); fprintf(out, "V %d\n", (int) e); }
			else if (!strcmp(op, "D")) {
				/* disassemble */
				e = compile(blob, len);
				fprintf(out, "C %d\n", (int) e);
				reportErrors("E", &dl.errors);
				if (!e) {
					dl_array_t text;
					e = duckLisp_disassemble(&text, &ma, lastCode, lastCode_length);
					fprintf(out, "D %d ", (int) e);
					if (!e) printBytes(text.elements, text.elements_length);
					fputc('\n', out);
					if (!e) (void) dl_array_quit(&text);
					codeList(lastCode, lastCode_length);
					fprintf(out, "B ");
					for (size_t i = 0; i < lastCode_length; i++) fprintf(out, "%02x", lastCode[i]);
					fputc('\n', out);
				}
				dropCode();
			}
			else if (!strcmp(op, "A")) apiOp(blob, len);
			else if (!strcmp(op, "Q")) apiQueueAdd(blob, len);
		}
		M.faultArmed = 0;
		apiClear();
		dropCode();
		stopAll();
		if (!failedStart && M.userCreated != M.userDestroyed) {
			char b[100];
			snprintf(b, sizeof b, "user objects created %ld destroyed %ld", M.userCreated, M.userDestroyed);
			monitorFail(b);
		}
		if (leakCheck && M.live != 0) fprintf(out, "LEAK %ld\n", M.live);
		for (size_t k = 0; k < NSLOT; k++) { free(slots[k].code); slots[k].code = NULL; }
		while (userRecs) { userRec_t *r = userRecs; userRecs = r->next; free(r); }
		if (M.crossCheckFailed) fprintf(out, "MONITOR %s\n", M.crossMsg);
		if (stats) {
			fprintf(out, "STAT allocs=%ld collections=%ld forced=%ld checks=%ld maxstack=%ld steps=%lld faultcount=%ld faulthits=%d users=%ld mallocs=%ld codes=%ld instructions=%ld frames=%ld operands=%ld live=%ld reach=%ld creach=%ld slack=%ld ops=",
			        M.allocs, M.collections, M.forced, M.heapChecks, M.maxStack, M.totalSteps, M.faultCount, M.faultHits, M.userCreated, M.mallocs, codeSeen, codeInstructions, codeFrames, codeOperands, M.live, M.maxReach[0], M.maxReach[1], M.maxSlack);
			for (int i = 0; i < 64; i++)
				fprintf(out, "%x", M.opcodes[4 * i] | (M.opcodes[4 * i + 1] << 1) | (M.opcodes[4 * i + 2] << 2) | (M.opcodes[4 * i + 3] << 3));
			fputc('\n', out);
		}
		fprintf(out, "END %s\n", id);
		fflush(out);
	}
	free(blob);
	free(reach);
	free(work);
	fclose(in);
	return 0;
}
