/* Several instances (compiler, virtual machine, memory) in one process: on threads of their own, or taking turns on one
   thread, also from inside each other's callbacks. Input and output as in drv.c; `T i #len` is the next source of instance
   i, and observations carry the instance's number. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <signal.h>
#include <unistd.h>
#include <pthread.h>
#include <sys/time.h>
#include "duckLisp.h"
#include "duckVM.h"
#include "DuckLib/array.h"
#include "DuckLib/core.h"
#include "DuckLib/memory.h"
#include "DuckLib/string.h"
#include "print.h"
static void printType(size_t t) { fprintf(out, "T%zu", t); }

#define MAXI 16
#define MAXS 64
typedef struct {
	int used;
	unsigned char *src[MAXS];
	size_t len[MAXS];
	int n, next, busy, up;
	dl_memoryAllocation_t ma;
	void *pool;
	duckLisp_t dl;
	duckVM_t vm;
	char *text;
	size_t textLength;
	FILE *stream;
	long trace, turns;
} inst;
static inst I[MAXI];
static __thread inst *cur;
static int nested;          /* emit lets another instance run */
static size_t optObjs, optPool;
static unsigned long seed;
static long turns;

static unsigned long rnd(void) { seed = seed * 6364136223846793005ul + 1442695040888963407ul; return seed >> 33; }

static void step(inst *x);

static dl_error_t top(duckVM_t *vm, duckVM_object_t **o) {
	if (vm->stack.elements_length == 0) return dl_error_bufferUnderflow;
	*o = &((duckVM_object_t *) vm->stack.elements)[vm->stack.elements_length - 1];
	return dl_error_ok;
}
static int depth;
static dl_error_t cb_emit(duckVM_t *vm) {
	duckVM_object_t *o;
	dl_error_t e = top(vm, &o);
	if (e) return e;
	if (cur->trace-- > 0) {
		fputs(vm->duckLisp ? "c " : "T ", out);
		nodeBudget = 300;
		printValue(o, 0);
		fputc('\n', out);
	}
	if (nested && depth < 6) {
		/* Another instance's turn, in the middle of this one's. */
		inst *self = cur;
		FILE *was = out;
		unsigned long k = rnd() % MAXI;
		if (I[k].used && !I[k].busy && I[k].next < I[k].n) {
			depth++;
			turns++;
			step(&I[k]);
			depth--;
		}
		cur = self;
		out = was;
	}
	return dl_error_ok;
}
static dl_error_t cb_fail(duckVM_t *vm) {
	(void) duckVM_error_pushRuntime(vm, DL_STR("cb-fail"));
	return dl_error_invalidValue;
}
static dl_error_t cb_gc(duckVM_t *vm) {
	dl_error_t e = duckVM_garbageCollect(vm);
	return e ? e : duckVM_pushNil(vm);
}
static dl_error_t callN(duckVM_t *vm, int n) {
	dl_size_t before = duckVM_stackLength(vm);
	dl_error_t e = duckVM_call(vm, -1 - n, (dl_uint8_t) n);
	if (e) return e;
	if (duckVM_stackLength(vm) != before - (dl_size_t) n + 1) return dl_error_shouldntHappen;
	e = duckVM_copyFromTop(vm, -2);
	return e ? e : duckVM_pop(vm);
}
static dl_error_t cb_call0(duckVM_t *vm) { return callN(vm, 0); }
static dl_error_t cb_call1(duckVM_t *vm) { return callN(vm, 1); }
static dl_error_t cb_call2(duckVM_t *vm) { return callN(vm, 2); }
static dl_error_t cb_call3(duckVM_t *vm) { return callN(vm, 3); }
static dl_error_t cb_sub(duckVM_t *vm) {
	dl_ptrdiff_t a, b;
	dl_error_t e = duckVM_copySignedInteger(vm, &b);
	if (e) return e;
	e = duckVM_pop(vm);
	if (e) return e;
	e = duckVM_copySignedInteger(vm, &a);
	return e ? e : duckVM_setInteger(vm, a - b);
}
static dl_error_t cb_seven(duckVM_t *vm) {
	dl_error_t e = duckVM_pushInteger(vm);
	return e ? e : duckVM_setInteger(vm, 7);
}
static const struct { const char *name; dl_error_t (*f)(duckVM_t *); const char *type; } callbacks[] = {
	{"emit", cb_emit, "(I)"}, {"cb-fail", cb_fail, "(I)"}, {"cb-gc", cb_gc, "()"}, {"cb-call0", cb_call0, "(I)"}, {"cb-call1", cb_call1, "(I I)"},
	{"cb-call2", cb_call2, "(I I I)"}, {"cb-call3", cb_call3, "(I I I I)"}, {"cb-sub", cb_sub, "(I I)"}, {"cb-seven", cb_seven, "()"},
};
#define NCB (sizeof(callbacks) / sizeof(*callbacks))

static void enter(inst *x) { cur = x; out = x->stream; }

static int start(inst *x) {
	enter(x);
	dl_error_t e = dl_error_ok;
	memset(&x->dl, 0xA5, sizeof(x->dl));
	memset(&x->vm, 0xA5, sizeof(x->vm));
#ifdef USE_DUCKLIB_MALLOC
	x->pool = malloc(optPool);
	e = dl_memory_init(&x->ma, x->pool, optPool, dl_memoryFit_best);
#endif
	if (!e) e = duckLisp_init(&x->dl, &x->ma, optObjs
#ifdef USE_PARENTHESIS_INFERENCE
	                          , optObjs
#endif
	                          );
	for (size_t i = 0; !e && i < NCB; i++)
		e = duckLisp_linkCFunction(&x->dl, callbacks[i].f, (dl_uint8_t *) callbacks[i].name, strlen(callbacks[i].name)
#ifdef USE_PARENTHESIS_INFERENCE
		                           , (dl_uint8_t *) callbacks[i].type, strlen(callbacks[i].type)
#endif
		                           );
	if (!e) e = duckVM_init(&x->vm, &x->ma, optObjs);
	for (size_t i = 0; !e && i < NCB; i++)
		e = duckVM_linkCFunction(&x->vm, duckLisp_symbol_nameToValue(&x->dl, (dl_uint8_t *) callbacks[i].name, strlen(callbacks[i].name)), callbacks[i].f);
	if (e) fprintf(out, "START %d\n", (int) e);
	x->up = !e;
	return !e;
}
static void stop(inst *x) {
	enter(x);
	if (x->up) {
		duckVM_quit(&x->vm);
		duckLisp_quit(&x->dl);
	}
	free(x->pool);
	x->pool = NULL;
}
static void errors(dl_array_t *a) {
	if (a->elements_length) {
		fputs("E ", out);
		printBytes(a->elements, a->elements_length > 300 ? 300 : a->elements_length);
		fputc('\n', out);
	}
	(void) dl_array_clear(a);
}
/* The next source of an instance. */
static void step(inst *x) {
	enter(x);
	int k = x->next++;
	x->busy = 1;
	dl_uint8_t *code = NULL;
	dl_size_t length = 0;
	dl_error_t e = duckLisp_loadString(&x->dl,
#ifdef USE_PARENTHESIS_INFERENCE
	                                   dl_false,
#endif
	                                   &code, &length, x->src[k], x->len[k], DL_STR("<case>"));
	enter(x);
	if (e) fprintf(out, "C %d\n", (int) e);
	errors(&x->dl.errors);
#ifdef USE_PARENTHESIS_INFERENCE
	(void) dl_array_clear(&x->dl.inferrerLog);
#endif
	if (!e) {
		size_t height = x->vm.stack.elements_length;
		e = duckVM_execute(&x->vm, code, length);
		enter(x);
		duckVM_object_t *o;
		fprintf(out, "R %d %ld ", (int) e, (long) x->vm.stack.elements_length);
		if (e) fputs("ERR", out);
		else if (top(&x->vm, &o)) fputs("EMPTY", out);
		else { nodeBudget = 3000; printValue(o, 0); }
		fputc('\n', out);
		errors(&x->vm.errors);
		if (e) { e = duckVM_softReset(&x->vm); if (e) fprintf(out, "SOFTRESET %d\n", (int) e); }
		else while (!e && duckVM_stackLength(&x->vm) > height) e = duckVM_pop(&x->vm);
		(void) dl_free(&x->ma, (void **) &code);
	}
	x->busy = 0;
}

static pthread_barrier_t barrier;
static int reps;
static void *thread(void *arg) {
	inst *x = arg;
	pthread_barrier_wait(&barrier);
	/* Some start and stop while others run. */
	for (int k = 0; k < reps; k++) {
		fputs("REP\n", x->stream);
		x->next = 0;
		x->trace = 4000;
		if (start(x)) while (x->next < x->n) step(x);
		stop(x);
	}
	return NULL;
}

static void onTimeout(int sig) {
	(void) sig;
	static const char m[] = "\nTIMEOUT\n";
	(void) !write(1, m, sizeof m - 1);
	_exit(77);
}

int main(int argc, char **argv) {
	if (argc < 2) return 2;
	FILE *in = fopen(argv[1], "rb");
	if (!in) return 2;
	char line[4096];
	signal(SIGPROF, onTimeout);
	while (fgets(line, sizeof line, in)) {
		char id[256];
		if (sscanf(line, "CASE %255s", id) != 1) continue;
		int mode = 0, cpu = 60;
		optObjs = 20000; optPool = 64u << 20; seed = 1; nested = 0; reps = 1; turns = 0;
		for (char *p = strtok(line, " \n"); p; p = strtok(NULL, " \n")) {
			char *v = strchr(p, '=');
			if (!v) continue;
			*v++ = 0;
			long x = atol(v);
			if (!strcmp(p, "mode")) mode = (int) x;
			else if (!strcmp(p, "objs")) optObjs = (size_t) x;
			else if (!strcmp(p, "pool")) optPool = (size_t) x;
			else if (!strcmp(p, "seed")) seed = (unsigned long) x;
			else if (!strcmp(p, "reps")) reps = (int) x;
			else if (!strcmp(p, "cpu")) cpu = (int) x;
		}
		printf("BEGIN %s\n", id);
		fflush(stdout);
		struct itimerval tv = {{0, 0}, {cpu, 0}};
		setitimer(ITIMER_PROF, &tv, NULL);
		memset(I, 0, sizeof I);
		int top_ = 0;
		while (fgets(line, sizeof line, in)) {
			if (!strncmp(line, "END", 3)) break;
			int i;
			unsigned long len;
			if (sscanf(line, "T %d #%lu", &i, &len) != 2 || i < 0 || i >= MAXI || I[i].n >= MAXS) return 2;
			I[i].used = 1;
			if (i + 1 > top_) top_ = i + 1;
			I[i].src[I[i].n] = malloc(len ? len : 1);
			I[i].len[I[i].n] = len;
			if (fread(I[i].src[I[i].n], 1, len, in) != len) return 2;
			(void) fgetc(in);
			I[i].n++;
		}
		for (int i = 0; i < top_; i++) { I[i].stream = open_memstream(&I[i].text, &I[i].textLength); I[i].trace = 4000; }
		if (mode == 0) {
			pthread_t t[MAXI];
			pthread_barrier_init(&barrier, NULL, (unsigned) top_);
			for (int i = 0; i < top_; i++) {
				pthread_attr_t a;
				pthread_attr_init(&a);
				pthread_attr_setstacksize(&a, 64u << 20);
				if (pthread_create(&t[i], &a, thread, &I[i])) return 2;
			}
			for (int i = 0; i < top_; i++) pthread_join(t[i], NULL);
			pthread_barrier_destroy(&barrier);
		}
		else {
			nested = mode == 2;
			for (int i = 0; i < top_; i++) { fputs("REP\n", I[i].stream); start(&I[i]); }
			for (;;) {
				int left = 0;
				for (int i = 0; i < top_; i++) left += I[i].up && I[i].next < I[i].n;
				if (!left) break;
				int i = (int) (rnd() % (unsigned) top_);
				if (I[i].up && I[i].next < I[i].n) { turns++; step(&I[i]); }
				/* An instance that is done goes while the others still run. */
				for (int j = 0; j < top_; j++) if (I[j].up && I[j].next == I[j].n && rnd() % 2) { stop(&I[j]); I[j].up = 0; }
			}
			for (int i = 0; i < top_; i++) if (I[i].up) stop(&I[i]);
		}
		for (int i = 0; i < top_; i++) {
			fclose(I[i].stream);
			printf("INSTANCE %d\n", i);
			fwrite(I[i].text, 1, I[i].textLength, stdout);
			free(I[i].text);
			for (int k = 0; k < I[i].n; k++) free(I[i].src[k]);
		}
		printf("STAT steps=%ld\n", turns + (mode == 0 ? top_ * reps : 0));
		printf("END %s\n", id);
		fflush(stdout);
	}
	fclose(in);
	return 0;
}
