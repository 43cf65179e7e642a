/* Drives the allocator, containers, sorts and conversions with random operations next to models of them.
   A case is `CASE id kind=.. seed=.. n=.. ...`, `END`. Output as in drv.c. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <math.h>
#include <errno.h>
#include <signal.h>
#include <unistd.h>
#include <pthread.h>
#include <sys/time.h>
#include "DuckLib/core.h"
#include "DuckLib/memory.h"
#include "DuckLib/array.h"
#include "DuckLib/trie.h"
#include "DuckLib/sort.h"
#include "DuckLib/string.h"

dl_error_t dl_array_copy(dl_array_t *arrayDestination, dl_array_t arraySource);
dl_error_t dl_array_append(dl_array_t *arrayDestination, dl_array_t *arraySource);

static FILE *out;
static uint64_t rs;
static uint64_t rnd(void) {
	uint64_t z = (rs += 0x9E3779B97F4A7C15ull);
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
	z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
	return z ^ (z >> 31);
}
static uint64_t below(uint64_t n) { return n ? rnd() % n : 0; }

static long nviol, nops, nfail, nchecks, nmalloc;
#define VIOL(...) do { if (nviol++ < 3) { fprintf(out, "MONITOR " __VA_ARGS__); fputc('\n', out); fflush(out); } } while (0)
#define SHOULD(c, ...) do { nchecks++; if (!(c)) VIOL(__VA_ARGS__); } while (0)

/* ------------------------------------------------------------------ faults and leaks */
dl_error_t __real_dl_malloc(dl_memoryAllocation_t *, void **, dl_size_t);
dl_error_t __real_dl_realloc(dl_memoryAllocation_t *, void **, dl_size_t);
dl_error_t __real_dl_free(dl_memoryAllocation_t *, void **);
static long faultIn;      /* the faultIn-th allocation from now on fails */
static long live;         /* allocations that were not freed */
static int refuse(void) { nmalloc++; return faultIn && --faultIn == 0; }
dl_error_t __wrap_dl_malloc(dl_memoryAllocation_t *m, void **p, dl_size_t n) {
	if (refuse()) { *p = NULL; return dl_error_outOfMemory; }
	dl_error_t e = __real_dl_malloc(m, p, n);
	if (!e) live++;
	return e;
}
dl_error_t __wrap_dl_realloc(dl_memoryAllocation_t *m, void **p, dl_size_t n) {
	if (refuse()) return dl_error_outOfMemory;
	void *old = *p;
	dl_error_t e = __real_dl_realloc(m, p, n);
	if (!e && !old) live++;
	return e;
}
dl_error_t __wrap_dl_free(dl_memoryAllocation_t *m, void **p) {
	if (*p) live--;
	return __real_dl_free(m, p);
}

/* ------------------------------------------------------------------ the allocator */
typedef struct { unsigned char *p; size_t n; uint64_t tag; } blk;
static unsigned char pat(uint64_t tag, size_t i) { return (unsigned char) ((tag + i * 131) ^ ((tag >> 17) + (i >> 8))); }
static void fill(blk *b, size_t from) { for (size_t i = from; i < b->n; i++) b->p[i] = pat(b->tag, i); }
static int intact(const blk *b) { for (size_t i = 0; i < b->n; i++) if (b->p[i] != pat(b->tag, i)) return 0; return 1; }
static int bycmp(const void *a, const void *b) { const blk *x = *(blk *const *) a, *y = *(blk *const *) b; return x->p < y->p ? -1 : x->p > y->p; }

static void allocator(long n, size_t pool, int fit, int style) {
	dl_memoryAllocation_t m;
	memset(&m, 0, sizeof(m));
	unsigned char *mem = malloc(pool);
#ifdef USE_DUCKLIB_MALLOC
	const int own = 1;
	dl_error_t e = dl_memory_init(&m, mem, pool, (dl_memoryFit_t) fit);
	if (pool < 2 * sizeof(dl_memoryBlock_t) + 1) { SHOULD(e, "a pool of %zu bytes was accepted", pool); free(mem); return; }
	SHOULD(!e, "a pool of %zu bytes was refused", pool);
	if (e) { free(mem); return; }
#else
	const int own = 0;
	(void) fit;
#endif
	enum { MAX = 600 };
	static blk b[MAX], *sorted[MAX + 1];
	size_t nb = 0, maxnb = 0;
	long fails = 0;
	for (long k = 0; k < n && !nviol; k++) {
		nops++;
		size_t size;
		switch (below(10)) {
		case 0: size = below(4); break;
		case 1: size = 1 + below(pool / 2 + 1); break;
		case 2: size = 8 * below(40); break;
		case 3: size = below(2000); break;
		default: size = style == 1 ? below(pool / 8 + 1) : style == 2 ? 8 * (1 + below(4)) : below(200);
		}
		if (!own && below(100) < 3) size = (size_t) -1 / 2 - below(1000);
		else if (own && below(100) < 3) size = (size_t) -1 - below(40);
		int op = (int) below(100);
		/* Phases in which much is allocated, and phases in which much is freed. */
		int growing = (k / (50 + (long) (style * 37))) & 1;
		size_t maxgap = 0, table = 0;
		if (own) {
			/* What is free for certain: the largest gap between what the model knows and the table of blocks, less what a table that grows may need. */
			blk tb = {(unsigned char *) m.blockList, m.blockList_length * sizeof(dl_memoryBlock_t), 0};
			for (size_t i = 0; i < nb; i++) sorted[i] = &b[i];
			sorted[nb] = &tb;
			qsort(sorted, nb + 1, sizeof(*sorted), bycmp);
			unsigned char *at = mem;
			for (size_t i = 0; i <= nb + 1; i++) {
				unsigned char *end = i <= nb ? sorted[i]->p : mem + pool;
				if (end > at && (size_t) (end - at) > maxgap) maxgap = end - at;
				if (i <= nb && sorted[i]->p + sorted[i]->n > at) at = sorted[i]->p + sorted[i]->n;
			}
			SHOULD(m.blockList_length <= 3 * (2 * maxnb + 24), "the table of blocks has %zu entries, there were never more than %zu blocks", (size_t) m.blockList_length, maxnb);
			table = (m.blockList_length + 16) * sizeof(dl_memoryBlock_t) + 64;
		}
		if (op < (growing ? 55 : 25) && nb < MAX) {
			void *p = NULL;
			dl_error_t e = below(2) ? dl_malloc(&m, &p, size) : dl_realloc(&m, &p, size);
			if (e) {
				fails++;
				SHOULD(e == dl_error_outOfMemory, "refusing %zu bytes gave error %d", size, e);
				SHOULD(!own || size > pool || size + table > maxgap, "%zu bytes refused, but %zu are free in one piece (%zu blocks live)", size, maxgap, nb);
				SHOULD(own || size > (size_t) 1 << 40, "%zu bytes refused", size);
			}
			else {
				SHOULD(p != NULL, "no address for %zu bytes", size);
				SHOULD(((uintptr_t) p & 7) == 0, "address %p is not aligned", p);
				SHOULD(!own || ((unsigned char *) p >= mem && (unsigned char *) p + size <= mem + pool && size <= pool), "a block of %zu bytes lies outside of the pool", size);
				if (nviol) break;
				for (size_t i = 0; i < nb; i++)
					SHOULD((unsigned char *) p + size <= b[i].p || b[i].p + b[i].n <= (unsigned char *) p
					       || (b[i].n == 0 && b[i].p != p) || (size == 0 && b[i].p != p), "a new block overlaps one in use");
				if (nviol) break;
				b[nb] = (blk) {p, size, rnd()};
				fill(&b[nb], 0);
				nb++;
				if (nb > maxnb) maxnb = nb;
			}
		}
		else if (op < 75 && nb) {
			size_t i = below(nb);
			void *p = b[i].p;
			if (below(3) == 0) size = below(2) ? b[i].n + below(64) : b[i].n - below(b[i].n < 64 ? b[i].n + 1 : 64);
			dl_error_t e = dl_realloc(&m, &p, size);
			if (e) {
				fails++;
				SHOULD(e == dl_error_outOfMemory, "resizing to %zu gave error %d", size, e);
				SHOULD(p == b[i].p, "a refused resize changed the address");
				SHOULD(!own || size > pool || size + table > maxgap, "resize to %zu bytes refused, but %zu are free in one piece", size, maxgap);
			}
			else {
				SHOULD(p != NULL && ((uintptr_t) p & 7) == 0, "address %p is not aligned", p);
				SHOULD(!own || ((unsigned char *) p >= mem && (unsigned char *) p + size <= mem + pool && size <= pool), "a resized block of %zu bytes lies outside of the pool", size);
				if (nviol) break;
				size_t keep = size < b[i].n ? size : b[i].n;
				b[i].p = p;
				b[i].n = keep;
				SHOULD(intact(&b[i]), "resizing to %zu bytes lost contents (of %zu)", size, keep);
				b[i].n = size;
				for (size_t j = 0; j < nb; j++) if (j != i)
					SHOULD((unsigned char *) p + size <= b[j].p || b[j].p + b[j].n <= (unsigned char *) p
					       || (b[j].n == 0 && b[j].p != p) || (size == 0 && b[j].p != p), "a resized block overlaps one in use");
				if (nviol) break;
				fill(&b[i], keep);
			}
		}
		else if (nb) {
			size_t i = below(nb);
			void *p = b[i].p, *again = p;
			SHOULD(intact(&b[i]), "contents of a block of %zu bytes changed", b[i].n);
			dl_error_t e = dl_free(&m, &p);
			SHOULD(!e, "freeing a block gave error %d", e);
			SHOULD(p == NULL, "a freed pointer is not null");
			b[i] = b[--nb];
			if (own && below(4) == 0) {
				/* Of a stale pointer it can be told that nothing is there, unless it is the table's place. */
				dl_size_t before, after;
				dl_memory_usage(&before, m);
				e = dl_free(&m, &again);
				SHOULD(e == dl_error_danglingPointer, "freeing twice gave error %d", e);
				dl_memory_usage(&after, m);
				SHOULD(before == after, "freeing twice changed the usage");
			}
		}
		if (below(20) == 0) {
			void *p = NULL;
			SHOULD(!dl_free(&m, &p) && !p, "freeing null failed");
			if (own) {
				unsigned char foreign[8];
				p = below(2) || !nb ? (void *) foreign : (void *) (b[below(nb)].p + 1 + below(6));
				SHOULD(dl_free(&m, &p) == dl_error_danglingPointer, "freeing a pointer into nothing did not fail");
			}
		}
		if (own) {
			dl_size_t usage;
			dl_memory_usage(&usage, m);
			size_t sum = 0, most = 0;
			for (size_t i = 0; i < nb; i++) sum += b[i].n, most += b[i].n + 8;
			SHOULD(usage >= sum && usage <= pool, "usage is %zu with %zu bytes in use", (size_t) usage, sum);
			(void) most;
		}
		if (below(16) == 0 || nb < 8) for (size_t i = 0; i < nb; i++) SHOULD(intact(&b[i]), "contents of a block of %zu bytes changed", b[i].n);
	}
	for (size_t i = 0; i < nb && !nviol; i++) {
		SHOULD(intact(&b[i]), "contents of a block of %zu bytes changed", b[i].n);
		void *p = b[i].p;
		SHOULD(!dl_free(&m, &p), "freeing a block failed");
	}
	if (own && !nviol) {
		/* Everything is free: the pool is whole again, whatever happened before. */
		size_t table = 3 * (2 * maxnb + 24) * sizeof(dl_memoryBlock_t);
		if (pool > 2 * table + 64) {
			/* The table lies somewhere; one of both sides of it is at least this large. */
			void *p = NULL;
			size_t want = (pool - table) / 2 - 32;
			SHOULD(!dl_malloc(&m, &p, want), "the empty pool of %zu bytes has no room for %zu (table at most %zu)", pool, want, table);
			dl_size_t usage;
			dl_memory_usage(&usage, m);
			SHOULD(usage <= want + 16 + table, "usage is %zu with one block of %zu", (size_t) usage, want);
			if (p) SHOULD(!dl_free(&m, &p), "freeing the last block failed");
		}
		dl_memory_quit(&m);
	}
	nfail += fails;
	free(mem);
}

/* ------------------------------------------------------------------ arrays */
static void arrays(long n, int faults) {
	enum { CAP = 4000, ES = 24 };
	static unsigned char model[2][CAP * ES];
	size_t len[2] = {0, 0};
	dl_memoryAllocation_t m;
	unsigned char *mem = malloc(2000000);
	memset(&m, 0, sizeof(m));
#ifdef USE_DUCKLIB_MALLOC
	if (dl_memory_init(&m, mem, 2000000, dl_memoryFit_best)) { VIOL("pool refused"); return; }
#endif
	dl_array_t a[2];
	size_t es = 1 + below(ES);
	for (int i = 0; i < 2; i++) dl_array_init(&a[i], &m, es, below(2) ? dl_array_strategy_double : dl_array_strategy_fit);
	for (long k = 0; k < n && !nviol; k++) {
		nops++;
		int w = (int) below(2);
		unsigned char x[ES * 40], y[ES * 40];
		for (size_t i = 0; i < sizeof(x); i++) x[i] = (unsigned char) rnd();
		memset(y, 0xEE, sizeof(y));
		if (faults && below(3) == 0) faultIn = 1 + (long) below(2);
		size_t c = below(40), i = below(len[w] + 3);
		unsigned char *top = model[w] + len[w] * es;
		int nul = below(5) == 0;
		dl_error_t e, f;
		switch (below(16)) {
		case 0: case 1: case 2: case 3:
			if (len[w] + 1 > CAP) break;
			e = dl_array_pushElement(&a[w], nul ? NULL : x);
			SHOULD(!e || faults, "pushElement failed");
			if (!e) { if (nul) memset(top, 0, es); else memcpy(top, x, es); len[w]++; } else nfail++;
			break;
		case 4: case 5:
			if (len[w] + c > CAP) break;
			e = dl_array_pushElements(&a[w], nul ? NULL : x, c);
			SHOULD(!e || faults, "pushElements failed");
			if (!e) { if (nul) memset(top, 0, c * es); else memcpy(top, x, c * es); len[w] += c; } else nfail++;
			break;
		case 6: case 7:
			e = dl_array_popElement(&a[w], nul ? NULL : y);
			SHOULD(e == (len[w] ? dl_error_ok : dl_error_bufferUnderflow), "popElement of %zu gave %d", len[w], e);
			if (!e) { SHOULD(nul || !memcmp(y, top - es, es), "popElement gave another element"); len[w]--; }
			break;
		case 8:
			if (below(2)) c = len[w] < 40 ? len[w] + below(2) : c;
			e = dl_array_popElements(&a[w], nul ? NULL : y, c);
			SHOULD(e == (c <= len[w] ? dl_error_ok : dl_error_bufferUnderflow), "popElements of %zu of %zu gave %d", c, len[w], e);
			if (!e) { SHOULD(nul || !memcmp(y, top - c * es, c * es), "popElements gave other elements"); len[w] -= c; }
			break;
		case 9:
			e = dl_array_getTop(&a[w], y);
			SHOULD(e == (len[w] ? dl_error_ok : dl_error_bufferUnderflow), "getTop of %zu gave %d", len[w], e);
			if (!e) SHOULD(!memcmp(y, top - es, es), "getTop gave another element");
			break;
		case 10:
			e = dl_array_setTop(&a[w], x);
			SHOULD(e == (len[w] ? dl_error_ok : dl_error_bufferUnderflow), "setTop of %zu gave %d", len[w], e);
			if (!e) memcpy(top - es, x, es);
			break;
		case 11: case 12:
			e = dl_array_get(&a[w], y, below(9) ? (dl_ptrdiff_t) i : -1 - (dl_ptrdiff_t) i);
			f = dl_array_get(&a[w], y, (dl_ptrdiff_t) i);
			SHOULD(f == (i < len[w] ? dl_error_ok : dl_error_invalidValue), "get %zu of %zu gave %d", i, len[w], f);
			SHOULD(dl_array_get(&a[w], x, -1 - (dl_ptrdiff_t) i) == dl_error_invalidValue, "get of a negative index did not fail");
			if (!f) SHOULD(!memcmp(y, model[w] + i * es, es), "get %zu gave another element", i);
			(void) e;
			break;
		case 13:
			e = dl_array_set(&a[w], x, (dl_ptrdiff_t) i);
			SHOULD(e == (i < len[w] ? dl_error_ok : dl_error_invalidValue), "set %zu of %zu gave %d", i, len[w], e);
			SHOULD(dl_array_set(&a[w], y, -1 - (dl_ptrdiff_t) i) == dl_error_invalidValue, "set of a negative index did not fail");
			if (!e) memcpy(model[w] + i * es, x, es);
			break;
		case 14:
			if (below(6)) break;
			e = dl_array_clear(&a[w]);
			SHOULD(!e, "clear failed");
			len[w] = 0;
			break;
		case 15:
			if (len[0] + len[1] > CAP) break;
			if (below(3)) {
				if (!len[1 - w]) break;
				e = dl_array_append(&a[w], &a[1 - w]);
				SHOULD(!e || faults, "append failed");
				if (!e) { memcpy(top, model[1 - w], len[1 - w] * es); len[w] += len[1 - w]; } else nfail++;
			}
			else if (!faults && len[1 - w]) {
				e = dl_array_copy(&a[w], a[1 - w]);
				SHOULD(!e, "copy failed");
				memcpy(model[w], model[1 - w], len[1 - w] * es);
				len[w] = len[1 - w];
				SHOULD(a[0].elements != a[1].elements, "a copy of an array shares its elements");
				if (nviol) return;
			}
			break;
		}
		faultIn = 0;
		for (int j = 0; j < 2; j++) {
			SHOULD(a[j].elements_length == len[j], "length is %zu, the model has %zu", (size_t) a[j].elements_length, len[j]);
			SHOULD(a[j].elements_length == len[j] && (!len[j] || !memcmp(a[j].elements, model[j], len[j] * es)), "elements differ from the model's (%zu of size %zu)", len[j], es);
		}
	}
	for (int j = 0; j < 2 && !nviol; j++) SHOULD(!dl_array_quit(&a[j]), "quit failed");
	SHOULD(nviol || live == 0, "%ld allocations are left", live);
	free(mem);
}

/* ------------------------------------------------------------------ tries */
typedef struct { unsigned char k[40]; size_t n; dl_ptrdiff_t v; int set; } key;
static void tries(long n, int faults, int alphabet) {
	enum { MAX = 400 };
	static key ks[MAX];
	size_t nk = 0;
	dl_memoryAllocation_t m;
	memset(&m, 0, sizeof(m));
	unsigned char *mem = malloc(4000000);
#ifdef USE_DUCKLIB_MALLOC
	if (dl_memory_init(&m, mem, 4000000, dl_memoryFit_best)) { VIOL("pool refused"); return; }
#endif
	dl_trie_t t;
	dl_ptrdiff_t null = below(2) ? -1 : (dl_ptrdiff_t) below(1000);
	dl_trie_init(&t, &m, null);
	int nullUncertain = 0;
	for (long k = 0; k < n && nk < MAX && !nviol; k++) {
		nops++;
		key x;
		memset(&x, 0, sizeof(x));
		/* New keys grow out of old ones, so that they share prefixes, and end inside of others. */
		if (nk && below(3)) {
			x = ks[below(nk)];
			if (below(2)) x.n = below(x.n + 1);
			size_t add = below(4);
			for (size_t i = 0; i < add && x.n < sizeof(x.k); i++) x.k[x.n++] = (unsigned char) (alphabet == 256 ? rnd() : 'a' + below(alphabet));
			if (x.n && below(4) == 0) x.k[below(x.n)] = (unsigned char) (alphabet == 256 ? rnd() : 'a' + below(alphabet));
		}
		else {
			x.n = below(9) ? 1 + below(8) : 0;
			for (size_t i = 0; i < x.n; i++) x.k[i] = (unsigned char) (alphabet == 256 ? rnd() : 'a' + below(alphabet));
		}
		dl_ptrdiff_t v = (dl_ptrdiff_t) below(100000);
		unsigned char *copy = malloc(x.n ? x.n : 1);   /* of exactly this size, and gone after the insertion */
		memcpy(copy, x.k, x.n);
		if (faults && below(2)) faultIn = 1 + (long) below(9);
		dl_error_t e = dl_trie_insert(&t, copy, x.n, v);
		faultIn = 0;
		memset(copy, 0xAA, x.n ? x.n : 1);
		free(copy);
		SHOULD(!e || faults, "insertion failed");
		if (e) nfail++;
		size_t i = 0;
		while (i < nk && !(ks[i].n == x.n && !memcmp(ks[i].k, x.k, x.n))) i++;
		if (x.n == 0) { if (!e) null = v, nullUncertain = 0; }
		else {
			if (i == nk) { ks[nk] = x; ks[nk].set = 0; ks[nk].v = -1; nk++; }
			if (!e) { ks[i].v = v; ks[i].set = 1; }
			else {
				/* It is there or not, but nothing else. */
				dl_ptrdiff_t got;
				dl_trie_find(t, &got, x.k, x.n);
				SHOULD(got == ks[i].v || got == v, "after a failed insertion the key has the value %zd", (ssize_t) got);
				ks[i].v = got;
			}
		}
		int all = below(8) == 0 || e || nk < 30;
		for (size_t j = 0; j < (all ? nk : 30); j++) {
			size_t q = all ? j : below(nk);
			dl_ptrdiff_t got = -7;
			dl_trie_find(t, &got, ks[q].k, ks[q].n);
			SHOULD(got == ks[q].v, "key %zu of length %zu has the value %zd, the model has %zd", q, ks[q].n, (ssize_t) got, (ssize_t) ks[q].v);
			/* Prefixes and extensions that were not inserted. */
			key y = ks[q];
			if (below(2) && y.n) y.n = below(y.n);
			else if (y.n < sizeof(y.k)) y.k[y.n++] = (unsigned char) (alphabet == 256 ? rnd() : 'a' + below(alphabet));
			dl_ptrdiff_t want = y.n ? -1 : null;
			for (size_t z = 0; z < nk && y.n; z++) if (ks[z].n == y.n && !memcmp(ks[z].k, y.k, y.n)) want = ks[z].v;
			dl_trie_find(t, &got, y.k, y.n);
			SHOULD(got == want, "key of length %zu has the value %zd, the model has %zd", y.n, (ssize_t) got, (ssize_t) want);
		}
		(void) nullUncertain;
	}
	if (!nviol && below(3) == 0) {
		dl_array_t s;
		dl_array_init(&s, &m, 1, dl_array_strategy_double);
		SHOULD(!dl_trie_prettyPrint(&s, t), "printing failed");
		SHOULD(s.elements_length > 10, "nothing was printed");
		dl_array_quit(&s);
	}
	if (!nviol) SHOULD(!dl_trie_quit(&t), "quit failed");
	SHOULD(nviol || live == 0, "%ld allocations are left", live);
	free(mem);
}

/* ------------------------------------------------------------------ sorts */
typedef struct { int64_t key; uint32_t id; } item;
static int sortContext, badContext;
static long ncmp;
static size_t keysize;
static int cmp(const void *l, const void *r, const void *context) {
	int64_t a = 0, b = 0;
	ncmp++;
	if (context != &sortContext) badContext++;
	if (keysize == 1) a = *(const unsigned char *) l, b = *(const unsigned char *) r;
	else memcpy(&a, l, 8), memcpy(&b, r, 8);
	return a < b ? -1 : a > b;
}
static int qcmp(const void *l, const void *r) { return cmp(l, r, &sortContext); }
static int bytescmp(const void *l, const void *r) { return memcmp(l, r, keysize); }

static struct { unsigned char *a; size_t n; int algo; } S;
static void *sorter(void *unused) {
	(void) unused;
	if (S.algo == 0) heapsort(S.a, S.n, keysize, cmp, &sortContext);
	else if (S.algo == 1) quicksort_lomuto(S.a, S.n, keysize, 0, (dl_ptrdiff_t) S.n - 1, cmp, &sortContext);
	else quicksort_hoare(S.a, S.n, keysize, 0, (dl_ptrdiff_t) S.n - 1, cmp, &sortContext);
	return NULL;
}

static void sorts(size_t n, int algo, int shape, size_t size) {
	keysize = size;
	unsigned char *a = malloc(n * size + 1), *want = malloc(n * size + 1), *orig;
	for (size_t i = 0; i < n; i++) {
		int64_t k;
		switch (shape) {
		case 0: k = (int64_t) rnd(); break;
		case 1: k = (int64_t) i; break;
		case 2: k = -(int64_t) i; break;
		case 3: k = 7; break;
		case 4: k = (int64_t) (i < n / 2 ? i : n - i); break;      /* organ pipe */
		case 5: k = (int64_t) below(3); break;
		case 6: k = (int64_t) (i < n / 2 ? n - i : i); break;
		case 7: k = (int64_t) (i ^ 1); break;
		default: k = below(2) ? INT64_MIN + (int64_t) below(2) : INT64_MAX - (int64_t) below(2); break;
		}
		for (size_t j = 0; j < size; j++) a[i * size + j] = (unsigned char) rnd();
		if (size == 1) a[i] = (unsigned char) k;
		else memcpy(a + i * size, &k, 8);
	}
	orig = malloc(n * size + 1);
	memcpy(orig, a, n * size);
	memcpy(want, a, n * size);
	qsort(want, n, size, qcmp);
	S.a = a; S.n = n; S.algo = algo;
	badContext = 0;
	/* On a stack that has room for a logarithmic depth. */
	pthread_t th;
	pthread_attr_t at;
	pthread_attr_init(&at);
	pthread_attr_setstacksize(&at, 256 * 1024);
	if (pthread_create(&th, &at, sorter, NULL)) sorter(NULL);
	else pthread_join(th, NULL);
	nops++;
	SHOULD(!badContext, "the comparison got another context");
	for (size_t i = 0; i < n; i++) SHOULD(cmp(a + i * size, want + i * size, &sortContext) == 0, "element %zu of %zu is not the one that belongs there (shape %d)", i, n, shape);
	/* The same elements. */
	if (n > 1) {
		qsort(a, n, size, bytescmp);
		qsort(orig, n, size, bytescmp);
	}
	SHOULD(!memcmp(a, orig, n * size), "the elements are not the ones that were to be sorted");
	free(a); free(want); free(orig);
}

/* ------------------------------------------------------------------ conversions */
static void conversions(long n) {
	dl_memoryAllocation_t m;
	memset(&m, 0, sizeof(m));
	unsigned char *mem = malloc(100000);
#ifdef USE_DUCKLIB_MALLOC
	if (dl_memory_init(&m, mem, 100000, dl_memoryFit_best)) { VIOL("pool refused"); return; }
#endif
	for (int c = 0; c < 256; c++) {
		SHOULD(dl_string_isDigit((dl_uint8_t) c) == (c >= '0' && c <= '9'), "isDigit(%d)", c);
		SHOULD(dl_string_isHexadecimalDigit((dl_uint8_t) c) == ((c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F')), "isHexadecimalDigit(%d)", c);
		SHOULD(dl_string_isAlpha((dl_uint8_t) c) == ((c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z')), "isAlpha(%d)", c);
		SHOULD(dl_nybbleToHexChar((dl_uint8_t) c) == "0123456789ABCDEF"[c & 15], "nybbleToHexChar(%d)", c);
	}
	for (long k = 0; k < n && !nviol; k++) {
		nops++;
		char s[600];
		size_t len = 0;
		dl_array_t a;
		dl_array_init(&a, &m, 1, below(2) ? dl_array_strategy_double : dl_array_strategy_fit);
		static const int64_t edge[] = {0, 1, -1, 9, 10, -10, 255, 256, INT64_MAX, INT64_MIN, INT64_MAX - 1, INT64_MIN + 1, 1000000000000000000ll, -999999999999999999ll, INT32_MIN, 4294967296ll};
		int64_t v = below(3) ? (int64_t) (rnd() >> below(64)) * (below(2) ? 1 : -1) : edge[below(sizeof(edge) / sizeof(*edge))];
		/* Integers to text and back. */
		dl_ptrdiff_t got;
		SHOULD(!dl_string_fromPtrdiff(&a, v), "fromPtrdiff failed");
		snprintf(s, sizeof(s), "%lld", (long long) v);
		SHOULD(a.elements_length == strlen(s) && !memcmp(a.elements, s, strlen(s)), "fromPtrdiff(%s)", s);
		unsigned char *exact = malloc(a.elements_length);
		memcpy(exact, a.elements, a.elements_length);
		dl_error_t e = dl_string_toPtrdiff(&got, exact, a.elements_length);
		SHOULD(!e && got == v, "toPtrdiff(%s) gave %lld, error %d", s, (long long) got, e);
		free(exact);
		/* It is appended to what is there. */
		size_t before = a.elements_length;
		SHOULD(!dl_string_fromSize(&a, (dl_size_t) v), "fromSize failed");
		snprintf(s, sizeof(s), "%llu", (unsigned long long) v);
		SHOULD(a.elements_length == before + strlen(s) && !memcmp((char *) a.elements + before, s, strlen(s)), "fromSize(%s)", s);
		before = a.elements_length;
		SHOULD(!dl_string_fromUint8(&a, (dl_uint8_t) v), "fromUint8 failed");
		snprintf(s, sizeof(s), "%u", (unsigned) (uint8_t) v);
		SHOULD(a.elements_length == before + strlen(s) && !memcmp((char *) a.elements + before, s, strlen(s)), "fromUint8(%s)", s);
		before = a.elements_length;
		SHOULD(!dl_string_fromBool(&a, v & 1), "fromBool failed");
		dl_bool_t bool_;
		e = dl_string_toBool(&bool_, (dl_uint8_t *) a.elements + before, a.elements_length - before);
		SHOULD(!e && (bool_ != 0) == (v & 1), "toBool(fromBool(%d))", (int) (v & 1));
		SHOULD(!dl_array_quit(&a), "quit failed");
		/* Text that may or may not be an integer. */
		int hex = below(3) == 0;
		len = 0;
		if (below(4) == 0) s[len++] = '-';
		if (hex) { s[len++] = '0'; s[len++] = below(2) ? 'x' : 'X'; }
		size_t digits = below(4) ? 1 + below(8) : below(25);
		const char *ds = hex ? "0123456789abcdefABCDEF" : "0123456789";
		for (size_t i = 0; i < digits; i++) s[len++] = ds[below(hex ? 22 : 10)];
		if (below(6) == 0 && len) s[below(len)] = "x-gG /:@`.e\0"[below(12)];
		/* The model. */
		unsigned __int128 acc = 0;
		size_t i = 0, nd = 0;
		int neg = 0, bad = 0, isHex = 0;
		if (i < len && s[i] == '-') neg = 1, i++;
		if (i >= len || !(s[i] >= '0' && s[i] <= '9')) bad = 1;
		if (!bad && s[i] == '0' && i + 1 < len && (s[i + 1] == 'x' || s[i + 1] == 'X')) isHex = 1, i += 2;
		for (; i < len && !bad; i++, nd++) {
			int c = (unsigned char) s[i], d = c >= '0' && c <= '9' ? c - '0' : isHex && c >= 'a' && c <= 'f' ? c - 'a' + 10 : isHex && c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1;
			if (d < 0) { bad = 1; break; }
			acc = acc * (isHex ? 16 : 10) + (unsigned) d;
			if (acc > ((unsigned __int128) 1 << 64)) acc = (unsigned __int128) 1 << 64;
		}
		if (!bad && acc > (neg ? (unsigned __int128) 1 << 63 : (((unsigned __int128) 1 << 63) - 1))) bad = 1;
		exact = malloc(len ? len : 1);
		memcpy(exact, s, len);
		if (isHex && nd == 0 && !bad) { (void) dl_string_toPtrdiff(&got, exact, len); }  /* "0x" is not specified */
		else {
			e = dl_string_toPtrdiff(&got, exact, len);
			SHOULD(!e == !bad, "toPtrdiff(%.*s) gave error %d", (int) len, s, e);
			if (!e && !bad) SHOULD(got == (neg ? (dl_ptrdiff_t) (0 - (uint64_t) acc) : (dl_ptrdiff_t) acc), "toPtrdiff(%.*s) gave %lld", (int) len, s, (long long) got);
		}
		free(exact);
		/* Decimal fractions. */
		len = 0;
		if (below(4) == 0) s[len++] = '-';
		size_t a1 = below(4) ? below(10) : below(40), a2 = below(4) ? below(10) : below(300);
		int dot = below(4) != 0, ex = below(3) == 0, x = (int) below(below(4) ? 20 : 330);
		for (size_t j = 0; j < a1; j++) s[len++] = (char) ('0' + below(10));
		if (dot) s[len++] = '.';
		for (size_t j = 0; dot && j < a2; j++) s[len++] = (char) ('0' + below(10));
		if (ex) len += (size_t) sprintf(s + len, "%c%s%d", below(2) ? 'e' : 'E', below(2) ? "-" : "", x);
		s[len] = 0;
		int valid = a1 > 0 || (dot && a2 > 0);
		if (below(8) == 0 && len) { size_t at = below(len); char old = s[at]; s[at] = "x+- ,"[below(5)]; if (s[at] != old && !(s[at] == '-')) valid = 0; else s[at] = old; }
		exact = malloc(len ? len : 1);
		memcpy(exact, s, len);
		double d = 0;
		e = dl_string_toDouble(&d, exact, len);
		free(exact);
		SHOULD(!e == valid, "toDouble(%s) gave error %d", s, e);
		if (valid && !e) {
			double w = strtod(s, NULL);
			/* The exponent is applied in steps, each of which rounds. */
			double tol = fabs(w) * (2.3e-16 * (double) (a1 + a2 + 3) + 4e-16 * (ex ? x : 0)) + 1e-300;
			int extreme = w != 0 && (fabs(w) < 1e-280 || fabs(w) > 1e290);
			if (!ex && a1 + (dot ? a2 : 0) <= 15) tol = 0;
			if (!extreme) SHOULD(fabs(d - w) <= tol && (w != 0 || d == 0), "toDouble(%s) gave %.17g, should be %.17g", s, d, w);
		}
		/* Memory primitives with overlap. */
		unsigned char buf[64], ref[64];
		for (int j = 0; j < 64; j++) buf[j] = ref[j] = (unsigned char) rnd();
		size_t from = below(40), to = below(40), cnt = below(24);
		dl_memcopy(buf + to, buf + from, cnt);
		memmove(ref + to, ref + from, cnt);
		SHOULD(!memcmp(buf, ref, 64), "dl_memcopy(+%zu, +%zu, %zu)", to, from, cnt);
		dl_memclear(buf + from, cnt);
		memset(ref + from, 0, cnt);
		SHOULD(!memcmp(buf, ref, 64), "dl_memclear(+%zu, %zu)", from, cnt);
		dl_bool_t same;
		if (below(2)) memcpy(buf + 32, buf, 32);
		if (below(2)) buf[32 + below(32)] ^= (unsigned char) (1 << below(8));
		size_t l1 = below(32), l2 = below(3) ? l1 : below(32);
		dl_string_compare(&same, buf, l1, buf + 32, l2);
		SHOULD((same != 0) == (l1 == l2 && !memcmp(buf, buf + 32, l1)), "dl_string_compare");
		dl_string_compare_partial(&same, buf, buf + 32, l1);
		SHOULD((same != 0) == !memcmp(buf, buf + 32, l1), "dl_string_compare_partial");
		s[l1] = 0;
		memset(s, 'x', l1);
		dl_size_t sl;
		dl_strlen(&sl, (dl_uint8_t *) s);
		SHOULD(sl == l1, "dl_strlen");
	}
	SHOULD(nviol || live == 0, "%ld allocations are left", live);
	free(mem);
}

static void onTimer(int sig) {
	(void) sig;
	static const char t[] = "TIMEOUT\n";
	if (write(1, t, sizeof(t) - 1) < 0) _exit(77);
	_exit(77);
}

int main(int argc, char **argv) {
	out = stdout;
	if (argc != 2) return 2;
	FILE *f = fopen(argv[1], "r");
	if (!f) return 2;
	signal(SIGPROF, onTimer);
	char line[4096];
	while (fgets(line, sizeof(line), f)) {
		if (strncmp(line, "CASE ", 5)) continue;
		char id[64], kind[32] = "";
		long seed = 1, n = 100, a = 0, b = 0, c = 0, cpu = 20;
		char *p = strtok(line + 5, " \n");
		snprintf(id, sizeof(id), "%s", p);
		while ((p = strtok(NULL, " \n"))) {
			char *v = strchr(p, '=');
			if (!v) continue;
			*v++ = 0;
			if (!strcmp(p, "kind")) snprintf(kind, sizeof(kind), "%s", v);
			else if (!strcmp(p, "seed")) seed = atol(v);
			else if (!strcmp(p, "n")) n = atol(v);
			else if (!strcmp(p, "a")) a = atol(v);
			else if (!strcmp(p, "b")) b = atol(v);
			else if (!strcmp(p, "c")) c = atol(v);
			else if (!strcmp(p, "cpu")) cpu = atol(v);
		}
		fprintf(out, "BEGIN %s\n", id);
		fflush(out);
		struct itimerval tv = {{0, 0}, {cpu, 0}};
		setitimer(ITIMER_PROF, &tv, NULL);
		rs = (uint64_t) seed * 0x2545F4914F6CDD1Dull;
		nviol = nops = nfail = nchecks = nmalloc = ncmp = live = faultIn = 0;
		if (!strcmp(kind, "allocator")) allocator(n, (size_t) a, (int) b, (int) c);
		else if (!strcmp(kind, "arrays")) arrays(n, (int) a);
		else if (!strcmp(kind, "tries")) tries(n, (int) a, (int) b);
		else if (!strcmp(kind, "sorts")) sorts((size_t) n, (int) a, (int) b, (size_t) c);
		else if (!strcmp(kind, "conversions")) conversions(n);
		else return 2;
		fprintf(out, "STAT steps=%ld faulthits=%ld checks=%ld mallocs=%ld\n", nops, nfail, nchecks, nmalloc);
		fprintf(out, "END\n");
		fflush(out);
	}
	return 0;
}
