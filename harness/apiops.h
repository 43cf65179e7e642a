/* Scripts of operations of the C interface, run from the host or from inside a callback. Every operation is logged with
   whether it failed and what it returned, and then the part of the stack that belongs to the script. */

static dl_size_t newTypes[256];
static unsigned newTypes_length;

static void printType(size_t t) {
	for (unsigned k = 0; k < newTypes_length; k++) {
		if (newTypes[k] == t) { fprintf(out, "N%u", k); return; }
	}
	fprintf(out, "T%zu", t);
}

static size_t readType(const char *s) {
	if (s[0] == 'n') return newTypes[(unsigned) atoi(s + 1) % 256];
	return strtoull(s, NULL, 10);
}

static size_t readHex(unsigned char *to, const char *s, size_t cap) {
	size_t n = 0;
	for (; s[0] && s[1] && n < cap; s += 2) {
		unsigned x = 0;
		if (sscanf(s, "%2x", &x) != 1) break;
		to[n++] = (unsigned char) x;
	}
	return n;
}

static dl_ptrdiff_t readIndex(const char *s, dl_size_t base) {
	if (s[0] == '@') return (dl_ptrdiff_t) base + strtoll(s + 1, NULL, 10);
	return strtoll(s, NULL, 10);
}

static dl_ptrdiff_t readKey(const char *s) {
	if ((s[0] >= '0' && s[0] <= '9') || s[0] == '-') return strtoll(s, NULL, 10);
	return duckLisp_symbol_nameToValue(&dl, (const dl_uint8_t *) s, strlen(s));
}

typedef struct { const char *name; dl_error_t (*f)(duckVM_t *); } apiPlain_t;
static const apiPlain_t apiPlain[] = {
	{"pop", duckVM_pop}, {"bool", duckVM_pushBoolean}, {"int", duckVM_pushInteger}, {"float", duckVM_pushFloat},
	{"newtype", duckVM_pushNewType}, {"compval", duckVM_pushCompositeValue}, {"compfn", duckVM_pushCompositeFunction},
	{"nil", duckVM_pushNil}, {"cons", duckVM_pushCons}, {"car", duckVM_pushCar}, {"first", duckVM_pushFirst},
	{"cdr", duckVM_pushCdr}, {"rest", duckVM_pushRest}, {"gc", duckVM_garbageCollect},
};
typedef struct { const char *name; dl_error_t (*f)(duckVM_t *, dl_bool_t *); } apiIs_t;
static const apiIs_t apiIs[] = {
	{"none", duckVM_isNone}, {"bool", duckVM_isBoolean}, {"int", duckVM_isInteger}, {"float", duckVM_isFloat}, {"string", duckVM_isString},
	{"symbol", duckVM_isSymbol}, {"type", duckVM_isType}, {"composite", duckVM_isComposite}, {"list", duckVM_isList},
	{"nil", duckVM_isNil}, {"cons", duckVM_isCons}, {"vector", duckVM_isVector}, {"closure", duckVM_isClosure},
	{"user", duckVM_isUser}, {"empty", duckVM_isEmpty}, {"getbool", duckVM_copyBoolean}, {"clovar", duckVM_copyClosureIsVariadic},
};
typedef struct { const char *name; dl_error_t (*f)(duckVM_t *, dl_ptrdiff_t); } apiIndex_t;
static const apiIndex_t apiIndex[] = {
	{"push", duckVM_push}, {"cft", duckVM_copyFromTop}, {"setcompval", duckVM_setCompositeValue}, {"setcompfn", duckVM_setCompositeFunction},
	{"setcar", duckVM_setCar}, {"setfirst", duckVM_setFirst}, {"setcdr", duckVM_setCdr}, {"setrest", duckVM_setRest},
};
typedef struct { const char *name; dl_error_t (*f)(duckVM_t *, dl_size_t *); } apiSize_t;
static const apiSize_t apiSize[] = {
	{"getuint", duckVM_copyUnsignedInteger}, {"symid", duckVM_copySymbolId}, {"length", duckVM_length},
};

/* Nonzero if the script's caller has to fail. */
static dl_error_t apiScript(duckVM_t *vm, char *text, dl_size_t base) {
	char *next;
	for (char *ln = text; ln && *ln; ln = next) {
		next = strchr(ln, '\n');
		if (next) *next++ = 0;
		char op[16] = "", a[2100] = "", b[32] = "";
		if (sscanf(ln, "%15s %2099s %31s", op, a, b) < 1) continue;
		dl_error_t e = dl_error_ok;
		char ret[2200] = "";
		unsigned char buf[1024];
		int found = 0;
		for (size_t k = 0; k < sizeof apiPlain / sizeof *apiPlain; k++)
			if (!strcmp(op, apiPlain[k].name)) {
				found = 1;
				e = apiPlain[k].f(vm);
				if (!strcmp(op, "newtype") && !e) {
					dl_size_t t = 0;
					e = duckVM_copyType(vm, &t);
					if (t < duckVM_object_type_last) monitorFail("a new type has the number of a built-in one");
					if (newTypes_length < 256) newTypes[newTypes_length++] = t;
				}
			}
		for (size_t k = 0; k < sizeof apiIndex / sizeof *apiIndex; k++)
			if (!strcmp(op, apiIndex[k].name)) { found = 1; e = apiIndex[k].f(vm, readIndex(a, base)); }
		for (size_t k = 0; k < sizeof apiSize / sizeof *apiSize; k++)
			if (!strcmp(op, apiSize[k].name)) {
				dl_size_t x = 0;
				found = 1;
				e = apiSize[k].f(vm, &x);
				if (!e) snprintf(ret, sizeof ret, "%zu", (size_t) x);
			}
		for (size_t k = 0; k < sizeof apiIs / sizeof *apiIs; k++)
			if (!strcmp(!strcmp(op, "is") ? a : op, apiIs[k].name) && ((k < 15) == !strcmp(op, "is"))) {
				dl_bool_t x = 7;
				found = 1;
				e = apiIs[k].f(vm, &x);
				if (!e) snprintf(ret, sizeof ret, "%d", (int) x);
			}
		if (found) ;
		else if (!strcmp(op, "popn")) e = duckVM_popSeveral(vm, strtoull(a, NULL, 10));
		else if (!strcmp(op, "len")) snprintf(ret, sizeof ret, "%zd", (ptrdiff_t) duckVM_stackLength(vm) - (ptrdiff_t) base);
		else if (!strcmp(op, "typeof")) { duckVM_object_type_t t = 0; e = duckVM_typeOf(vm, &t); if (!e) snprintf(ret, sizeof ret, "%d", (int) t); }
		else if (!strcmp(op, "setbool")) e = duckVM_setBoolean(vm, atoi(a) ? dl_true : dl_false);
		else if (!strcmp(op, "setint")) e = duckVM_setInteger(vm, strtoll(a, NULL, 10));
		else if (!strcmp(op, "getint")) { dl_ptrdiff_t x = 0; e = duckVM_copySignedInteger(vm, &x); if (!e) snprintf(ret, sizeof ret, "%td", x); }
		else if (!strcmp(op, "setfloat")) e = duckVM_setFloat(vm, strtod(a, NULL));
		else if (!strcmp(op, "getfloat")) { double x = 0; e = duckVM_copyFloat(vm, &x); if (!e) { if (isnan(x)) strcpy(ret, "nan"); else snprintf(ret, sizeof ret, "%a", x); } }
		else if (!strcmp(op, "str") || !strcmp(op, "sym")) {
			/* The VM copies it; the host's bytes are gone afterwards. */
			size_t n = readHex(buf, !strcmp(op, "str") ? a : b, sizeof buf);
			unsigned char *s = malloc(n ? n : 1);
			memcpy(s, buf, n);
			e = !strcmp(op, "str") ? duckVM_pushString(vm, s, n) : duckVM_pushSymbol(vm, strtoull(a, NULL, 10), s, n);
			free(s);
		}
		else if (!strcmp(op, "csym")) e = duckVM_pushCompressedSymbol(vm, strtoull(a, NULL, 10));
		else if (!strcmp(op, "getstr") || !strcmp(op, "symname")) {
			dl_uint8_t *s = NULL;
			dl_size_t n = 12345;
			e = !strcmp(op, "getstr") ? duckVM_copyString(vm, &s, &n) : duckVM_copySymbolName(vm, &s, &n);
			if (!e) {
				strcpy(ret, "x");
				for (size_t k = 0; k < n && k < 1000; k++) sprintf(ret + 1 + 2 * k, "%02x", s[k]);
				if (s) e = dl_free(&ma, (void **) &s);
				if (e) monitorFail("the copy of a string can't be freed");
			}
		}
		else if (!strcmp(op, "type")) e = duckVM_pushExistingType(vm, readType(a));
		else if (!strcmp(op, "comp")) e = duckVM_pushComposite(vm, readType(a));
		else if (!strcmp(op, "gettype") || !strcmp(op, "comptype")) {
			dl_size_t t = 0;
			e = !strcmp(op, "gettype") ? duckVM_copyType(vm, &t) : duckVM_copyCompositeType(vm, &t);
			if (!e) { fprintf(out, "O= "); printType(t); fputc('\n', out); }
		}
		else if (!strcmp(op, "vec")) e = duckVM_pushVector(vm, strtoull(a, NULL, 10));
		else if (!strcmp(op, "cloarity")) { dl_uint8_t x = 0; e = duckVM_copyClosureArity(vm, &x); if (!e) snprintf(ret, sizeof ret, "%u", x); }
		else if (!strcmp(op, "cloname")) { dl_ptrdiff_t x = -1; e = duckVM_copyClosureName(vm, &x); if (!e && x < 0) monitorFail("negative closure name"); }
		else if (!strcmp(op, "clobc")) {
			e = duckVM_pushClosureBytecode(vm);
			if (!e) {
				dl_bool_t is = dl_false;
				duckVM_object_t *o = NULL;
				(void) top(vm, &o);
				is = o->type == duckVM_object_type_bytecode;
				if (!is) monitorFail("pushClosureBytecode did not push bytecode");
				e = duckVM_pop(vm);
			}
		}
		else if (!strcmp(op, "elem")) e = duckVM_pushElement(vm, strtoll(a, NULL, 10));
		else if (!strcmp(op, "setelem")) e = duckVM_setElement(vm, strtoll(a, NULL, 10), readIndex(b, base));
		else if (!strcmp(op, "gpush")) e = duckVM_pushGlobal(vm, readKey(a));
		else if (!strcmp(op, "gset")) e = duckVM_setGlobal(vm, readKey(a));
		else if (!strcmp(op, "call")) e = duckVM_call(vm, readIndex(a, base), (dl_uint8_t) atoi(b));
		else if (!strcmp(op, "reset")) e = duckVM_softReset(vm);
		else if (!strcmp(op, "fail")) { fprintf(out, "O fail\n"); return dl_error_invalidValue; }
		else { fprintf(out, "O unknown %s\n", op); continue; }
		fprintf(out, "O %s %d %s\n", op, e ? 1 : 0, ret);
		fprintf(out, "K");
		if (vm->stack.elements_length != vm->upvalue_stack.elements_length) fputs(" #UNBALANCED", out);
		for (dl_size_t k = base; k < vm->stack.elements_length; k++) {
			fputc(' ', out);
			nodeBudget = 80;
			printValue(&((duckVM_object_t *) vm->stack.elements)[k], 0);
		}
		fputc('\n', out);
	}
	return dl_error_ok;
}

/* Scripts for the next invocations of the callback. */
#define NSCRIPT 4096
static char *apiQueue[NSCRIPT];
static unsigned apiQueue_first, apiQueue_end;

static void apiClear(void) {
	while (apiQueue_first < apiQueue_end) free(apiQueue[apiQueue_first++]);
	apiQueue_first = apiQueue_end = 0;
	newTypes_length = 0;
}

static char *copyText(const unsigned char *blob, size_t len) {
	char *t = malloc(len + 1);
	memcpy(t, blob, len);
	t[len] = 0;
	return t;
}

/* (cb-api x): the script finds the argument on top of the stack and leaves one value in its place. */
static dl_error_t cb_api(duckVM_t *vm) {
	if (apiQueue_first == apiQueue_end || vm != hostVm) return dl_error_ok;
	char *t = apiQueue[apiQueue_first++];
	dl_size_t base = duckVM_stackLength(vm) - 1;
	dl_error_t e = apiScript(vm, t, base);
	free(t);
	return e;
}

static void apiQueueAdd(const unsigned char *blob, size_t len) {
	if (apiQueue_end < NSCRIPT) apiQueue[apiQueue_end++] = copyText(blob, len);
}

static void apiOp(const unsigned char *blob, size_t len) {
	char *t = copyText(blob, len);
	size_t frames = hostVm->call_stack.elements_length;
	dl_error_t e = apiScript(hostVm, t, 0);
	if (e) fprintf(out, "O error\n");
	if (hostVm->call_stack.elements_length != frames) monitorFail("call stack changed by host operations");
	free(t);
	reportErrors("E", &hostVm->errors);
}
