/* Decoder of bytecode, and monitors of its execution.

   The table says what each instruction's operands are; everything else follows from it: instruction boundaries, targets of
   jumps, branches and closures, what an instruction may touch on the stack and in the upvalue array, where execution goes
   next, and how the disassembler has to print it. W is the operand width of the variant (1, 2 or 4 bytes).

   Operands: i stack index (W), g global (W), u upvalue index (W), j jump distance (W), p pops (1 byte), a argument count
   (1 byte), A arity and following captures (1 byte, 4 bytes, 4 bytes each), n pops (W), r pops of return (W),
   S string (length W, bytes), Y symbol (number W, length W, bytes), I number (W), E number (8 bytes), F float (8 bytes),
   V several stack indices (count W, W each), c key of a callback (W). */

typedef struct { unsigned char op, width; const char *name, *fmt; } opInfo_t;
#define W1(op, name, fmt) {duckLisp_instruction_##op, 0, name, fmt}
#define W3(op, name, fmt) {duckLisp_instruction_##op##8, 1, name ".8", fmt}, {duckLisp_instruction_##op##16, 2, name ".16", fmt}, \
	{duckLisp_instruction_##op##32, 4, name ".32", fmt}
static const opInfo_t opTable[] = {
	W1(nop, "nop", ""), W1(pushBooleanFalse, "false", ""), W1(pushBooleanTrue, "true", ""), W1(makeType, "makeType", ""),
	W1(return0, "return.0", "R"), W1(halt, "halt", ""), W1(nil, "nil", ""), W1(pushDoubleFloat, "double-float", "F"),
	W1(pushInteger64, "integer.64", "E"),
	W3(pushString, "string", "S"), W3(pushSymbol, "symbol", "Y"), W3(pushStrippedSymbol, "stripped-symbol", "I"),
	W3(pushInteger, "integer", "I"), W3(pushIndex, "index", "i"), W3(pushUpvalue, "upvalue", "u"),
	W3(pushClosure, "closure", "jA"), W3(pushVaClosure, "variadic-closure", "jA"), W3(pushGlobal, "global", "g"),
	W3(setUpvalue, "set-upvalue", "ui"), W3(setGlobal, "set-global", "ig"), W3(releaseUpvalues, "release-upvalues", "V"),
	W3(funcall, "funcall", "ia"), W3(apply, "apply", "ia"), W3(ccall, "c-call", "c"),
	W3(jump, "jump", "j"), W3(brz, "brz", "jp"), W3(brnz, "brnz", "jp"), W3(move, "move", "ii"), W3(not, "not", "i"),
	W3(mul, "mul", "ii"), W3(div, "div", "ii"), W3(add, "add", "ii"), W3(sub, "sub", "ii"), W3(equal, "equal", "ii"),
	W3(greater, "greater", "ii"), W3(less, "less", "ii"), W3(cons, "cons", "ii"), W3(vector, "vector", "V"),
	W3(makeVector, "makeVector", "ii"), W3(getVecElt, "getVecElt", "ii"), W3(setVecElt, "setVecElt", "iii"), W3(car, "car", "i"),
	W3(cdr, "cdr", "i"), W3(setCar, "setCar", "ii"), W3(setCdr, "setCdr", "ii"), W3(nullp, "null?", "i"), W3(typeof, "typeof", "i"),
	W3(makeInstance, "makeInstance", "iii"), W3(compositeValue, "compositeValue", "i"), W3(compositeFunction, "compositeFunction", "i"),
	W3(setCompositeValue, "setCompositeValue", "ii"), W3(setCompositeFunction, "setCompositeFunction", "ii"), W3(makeString, "makeString", "i"),
	W3(concatenate, "concatenate", "ii"), W3(substring, "substring", "iii"), W3(length, "length", "i"), W3(symbolString, "symbolString", "i"),
	W3(symbolId, "symbolId", "i"), W3(pop, "pop", "n"), W3(return, "return", "r"),
};
static const opInfo_t *opInfo[256];

static void decodeInit(void) {
	for (size_t k = 0; k < sizeof opTable / sizeof *opTable; k++) opInfo[opTable[k].op] = &opTable[k];
}

static uint64_t bigEndian(const unsigned char *p, int n) {
	uint64_t x = 0;
	while (n--) x = x << 8 | *p++;
	return x;
}
static int64_t signedOf(uint64_t x, int n) { return n == 1 ? (int8_t) x : n == 2 ? (int16_t) x : (int32_t) x; }

/* One instruction at `at`. Each operand goes to `see`; returns the length or 0 if it does not fit. */
typedef void (*see_t)(void *context, char kind, uint64_t value, size_t at, int width);
static size_t decodeOne(const unsigned char *code, size_t length, size_t at, see_t see, void *context) {
	size_t p = at;
	const opInfo_t *o;
	if (at >= length || !(o = opInfo[code[at]])) return 0;
	p++;
	int w = o->width;
#define NEED(n) do { if ((uint64_t) (n) > length - p) return 0; } while (0)
#define SEE(kind, width) do { NEED(width); if (see) see(context, kind, bigEndian(code + p, width), p, width); p += (width); } while (0)
	for (const char *f = o->fmt; *f; f++) switch (*f) {
	case 'p': case 'a': SEE(*f, 1); break;
	case 'E': case 'F': SEE(*f, 8); break;
	case 'S': {
		NEED(w);
		uint64_t n = bigEndian(code + p, w);
		SEE('l', w);
		NEED(n);
		if (see) see(context, 's', n, p, 0);
		p += n;
		break;
	}
	case 'Y': {
		SEE('I', w);
		NEED(w);
		uint64_t n = bigEndian(code + p, w);
		SEE('l', w);
		NEED(n);
		if (see) see(context, 's', n, p, 0);
		p += n;
		break;
	}
	case 'V': {
		NEED(w);
		uint64_t n = bigEndian(code + p, w);
		SEE('l', w);
		for (uint64_t k = 0; k < n; k++) SEE('i', w);
		break;
	}
	case 'A': {
		SEE('y', 1);
		NEED(4);
		uint64_t n = bigEndian(code + p, 4);
		SEE('l', 4);
		for (uint64_t k = 0; k < n; k++) SEE('x', 4);
		break;
	}
	case 'R': break;
	default: SEE(*f, w);
	}
	return p - at;
}

/* ------------------------------------------------------------------ bytecode that was seen */

typedef struct {
	const unsigned char *code;
	size_t length;
	uint64_t hash;
	unsigned long age;
	int bad;
	unsigned char *start;   /* 1: an instruction begins here, 2: a function begins here */
	short *params;          /* of the function that begins here */
	int *height;            /* of the stack above the frame's base; -1 not known yet */
	unsigned char *target;  /* something jumps here */
} codeMap_t;
#define NMAP 512
static codeMap_t *maps[NMAP];
static int nMaps;
static unsigned long mapAge;     /* of what is known about addresses; a collection can free bytecode */
static long codeSeen, codeInstructions, codeBytes, codeFrames, codeOperands;

static void mapsClear(void) {
	for (int i = 0; i < nMaps; i++) {
		free(maps[i]->start); free(maps[i]->params); free(maps[i]->height); free(maps[i]->target); free(maps[i]);
	}
	nMaps = 0;
}

typedef struct { codeMap_t *m; size_t at, after; char what[200]; int64_t entry; int variadic; } seeMap_t;
static void seeMap(void *context, char kind, uint64_t value, size_t at, int width) {
	seeMap_t *s = context;
	if (kind == 'j') {
		int64_t t = (int64_t) (at + (size_t) width) + signedOf(value, width);
		s->entry = t;
		if (t < 0 || t >= (int64_t) s->m->length) snprintf(s->what, sizeof s->what, "the instruction at %zu leads out of the bytecode, to %lld", s->at, (long long) t);
		else s->m->target[t] = 1;
	}
	else if (kind == 'y' && s->entry >= 0 && s->entry < (int64_t) s->m->length) {
		s->m->target[s->entry] |= 2;
		s->m->params[s->entry] = (short) ((int) value + s->variadic);
	}
}

static codeMap_t *mapOf(const unsigned char *code, size_t length, int atStart) {
	for (int i = 0; i < nMaps; i++) if (maps[i]->code == code && maps[i]->length == length) {
		if (!atStart && maps[i]->age == mapAge) return maps[i];
		if (maps[i]->hash == fnv(code, length)) { maps[i]->age = mapAge; return maps[i]; }
		free(maps[i]->start); free(maps[i]->params); free(maps[i]->height); free(maps[i]->target); free(maps[i]);
		maps[i] = maps[--nMaps];
		break;
	}
	if (nMaps == NMAP) mapsClear();
	codeMap_t *m = calloc(1, sizeof *m);
	m->code = code;
	m->length = length;
	m->hash = fnv(code, length);
	m->age = mapAge;
	m->start = calloc(length + 1, 1);
	m->target = calloc(length + 1, 1);
	m->params = calloc(length + 1, sizeof *m->params);
	m->height = malloc((length + 1) * sizeof *m->height);
	for (size_t k = 0; k <= length; k++) m->height[k] = -1;
	maps[nMaps++] = m;
	codeSeen++;
	codeBytes += (long) length;
	seeMap_t s = {m, 0, 0, "", -1, 0};
	size_t at = 0;
	char msg[256];
	while (at < length) {
		m->start[at] = 1;
		s.at = at;
		s.entry = -1;
		unsigned char op = code[at];
		s.variadic = op == duckLisp_instruction_pushVaClosure8 || op == duckLisp_instruction_pushVaClosure16 || op == duckLisp_instruction_pushVaClosure32;
		size_t n = decodeOne(code, length, at, seeMap, &s);
		if (!n) {
			snprintf(msg, sizeof msg, "bytecode has no whole instruction at %zu of %zu (byte %02x)", at, length, op);
			monitorFail(msg);
			m->bad = 1;
			return m;
		}
		codeInstructions++;
		at += n;
	}
	if (s.what[0]) { monitorFail(s.what); m->bad = 1; return m; }
	for (size_t k = 0; k < length; k++) if (m->target[k] && !m->start[k]) {
		snprintf(msg, sizeof msg, "something leads to byte %zu of the bytecode, inside an instruction", k);
		monitorFail(msg);
		m->bad = 1;
		return m;
	}
	return m;
}

/* ------------------------------------------------------------------ execution */

/* What is known about the frames of a VM. */
#define NFRAME 100000
typedef struct {
	duckVM_t *vm;
	size_t *base;
	long depth;             /* of the last step; -1: nothing ran yet */
	const unsigned char *code, *ip;
	size_t length;
	size_t n;               /* length of the last instruction */
} trail_t;
static trail_t trails[2];

static void trailForget(duckVM_t *v) {
	for (int i = 0; i < 2; i++) if (!v || trails[i].vm == v) { trails[i].depth = -1; trails[i].vm = v ? v : NULL; trails[i].ip = NULL; }
}

typedef struct { duckVM_t *vm; size_t base, len; const char *what; uint64_t value; int compileTime; } seeStep_t;
static void seeStep(void *context, char kind, uint64_t value, size_t at, int width) {
	seeStep_t *s = context;
	(void) at;
	(void) width;
	const char *bad = NULL;
	switch (kind) {
	case 'i':
		codeOperands++;
		if (value == 0 || value > s->len - s->base) bad = "a stack index";
		break;
	case 'n': case 'p':
		codeOperands++;
		if (value > s->len - s->base) bad = "a number of values to pop";
		break;
	case 'u': {
		duckVM_object_t *a = s->vm->upvalue_array_call_stack.elements_length
			? ((duckVM_object_t **) s->vm->upvalue_array_call_stack.elements)[s->vm->upvalue_array_call_stack.elements_length - 1] : NULL;
		codeOperands++;
		if (!a || a->type != duckVM_object_type_upvalueArray || value >= a->value.upvalue_array.length) bad = "an upvalue index";
		break;
	}
	case 'x':
		codeOperands++;
		if (value > 0x7FFFFFFF) seeStep(context, 'u', 0xFFFFFFFF - value, at, width);
		else if (value > s->len - s->base) bad = "a captured stack index";
		break;
	default: break;
	}
	if (bad && !s->what) { s->what = bad; s->value = value; }
}

static int optCode; /* 1: check everything, 2: not the stack */
static int isOp(unsigned char op, int a, int b, int c) { return op == a || op == b || op == c; }
#define OP3(x) duckLisp_instruction_##x##8, duckLisp_instruction_##x##16, duckLisp_instruction_##x##32

static void codeStep(duckVM_t *v, duckVM_object_t *bytecode, const unsigned char *ip) {
	const unsigned char *code = bytecode->value.bytecode.bytecode;
	size_t length = bytecode->value.bytecode.bytecode_length;
	char msg[256];
	/* The return address of calls from C. */
	if ((ip < code || ip >= code + length) && *ip == duckLisp_instruction_halt) return;
	if (ip < code || ip >= code + length) { monitorFail("execution left the bytecode"); return; }
	size_t at = (size_t) (ip - code);
	trail_t *t = &trails[0];
	if (trails[0].vm != v) {
		if (trails[1].vm == v) t = &trails[1];
		else {
			if (trails[0].vm) t = &trails[1];
			t->vm = v;
			t->depth = -1;
			t->ip = NULL;
		}
	}
	if (!t->base) t->base = malloc(NFRAME * sizeof *t->base);
	codeMap_t *m = mapOf(code, length, at == 0);
	if (m->bad) return;
	if (!m->start[at]) {
		snprintf(msg, sizeof msg, "execution reached byte %zu, inside an instruction", at);
		monitorFail(msg);
		return;
	}
	/* Where the last instruction leads. */
	long depth = (long) v->call_stack.elements_length;
	size_t len = v->stack.elements_length;
	if (depth >= NFRAME - 1) return;
	int strict = optCode == 1;
	if (t->ip && depth == t->depth && at != 0) {
		unsigned char op = *t->ip;
		size_t expected = (size_t) (t->ip - t->code) + t->n;
		if (t->code == code && t->length == length && !isOp(op, OP3(return)) && op != duckLisp_instruction_return0 && at != expected) {
			int64_t jump = -1;
			int w = opInfo[op]->width;
			if (opInfo[op]->fmt[0] == 'j' && !opInfo[op]->fmt[1]) jump = (t->ip - code) + 1 + w + signedOf(bigEndian(t->ip + 1, w), w);
			if (opInfo[op]->fmt[0] == 'j' && opInfo[op]->fmt[1] == 'p') jump = (t->ip - code) + 1 + w + signedOf(bigEndian(t->ip + 1, w), w);
			if (jump != (int64_t) at) {
				snprintf(msg, sizeof msg, "execution went from byte %zu (%s) to byte %zu", (size_t) (t->ip - t->code), opInfo[op]->name, at);
				monitorFail(msg);
			}
		}
	}
	/* Frames. Callbacks that are given other numbers of arguments than they take upset the stack. */
	if (!strict) { t->code = code; t->length = length; t->ip = ip; t->depth = depth; t->n = decodeOne(code, length, at, NULL, NULL); return; }
	int compileTime = v->duckLisp != NULL;
	if (depth > t->depth || at == 0) {
		for (long d = t->depth < 0 ? 0 : t->depth + 1; d < depth; d++) t->base[d] = 0;
		size_t params = (m->target[at] & 2) ? (size_t) m->params[at] : 0;
		if (len < params) { monitorFail("a function began with fewer values on the stack than it has parameters"); return; }
		/* The compile-time stack holds the macros and variables of enclosing code. */
		t->base[depth] = (m->target[at] & 2) ? len - params : compileTime ? 0 : len;
		codeFrames++;
	}
	t->depth = depth;
	size_t base = t->base[depth];
	if (len < base) {
		snprintf(msg, sizeof msg, "before byte %zu (%s) the stack is lower than its frame", at, opInfo[*ip]->name);
		monitorFail(msg);
		return;
	}
	if (!(compileTime && depth == 0)) {
		int h = (int) (len - base);
		if (m->height[at] < 0) m->height[at] = h;
		else if (m->height[at] != h) {
			snprintf(msg, sizeof msg, "the stack has %d values above its frame before byte %zu (%s), and had %d another time", h, at, opInfo[*ip]->name, m->height[at]);
			monitorFail(msg);
		}
	}
	seeStep_t s = {v, base, len, NULL, 0, compileTime};
	size_t n = decodeOne(code, length, at, seeStep, &s);
	if (s.what) {
		snprintf(msg, sizeof msg, "%s of %s at byte %zu is %llu; the frame has %zu values", s.what, opInfo[*ip]->name, at, (unsigned long long) s.value, len - base);
		monitorFail(msg);
	}
	if (depth > 0 && (*ip == duckLisp_instruction_return0 || isOp(*ip, OP3(return)))) {
		size_t pops = *ip == duckLisp_instruction_return0 ? 0 : (size_t) bigEndian(ip + 1, opInfo[*ip]->width);
		if (len - base != pops + 1) {
			snprintf(msg, sizeof msg, "%s at byte %zu leaves %ld values, not one", opInfo[*ip]->name, at, (long) (len - base) - (long) pops);
			monitorFail(msg);
		}
	}
	t->code = code;
	t->length = length;
	t->ip = ip;
	t->n = n;
}

/* ------------------------------------------------------------------ listing */

typedef struct { const unsigned char *code; } seeList_t;
static void seeList(void *context, char kind, uint64_t value, size_t at, int width) {
	seeList_t *s = context;
	if (kind == 'F') { fputs(" F", out); return; }
	if (kind == 's') { fputs(" S", out); for (uint64_t k = 0; k < value; k++) fprintf(out, "%02x", s->code[at + k]); return; }
	fputc(' ', out);
	for (int k = 0; k < width; k++) fprintf(out, "%02x", s->code[at + (size_t) k]);
}
static void codeList(const unsigned char *code, size_t length) {
	seeList_t s = {code};
	size_t at = 0;
	while (at < length) {
		fprintf(out, "J %s", opInfo[code[at]] ? opInfo[code[at]]->name : "?");
		size_t n = decodeOne(code, length, at, seeList, &s);
		fputc('\n', out);
		if (!n) { monitorFail("bytecode has no whole instruction"); return; }
		at += n;
	}
}
