/* Values as text that depends on nothing but the value. Included by the drivers. */
/* What is printed where, per thread. */
static __thread FILE *out;
static __thread long nodeBudget;

static void printBytes(const unsigned char *s, size_t n) {
	for (size_t i = 0; i < n; i++) {
		if (s[i] < 33 || s[i] > 126 || s[i] == '"' || s[i] == '\\') fprintf(out, "\\x%02x", s[i]);
		else fputc(s[i], out);
	}
}
static void printType(size_t t);
static void printValue(duckVM_object_t *o, int depth);
static void printPtr(duckVM_object_t *o, int depth) {
	if (!o) { fputs("()", out); return; }
	if (o->type == duckVM_object_type_cons) {
		duckVM_object_t l;
		memset(&l, 0, sizeof l);
		l.type = duckVM_object_type_list;
		l.value.list = o;
		printValue(&l, depth);
		return;
	}
	printValue(o, depth);
}
static int printIds = 0;
static void printValue(duckVM_object_t *o, int depth) {
	if (nodeBudget-- <= 0) { fputs("...", out); return; }
	if (depth > 150) { fputs("..", out); return; }
	switch (o->type) {
	case duckVM_object_type_bool: fputs(o->value.boolean ? "#t" : "#f", out); break;
	case duckVM_object_type_integer: fprintf(out, "i%td", o->value.integer); break;
	case duckVM_object_type_float:
		if (isnan(o->value.floatingPoint)) fputs("fnan", out);
		else fprintf(out, "f%a", o->value.floatingPoint);
		break;
	case duckVM_object_type_string: {
		size_t a = o->value.string.offset, b = o->value.string.length;
		fputc('"', out);
		if (o->value.string.internalString && b > a) {
			if (o->value.string.internalString->type != duckVM_object_type_internalString) fputs("#BADSTR", out);
			else printBytes(o->value.string.internalString->value.internalString.value + a, b - a);
		}
		fputc('"', out);
		break;
	}
	case duckVM_object_type_symbol:
		fputc('\'', out);
		if (o->value.symbol.internalString)
			printBytes(o->value.symbol.internalString->value.internalString.value,
			           o->value.symbol.internalString->value.internalString.value_length);
		else fputs("#stripped", out);
		if (printIds) fprintf(out, "@%zu", (size_t) o->value.symbol.id);
		break;
	case duckVM_object_type_function: fputs("#fn", out); break;
	case duckVM_object_type_closure:
		fprintf(out, "#clo(%u%s)", o->value.closure.arity, o->value.closure.variadic ? "?" : "");
		break;
	case duckVM_object_type_list: {
		duckVM_object_t *c = o->value.list;
		if (!c) { fputs("()", out); break; }
		fputc('(', out);
		for (int first = 1; c; first = 0) {
			if (nodeBudget-- <= 0) { fputs(" ...", out); break; }
			if (c->type != duckVM_object_type_cons) {
				/* A nil object as CDR prints like an absent one. */
				if (c->type == duckVM_object_type_list && !c->value.list) break;
				if (c->type == duckVM_object_type_list) { c = c->value.list; first = 1; fputc(' ', out); continue; }
				fputs(" . ", out);
				printValue(c, depth + 1);
				break;
			}
			if (!first) fputc(' ', out);
			printPtr(c->value.cons.car, depth + 1);
			c = c->value.cons.cdr;
		}
		fputc(')', out);
		break;
	}
	case duckVM_object_type_vector: {
		duckVM_object_t *iv = o->value.vector.internal_vector;
		fputc('[', out);
		if (iv) {
			if (iv->type != duckVM_object_type_internalVector) fputs("#BADVEC", out);
			else for (dl_size_t i = o->value.vector.offset; i < iv->value.internal_vector.length; i++) {
				if (i != (dl_size_t) o->value.vector.offset) fputc(' ', out);
				if (nodeBudget <= 0) { fputs("...", out); break; }
				printPtr(iv->value.internal_vector.values[i], depth + 1);
			}
		}
		fputc(']', out);
		break;
	}
	case duckVM_object_type_type: printType(o->value.type); break;
	case duckVM_object_type_composite:
		fputs("#C(", out);
		printType(o->value.composite->value.internalComposite.type);
		fputc(' ', out);
		printPtr(o->value.composite->value.internalComposite.value, depth + 1);
		fputc(' ', out);
		printPtr(o->value.composite->value.internalComposite.function, depth + 1);
		fputc(')', out);
		break;
	case duckVM_object_type_user: fputs("#user", out); break;
	default: fprintf(out, "#BAD%d", (int) o->type); break;
	}
}
