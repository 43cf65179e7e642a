/* Forms that the host adds to the language: generators and actions of the reader. */
#include "emitters.h"
#include "parser.h"

static long extCompiled;

/* push: a value on top of the stack, not where it is already. */
#define COMPILE(i, at, push) duckLisp_compile_compoundExpression(d, cs, as, x->compoundExpressions[0].value.identifier.value, x->compoundExpressions[0].value.identifier.value_length, &x->compoundExpressions[i], at, NULL, push)
#define GENERATOR(name) static dl_error_t name(duckLisp_t *d, duckLisp_compileState_t *cs, dl_array_t *as, duckLisp_ast_expression_t *x)

GENERATOR(h_seven) {
	dl_error_t e = duckLisp_checkArgsAndReportError(d, *x, 1, dl_false);
	return e ? e : duckLisp_emit_pushInteger(d, cs, as, NULL, 7);
}

GENERATOR(h_sum) {
	dl_ptrdiff_t sum, next;
	dl_error_t e = duckLisp_checkArgsAndReportError(d, *x, 2, dl_true);
	if (e) return e;
	e = COMPILE(1, &sum, x->compoundExpressions_length == 2);
	for (size_t i = 2; !e && i < x->compoundExpressions_length; i++) {
		e = COMPILE(i, &next, dl_false);
		if (!e) e = duckLisp_emit_add(d, cs, as, sum, next);
		sum = duckLisp_localsLength_get(cs) - 1;
	}
	return e;
}

GENERATOR(h_swap) {
	dl_ptrdiff_t a, b;
	dl_error_t e = duckLisp_checkArgsAndReportError(d, *x, 3, dl_false);
	if (e) return e;
	if ((e = COMPILE(2, &b, dl_false)) || (e = COMPILE(1, &a, dl_false))) return e;
	return duckLisp_emit_cons(d, cs, as, a, b);
}

GENERATOR(h_log) {
	dl_error_t e = duckLisp_checkArgsAndReportError(d, *x, 3, dl_false);
	if (e) return e;
	if (x->compoundExpressions[1].type != duckLisp_ast_type_int) return dl_error_invalidValue;
	extCompiled++;
	fprintf(out, "X %ld\n", (long) x->compoundExpressions[1].value.integer.value);
	return COMPILE(2, NULL, dl_true);
}

static void extPrint(const duckLisp_ast_compoundExpression_t *c) {
	switch (c->type) {
	case duckLisp_ast_type_bool: fputs(c->value.boolean.value ? "#t" : "#f", out); break;
	case duckLisp_ast_type_int: fprintf(out, "i%td", c->value.integer.value); break;
	case duckLisp_ast_type_float: fprintf(out, "f%a", c->value.floatingPoint.value); break;
	case duckLisp_ast_type_string:
		fputc('"', out);
		printBytes(c->value.string.value, c->value.string.value_length);
		fputc('"', out);
		break;
	case duckLisp_ast_type_identifier: printBytes(c->value.identifier.value, c->value.identifier.value_length); break;
	case duckLisp_ast_type_expression:
		fputc('(', out);
		for (size_t i = 0; i < c->value.expression.compoundExpressions_length; i++) {
			if (i) fputc(' ', out);
			extPrint(&c->value.expression.compoundExpressions[i]);
		}
		fputc(')', out);
		break;
	default: fprintf(out, "?%d", (int) c->type);
	}
}

/* (h-show tag body) is body, and shows what it was given. */
GENERATOR(h_show) {
	dl_error_t e = duckLisp_checkArgsAndReportError(d, *x, 3, dl_false);
	if (e) return e;
	extCompiled++;
	fputs("Y ", out);
	for (size_t i = 0; i < 3; i++) extPrint(&x->compoundExpressions[i]), fputc(i < 2 ? ' ' : '\n', out);
	return COMPILE(2, NULL, dl_true);
}

/* (h-let name value body) is (() (var name value) body). */
GENERATOR(h_let) {
	dl_error_t e = duckLisp_checkArgsAndReportError(d, *x, 4, dl_false);
	if (e) return e;
	duckLisp_ast_compoundExpression_t var[3], body[3], whole;
	var[0].type = duckLisp_ast_type_identifier;
	var[0].value.identifier.value = (dl_uint8_t *) "__var";
	var[0].value.identifier.value_length = 5;
	var[1] = x->compoundExpressions[1];
	var[2] = x->compoundExpressions[2];
	body[0].type = duckLisp_ast_type_expression;
	body[0].value.expression.compoundExpressions = NULL;
	body[0].value.expression.compoundExpressions_length = 0;
	body[1].type = duckLisp_ast_type_expression;
	body[1].value.expression.compoundExpressions = var;
	body[1].value.expression.compoundExpressions_length = 3;
	body[2] = x->compoundExpressions[3];
	whole.type = duckLisp_ast_type_expression;
	whole.value.expression.compoundExpressions = body;
	whole.value.expression.compoundExpressions_length = 3;
	e = duckLisp_compile_compoundExpression(d, cs, as, (dl_uint8_t *) "h-let", 5, &whole, NULL, NULL, dl_false);
	/* The compiler may replace what it was given. */
	x->compoundExpressions[1] = var[1];
	x->compoundExpressions[2] = var[2];
	x->compoundExpressions[3] = body[2];
	return e;
}

GENERATOR(h_fail) {
	(void) cs, (void) as, (void) x;
	(void) duckLisp_error_pushRuntime(d, DL_STR("h-fail"));
	return dl_error_invalidValue;
}

/* (p-rev a b c) is read as (list c b a). */
static dl_error_t p_rev(duckLisp_t *d, duckLisp_ast_compoundExpression_t *c) {
	duckLisp_ast_expression_t *x = &c->value.expression;
	dl_uint8_t *name;
	dl_error_t e = dl_malloc(d->memoryAllocation, (void **) &name, 4);
	if (e) return e;
	memcpy(name, "list", 4);
	e = dl_free(d->memoryAllocation, (void **) &x->compoundExpressions[0].value.identifier.value);
	x->compoundExpressions[0].value.identifier.value = name;
	x->compoundExpressions[0].value.identifier.value_length = 4;
	for (size_t i = 1, j = x->compoundExpressions_length - 1; i < j; i++, j--) {
		duckLisp_ast_compoundExpression_t t = x->compoundExpressions[i];
		x->compoundExpressions[i] = x->compoundExpressions[j];
		x->compoundExpressions[j] = t;
	}
	return e;
}

/* (p-pick a ...) is read as a. */
static dl_error_t p_pick(duckLisp_t *d, duckLisp_ast_compoundExpression_t *c) {
	if (c->value.expression.compoundExpressions_length < 2) return dl_error_invalidValue;
	duckLisp_ast_compoundExpression_t a = c->value.expression.compoundExpressions[1];
	c->value.expression.compoundExpressions[1].type = duckLisp_ast_type_none;
	dl_error_t e = duckLisp_ast_compoundExpression_quit(d->memoryAllocation, c);
	*c = a;
	return e;
}

static dl_error_t p_fail(duckLisp_t *d, duckLisp_ast_compoundExpression_t *c) {
	(void) d, (void) c;
	return dl_error_invalidValue;
}

static struct { const char *name; dl_error_t (*f)(duckLisp_t *, duckLisp_compileState_t *, dl_array_t *, duckLisp_ast_expression_t *); const char *type, *script; } extGenerators[] = {
	{"h-seven", h_seven, "()", ""}, {"h-sum", h_sum, "(I &rest 1 I)", ""}, {"h-swap", h_swap, "(I I)", ""}, {"h-log", h_log, "(L I)", ""}, {"h-show", h_show, "(L I)", ""}, {"h-fail", h_fail, "(I)", ""},
	{"h-let", h_let, "(L I I)", "(declare-identifier (infer-and-get-next-argument) (quote #L))"},
};
static struct { const char *name; dl_error_t (*f)(duckLisp_t *, duckLisp_ast_compoundExpression_t *); } extActions[] = {{"p-rev", p_rev}, {"p-pick", p_pick}, {"p-fail", p_fail}};

/* The host keeps nothing of what it passed. */
static dl_error_t extAddAs(duckLisp_t *d, const char *kind, const void *name, size_t length) {
	dl_error_t e = dl_error_invalidValue;
	dl_uint8_t *n = malloc(length + !length);
	memcpy(n, name, length);
	for (size_t i = 0; i < sizeof extGenerators / sizeof *extGenerators; i++) {
		if (strcmp(extGenerators[i].name, kind)) continue;
		dl_uint8_t *type = (dl_uint8_t *) strdup(extGenerators[i].type), *script = (dl_uint8_t *) strdup(extGenerators[i].script);
		e = duckLisp_addGenerator(d, extGenerators[i].f, n, length
#ifdef USE_PARENTHESIS_INFERENCE
		                          , type, strlen(extGenerators[i].type), script, strlen(extGenerators[i].script)
#endif
		                          );
		free(type);
		free(script);
	}
	for (size_t i = 0; i < sizeof extActions / sizeof *extActions; i++)
		if (!strcmp(extActions[i].name, kind)) e = duckLisp_addParserAction(d, extActions[i].f, n, length);
	free(n);
	return e;
}

static dl_error_t extAdd(duckLisp_t *d) {
	dl_error_t e = dl_error_ok;
	for (size_t i = 0; !e && i < sizeof extGenerators / sizeof *extGenerators; i++)
		e = extAddAs(d, extGenerators[i].name, extGenerators[i].name, strlen(extGenerators[i].name));
	for (size_t i = 0; !e && i < sizeof extActions / sizeof *extActions; i++)
		e = extAddAs(d, extActions[i].name, extActions[i].name, strlen(extActions[i].name));
	return e;
}
