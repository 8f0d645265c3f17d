/* Monitors the conversions between field types, and variables, against the
 * documented conversions: whole-string numbers, %ld and %f texts, lengths. */
#include "mon.h"
#include <limits.h>
#include "field.h"
#include "variable.h"
#include "util/util.h"

static bool dyadic(double* f)
{
	*f = ((long)rnd64() >> (20 + rnd(40))) / 64.0;
	return true;
}

static long any_long(void)
{
	static const long e[] = {0, 1, -1, 10, LONG_MAX, LONG_MIN, 255};
	return rnd(4) ? (long)rnd64() >> rnd(64) : e[rnd(7)];
}

/* a text, whether all of it is a number, and which */
static void text(char* o, bool* is_int, long* i, bool* is_float, double* f)
{
	*is_int = *is_float = false;
	switch (rnd(6)) {
	case 0:
	case 1:
		*i = any_long();
		if (*i > 1L << 52 || *i < -(1L << 52)) {
			*i >>= 12;
		}
		*f = *i;
		*is_int = *is_float = true;
		sprintf(o, "%s%ld", rnd(5) ? "" : "  ", *i);
		return;
	case 2:
		*is_float = dyadic(f);
		sprintf(o, "%.6f", *f);
		return;
	case 3:
		*i = rnd64() >> (13 + rnd(50));
		*f = *i;
		*is_int = *is_float = true;
		sprintf(o, "0x%lx", *i);
		return;
	case 4: {
		static const char* const bad[] = {"a", "12a", "1 ", "--1", "1.5.",
			"-", "1e", "x1", "1,2"};
		strcpy(o, bad[rnd(9)]);
		return;
	}
	default: {
		static const char* const e[] = {"", "+3", "007", "-0"};
		static const long v[] = {0, 3, 7, 0};
		unsigned k = rnd(4);
		strcpy(o, e[k]);
		*is_int = *is_float = true;
		*i = v[k];
		*f = *i;
	}
	}
}

static void types(void)
{
	enum field_type a = rnd(3), b = rnd(3);
	enum field_type want = a == b ? a : a == FIELD_STRING ? b
	        : b == FIELD_STRING ? a : FIELD_FLOAT;
	trace("determine_type %d %d", a, b);
	expect(field_determine_type(a, b) == want, "type", "%d and %d give %d", a, b,
	       field_determine_type(a, b));
	static const char* const d[] = {"INT", "FLOAT", "STRING"};
	expect(!strcmp(field_description(a), d[a]), "description", "%d is %s", a,
	       field_description(a));
	expect(!strcmp(field_description(FIELD_UNDEFINED), "<unknown>"),
	       "description", "undefined");
}

static void fields(void)
{
	enum field_type type = rnd(3), was = type;
	union field v = {0};
	char txt[80] = "";
	bool isi = true, isf = true;
	long i = 0;
	double f = 0;
	string* s = NULL;
	switch (type) {
	case FIELD_INT:
		i = any_long();
		v.i = i;
		f = i;
		sprintf(txt, "%ld", i);
		break;
	case FIELD_FLOAT:
		dyadic(&f);
		v.f = f;
		i = f;
		sprintf(txt, "%f", f);
		break;
	default:
		text(txt, &isi, &i, &isf, &f);
		s = string_from_char_ptr(txt);
		v.s = s;
	}
	trace("field %d '%s'", type, txt);
	switch (rnd(4)) {
	case 0: {
		long got = 0x1234;
		int rc = field_to_int(&got, &v, &type);
		expect((rc == FQL_GOOD) == isi, "to_int", "'%s' gives %d", txt, rc);
		if (isi) {
			expect(got == i && v.i == i && type == FIELD_INT, "to_int",
			       "'%s' is %ld, not %ld", txt, got, i);
			seen("to_int");
		} else {
			seen("refused");
		}
		break;
	}
	case 1: {
		double got = 7;
		int rc = field_to_float(&got, &v, &type);
		expect((rc == FQL_GOOD) == isf, "to_float", "'%s' gives %d", txt, rc);
		if (isf) {
			expect(got == f && v.f == f && type == FIELD_FLOAT,
			       "to_float", "'%s' is %f, not %f", txt, got, f);
			seen("to_float");
		} else {
			seen("refused");
		}
		break;
	}
	default: {
		bool lim = rnd(2);
		unsigned limit = rnd(30);
		unsigned n = strlen(txt);
		if (lim && n > limit) {
			n = limit;
		}
		string* dest = s;
		if (!dest) {
			dest = string_from_char_ptr(rnd(2) ? "" : "something else entirely, quite long");
		}
		stringview sv = {NULL, 0};
		int rc = lim ? field_to_stringview_limited(&sv, dest, &v, &type, limit)
		             : field_to_stringview(&sv, dest, &v, &type);
		expect(rc == FQL_GOOD && type == FIELD_STRING && v.s == dest,
		       "to_string", "%d of '%s' gives %d", was, txt, rc);
		expect(sv.len == n && !memcmp(sv.data, txt, n), "to_string",
		       "'%s', not '%.*s'", show(sv.data, sv.len), n, txt);
		expect(dest->size == n && ((char*)dest->data)[n] == 0, "to_string",
		       "not terminated");
		seen(lim ? "to_string_limited" : "to_string");
		if (dest != s) {
			string_destroy(dest);
			free(dest);
		}
	}
	}
	if (s) {
		string_destroy(s);
		free(s);
	}
}

/* a variable of a character type: cut at its limit, padded if CHAR */
static void strings_in(variable* v, const char* t)
{
	unsigned n = strlen(t);
	stringview sv;
	char* p = exact(t, n);
	stringview_nset(&sv, p, n);
	if (rnd(2)) {
		variable_set_stringview(v, &sv);
	} else {
		string s;
		string_construct_from_stringview(&s, &sv);
		variable_set_string(v, &s);
		string_destroy(&s);
	}
	free(p);
	char want[400];
	if (n > v->limit) {
		n = v->limit;
	}
	memcpy(want, t, n);
	if (v->type == SQL_CHAR && v->limit < 300) {
		while (n < v->limit) {
			want[n++] = ' ';
		}
	}
	want[n] = 0;
	expect(!v->is_null, "null", "set to '%s' and NULL", t);
	expect(v->value.s->size == n && !memcmp(v->value.s->data, want, n + 1),
	       "variable", "'%s' in type %d(%u) is '%s', not '%s'", t, v->type,
	       v->limit, show(v->value.s->data, v->value.s->size), want);
}

static void variables(void)
{
	variable v;
	expect(variable_construct(&v) == &v && v.is_null, "construct", "not NULL");
	bool isi = true, isf = true;
	long i = 0;
	double f = 0;
	char txt[80];
	static const enum sql_type all[] = {SQL_INT, SQL_BIT, SQL_FLOAT, SQL_TEXT,
	                                    SQL_CHAR, SQL_VARCHAR};
	if (rnd(2)) { /* imported, then declared */
		do {
			text(txt, &isi, &i, &isf, &f);
		} while (!isi || !isf);
		if (!rnd(4)) { /* the last one counts */
			variable_set_import_value(&v, rnd(2) ? "12345678901" : "");
		}
		variable_set_import_value(&v, txt);
		expect(!v.is_null && v.value.s->size == strlen(txt)
		       && !strcmp(v.value.s->data, txt), "import", "'%s'", txt);
		enum sql_type t = all[rnd(6)];
		if (t == SQL_CHAR || (t == SQL_VARCHAR && rnd(2))) {
			v.limit = 1 + rnd(12);
		}
		if (t == SQL_VARCHAR) {
			/* the type it has already */
			v.limit = INT_MAX;
		}
		trace("import '%s', declare %d(%u)", txt, t, v.limit);
		for (unsigned again = 0; again < 2; ++again) {
			if (again) {
				if (t == SQL_INT || t == SQL_BIT) {
					v.value.i = 99;
				} else if (t == SQL_FLOAT) {
					v.value.f = 99;
				} else {
					strings_in(&v, "overwritten with something long");
				}
				/* back to what was imported, in its type */
				variable_reset(&v);
				seen("reset_import");
			} else {
				expect(variable_set_type(&v, t) == FQL_GOOD, "declare",
				       "'%s' as %d", txt, t);
			}
			expect(v.type == t && !v.is_null, "declare", "type or NULL");
			if (t == SQL_INT || t == SQL_BIT) {
				long to = t == SQL_BIT ? i != 0 : i;
				expect(v.value.i == to, "declare", "'%s' is %ld", txt,
				       v.value.i);
			} else if (t == SQL_FLOAT) {
				expect(v.value.f == f, "declare", "'%s' is %f", txt,
				       v.value.f);
			} else {
				char want[100];
				unsigned n = strlen(txt);
				strcpy(want, txt);
				if (n > v.limit) {
					want[n = v.limit] = 0;
				}
				while (t == SQL_CHAR && v.limit < 50 && n < v.limit) {
					want[n++] = ' ';
					want[n] = 0;
				}
				expect(v.value.s->size == n
				       && !memcmp(v.value.s->data, want, n + 1),
				       "declare", "'%s' in type %d(%u) is '%s'", txt,
				       t, v.limit,
				       show(v.value.s->data, v.value.s->size));
			}
			seen("import");
		}
		variable_destroy(&v);
		return;
	}
	if (!rnd(6)) { /* of no type yet, but limited */
		if (rnd(3)) {
			v.limit = 1 + rnd(8);
		}
		strings_in(&v, rnd(2) ? "ab" : "limited to less than this");
		strings_in(&v, rnd(2) ? "c" : "and again, which is longer");
		seen("undeclared");
		variable_destroy(&v);
		return;
	}
	enum sql_type t = all[rnd(6)];
	bool early = rnd(2);
	if (early && (t == SQL_CHAR || t == SQL_VARCHAR)) {
		v.limit = 1 + rnd(20);
	}
	expect(variable_set_type(&v, t) == FQL_GOOD, "declare", "%d", t);
	expect(v.type == t && v.is_null, "declare", "%d: type, or not NULL", t);
	trace("declare %d", t);
	if (t == SQL_CHAR || t == SQL_VARCHAR || t == SQL_TEXT) {
		if (t != SQL_TEXT && !early) {
			v.limit = 1 + rnd(20);
		}
		for (unsigned k = 0; k < 4; ++k) {
			char b[40];
			unsigned n = rnd(30);
			for (unsigned x = 0; x < n; ++x) {
				b[x] = "abc xyz"[rnd(7)];
			}
			b[n] = 0;
			trace("set '%s' in %d(%u)", b, t, v.limit);
			strings_in(&v, b);
			seen("assigned");
		}
		variable_clear(&v);
		unsigned n = t == SQL_CHAR ? v.limit : 0;
		expect(v.is_null, "clear", "not NULL");
		expect(v.value.s->size == n, "clear", "%zu long, not %u",
		       v.value.s->size, n);
	} else {
		v.is_null = false;
		if (t == SQL_FLOAT) {
			dyadic(&v.value.f);
		} else {
			v.value.i = any_long();
		}
		variable_reset(&v);
		expect(v.is_null && (t == SQL_FLOAT ? v.value.f == 0 : v.value.i == 0),
		       "clear", "not NULL, or a value left");
	}
	variable_destroy(&v);
}

static void round_(void)
{
	for (unsigned k = 0; k < 20; ++k) {
		types();
		fields();
		fields();
		variables();
	}
}

MON_MAIN(round_())
