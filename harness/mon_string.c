/* Monitors string and stringview: a string is the bytes of the model with a
 * NUL behind them after every operation; the four comparisons are total
 * preorders, and say "equal" exactly when the normalized bytes are. */
#include "mon.h"
#include <ctype.h>
#include "util/stringy.h"
#include "util/stringview.h"

static char m[60000];
static size_t n;

static unsigned gen(char* o, unsigned max)
{
	static const char* const al[] = {"ab", "aAbB", "abcdefghij", "ab \t", "xyz. ,"};
	const char* a = al[rnd(5)];
	unsigned len = rnd(4) ? rnd(max < 8 ? max : 8) : rnd(max);
	for (unsigned i = 0; i < len; ++i) {
		o[i] = a[rnd(strlen(a))];
	}
	if (rnd(10) == 0 && len) {
		o[rnd(len)] = 128 + rnd(128);
	}
	o[len] = 0;
	return len;
}

static int lower(int c, bool nocase)
{
	return nocase && c >= 'A' && c <= 'Z' ? c + 32 : c;
}

/* the first place at or after "from" where "old" stands, or n */
static size_t find(size_t from, const char* old, bool nocase)
{
	size_t k = strlen(old);
	if (k == 0) {
		return n;
	}
	for (size_t i = from; i + k <= n; ++i) {
		size_t j = 0;
		while (j < k && lower((unsigned char)m[i + j], nocase)
		                == lower((unsigned char)old[j], nocase)) {
			++j;
		}
		if (j == k) {
			return i;
		}
	}
	return n;
}

static size_t model_replace_one(size_t from, const char* old, const char* new,
                                size_t newlen, bool nocase)
{
	size_t at = find(from, old, nocase);
	size_t k = strlen(old);
	if (k == 0 || at + k > n) {
		return n;
	}
	memmove(m + at + newlen, m + at + k, n - at - k);
	memcpy(m + at, new, newlen);
	n = n - k + newlen;
	return at + newlen;
}

static void verify(string* s, const char* op)
{
	expect(s->size == n, "size", "%s: length %zu, not %zu", op, s->size, n);
	expect(!memcmp(string_c_str(s), m, n), "contents",
	       "%s: '%s', not '%s'", op, show(s->data, n), show(m, n));
	expect(((char*)s->data)[n] == 0, "terminator", "%s: no terminator", op);
	stringview v = string_get_stringview(s);
	expect(v.len == n && v.data == s->data, "view", "%s: view", op);
	if (n) {
		expect(*(char*)vec_back(s) == m[n - 1], "back", "%s: back", op);
	}
}

static void strings(void)
{
	string s;
	n = 0;
	string_construct(&s);
	verify(&s, "construct");
	unsigned ops = 10 + rnd(80);
	for (unsigned i = 0; i < ops; ++i) {
		char b[400], c[400], op[160];
		unsigned len = gen(b, 60);
		char* p = exact(b, len + 1);
		stringview sv;
		char* q = exact(b, len); /* not terminated */
		stringview_nset(&sv, q, len);
		if (n > 20000) {
			string_clear(&s);
			n = 0;
		}
		switch (rnd(21)) {
		case 0: {
			char ch = b[0] ? b[0] : 'z';
			sprintf(op, "push_back %c", ch);
			string_push_back(&s, ch);
			m[n++] = ch;
			break;
		}
		case 1: {
			sprintf(op, "strcat '%s'", b);
			size_t r = string_strcat(&s, p);
			expect(r == len, "returned", "%s: %zu", op, r);
			memcpy(m + n, b, len);
			n += len;
			break;
		}
		case 2: {
			unsigned k = rnd(len + 4);
			sprintf(op, "strncat '%s' %u", b, k);
			/* at most k bytes may be looked at */
			char* t = k < len ? exact(b, k) : exact(b, len + 1);
			size_t r = string_strncat(&s, t, k);
			free(t);
			k = k < len ? k : len;
			expect(r == k, "returned", "%s: %zu", op, r);
			memcpy(m + n, b, k);
			n += k;
			break;
		}
		case 3: {
			sprintf(op, "strcpy '%s'", b);
			size_t r = string_strcpy(&s, p);
			expect(r == len, "returned", "%s: %zu", op, r);
			memcpy(m, b, n = len);
			break;
		}
		case 4: {
			unsigned k = rnd(len + 4);
			sprintf(op, "strncpy '%s' %u", b, k);
			char* t = k < len ? exact(b, k) : exact(b, len + 1);
			string_strncpy(&s, t, k);
			free(t);
			n = k < len ? k : len;
			memcpy(m, b, n);
			break;
		}
		case 5: {
			long v = (long)rnd64() >> rnd(64);
			sprintf(op, "sprintf %ld '%s'", v, b);
			size_t r = string_sprintf(&s, "<%ld|%s>", v, p);
			n = sprintf(m, "<%ld|%s>", v, b);
			expect(r == n, "returned", "%s: %zu", op, r);
			break;
		}
		case 6: {
			sprintf(op, "export");
			char* e = string_export(&s);
			expect(!memcmp(e, m, n) && e[n] == 0, "export",
			       "'%s', not '%s'", e, show(m, n));
			n = 0;
			verify(&s, op);
			if (rnd(2)) {
				string_destroy(&s);
				string_construct_take(&s, e);
				n = strlen(e);
				memcpy(m, e, n);
				sprintf(op, "construct_take");
			} else {
				free(e);
			}
			break;
		}
		case 7:
			sprintf(op, "clear");
			if (rnd(5) == 0) {
				string_clear(&s);
				n = 0;
			}
			break;
		case 8: {
			size_t k = rnd(n + 1);
			sprintf(op, "resize %zu to %zu", n, k);
			string_resize(&s, k);
			n = k;
			break;
		}
		case 9: {
			string t;
			sprintf(op, "copy '%s'", b);
			string_construct_from_char_ptr(&t, p);
			string_copy(&s, &t);
			expect(t.size == len && !strcmp(t.data, b), "source",
			       "copy changed its source");
			string_destroy(&t);
			memcpy(m, b, n = len);
			break;
		}
		case 10: {
			string t;
			sprintf(op, "append '%s'", b);
			string_construct_from_stringview(&t, &sv);
			string_append(&s, &t);
			string_destroy(&t);
			memcpy(m + n, b, len);
			n += len;
			break;
		}
		case 11:
			sprintf(op, "copy_from_stringview '%s'", b);
			string_copy_from_stringview(&s, &sv);
			memcpy(m, b, n = len);
			break;
		case 12:
			sprintf(op, "append_stringview '%s'", b);
			string_append_stringview(&s, &sv);
			memcpy(m + n, b, len);
			n += len;
			break;
		case 13: {
			string* t;
			switch (rnd(4)) {
			case 0:
				strcpy(op, "from_string");
				t = string_from_string(&s);
				break;
			case 1:
				strcpy(op, "from_stringview");
				t = string_from_stringview(&sv);
				memcpy(m, b, n = len);
				break;
			case 2:
				strcpy(op, "from_char_ptr");
				t = string_from_char_ptr(p);
				memcpy(m, b, n = len);
				break;
			default:
				strcpy(op, "take");
				t = string_take(strdup(b));
				memcpy(m, b, n = len);
			}
			string_destroy(&s);
			s = *t;
			free(t);
			break;
		}
		case 14: {
			string t;
			strcpy(op, "construct_from_string");
			string_construct_from_string(&t, &s);
			string_destroy(&s);
			s = t;
			break;
		}
		default: { /* find and replace */
			unsigned ol = gen(c, 5);
			if (n && ol && rnd(2)) { /* something that is there */
				size_t at = rnd(n);
				ol = 1 + rnd(n - at < 4 ? n - at : 4);
				memcpy(c, m + at, ol);
				c[ol] = 0;
				if (strlen(c) != ol) {
					break;
				}
			}
			char* old = exact(c, ol + 1);
			bool nocase = rnd(2), lim = rnd(2), all = rnd(2);
			len = len > 8 ? len % 8 : len;
			char* new = lim ? exact(b, len) : exact(b, len + 1);
			if (!lim) {
				new[len] = 0;
			}
			size_t from = all ? 0 : rnd(n + 1);
			sprintf(op, "find_replace%s%s%s '%s' -> '%.*s' from %zu",
			        all ? "" : "_one", nocase ? "_nocase" : "",
			        lim ? "_limited" : "", old, len, b, from);
			trace("%s in '%s'", op, show(m, n));
			if (find(from, old, nocase) < n) {
				seen("replaced");
			}
			if (all) {
				for (size_t k = 0; k < n;) {
					k = model_replace_one(k, old, b, len, nocase);
				}
				if (nocase && lim) {
					string_find_replace_nocase_limited(&s, old, new, len);
				} else if (nocase) {
					string_find_replace_nocase(&s, old, new);
				} else if (lim) {
					string_find_replace_limited(&s, old, new, len);
				} else {
					string_find_replace(&s, old, new);
				}
			} else {
				size_t k = model_replace_one(from, old, b, len, nocase);
				const char* r;
				if (nocase && lim) {
					r = string_find_replace_one_nocase_limited(&s, old, new, from, len);
				} else if (nocase) {
					r = string_find_replace_one_nocase(&s, old, new, from);
				} else if (lim) {
					r = string_find_replace_one_limited(&s, old, new, from, len);
				} else {
					r = string_find_replace_one(&s, old, new, from);
				}
				expect(r == (char*)s.data + k, "returned",
				       "%s: continues at %zd, not %zu", op,
				       r - (char*)s.data, k);
			}
			free(old);
			free(new);
		}
		}
		free(p);
		memset(q, 0x77, len);
		free(q);
		trace("%s", op);
		verify(&s, op);
		seen("ops");
	}
	string_destroy(&s);
}

/* ------------------------------------------------------------ comparisons */

struct item {
	stringview sv;
	char norm[4][64];
	unsigned nlen[4];
};

typedef int (*cmp_fn)(const stringview*, const stringview*);
static const cmp_fn cmps[4] = {
	stringview_compare, stringview_compare_nocase,
	stringview_compare_rtrim, stringview_compare_nocase_rtrim,
};
static const char* const cmp_name[4] = {"compare", "compare_nocase",
	"compare_rtrim", "compare_nocase_rtrim"};

static int sign(int a) { return (a > 0) - (a < 0); }

static void comparisons(void)
{
	unsigned k = 2 + rnd(14);
	struct item* it = calloc(k, sizeof(*it));
	unsigned style = rnd(4);
	for (unsigned i = 0; i < k; ++i) {
		char b[64];
		unsigned len = rnd(7);
		for (unsigned j = 0; j < len; ++j) {
			switch (style) {
			case 0: b[j] = "aAbB"[rnd(4)]; break;
			case 1: b[j] = "aA \t\n"[rnd(5)]; break;
			case 2: b[j] = "Zz[@`{_^ "[rnd(9)]; break;
			default: b[j] = 1 + rnd(255);
			}
		}
		if (i && rnd(4) == 0) { /* a variation of another */
			struct item* o = &it[rnd(i)];
			len = o->sv.len;
			memcpy(b, o->sv.data, len);
			for (unsigned x = rnd(3); x; --x) {
				if (len && rnd(2)) {
					unsigned j = rnd(len);
					if (isalpha((unsigned char)b[j]) && b[j] > 0) {
						b[j] ^= 32;
					}
				} else if (len < 40) {
					b[len++] = " \t\r\n\v\f"[rnd(6)];
				}
			}
		}
		it[i].sv.data = exact(b, len);
		it[i].sv.len = len;
		for (unsigned f = 0; f < 4; ++f) {
			unsigned nl = len;
			if (f & 2) {
				while (nl && isspace((unsigned char)b[nl - 1])) {
					--nl;
				}
			}
			for (unsigned j = 0; j < nl; ++j) {
				it[i].norm[f][j] = lower((unsigned char)b[j], f & 1);
			}
			it[i].nlen[f] = nl;
		}
		trace("item %u '%s'", i, show(b, len));
	}
	for (unsigned f = 0; f < 4; ++f) {
		static signed char r[16][16];
		for (unsigned i = 0; i < k; ++i) {
			for (unsigned j = 0; j < k; ++j) {
				r[i][j] = sign(cmps[f](&it[i].sv, &it[j].sv));
				unsigned a = it[i].nlen[f], b = it[j].nlen[f];
				unsigned l = a < b ? a : b;
				int want = sign(memcmp(it[i].norm[f], it[j].norm[f], l));
				if (!want) {
					want = (a > b) - (a < b);
				}
				expect((r[i][j] == 0) == (want == 0), "equality",
				       "%s says %d for '%s' and '%s'", cmp_name[f],
				       r[i][j], show(it[i].sv.data, it[i].sv.len),
				       show(it[j].sv.data, it[j].sv.len));
				expect(r[i][j] == want, "order",
				       "%s says %d for '%s' and '%s', not %d",
				       cmp_name[f], r[i][j],
				       show(it[i].sv.data, it[i].sv.len),
				       show(it[j].sv.data, it[j].sv.len), want);
				seen(want ? "unequal" : i == j ? "same" : "equal");
			}
		}
		for (unsigned i = 0; i < k; ++i) {
			for (unsigned j = 0; j < k; ++j) {
				expect(r[i][j] == -r[j][i], "antisymmetry",
				       "%s of %u and %u", cmp_name[f], i, j);
				for (unsigned l = 0; l < k; ++l) {
					expect(!(r[i][j] <= 0 && r[j][l] <= 0)
					       || r[i][l] <= 0, "transitivity",
					       "%s of %u, %u and %u", cmp_name[f],
					       i, j, l);
				}
			}
		}
	}
	for (unsigned i = 0; i < k; ++i) {
		stringview v;
		char* t = calloc(1, it[i].sv.len + 1);
		memcpy(t, it[i].sv.data, it[i].sv.len);
		stringview_set(&v, t);
		expect(v.len == strlen(t) && v.data == t, "set", "stringview_set");
		free(t);
		free((void*)it[i].sv.data);
	}
	free(it);
}

MON_MAIN(if (mon_round % 2) comparisons(); else strings())
