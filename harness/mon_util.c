/* Monitors the small helpers of util.h against independent versions. */
#include "mon.h"
#include <ctype.h>
#include <errno.h>
#include <math.h>
#include <sys/stat.h>
#include <fcntl.h>
#include "util/util.h"

static unsigned gen(char* o, const char* al, unsigned max)
{
	unsigned n = rnd(max + 1);
	for (unsigned i = 0; i < n; ++i) {
		o[i] = al[rnd(strlen(al))];
	}
	o[n] = 0;
	return n;
}

/* is the whole of s an integer as documented, and which? */
static bool parse_long(const char* s, long* out)
{
	int base = 10;
	const char* p = s;
	if (p[0] == '0' && p[1] == 'x') {
		base = 16;
		p += 2;
		if (!isxdigit((unsigned char)*p)) {
			return false;
		}
	}
	bool any = base == 16;
	bool neg = false;
	if (base == 10) {
		while (isspace((unsigned char)*p)) {
			++p;
		}
		if (*p == '-' || *p == '+') {
			neg = *p++ == '-';
		}
	}
	__int128 v = 0;
	const char* d = p;
	for (; *p; ++p) {
		int c = tolower((unsigned char)*p);
		int x = c >= '0' && c <= '9' ? c - '0'
		        : base == 16 && c >= 'a' && c <= 'f' ? c - 'a' + 10 : -1;
		if (x < 0) {
			return false;
		}
		if (v < ((__int128)1 << 100)) {
			v = v * base + x;
		}
	}
	any = p > d;
	if (!any) {
		*out = 0;
		return *s == 0; /* the empty string is 0 */
	}
	v = neg ? -v : v;
	if (v > __LONG_MAX__ || v < -(__int128)__LONG_MAX__ - 1) {
		return false;
	}
	*out = v;
	return true;
}

static void longs(void)
{
	char b[80];
	switch (rnd(5)) {
	case 0: {
		long v = (long)rnd64() >> rnd(64);
		sprintf(b, "%ld", v);
		break;
	}
	case 1:
		sprintf(b, "0x%lx", rnd64() >> rnd(64));
		break;
	case 2:
		sprintf(b, "%s%lu%s", &"  -"[rnd(4)], rnd64() >> rnd(8),
		        rnd(2) ? "" : "7");
		break;
	case 3: {
		static const char* const e[] = {"9223372036854775807",
			"9223372036854775808", "-9223372036854775808",
			"-9223372036854775809", "0x7fffffffffffffff",
			"0x8000000000000000", "", " ", "-", "+5", "0", "-0",
			"007", "1 ", "1.0", "1e3", "12a", "a12", "0x", "0xg",
			"\t\n12", "--1", "99999999999999999999999"};
		strcpy(b, e[rnd(sizeof e / sizeof *e)]);
		break;
	}
	default:
		gen(b, rnd(2) ? "0123456789" : "0123456789 +-xa.", 22);
	}
	char* p = exact(b, strlen(b) + 1);
	long want = 0, got = 0x5a5a;
	bool ok = parse_long(b, &want);
	/* a prefix with space and then 0x is left to strtol */
	int rc = str2long(&got, p);
	trace("str2long '%s'", b);
	expect((rc == 0) == ok, "str2long", "'%s' gives %d, not %d", b, rc, !ok);
	expect(!ok || got == want, "str2long", "'%s' is %ld, not %ld", b, got, want);
	expect(!strcmp(p, b), "str2long", "changed its argument");
	seen(ok ? "numbers" : "rejected");
	free(p);
}

static void doubles(void)
{
	char b[80];
	double want = 0;
	bool ok = true;
	switch (rnd(4)) {
	case 0: {
		want = ((long)rnd64() >> rnd(64)) / 1024.0;
		sprintf(b, "%.17g", want);
		break;
	}
	case 1: { /* a decimal with a dyadic fraction */
		int q = rnd(4);
		long w = rnd(100000);
		want = w + q * 0.25;
		sprintf(b, "%ld.%s", w, q == 0 ? "0" : q == 1 ? "25" : q == 2 ? "5" : "75");
		break;
	}
	case 2: {
		static const struct { const char* s; bool ok; double v; } e[] = {
			{"1e3", true, 1000}, {"-2.5e-1", true, -0.25},
			{"1.5x", false, 0}, {"abc", false, 0}, {" 4", true, 4},
			{"4 ", false, 0}, {".5", true, 0.5}, {"5.", true, 5},
			{"1e999", false, 0}, {"0x10", true, 16}, {"", true, 0},
			{"-", false, 0}, {"1,5", false, 0}, {"1e", false, 0},
		};
		unsigned i = rnd(sizeof e / sizeof *e);
		strcpy(b, e[i].s);
		ok = e[i].ok;
		want = e[i].v;
		break;
	}
	default: {
		want = (long)rnd64() >> 11 >> rnd(50);
		sprintf(b, "%ld", (long)want);
	}
	}
	char* p = exact(b, strlen(b) + 1);
	double got = 77;
	int rc = str2double(&got, p);
	trace("str2double '%s'", b);
	expect((rc == 0) == ok, "str2double", "'%s' gives %d, not %d", b, rc, !ok);
	expect(!ok || got == want, "str2double", "'%s' is %.17g, not %.17g", b, got,
	       want);
	seen(ok ? "numbers" : "rejected");
	free(p);
}

static void chars(void)
{
	char b[80];
	unsigned n = gen(b, "abAB.", 20);
	char* p = exact(b, n + 1);
	char c = "abAB.z"[rnd(6)];
	unsigned lim = rnd(24);
	int all = 0, some = 0;
	for (unsigned i = 0; i < n; ++i) {
		all += b[i] == c;
		some += i < lim && b[i] == c;
	}
	trace("count %c in '%s' (%u)", c, b, lim);
	expect(charcount(p, c) == all, "charcount", "%d, not %d", charcount(p, c), all);
	expect(charncount(p, c, lim) == some, "charncount", "%d, not %d",
	       charncount(p, c, lim), some);
	expect(!strhaschar(p, c) == !all, "strhaschar", "%d", strhaschar(p, c));
	if (n) {
		unsigned i = rnd(n);
		removecharat(p, i);
		memmove(b + i, b + i + 1, n - i);
		expect(!strcmp(p, b), "removecharat", "'%s', not '%s'", p, b);
		n--;
	}
	char d[80];
	gen(d, "abAB.", 20);
	if (rnd(2)) {
		strcpy(d, b);
		if (*d && rnd(2)) {
			d[rnd(strlen(d))] ^= 32;
		}
	}
	char lb[80], ld[80];
	for (unsigned i = 0; i <= strlen(b); ++i) {
		lb[i] = b[i] >= 'A' && b[i] <= 'Z' ? b[i] + 32 : b[i];
	}
	for (unsigned i = 0; i <= strlen(d); ++i) {
		ld[i] = d[i] >= 'A' && d[i] <= 'Z' ? d[i] + 32 : d[i];
	}
	expect(!!string_eq(b, d) == !strcmp(b, d), "string_eq", "'%s' '%s'", b, d);
	expect(!!istring_eq(b, d) == !strcmp(lb, ld), "istring_eq", "'%s' '%s'", b, d);
	string_to_lower(p);
	expect(!strcmp(p, lb), "string_to_lower", "'%s', not '%s'", p, lb);
	free(p);
	char r[40];
	unsigned rl = rnd(30);
	memset(r, '!', sizeof r);
	char* q = malloc(rl + 1);
	expect(randstr(q, rl) == q && strlen(q) == rl, "randstr", "length %zu, not %u",
	       strlen(q), rl);
	for (unsigned i = 0; i < rl; ++i) {
		expect(isalnum((unsigned char)q[i]), "randstr", "character %d", q[i]);
	}
	free(q);
}

static void searches(void)
{
	char b[80], f[20];
	unsigned n = gen(b, rnd(2) ? "ab" : "abcd", 20);
	unsigned k = gen(f, "ab", 4);
	if (n && rnd(2)) {
		unsigned at = rnd(n);
		k = rnd(n - at < 6 ? n - at + 1 : 6);
		memcpy(f, b + at, k);
		f[k] = 0;
	}
	unsigned lim = rnd(3) ? n : rnd(24);
	unsigned have = lim < n ? lim : n;
	char* want = NULL;
	/* only the first lim bytes may be looked at */
	char* p = lim < n ? exact(b, lim) : exact(b, n + 1);
	for (unsigned i = 0; i + k <= have; ++i) {
		if (!memcmp(p + i, f, k)) {
			want = p + i;
			break;
		}
	}
	trace("strnstr '%s' '%s' %u", b, f, lim);
	char* got = strnstr(p, f, lim);
	expect(got == want, "strnstr", "at %zd, not %zd", got ? got - p : -1,
	       want ? want - p : -1);
	seen(want ? "found" : "not_found");
	free(p);
}

static void names(void)
{
	char b[80], w[80];
	gen(b, "ab./", 12);
	strcpy(w, b);
	/* the last dot of the last component, and what follows, go */
	char* base = strrchr(w, '/');
	base = base ? base + 1 : w;
	char* dot = strrchr(base, '.');
	char* ext = NULL;
	if (dot) {
		ext = dot != base ? strdup(dot) : NULL;
		*dot = 0;
	}
	trace("getnoext '%s'", b);
	char* d = malloc(strlen(b) + 1);
	char* p = exact(b, strlen(b) + 1);
	getnoext(d, p);
	expect(!strcmp(d, w), "getnoext", "'%s' gives '%s', not '%s'", b, d, w);
	expect(!strcmp(p, b), "getnoext", "changed its argument");
	getnoext(d, NULL);
	expect(*d == 0, "getnoext", "of NULL");
	if (ext && b[strlen(b) - 1] != '/') {
		char* e = getext(p);
		expect(!strcmp(e, ext), "getext", "'%s' gives '%s'", b, e);
		free(e);
		seen("extensions");
	}
	free(ext);
	free(d);
	free(p);
}

static void listing(void)
{
	char dir[] = "mon-XXXXXX";
	if (!mkdtemp(dir)) {
		return;
	}
	unsigned mask = rnd(256);
	for (unsigned i = 0; i < 8; ++i) {
		char f[64];
		sprintf(f, "%s/f%u.%s", dir, i, i % 2 ? "csv" : "");
		if (mask >> i & 1) {
			close(open(f, O_CREAT | O_WRONLY, 0600));
		}
	}
	node* l = dir_list_files(dir);
	unsigned got = 0, dots = 0;
	for (node* k = l; k; k = k->next) {
		const char* s = k->data;
		if (!strcmp(s, ".") || !strcmp(s, "..")) {
			++dots;
			continue;
		}
		unsigned i = s[1] - '0';
		expect(*s == 'f' && i < 8 && (mask >> i & 1) && !(got >> i & 1),
		       "dir_list_files", "lists '%s'", s);
		got |= 1u << i;
	}
	expect(got == mask, "dir_list_files", "lists %x, not %x", got, mask);
	node_free_data(&l);
	for (unsigned i = 0; i < 8; ++i) {
		char f[64];
		sprintf(f, "%s/f%u.%s", dir, i, i % 2 ? "csv" : "");
		unlink(f);
	}
	rmdir(dir);
	seen("listings");
}

static void round_(void)
{
	for (unsigned i = 0; i < 10; ++i) {
		longs();
		doubles();
		chars();
		searches();
		names();
	}
	if (rnd(8) == 0) {
		listing();
	}
}

MON_MAIN(round_())
