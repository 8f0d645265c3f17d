/* Monitors flex against an array of byte strings after every operation. */
#include "mon.h"
#include <math.h>
#include "util/flex.h"

void flex_shrink_to_fit(flex* restrict);

struct item {
	unsigned char* p;
	unsigned n;
};
static struct item m[4000];
static size_t n;

static void put(size_t at, const void* p, unsigned len)
{
	memmove(&m[at + 1], &m[at], (n - at) * sizeof(*m));
	m[at].p = exact(p, len);
	m[at].n = len;
	++n;
}

static void drop(size_t at)
{
	free(m[at].p);
	memmove(&m[at], &m[at + 1], (n - at - 1) * sizeof(*m));
	--n;
}

static void round_(void)
{
	flex f;
	n = 0;
	flex_construct(&f);
	unsigned ops = 10 + rnd(150);
	for (unsigned i = 0; i < ops; ++i) {
		char op[80];
		unsigned len = rnd(5) ? rnd(6) : rnd(200);
		unsigned char* p = malloc(len ? len : 1);
		for (unsigned k = 0; k < len; ++k) {
			p[k] = rnd(256);
		}
		switch (rnd(16)) {
		case 0:
		case 1:
		case 2:
		case 3:
		default:
			sprintf(op, "push_back %u", len);
			flex_push_back(&f, p, len);
			put(n, p, len);
			break;
		case 4:
		case 5: {
			size_t at = rnd(n + 1);
			sprintf(op, "insert %u at %zu of %zu", len, at, n);
			flex_insert(&f, at, p, len);
			put(at, p, len);
			break;
		}
		case 6:
		case 7: {
			if (!n) {
				strcpy(op, "nothing");
				break;
			}
			size_t at = rnd(n);
			sprintf(op, "remove %zu of %zu", at, n);
			flex_remove(&f, at);
			drop(at);
			break;
		}
		case 8:
		case 9:
			if (!n) {
				strcpy(op, "nothing");
				break;
			}
			sprintf(op, "pop_back of %zu", n);
			flex_pop_back(&f);
			drop(n - 1);
			break;
		case 10: {
			static const long edge[] = {0, -1, 9, 10, -10, 99, 100,
			        1000000, __LONG_MAX__, -__LONG_MAX__ - 1};
			long v = rnd(2) ? edge[rnd(10)] : (long)rnd64() >> rnd(64);
			char b[40];
			sprintf(op, "push_back_str_int %ld", v);
			flex_push_back_str_int(&f, v);
			put(n, b, sprintf(b, "%ld", v));
			break;
		}
		case 11: {
			static const double edge[] = {0, -0.0, 0.5, -1, 1e15,
			        123456.75, 0.000001, 1e22, -2.5e-7};
			double v = rnd(2) ? edge[rnd(9)] : ((long)rnd64() >> rnd(60)) / 4.0;
			char b[400];
			sprintf(op, "push_back_str_float %f", v);
			flex_push_back_str_float(&f, v);
			put(n, b, sprintf(b, "%f", v));
			break;
		}
		case 12: {
			size_t k = rnd(3) ? n + rnd(4) : rnd(n + 1);
			sprintf(op, "resize %zu to %zu", n, k);
			flex_resize(&f, k);
			while (n < k) {
				put(n, "", 0);
			}
			while (n > k) {
				drop(n - 1);
			}
			break;
		}
		case 13:
			if (rnd(3)) {
				size_t k = rnd(300);
				sprintf(op, "reserve %zu with %zu", k, n);
				flex_reserve(&f, k);
			} else {
				sprintf(op, "shrink_to_fit");
				flex_shrink_to_fit(&f);
			}
			break;
		case 14:
			if (rnd(6)) {
				strcpy(op, "nothing");
				break;
			}
			strcpy(op, "clear");
			flex_clear(&f);
			while (n) {
				drop(n - 1);
			}
			break;
		}
		memset(p, 0x77, len);
		free(p);
		trace("%s", op);
		expect(flex_size(&f) == n, "size", "%s: %zu elements, not %zu", op,
		       flex_size(&f), n);
		expect(flex_empty(&f) == (n == 0), "empty", "%s: flex_empty", op);
		for (size_t k = 0; k < n; ++k) {
			stringview s = flex_pair_at(&f, k);
			expect(s.len == m[k].n, "length",
			       "%s: element %zu has %u bytes, not %u", op, k,
			       s.len, m[k].n);
			expect(!memcmp(s.data, m[k].p, s.len), "contents",
			       "%s: element %zu of %zu is '%s', not '%s'", op, k,
			       n, show(s.data, s.len), show(m[k].p, m[k].n));
			expect(m[k].n == 0 ||
			       !memcmp(flex_at(&f, k), m[k].p, m[k].n), "at",
			       "%s: flex_at(%zu)", op, k);
		}
		seen("ops");
	}
	while (n) {
		drop(n - 1);
	}
	flex_destroy(&f);
}

MON_MAIN(round_())
