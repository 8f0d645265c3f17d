/* Monitors vec against a plain array after every operation. */
#include "mon.h"
#include "util/vec.h"

static unsigned char* m;   /* the model: n elements of es bytes */
static size_t n;
static size_t es;
static size_t cap;

static void grow(size_t want)
{
	if (want + 1 > cap) {
		cap = want * 2 + 16;
		m = realloc(m, cap * es);
	}
}

static unsigned char* fresh(size_t k)
{
	unsigned char* p = malloc(k * es ? k * es : 1);
	for (size_t i = 0; i < k * es; ++i) {
		p[i] = rnd(256);
	}
	return p;
}

static void model_insert(size_t at, const void* p, size_t k)
{
	grow(n + k);
	memmove(m + (at + k) * es, m + at * es, (n - at) * es);
	memcpy(m + at * es, p, k * es);
	n += k;
}

static void model_erase(size_t at, size_t k)
{
	memmove(m + at * es, m + (at + k) * es, (n - at - k) * es);
	n -= k;
}

static void verify(vec* v, const char* op)
{
	expect(v->size == n, "size", "%s: %zu elements, not %zu", op, v->size, n);
	expect(vec_empty(v) == (n == 0), "empty", "%s: vec_empty", op);
	expect(n == 0 || !memcmp(vec_begin(v), m, n * es), "contents",
	       "%s: wrong contents (%zu elements of %zu bytes)", op, n, es);
	expect((char*)vec_end(v) == (char*)vec_begin(v) + n * es, "end",
	       "%s: vec_end is not %zu elements on", op, n);
	if (n) {
		size_t i = rnd(n);
		expect(!memcmp(vec_at(v, i), m + i * es, es), "at",
		       "%s: vec_at(%zu)", op, i);
		expect(!memcmp(vec_back(v), m + (n - 1) * es, es), "back",
		       "%s: vec_back", op);
	}
	/* one element past the last is always allocated */
	memset(vec_end(v), 0xa5, es);
}

/* order on the first byte, then on the context's say the rest */
static int cmp(const void* a, const void* b, void* ctx)
{
	int r = memcmp(a, b, es);
	return *(int*)ctx ? -r : r;
}

static int model_cmp(const void* a, const void* b) { return memcmp(a, b, es); }

static void round_(void)
{
	static const size_t sizes[] = {1, 2, 4, 8, 16, 24, 3, 40};
	es = sizes[rnd(8)];
	n = 0;
	cap = 0;
	m = NULL;
	grow(8);
	vec v;
	expect(vec_construct(&v, es) == &v, "construct", "wrong address");
	unsigned ops = 20 + rnd(150);
	unsigned lim = rnd(4) ? 30 : 400;
	for (unsigned i = 0; i < ops; ++i) {
		char op[80];
		size_t at = rnd(n + 1);
		size_t k = rnd(3) ? rnd(4) : rnd(20);
		unsigned what = rnd(24);
		if (n > lim && what < 12) {
			what = 12 + rnd(12);
		}
		unsigned char* p = fresh(k + 1);
		switch (what) {
		case 0:
		case 1:
			sprintf(op, "push_back");
			grow(n + 1);
			memcpy(m + n++ * es, p, es);
			vec_push_back(&v, p);
			break;
		case 2: {
			sprintf(op, "add_one");
			void* r = vec_add_one(&v);
			memcpy(r, p, es);
			model_insert(n, p, 1);
			break;
		}
		case 3: {
			sprintf(op, "add_one_front");
			void* r = vec_add_one_front(&v);
			expect(r == vec_begin(&v), "front", "not the front");
			memcpy(r, p, es);
			model_insert(0, p, 1);
			break;
		}
		case 4:
			sprintf(op, "insert_one at %zu of %zu", at, n);
			vec_insert_one(&v, vec_at(&v, at), p);
			model_insert(at, p, 1);
			break;
		case 5:
			sprintf(op, "insert_at %zu of %zu, %zu", at, n, k);
			vec_insert_at(&v, at, p, k);
			model_insert(at, p, k);
			break;
		case 6:
			sprintf(op, "insert at %zu of %zu, %zu", at, n, k);
			vec_insert(&v, vec_at(&v, at), p, k);
			model_insert(at, p, k);
			break;
		case 7:
			sprintf(op, "insert_iter at %zu of %zu, %zu", at, n, k + 1);
			vec_insert_iter(&v, vec_at(&v, at), p, p + k * es);
			model_insert(at, p, k + 1);
			break;
		case 8:
			sprintf(op, "append %zu to %zu", k, n);
			vec_append(&v, p, k);
			model_insert(n, p, k);
			break;
		case 9: {
			sprintf(op, "extend %zu by %zu", n, k);
			vec w;
			vec_construct(&w, es);
			vec_append(&w, p, k);
			vec_extend(&v, &w);
			expect(w.size == k && !memcmp(w.data, p, k * es),
			       "source", "extend changed its source");
			vec_destroy(&w);
			model_insert(n, p, k);
			break;
		}
		case 10:
			sprintf(op, "resize_and_zero %zu to %zu", n, n + k);
			vec_resize_and_zero(&v, n + k);
			memset(p, 0, k * es);
			model_insert(n, p, k);
			break;
		case 11: {
			sprintf(op, "resize %zu to %zu", n, n + k);
			vec_resize(&v, n + k);
			expect(v.size == n + k, "size", "resize");
			/* the new elements are unspecified until set */
			if (k) {
				vec_set_at(&v, n, p, k);
			}
			model_insert(n, p, k);
			break;
		}
		case 12:
			k = n ? rnd(n + 1) : 0;
			sprintf(op, "resize %zu to %zu", n, k);
			if (rnd(2)) {
				vec_resize(&v, k);
			} else {
				vec_resize_and_zero(&v, k);
			}
			n = k;
			break;
		case 13: {
			sprintf(op, "pop_back of %zu", n);
			void* r = vec_pop_back(&v);
			expect((r == NULL) == (n == 0), "pop", "%s", op);
			if (n) {
				--n;
				expect(!memcmp(r, m + n * es, es), "pop",
				       "pop_back gave another element");
			}
			break;
		}
		case 14:
			if (n == 0) {
				sprintf(op, "nothing");
				break;
			}
			at = rnd(n);
			sprintf(op, "erase_one %zu of %zu", at, n);
			vec_erase_one(&v, vec_at(&v, at));
			model_erase(at, 1);
			break;
		case 15:
			k = rnd(n - at + 1);
			sprintf(op, "erase_at %zu of %zu, %zu", at, n, k);
			vec_erase_at(&v, at, k);
			model_erase(at, k);
			break;
		case 16:
			k = rnd(n - at + 1);
			sprintf(op, "erase %zu of %zu, %zu", at, n, k);
			vec_erase(&v, vec_at(&v, at), k);
			model_erase(at, k);
			break;
		case 17:
			if (at == n) {
				sprintf(op, "nothing");
				break;
			}
			k = rnd(n - at);
			sprintf(op, "erase_iter %zu..%zu of %zu", at, at + k, n);
			vec_erase_iter(&v, vec_at(&v, at), vec_at(&v, at + k));
			model_erase(at, k + 1);
			break;
		case 18:
			if (n == 0) {
				sprintf(op, "nothing");
				break;
			}
			at = rnd(n);
			k = rnd(n - at + 1);
			if (k > 8) {
				k = 8;
			}
			free(p);
			p = fresh(k + 1);
			sprintf(op, "set %zu at %zu of %zu", k, at, n);
			switch (rnd(4)) {
			case 0:
				vec_set_at(&v, at, p, k);
				break;
			case 1:
				vec_set(&v, vec_at(&v, at), p, k);
				break;
			case 2:
				k = 1;
				vec_set_one(&v, vec_at(&v, at), p);
				break;
			default:
				k = k ? k : 1;
				vec_set_iter(&v, vec_at(&v, at), p,
				             p + (k - 1) * es);
			}
			memcpy(m + at * es, p, k * es);
			break;
		case 19:
			k = rnd(3) ? rnd(40) : rnd(500);
			sprintf(op, "reserve %zu with %zu", k, n);
			vec_reserve(&v, k);
			/* that much can now be added without moving */
			if (k > n) {
				void* old = vec_begin(&v);
				size_t was = n;
				vec_resize(&v, k);
				expect(vec_begin(&v) == old, "reserve",
				       "storage moved within the reserve");
				vec_resize(&v, was);
				seen("reserve_grew");
			}
			break;
		case 20:
			sprintf(op, "shrink_to_fit %zu", n);
			vec_shrink_to_fit(&v);
			break;
		case 21: {
			int desc = rnd(2);
			sprintf(op, "sort_r %zu %s", n, desc ? "desc" : "asc");
			vec_sort_r(&v, cmp, &desc);
			qsort(m, n, es, model_cmp);
			if (desc) {
				unsigned char t[40];
				for (size_t a = 0, b = n; a + 1 < b; ++a) {
					--b;
					memcpy(t, m + a * es, es);
					memcpy(m + a * es, m + b * es, es);
					memcpy(m + b * es, t, es);
				}
			}
			break;
		}
		case 22:
			if (rnd(5)) {
				sprintf(op, "nothing");
				break;
			}
			sprintf(op, "clear");
			vec_clear(&v);
			n = 0;
			break;
		default:
			sprintf(op, "push_back x%zu", k);
			for (size_t j = 0; j < k; ++j) {
				vec_push_back(&v, p + j * es);
			}
			model_insert(n, p, k);
		}
		trace("%s (elem %zu)", op, es);
		free(p);
		verify(&v, op);
		seen("ops");
	}
	if (n > 100) {
		seen("large");
	}
	vec_destroy(&v);
	free(m);
}

MON_MAIN(round_())
