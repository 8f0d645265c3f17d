/* Monitors fifo, used by one thread, against a queue. */
#include "mon.h"
#include "util/fifo.h"
#include "util/util.h"

static uint64_t q[100000];      /* model: q[lo..hi) */
static unsigned lo, hi;
static unsigned size;
static unsigned es;

static void item(unsigned char* o, uint64_t v)
{
	for (unsigned i = 0; i < es; ++i) {
		o[i] = v >> (8 * (i % 8)) ^ i / 8;
	}
}

static void is(const void* p, uint64_t v, const char* op)
{
	unsigned char w[40];
	item(w, v);
	expect(!memcmp(p, w, es), "contents", "%s: wrong element", op);
}

static uint64_t serial(void)
{
	uint64_t v = rnd64();
	return es >= 8 ? v : v & ((1UL << (8 * es)) - 1);
}

static void verify(fifo* f, const char* op)
{
	unsigned n = hi - lo;
	expect(fifo_available(f) == n, "available", "%s: %u available, not %u", op,
	       fifo_available(f), n);
	expect(fifo_is_empty(f) == (n == 0), "empty", "%s: is_empty with %u", op, n);
	expect(fifo_is_full(f) == (n == size - 1), "full",
	       "%s: is_full with %u of %u", op, n, size - 1);
	unsigned used = n + f->input_count;
	unsigned r = used < size ? size - used : 0;
	expect(fifo_receivable(f) == r, "receivable",
	       "%s: %u receivable, not %u (%u of %u, %u inputs)", op,
	       fifo_receivable(f), r, n, size - 1, f->input_count);
	void* p = fifo_safe_peek(f);
	expect((p == NULL) == (n == 0), "peek", "%s: safe_peek with %u", op, n);
	if (n) {
		is(p, q[lo], op);
		is(fifo_peek(f), q[lo], op);
	}
	p = fifo_look_ahead(f);
	expect((p == NULL) == (n < 2), "look_ahead", "%s: look_ahead with %u", op, n);
	if (p) {
		is(p, q[lo + 1], op);
	}
}

static void round_(void)
{
	static const unsigned sizes[] = {1, 2, 4, 8, 16, 24};
	es = sizes[rnd(6)];
	unsigned want = rnd(3) ? rnd(8) : rnd(70);
	size = want < 2 ? 2 : want;
	lo = hi = 0;
	fifo* f = malloc(sizeof(*f));
	fifo_construct(f, es, want);
	expect(f->is_open, "open", "closed when made");
	f->input_count = 1 + (rnd(4) == 0 ? rnd(4) : 0);
	vec left;
	vec_construct(&left, es);
	uint64_t pend[4000];
	unsigned np = 0;
	unsigned ops = 20 + rnd(200);
	trace("fifo %u, elem %u, inputs %u", want, es, f->input_count);
	for (unsigned i = 0; i < ops; ++i) {
		char op[80] = "nothing";
		unsigned n = hi - lo;
		unsigned char b[40];
		if (hi > 90000) {
			break;
		}
		switch (rnd(13)) {
		case 0:
		case 1:
			if (fifo_is_full(f)) {
				break;
			}
			{
				uint64_t v = serial();
				strcpy(op, "add");
				item(b, v);
				if (rnd(2)) {
					fifo_add(f, b);
				} else {
					expect(fifo_add_try(f, b) == 0, "try",
					       "add_try failed");
				}
				memset(b, 0x55, sizeof b);
				q[hi++] = v;
			}
			break;
		case 2:
		case 3:
		case 4: { /* as much as fits of a vector; the rest stays in it */
			for (unsigned k = rnd(rnd(3) ? 5 : size + 3); k && np < 3900; --k) {
				uint64_t v = serial();
				item(b, v);
				vec_push_back(&left, b);
				pend[np++] = v;
			}
			unsigned used = n + f->input_count;
			unsigned r = used < size ? size - used : 0;
			unsigned k = r < np ? r : np;
			sprintf(op, "nadd %u with %u of %u taken", np, n, size - 1);
			if (rnd(2)) {
				fifo_nadd(f, &left);
			} else {
				expect(fifo_nadd_try(f, &left) == 0, "try",
				       "nadd_try failed");
			}
			memcpy(q + hi, pend, k * sizeof(*q));
			hi += k;
			np -= k;
			memmove(pend, pend + k, np * sizeof(*pend));
			expect(left.size == np, "rest", "%s: %zu left, not %u", op,
			       left.size, np);
			for (k = 0; k < np; ++k) {
				is(vec_at(&left, k), pend[k], "rest of nadd");
			}
			seen("nadd");
			break;
		}
		case 5:
		case 6: {
			if (!n) {
				break;
			}
			strcpy(op, "get");
			void* p = rnd(2) ? fifo_get(f) : fifo_get_or_wait(f);
			is(p, q[lo++], op);
			break;
		}
		case 7:
		case 8: {
			unsigned block = 1 + rnd(4);
			unsigned max = rnd(2) ? rnd(2 * size) : 1000;
			vec o;
			vec_construct(&o, es);
			unsigned had = rnd(3);
			vec_resize_and_zero(&o, had);
			unsigned k = n < max ? n : max;
			k -= k % block;
			sprintf(op, "nget blocks of %u, at most %u, of %u", block, max, n);
			int r = fifo_nget(f, &o, block, max);
			expect(o.size == had + k, "nget", "%s: %zu, not %u", op,
			       o.size - had, k);
			for (unsigned j = 0; j < k; ++j) {
				is(vec_at(&o, had + j), q[lo + j], op);
			}
			expect(r == (int)(n - k), "nget", "%s: says %d are left", op, r);
			lo += k;
			vec_destroy(&o);
			seen("nget");
			break;
		}
		case 9:
			if (!n) {
				if (rnd(3) == 0 && fifo_receivable(f)) {
					/* an element of whatever was there */
					strcpy(op, "advance");
					unsigned room = fifo_receivable(f);
					fifo_advance(f);
					expect(!fifo_is_empty(f)
					       && fifo_available(f) == 1
					       && fifo_receivable(f) == room - 1,
					       "advance", "%u there",
					       fifo_available(f));
					fifo_consume(f);
				}
				break;
			}
			strcpy(op, "consume");
			fifo_consume(f);
			++lo;
			break;
		case 10: { /* iterate over what is there, perhaps not all */
			unsigned stop = rnd(2) ? n : rnd(n + 1);
			unsigned k = 0;
			sprintf(op, "iterate %u of %u", stop, n);
			void* p = fifo_begin(f);
			while (p != fifo_end(f)) {
				if (k == stop) {
					break;
				}
				expect(k < n, "iterate", "%s: does not end", op);
				is(p, q[lo + k], op);
				++k;
				p = fifo_iter(f);
				if (rnd(8) == 0 && !fifo_is_full(f)) {
					/* not seen by this iteration */
					uint64_t v = serial();
					item(b, v);
					fifo_add(f, b);
					q[hi++] = v;
				}
			}
			expect(k == stop, "iterate", "%s: ends after %u", op, k);
			if (rnd(2)) {
				fifo_update(f);
			} else {
				expect(fifo_update_try(f) == 0, "try", "update_try");
			}
			lo += k;
			seen("iterate");
			break;
		}
		case 11: {
			int o = rnd(2);
			sprintf(op, "set_open %d", o);
			fifo_set_open(f, o);
			expect(f->is_open == o, "open", "%s", op);
			if (!o) {
				/* waiting for more does not wait when closed */
				fifo_wait_for_add(f);
			}
			break;
		}
		default:
			switch (rnd(12)) {
			case 0:
				strcpy(op, "reset");
				fifo_reset(f);
				lo = hi;
				expect(f->is_open, "open", "closed after reset");
				break;
			case 1:
				want = rnd(3) ? rnd(8) : rnd(70);
				sprintf(op, "resize %u to %u", size, want);
				fifo_resize(f, want);
				size = want < 2 ? 2 : want;
				lo = hi;
				break;
			case 2: { /* every slot zero, all of them there */
				strcpy(op, "set_full");
				fifo_reset(f);
				vec_clear(f->buf);
				fifo_resize(f, size);
				fifo_set_full(f);
				memset(q + hi, 0, size * sizeof(*q));
				expect(fifo_available(f) == size - 1, "full",
				       "%u of %u", fifo_available(f), size - 1);
				/* not in the form of item() for es > 8 */
				for (unsigned k = 1; k < size; ++k) {
					unsigned char z[40] = {0};
					expect(!memcmp(fifo_get(f), z, es),
					       "contents", "set_full: not zero");
				}
				lo = hi;
				break;
			}
			case 3:
				if (fifo_receivable(f)) {
					strcpy(op, "wait_for_get");
					fifo_wait_for_get(f);
				}
				break;
			}
		}
		trace("%s", op);
		verify(f, op);
		seen("ops");
	}
	vec_destroy(&left);
	if (rnd(2)) {
		fifo_free(f);
	} else {
		fifo_destroy(f);
		free(f);
	}
}

MON_MAIN(round_())
