/* Monitors fifo between threads.  Every element carries its producer and a
 * sequence number; the consumers check that each arrives once and in order,
 * and a watchdog that everybody gets to the end. */
#include "mon.h"
#include <pthread.h>
#include <sched.h>
#include <stdatomic.h>
#include <time.h>
#include "util/fifo.h"
#include "util/util.h"

extern unsigned long stress_seed __attribute__((weak));

struct msg {
	uint32_t producer;
	uint32_t seq;
	uint64_t check;
};

static atomic_ulong progress;
static atomic_uint phase;
static char scenario[200];

static uint64_t mix(uint64_t z)
{
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9UL;
	return z ^ (z >> 31);
}

/* every thread has its own random source */
static uint64_t trnd(uint64_t* s)
{
	*s += 0x9e3779b97f4a7c15UL;
	return mix(mix(*s));
}

static void* watchdog(void* arg)
{
	unsigned long last = 0;
	unsigned quiet = 0;
	for (;;) {
		struct timespec t = {0, 200000000};
		nanosleep(&t, NULL);
		unsigned long p = atomic_load(&progress);
		quiet = p == last ? quiet + 1 : 0;
		last = p;
		if (quiet > 5 * 30) {
			trace("%s", scenario);
			violation("stuck", "nobody got on for 30 s (phase %u)",
			          atomic_load(&phase));
		}
	}
	return arg;
}

struct producer {
	pthread_t t;
	fifo* f;
	unsigned id;
	unsigned count;
	uint64_t rng;
};

static void pause_(uint64_t* s)
{
	uint64_t r = trnd(s);
	if (r % 61 == 0) {
		struct timespec t = {0, (r >> 10) % 60000};
		nanosleep(&t, NULL);
	} else if (r % 7 == 0) {
		sched_yield();
	}
}

static struct msg make(unsigned id, unsigned seq)
{
	struct msg m = {id, seq, mix((uint64_t)id << 32 | seq)};
	return m;
}

static void* produce(void* arg)
{
	struct producer* p = arg;
	vec v;
	vec_construct_(&v, struct msg);
	for (unsigned i = 0; i < p->count;) {
		pause_(&p->rng);
		uint64_t r = trnd(&p->rng);
		if (v.size == 0 && r % 3 == 0) {
			/* one at a time */
			while (fifo_receivable(p->f) == 0) {
				fifo_wait_for_get(p->f);
			}
			struct msg m = make(p->id, i++);
			if ((r >> 20) % 3) {
				fifo_add(p->f, &m);
			} else {
				while (fifo_add_try(p->f, &m)) {
					sched_yield();
				}
			}
			memset(&m, 0xee, sizeof m);
			atomic_fetch_add(&progress, 1);
			continue;
		}
		unsigned k = 1 + (r >> 8) % 9;
		for (; k && i < p->count; --k) {
			struct msg m = make(p->id, i++);
			vec_push_back(&v, &m);
		}
		while (v.size) {
			unsigned had = v.size;
			if ((r >> 16) % 2) {
				fifo_nadd(p->f, &v);
			} else {
				fifo_nadd_try(p->f, &v);
			}
			if (v.size != had) {
				atomic_fetch_add(&progress, 1);
			}
			if (v.size && fifo_receivable(p->f) == 0) {
				fifo_wait_for_get(p->f);
			}
		}
	}
	vec_destroy(&v);
	return NULL;
}

struct account {
	unsigned* next; /* per producer */
	unsigned n;
	unsigned got;
};

static void take(struct account* a, const struct msg* m)
{
	expect(m->producer < a->n, "invented", "producer %u of %u (%s)",
	       m->producer, a->n, scenario);
	expect(m->check == mix((uint64_t)m->producer << 32 | m->seq), "torn",
	       "%u/%u (%s)", m->producer, m->seq, scenario);
	expect(m->seq == a->next[m->producer], m->seq < a->next[m->producer] ?
	       "twice" : "lost", "of producer %u came %u, not %u (%s)", m->producer,
	       m->seq, a->next[m->producer], scenario);
	++a->next[m->producer];
	++a->got;
	mon_mix(m->producer + 1);
	atomic_fetch_add(&progress, 1);
}

/* take something from f, which may be empty */
static unsigned drain(fifo* f, struct account* a, uint64_t* rng, vec* buf)
{
	unsigned had = a->got;
	uint64_t r = trnd(rng);
	switch (r % 5) {
	case 0: {
		unsigned max = 1 + (r >> 8) % 20;
		vec_clear(buf);
		fifo_nget(f, buf, 1, max);
		expect(buf->size <= max, "nget", "more than %u", max);
		for (unsigned i = 0; i < buf->size; ++i) {
			take(a, vec_at(buf, i));
		}
		break;
	}
	case 1: {
		struct msg* m = fifo_begin(f);
		while (m != fifo_end(f)) {
			struct msg c = *m;
			m = fifo_iter(f);
			take(a, &c);
			if ((r >>= 1) % 16 == 3) {
				break;
			}
		}
		if ((r >> 5) % 2) {
			fifo_update(f);
		} else {
			while (fifo_update_try(f)) {
				sched_yield();
			}
		}
		break;
	}
	case 2: {
		struct msg* m = fifo_safe_peek(f);
		if (m) {
			take(a, m);
			fifo_consume(f);
		}
		break;
	}
	case 3:
		if (!fifo_is_empty(f)) {
			struct msg c = *(struct msg*)fifo_peek(f);
			struct msg* n = fifo_look_ahead(f);
			if (n && n->producer == c.producer) {
				expect(n->seq == c.seq + 1, "look_ahead",
				       "%u after %u", n->seq, c.seq);
			}
			fifo_consume(f);
			take(a, &c);
		}
		break;
	default:
		if (fifo_available(f) && f->input_count < 100) {
			/* what get gives is overwritten by and by: the engine
			 * looks at it at once, with room to spare */
			struct msg c = *(struct msg*)fifo_peek(f);
			fifo_get_or_wait(f);
			take(a, &c);
		}
	}
	return a->got - had;
}

static void start(struct producer* p, fifo* f, unsigned id, unsigned count)
{
	p->f = f;
	p->id = id;
	p->count = count;
	p->rng = rnd64();
	pthread_create(&p->t, NULL, produce, p);
}

struct closer {
	pthread_t t;
	fifo* f;
	struct producer* p;
	unsigned n;
};

static void* close_after(void* arg)
{
	struct closer* c = arg;
	for (unsigned i = 0; i < c->n; ++i) {
		pthread_join(c->p[i].t, NULL);
	}
	fifo_set_open(c->f, false);
	atomic_fetch_add(&progress, 1);
	return NULL;
}

static void check_all(struct account* a, struct producer* p, const char* what)
{
	for (unsigned i = 0; i < a->n; ++i) {
		expect(a->next[i] == p[i].count, "lost",
		       "%s: %u of %u from producer %u (%s)", what, a->next[i],
		       p[i].count, i, scenario);
	}
}

/* many producers, one consumer */
static void one_fifo(void)
{
	unsigned n = 1 + rnd(4);
	unsigned size = n + 1 + (rnd(3) ? rnd(5) : rnd(60));
	unsigned count = 20 + rnd(rnd(3) ? 200 : 1200);
	sprintf(scenario, "one fifo of %u, %u producers of %u", size, n, count);
	fifo f;
	fifo_construct_(&f, struct msg, size);
	f.input_count = n;
	struct producer p[4];
	struct account a = {calloc(n, sizeof(unsigned)), n, 0};
	struct closer c = {.f = &f, .p = p, .n = n};
	uint64_t rng = rnd64();
	for (unsigned i = 0; i < n; ++i) {
		start(&p[i], &f, i, count);
	}
	pthread_create(&c.t, NULL, close_after, &c);
	vec buf;
	vec_construct_(&buf, struct msg);
	unsigned waits = 0, stalls = 0;
	for (;;) {
		bool open = f.is_open;
		if (fifo_is_empty(&f)) {
			if (!open) {
				break;
			}
			fifo_wait_for_add(&f);
			++waits;
			expect(!fifo_is_empty(&f) || !f.is_open, "woke",
			       "woken with nothing (%s)", scenario);
		}
		if (!drain(&f, &a, &rng, &buf)) {
			++stalls;
		}
		if (rng % 19 == 0) {
			pause_(&rng);
		}
	}
	expect(fifo_is_empty(&f), "left", "not empty (%s)", scenario);
	pthread_join(c.t, NULL);
	check_all(&a, p, "one fifo");
	stat_add("received", a.got);
	stat_add("waits", waits);
	vec_destroy(&buf);
	fifo_destroy(&f);
	free(a.next);
}

/* two fifos, one consumer that waits for either, or for both */
static void two_fifos(void)
{
	fifo f[2];
	struct producer p[2][2];
	struct account a[2];
	struct closer c[2];
	bool both = rnd(2);
	uint64_t rng = rnd64();
	unsigned n[2], size[2], count = 20 + rnd(300);
	for (unsigned k = 0; k < 2; ++k) {
		n[k] = 1 + rnd(2);
		size[k] = n[k] + 1 + rnd(6);
		fifo_construct_(&f[k], struct msg, size[k]);
		f[k].input_count = n[k];
		a[k] = (struct account){calloc(n[k], sizeof(unsigned)), n[k], 0};
		c[k] = (struct closer){.f = &f[k], .p = p[k], .n = n[k]};
	}
	sprintf(scenario, "%s of fifos of %u and %u, %u and %u producers of %u",
	        both ? "both" : "either", size[0], size[1], n[0], n[1], count);
	for (unsigned k = 0; k < 2; ++k) {
		for (unsigned i = 0; i < n[k]; ++i) {
			start(&p[k][i], &f[k], i, count / (1 + rnd(3)));
		}
		pthread_create(&c[k].t, NULL, close_after, &c[k]);
	}
	vec buf;
	vec_construct_(&buf, struct msg);
	unsigned waits = 0;
	for (;;) {
		bool open0 = f[0].is_open, open1 = f[1].is_open;
		bool e0 = fifo_is_empty(&f[0]), e1 = fifo_is_empty(&f[1]);
		if (!open0 && !open1 && e0 && e1) {
			break;
		}
		if (open0 && open1 && both && (e0 || e1)) {
			fifo_wait_for_add_both(&f[0], &f[1]);
			++waits;
			expect((!fifo_is_empty(&f[0]) && !fifo_is_empty(&f[1]))
			       || !f[0].is_open || !f[1].is_open, "woke",
			       "both: woken too early (%s)", scenario);
		} else if (open0 && open1 && e0 && e1) {
			fifo_wait_for_add_either(&f[0], &f[1]);
			++waits;
			expect(!fifo_is_empty(&f[0]) || !fifo_is_empty(&f[1])
			       || !f[0].is_open || !f[1].is_open, "woke",
			       "either: woken too early (%s)", scenario);
		} else if (e0 && e1) {
			fifo_wait_for_add(open0 ? &f[0] : &f[1]);
			++waits;
		}
		unsigned k = trnd(&rng) % 2;
		drain(&f[k], &a[k], &rng, &buf);
		if (!both || rng % 3) {
			drain(&f[!k], &a[!k], &rng, &buf);
		}
	}
	for (unsigned k = 0; k < 2; ++k) {
		pthread_join(c[k].t, NULL);
		check_all(&a[k], p[k], k ? "second" : "first");
		stat_add("received", a[k].got);
		fifo_destroy(&f[k]);
		free(a[k].next);
	}
	stat_add(both ? "waits_both" : "waits_either", waits);
	vec_destroy(&buf);
}

/* tokens that travel round: pool -> workers -> pool */
struct ring {
	fifo pool;
	fifo pipe;
	unsigned rounds;
	uint64_t rng;
	unsigned* seen;
	unsigned tokens;
};

static void* ring_out(void* arg)
{
	struct ring* r = arg;
	uint64_t rng = r->rng;
	for (unsigned i = 0; i < r->rounds; ++i) {
		struct msg* m = fifo_get_or_wait(&r->pool);
		struct msg c = *m;
		expect(c.producer < r->tokens, "invented", "token (%s)", scenario);
		c.seq++;
		while (fifo_receivable(&r->pipe) == 0) {
			fifo_wait_for_get(&r->pipe);
		}
		fifo_add(&r->pipe, &c);
		atomic_fetch_add(&progress, 1);
		pause_(&rng);
	}
	fifo_set_open(&r->pipe, false);
	return NULL;
}

static void a_ring(void)
{
	struct ring r = {.rounds = 50 + rnd(500), .rng = rnd64(),
	                 .tokens = 1 + rnd(6)};
	sprintf(scenario, "ring of %u tokens, %u rounds", r.tokens, r.rounds);
	/* one slot more than tokens, and one for the token that is just
	 * being looked at */
	fifo_construct_(&r.pool, struct msg, r.tokens + 3);
	fifo_construct_(&r.pipe, struct msg, r.tokens + 1 + rnd(4));
	r.pool.input_count = 1;
	r.pipe.input_count = 1;
	for (unsigned i = 0; i < r.tokens; ++i) {
		struct msg m = {i, 0, 0};
		fifo_add(&r.pool, &m);
	}
	unsigned* turns = calloc(r.tokens, sizeof(unsigned));
	uint64_t rng = rnd64();
	pthread_t t;
	pthread_create(&t, NULL, ring_out, &r);
	unsigned got = 0;
	for (;;) {
		bool open = r.pipe.is_open;
		if (fifo_is_empty(&r.pipe)) {
			if (!open) {
				break;
			}
			fifo_wait_for_add(&r.pipe);
			continue;
		}
		struct msg m = *(struct msg*)fifo_peek(&r.pipe);
		fifo_consume(&r.pipe);
		expect(m.producer < r.tokens, "invented", "token (%s)", scenario);
		expect(m.seq == ++turns[m.producer], "turns",
		       "token %u on turn %u, not %u (%s)", m.producer, m.seq,
		       turns[m.producer], scenario);
		++got;
		mon_mix(m.producer + fifo_available(&r.pipe) * 16);
		while (fifo_add_try(&r.pool, &m)) {
			sched_yield();
		}
		atomic_fetch_add(&progress, 1);
		pause_(&rng);
	}
	pthread_join(t, NULL);
	expect(got == r.rounds, "lost", "%u of %u (%s)", got, r.rounds, scenario);
	expect(fifo_available(&r.pool) == r.tokens, "lost",
	       "%u of %u tokens in the pool (%s)", fifo_available(&r.pool),
	       r.tokens, scenario);
	stat_add("received", got);
	fifo_destroy(&r.pool);
	fifo_destroy(&r.pipe);
	free(turns);
}

static void round_(void)
{
	static bool started;
	if (!started) {
		pthread_t t;
		pthread_create(&t, NULL, watchdog, NULL);
		started = true;
	}
	if (&stress_seed) {
		stress_seed = rnd64();
	}
	atomic_fetch_add(&progress, 1);
	switch (atomic_fetch_add(&phase, 1) % 4) {
	case 0:
	case 1:
		one_fifo();
		seen("one_fifo");
		break;
	case 2:
		two_fifos();
		seen("two_fifos");
		break;
	default:
		a_ring();
		seen("ring");
	}
}

MON_MAIN(round_())
