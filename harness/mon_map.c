/* Monitors hashmap, set, multimap and compositemap against tables indexed by
 * the equivalence class of the key.  Built once per kind: -DKIND=0..3. */
#include "mon.h"
#include <ctype.h>
#include "util/hashmap.h"
#include "util/stringview.h"
#include "util/util.h"

/* pairs that FNV-1 (64 bit) maps to the same hash */
static const char* const collide[][2] = {
#include "fnv_collisions.h"
};
#define N_COLLIDE (sizeof(collide) / sizeof(collide[0]))

struct part {
	char* s;
	unsigned len;
	unsigned cls;
	char* norm;
	unsigned nlen;
};

static struct part* parts;
static unsigned n_parts;
static unsigned n_cls;

static void normalize(struct part* p, unsigned props)
{
	p->norm = exact(p->s, p->len);
	p->nlen = p->len;
	if (props & HASHMAP_PROP_RTRIM) {
		while (p->nlen && isspace((unsigned char)p->norm[p->nlen - 1])) {
			--p->nlen;
		}
	}
	if (props & HASHMAP_PROP_NOCASE) {
		for (unsigned i = 0; i < p->nlen; ++i) {
			if (p->norm[i] >= 'A' && p->norm[i] <= 'Z') {
				p->norm[i] += 32;
			}
		}
	}
}

static int part_cmp(const void* a, const void* b)
{
	const struct part* p = &parts[*(const unsigned*)a];
	const struct part* q = &parts[*(const unsigned*)b];
	unsigned n = p->nlen < q->nlen ? p->nlen : q->nlen;
	int r = memcmp(p->norm, q->norm, n);
	return r ? r : (p->nlen > q->nlen) - (p->nlen < q->nlen);
}

static unsigned gen_key(char* o, unsigned style, unsigned i)
{
	static const char ws[] = " \t\n\v\f\r";
	unsigned n = 0;
	switch (style) {
	case 0: /* binary */
		n = rnd(4) ? rnd(12) : rnd(100);
		for (unsigned k = 0; k < n; ++k) {
			o[k] = rnd(256);
		}
		return n;
	case 1: /* letters in both cases, and white space */
		n = rnd(6);
		for (unsigned k = 0; k < n; ++k) {
			o[k] = rnd(5) ? "abABzZ@["[rnd(8)] : ws[rnd(6)];
		}
		return n;
	case 2: /* words, padded */
		n = sprintf(o, "%s%u", rnd(2) ? "Key" : "kEY", rnd(i + 2));
		for (unsigned k = rnd(4); k; --k) {
			o[n++] = ws[rnd(6)];
		}
		return n;
	case 3: /* raw integers */
	{
		long v = rnd(3) ? (long)rnd(i + 2) - 5 : (long)rnd64();
		memcpy(o, &v, 8);
		return 8;
	}
	case 4: /* prefixes of one another */
		n = rnd(40);
		memset(o, 'a', n);
		return n;
	case 5: /* equal hashes */
	{
		const char* c = collide[rnd(N_COLLIDE)][rnd(2)];
		n = strlen(c);
		memcpy(o, c, n);
		if (rnd(4) == 0) {
			memcpy(o + n, "xy", 2);
			n += 2;
		}
		return n;
	}
	default: /* long */
		n = rnd(700);
		memset(o, 'q', n);
		if (n) {
			o[rnd(n)] = 'Q';
			o[n - 1] = "q \xff\0"[rnd(4)];
		}
		return n;
	}
}

static void make_parts(unsigned n, unsigned props)
{
	char buf[1024];
	unsigned style = rnd(8);
	parts = calloc(n, sizeof(*parts));
	n_parts = n;
	for (unsigned i = 0; i < n; ++i) {
		parts[i].len = gen_key(buf, style == 7 ? rnd(7) : style, i);
		parts[i].s = exact(buf, parts[i].len);
		normalize(&parts[i], props);
	}
	unsigned* idx = calloc(n, sizeof(*idx));
	for (unsigned i = 0; i < n; ++i) {
		idx[i] = i;
	}
	qsort(idx, n, sizeof(*idx), part_cmp);
	n_cls = 0;
	for (unsigned i = 0; i < n; ++i) {
		if (i && part_cmp(&idx[i], &idx[i - 1])) {
			++n_cls;
		}
		parts[idx[i]].cls = n_cls;
	}
	++n_cls;
	free(idx);
}

static void drop_parts(void)
{
	for (unsigned i = 0; i < n_parts; ++i) {
		free(parts[i].s);
		free(parts[i].norm);
	}
	free(parts);
}

static unsigned pick_props(void)
{
	static const unsigned p[] = {0, HASHMAP_PROP_NOCASE, HASHMAP_PROP_RTRIM,
	                             HASHMAP_PROP_NOCASE | HASHMAP_PROP_RTRIM};
	return p[rnd(4)];
}

static size_t pick_limit(void)
{
	static const size_t l[] = {0, 1, 2, 3, 4, 7, 8, 16, 33, 100, 128, 1000};
	return l[rnd(12)];
}

static unsigned pick_ops(void)
{
	static const unsigned n[] = {5, 20, 60, 200, 600, 2000};
	return n[rnd(6)];
}

#if KIND == 0 || KIND == 1 || KIND == 2
/* one lookup per class and spelling must agree with the model */
struct model {
	bool has;
	unsigned char val[24];  /* hashmap */
	unsigned n, cap;        /* multimap */
	unsigned char* vals;
};

static const char* kind_name[] = {"hashmap", "set", "multimap"};

static void round_(void)
{
	unsigned props = pick_props();
	make_parts(1 + rnd(rnd(3) ? 60 : 1500), props);
	static const unsigned sizes[] = {1, 4, 8, 24, 16};
	unsigned es = sizes[rnd(5)];
	size_t limit = pick_limit();
	struct model* m = calloc(n_cls, sizeof(*m));
	unsigned live = 0;
	trace("%s props %u limit %zu elem %u universe %u/%u", kind_name[KIND],
	      props, limit, es, n_parts, n_cls);
	hashmap h;
#if KIND == 0
	hashmap_construct(&h, es, limit, props);
#elif KIND == 1
	set_construct(&h, limit, props);
#else
	multimap_construct(&h, es, limit, props);
#endif
	unsigned ops = pick_ops();
	unsigned clear_1_in = rnd(3) ? 0 : 50 + rnd(300);
	for (unsigned op = 0; op < ops; ++op) {
		struct part* p = &parts[rnd(n_parts)];
		struct model* e = &m[p->cls];
		char* k = exact(p->s, p->len);
		unsigned r = rnd(100);
		if (clear_1_in && rnd(clear_1_in) == 0) {
			trace("clear");
			seen("clear");
#if KIND == 0
			hashmap_clear(&h);
#elif KIND == 1
			set_clear(&h);
#else
			multimap_clear(&h);
#endif
			for (unsigned i = 0; i < n_cls; ++i) {
				m[i].has = false;
				m[i].n = 0;
			}
			live = 0;
		} else if (r < 50) {
			unsigned char v[24];
			for (unsigned i = 0; i < es; ++i) {
				v[i] = rnd(256);
			}
			trace("set '%s'", show(k, p->len));
			seen(e->has ? "set_again" : "set_new");
#if KIND == 0
			hashmap_nset(&h, k, v, p->len);
			memcpy(e->val, v, es);
#elif KIND == 1
			set_nadd(&h, k, p->len);
#else
			multimap_nset(&h, k, v, p->len);
			if (e->n == e->cap) {
				e->cap = e->cap ? e->cap * 2 : 2;
				e->vals = realloc(e->vals, e->cap * es);
			}
			memcpy(e->vals + e->n++ * es, v, es);
#endif
			live += !e->has;
			e->has = true;
			memset(v, 0xee, sizeof v);
		}
		/* the map must not rely on the key it was given */
		memset(k, 0x77, p->len);
		free(k);

		bool sweep = (op + 1 == ops || rnd(150) == 0);
		unsigned from = sweep ? 0 : rnd(n_parts);
		unsigned to = sweep ? n_parts : from + 1;
		for (unsigned i = from; i < to; ++i) {
			p = &parts[i];
			e = &m[p->cls];
			k = exact(p->s, p->len);
#if KIND == 1
			bool got = set_nhas(&h, k, p->len);
			expect(got == e->has, e->has ? "lost" : "invented",
			       "set %s '%s' (props %u, %u keys)",
			       got ? "has" : "does not have", show(k, p->len),
			       props, live);
#else
			void* got = hashmap_nget(&h, k, p->len);
			expect((got != NULL) == e->has, e->has ? "lost" : "invented",
			       "%s %s '%s' (props %u, %u keys)", kind_name[KIND],
			       got ? "has" : "does not have", show(k, p->len),
			       props, live);
#endif
			seen(e->has ? "hit" : "miss");
#if KIND == 0
			expect(!got || !memcmp(got, e->val, es), "value",
			       "hashmap returns a wrong value for '%s'",
			       show(k, p->len));
#elif KIND == 2
			vec* v = got;
			expect(!v || v->size == e->n, "count",
			       "multimap has %zu values for '%s', not %u",
			       v ? v->size : 0, show(k, p->len), e->n);
			expect(!v || !memcmp(vec_begin(v), e->vals, e->n * es),
			       "value", "multimap returns wrong values for '%s'",
			       show(k, p->len));
			if (v && v->size > 1) {
				seen("hit_many");
			}
#endif
			free(k);
		}
#if KIND != 1
		expect(h.values->size == live, "size", "%zu entries, not %u",
		       h.values->size, live);
#endif
	}
	if (live > limit) {
		seen("rounds_grown");
	}
#if KIND == 0
	hashmap_destroy(&h);
#elif KIND == 1
	set_destroy(&h);
#else
	multimap_destroy(&h);
#endif
	for (unsigned i = 0; i < n_cls; ++i) {
		free(m[i].vals);
	}
	free(m);
	drop_parts();
}

#else /* compositemap */

struct tuple {
	unsigned n;
	unsigned* part;
	unsigned cls;
};
static struct tuple* tuples;

static int tuple_cmp(const void* a, const void* b)
{
	const struct tuple* p = &tuples[*(const unsigned*)a];
	const struct tuple* q = &tuples[*(const unsigned*)b];
	if (p->n != q->n) {
		return p->n < q->n ? -1 : 1;
	}
	for (unsigned i = 0; i < p->n; ++i) {
		unsigned c = parts[p->part[i]].cls;
		unsigned d = parts[q->part[i]].cls;
		if (c != d) {
			return c < d ? -1 : 1;
		}
	}
	return 0;
}

static void tuple_key(struct tuple* t, vec* key, char** bufs)
{
	vec_resize(key, t->n);
	for (unsigned i = 0; i < t->n; ++i) {
		struct part* p = &parts[t->part[i]];
		bufs[i] = exact(p->s, p->len);
		stringview* sv = vec_at(key, i);
		sv->data = bufs[i];
		sv->len = p->len;
	}
}

static const char* tuple_show(struct tuple* t)
{
	static char o[400];
	unsigned n = 0;
	for (unsigned i = 0; i < t->n && n < 200; ++i) {
		n += sprintf(o + n, "%s%.60s", i ? "|" : "",
		             show(parts[t->part[i]].s, parts[t->part[i]].len));
	}
	return o;
}

static void round_(void)
{
	unsigned props = pick_props();
	make_parts(1 + rnd(rnd(2) ? 6 : 200), props);
	unsigned nt = 1 + rnd(rnd(3) ? 60 : 1200);
	unsigned arity = rnd(4) ? 1 + rnd(4) : (rnd(2) ? 0 : 48);
	tuples = calloc(nt, sizeof(*tuples));
	unsigned* idx = calloc(nt, sizeof(*idx));
	for (unsigned i = 0; i < nt; ++i) {
		struct tuple* t = &tuples[i];
		t->n = arity ? arity : 1 + rnd(4);
		t->part = calloc(t->n, sizeof(unsigned));
		for (unsigned k = 0; k < t->n; ++k) {
			t->part[k] = rnd(n_parts);
		}
		if (i && rnd(3) == 0) { /* a permutation of another */
			struct tuple* o = &tuples[rnd(i)];
			if (o->n == t->n) {
				unsigned s = rnd(t->n);
				for (unsigned k = 0; k < t->n; ++k) {
					t->part[k] = o->part[(k + s) % t->n];
				}
			}
		}
		idx[i] = i;
	}
	qsort(idx, nt, sizeof(*idx), tuple_cmp);
	unsigned nc = 0;
	for (unsigned i = 0; i < nt; ++i) {
		if (i && tuple_cmp(&idx[i], &idx[i - 1])) {
			++nc;
		}
		tuples[idx[i]].cls = nc;
	}
	++nc;
	free(idx);

	static const unsigned sizes[] = {1, 4, 8, 24};
	unsigned es = sizes[rnd(4)];
	size_t limit = pick_limit();
	bool* has = calloc(nc, sizeof(bool));
	unsigned char(*val)[24] = calloc(nc, 24);
	unsigned live = 0;
	trace("compositemap props %u limit %zu elem %u arity %u universe %u/%u",
	      props, limit, es, arity, nt, nc);
	compositemap h;
	compositemap_construct(&h, es, limit, props);
	vec key;
	vec_construct_(&key, stringview);
	char* bufs[64];
	unsigned ops = pick_ops();
	unsigned clear_1_in = rnd(3) ? 0 : 50 + rnd(300);
	for (unsigned op = 0; op < ops; ++op) {
		struct tuple* t = &tuples[rnd(nt)];
		if (clear_1_in && rnd(clear_1_in) == 0) {
			trace("clear");
			seen("clear");
			compositemap_clear(&h);
			memset(has, 0, nc * sizeof(bool));
			live = 0;
		} else if (rnd(2)) {
			unsigned char v[24];
			for (unsigned i = 0; i < es; ++i) {
				v[i] = rnd(256);
			}
			trace("set (%s)", tuple_show(t));
			seen(has[t->cls] ? "set_again" : "set_new");
			tuple_key(t, &key, bufs);
			compositemap_set(&h, &key, v);
			for (unsigned i = 0; i < t->n; ++i) {
				memset(bufs[i], 0x77, parts[t->part[i]].len);
				free(bufs[i]);
			}
			memcpy(val[t->cls], v, es);
			live += !has[t->cls];
			has[t->cls] = true;
		}
		bool sweep = (op + 1 == ops || rnd(200) == 0);
		unsigned from = sweep ? 0 : rnd(nt);
		unsigned to = sweep ? nt : from + 1;
		for (unsigned i = from; i < to; ++i) {
			t = &tuples[i];
			tuple_key(t, &key, bufs);
			void* got = compositemap_get(&h, &key);
			expect((got != NULL) == has[t->cls],
			       has[t->cls] ? "lost" : "invented",
			       "compositemap %s (%s) (props %u, %u keys)",
			       got ? "has" : "does not have", tuple_show(t),
			       props, live);
			expect(!got || !memcmp(got, val[t->cls], es), "value",
			       "compositemap returns a wrong value for (%s)",
			       tuple_show(t));
			seen(got ? "hit" : "miss");
			for (unsigned k = 0; k < t->n; ++k) {
				free(bufs[k]);
			}
		}
		expect(h.values->size == live, "size", "%zu entries, not %u",
		       h.values->size, live);
	}
	if (live > limit) {
		seen("rounds_grown");
	}
	compositemap_destroy(&h);
	vec_destroy(&key);
	for (unsigned i = 0; i < nt; ++i) {
		free(tuples[i].part);
	}
	free(tuples);
	free(has);
	free(val);
	drop_parts();
}
#endif

MON_MAIN(round_())
