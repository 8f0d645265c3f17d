/* Monitors the node lists against an array after every operation. */
#include "mon.h"
#include "util/node.h"

static void* m[5000];
static unsigned n;
static unsigned freed;
static void* last_freed[5000];

static void free_fn(void* p)
{
	last_freed[freed++] = p;
	free(p);
}

static void* item(void)
{
	uint64_t* p = malloc(8);
	*p = rnd64();
	return p;
}

static void verify(node* h, const char* op)
{
	expect((h == NULL) == (n == 0), "empty", "%s: %u left", op, n);
	expect(node_count(h) == (int)n, "count", "%s: %d nodes, not %u", op,
	       node_count(h), n);
	unsigned i = 0;
	node* prev = NULL;
	for (node* k = h; k; prev = k, k = k->next, ++i) {
		expect(i < n, "order", "%s: too many nodes", op);
		expect(k->data == m[i], "order", "%s: wrong data at %u of %u", op,
		       i, n);
		expect(k->prev == prev, "links", "%s: wrong back link at %u of %u",
		       op, i, n);
	}
	expect(i == n, "order", "%s: the list ends at %u of %u", op, i, n);
	if (n) {
		node* mid = h;
		for (i = rnd(n); i; --i) {
			mid = mid->next;
		}
		expect(node_front(mid) == h, "front", "%s: node_front", op);
		expect(node_top(mid) == h, "front", "%s: node_top", op);
		expect(node_back(mid) == prev, "back", "%s: node_back", op);
		expect(node_bottom(mid) == prev, "back", "%s: node_bottom", op);
		i = rnd(n);
		expect(node_data_at(h, i) == m[i], "at", "%s: node_data_at(%u)",
		       op, i);
		expect(node_at(h, i)->data == m[i], "at", "%s: node_at(%u)", op, i);
	}
}

static void put(unsigned at, void* p)
{
	memmove(&m[at + 1], &m[at], (n++ - at) * sizeof(*m));
	m[at] = p;
}

static void* take(unsigned at)
{
	void* p = m[at];
	memmove(&m[at], &m[at + 1], (--n - at) * sizeof(*m));
	return p;
}

static node* nth(node* h, unsigned i)
{
	while (i--) {
		h = h->next;
	}
	return h;
}

static void round_(void)
{
	node* h = NULL;
	n = 0;
	unsigned ops = 5 + rnd(100);
	for (unsigned i = 0; i < ops; ++i) {
		char op[80];
		unsigned at = n ? rnd(n) : 0;
		switch (rnd(13)) {
		case 0:
		case 1: {
			void* p = item();
			strcpy(op, "push");
			node* r = node_push(&h, p);
			expect(r && r->data == p && r == h, "push", "node_push");
			put(0, p);
			break;
		}
		case 2:
		case 3: {
			void* p = item();
			strcpy(op, "enqueue");
			node* r = node_enqueue(&h, p);
			expect(r && r->data == p, "enqueue", "node_enqueue");
			put(n, p);
			break;
		}
		case 4: {
			strcpy(op, "pop");
			void* p = rnd(2) ? node_pop(&h) : node_dequeue(&h);
			expect(p == (n ? m[0] : NULL), "pop", "node_pop");
			if (n) {
				free(take(0));
			}
			break;
		}
		case 5: {
			strcpy(op, "pop_export");
			node* p = node_pop_export(&h);
			expect((p == NULL) == (n == 0), "pop_export", "of %u", n);
			if (p) {
				expect(p->data == m[0] && !p->next && !p->prev,
				       "pop_export", "data or links");
				free(take(0));
				free(p);
			}
			break;
		}
		case 6: {
			if (!n) {
				strcpy(op, "nothing");
				break;
			}
			sprintf(op, "remove %u of %u", at, n);
			void* p = node_remove(&h, nth(h, at));
			expect(p == m[at], "remove", "node_remove gave other data");
			free(take(at));
			break;
		}
		case 7:
			if (!n) {
				strcpy(op, "nothing");
				break;
			}
			sprintf(op, "delete %u of %u", at, n);
			/* frees the data too */
			node_delete(&h, nth(h, at));
			take(at);
			break;
		case 8:
		case 9: { /* move between lists */
			if (!n) {
				strcpy(op, "nothing");
				break;
			}
			node* p = nth(h, at);
			if (at == 0) {
				p = node_pop_export(&h);
			} else {
				p = node_export(p);
			}
			expect(p && p->data == m[at] && !p->prev && !p->next,
			       "export", "data or links");
			void* d = take(at);
			verify(h, "export");
			if (rnd(2)) {
				sprintf(op, "export %u of %u, push_import", at, n + 1);
				node_push_import(&h, p);
				put(0, d);
			} else {
				sprintf(op, "export %u of %u, enqueue_import", at, n + 1);
				node_enqueue_import(&h, p);
				put(n, d);
			}
			break;
		}
		case 10:
			if (rnd(6)) {
				strcpy(op, "nothing");
				break;
			}
			freed = 0;
			switch (rnd(3)) {
			case 0:
				strcpy(op, "free_func");
				node_free_func(&h, free_fn);
				expect(freed == n, "free_func",
				       "%u calls for %u nodes", freed, n);
				break;
			case 1:
				strcpy(op, "free_data");
				node_free_data(&h);
				break;
			default:
				strcpy(op, "free");
				for (unsigned k = 0; k < n; ++k) {
					free(m[k]);
				}
				node_free(&h);
			}
			n = 0;
			break;
		default: {
			void* p = item();
			strcpy(op, "enqueue");
			node_enqueue(&h, p);
			put(n, p);
		}
		}
		trace("%s", op);
		verify(h, op);
		seen("ops");
	}
	node_free_data(&h);
}

MON_MAIN(round_())
