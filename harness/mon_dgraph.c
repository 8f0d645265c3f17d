/* Monitors dgraph: in a forest the traversal visits every node reachable from
 * the roots exactly once, parents first, level by level per root.  (Where
 * nodes are shared the engine relies on how often one is met; that is left to
 * the checks of whole queries.) */
#include "mon.h"
#include "util/dgraph.h"
#include "util/util.h"

static dnode* nodes[2000];   /* in the order of the graph */
static unsigned n;

static dnode* edge(dnode* d, int k) { return d->out[k]; }

static unsigned index_of(dnode* d)
{
	for (unsigned i = 0; i < n; ++i) {
		if (nodes[i] == d) {
			return i;
		}
	}
	violation("stranger", "the traversal gives a node that is not there");
}

static bool has_parent(dnode* d)
{
	for (unsigned i = 0; i < n; ++i) {
		if (edge(nodes[i], 0) == d || edge(nodes[i], 1) == d) {
			return true;
		}
	}
	return false;
}

static bool forest(void)
{
	unsigned* c = calloc(n, sizeof(*c));
	bool ok = true;
	for (unsigned i = 0; i < n; ++i) {
		for (int k = 0; k < 2; ++k) {
			if (edge(nodes[i], k) && ++c[index_of(edge(nodes[i], k))] > 1) {
				ok = false;
			}
		}
	}
	free(c);
	return ok;
}

static void verify(dgraph* g)
{
	expect(g->nodes->size == n, "size", "%zu nodes, not %u", g->nodes->size, n);
	for (unsigned i = 0; i < n; ++i) {
		expect(*(dnode**)vec_at(g->nodes, i) == nodes[i], "nodes",
		       "node %u is another", i);
	}
	if (n == 0) {
		return;
	}
	/* what are the roots? */
	dnode* roots[2000];
	unsigned nr = 0;
	for (unsigned i = 0; i < n; ++i) {
		if (nodes[i]->is_root) {
			roots[nr++] = nodes[i];
		}
	}
	bool explicit = nr;
	if (!explicit) {
		for (unsigned i = 0; i < n; ++i) {
			if (!has_parent(nodes[i])) {
				roots[nr++] = nodes[i];
			}
		}
	}
	vec* r = dgraph_get_roots(g);
	expect(r->size == nr, "roots", "%zu roots, not %u", r->size, nr);
	expect(dgraph_root_count(g) == nr, "roots", "root count %u, not %u",
	       dgraph_root_count(g), nr);
	for (unsigned i = 0; i < nr; ++i) {
		expect(*(dnode**)vec_at(r, i) == roots[i], "roots",
		       "root %u is another", i);
	}
	if (nr == 0) {
		return;
	}
	seen(explicit ? "explicit_roots" : "assumed_roots");

	/* reachable */
	bool* reach = calloc(n, 1);
	unsigned* stack = calloc(4 * n + 4, sizeof(*stack));
	unsigned sp = 0;
	unsigned nreach = 0;
	for (unsigned i = 0; i < nr; ++i) {
		stack[sp++] = index_of(roots[i]);
		while (sp) {
			unsigned x = stack[--sp];
			if (reach[x]) {
				continue;
			}
			reach[x] = true;
			++nreach;
			for (int k = 0; k < 2; ++k) {
				if (edge(nodes[x], k)) {
					stack[sp++] = index_of(edge(nodes[x], k));
				}
			}
		}
	}
	bool is_forest = forest();
	if (explicit && is_forest) {
		/* a root below another is reached twice over */
		for (unsigned i = 0; i < nr; ++i) {
			if (has_parent(roots[i])) {
				is_forest = false;
			}
		}
	}
	/* the expected order in a forest */
	dnode** want = calloc(n + 1, sizeof(*want));
	unsigned nw = 0;
	if (is_forest) {
		for (unsigned i = 0; i < nr; ++i) {
			unsigned head = nw;
			want[nw++] = roots[i];
			for (; head < nw; ++head) {
				for (int k = 0; k < 2; ++k) {
					if (edge(want[head], k)) {
						want[nw++] = edge(want[head], k);
					}
				}
			}
		}
		seen("forests");
	} else {
		seen("shared");
	}
	dnode** first = NULL;
	unsigned nfirst = 0;
	for (unsigned pass = 0; pass < 2; ++pass) {
		dgraph_traverse_reset(g);
		unsigned* times = calloc(n, sizeof(*times));
		unsigned steps = 0;
		dnode** seq = calloc(20 * n + 64, sizeof(*seq));
		for (dnode* d; (d = dgraph_traverse(g)); ++steps) {
			if (steps > 16 * n + 32) {
				violation("endless", "the traversal does not end");
			}
			unsigned x = index_of(d);
			expect(reach[x], "unreachable", "node %u is not reachable", x);
			if (is_forest) {
				expect(steps < nw && want[steps] == d, "order",
				       "step %u gives node %u", steps, x);
			}
			++times[x];
			seq[steps] = d;
			seen("visits");
		}
		unsigned once = 0;
		for (unsigned i = 0; i < n; ++i) {
			once += times[i] > 0;
			expect(!is_forest || times[i] == reach[i], "once",
			       "node %u visited %u times", i, times[i]);
		}
		expect(once == nreach, "missed", "%u of %u reachable nodes visited",
		       once, nreach);
		free(times);
		expect(dgraph_traverse(g) == NULL, "end", "more after the end");
		if (pass) {
			expect(nfirst == steps && !memcmp(first, seq,
			       steps * sizeof(*seq)), "repeat",
			       "a second traversal gives another order");
			free(seq);
		} else {
			first = seq;
			nfirst = steps;
		}
	}
	free(first);
	free(want);
	free(reach);
	free(stack);
}

static dgraph* build(unsigned k, bool tree, bool mark)
{
	dgraph* g = malloc(sizeof(*g));
	dgraph_construct(g);
	unsigned base = n;
	for (unsigned i = 0; i < k; ++i) {
		uint64_t* data = malloc(8);
		*data = rnd64();
		dnode* d;
		if (rnd(2)) {
			d = dgraph_add_data(g, data);
		} else {
			d = malloc(sizeof(*d));
			dnode_construct(d, data);
			expect(dgraph_add_node(g, d) == d, "add", "another node");
		}
		expect(d->data == data && g->newest == d, "add", "data or newest");
		nodes[n++] = d;
	}
	/* edges only from earlier to later in a random order: no cycles */
	unsigned* perm = calloc(k, sizeof(*perm));
	for (unsigned i = 0; i < k; ++i) {
		unsigned j = rnd(i + 1);
		perm[i] = perm[j];
		perm[j] = i;
	}
	for (unsigned i = 1; i < k; ++i) {
		if (tree) {
			if (rnd(8)) {
				dnode* par = nodes[base + perm[rnd(i)]];
				int s = rnd(2);
				if (par->out[s] == NULL) {
					par->out[s] = nodes[base + perm[i]];
				}
			}
		} else {
			for (unsigned e = rnd(3); e; --e) {
				nodes[base + perm[rnd(i)]]->out[rnd(2)] =
				        nodes[base + perm[i]];
			}
		}
	}
	if (mark) {
		for (unsigned i = 0; i < k; ++i) {
			dnode* d = nodes[base + i];
			if (rnd(3) == 0 && (!tree || !has_parent(d))) {
				d->is_root = true;
			}
		}
	}
	free(perm);
	return g;
}

static void round_(void)
{
	n = 0;
	bool tree = true;
	unsigned k = rnd(4) ? 1 + rnd(12) : 1 + rnd(120);
	if (!tree && k > 9) {
		k = 1 + rnd(9);
	}
	dgraph* g = build(k, tree, rnd(2));
	trace("%s of %u", tree ? "forest" : "graph", k);
	for (unsigned i = 0; i < n; ++i) {
		for (unsigned o = 0; o < 2; ++o) {
			for (unsigned j = 0; j < n; ++j) {
				if (nodes[i]->out[o] == nodes[j]) {
					mon_mix(i * 512 + j * 2 + o);
				}
			}
		}
	}
	verify(g);
	for (unsigned i = rnd(4); i; --i) {
		if (rnd(2)) {
			/* put another graph in, perhaps under a node */
			unsigned base = n;
			unsigned j = tree ? 1 + rnd(8) : 1 + rnd(3);
			if (!tree && n + j > 12) {
				continue;
			}
			bool mark = false;
			for (unsigned x = 0; x < n; ++x) {
				mark |= nodes[x]->is_root;
			}
			dgraph* h = build(j, tree, mark);
			dgraph_consume(g, h);
			trace("consume %u into %u", j, base);
			seen("consumed");
			dnode* par = nodes[rnd(base)];
			for (unsigned x = base; x < n; ++x) {
				if (!has_parent(nodes[x]) && !par->out[1]
				    && !nodes[x]->is_root && rnd(2)) {
					par->out[1] = nodes[x];
					break;
				}
			}
			/* roots follow the new edges once they are looked up
			 * again, as after dgraph_consume */
		} else if (n) {
			unsigned x = rnd(n);
			dnode* d = nodes[x];
			void* want = d->data;
			trace("remove %u of %u", x, n);
			memmove(&nodes[x], &nodes[x + 1], (n - x - 1) * sizeof(*nodes));
			--n;
			void* got = dgraph_remove(g, vec_at(g->nodes, x));
			expect(got == want, "remove", "another's data");
			free(got);
			for (unsigned y = 0; y < n; ++y) {
				expect(nodes[y]->out[0] != d && nodes[y]->out[1] != d,
				       "dangling", "an edge to a removed node");
			}
			seen("removed");
		}
		verify(g);
	}
	for (unsigned i = 0; i < n; ++i) {
		free(nodes[i]->data);
	}
	dgraph_destroy(g);
	free(g);
}

MON_MAIN(round_())
