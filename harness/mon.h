/* Common parts of the monitors of the util layer: a random source, a
 * violation report and counters of what was observed. */
#ifndef MON_H
#define MON_H
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <stdarg.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

static uint64_t rng_state;

static inline uint64_t rnd64(void)
{
	uint64_t z = (rng_state += 0x9e3779b97f4a7c15UL);
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9UL;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebUL;
	return z ^ (z >> 31);
}

static inline unsigned rnd(unsigned n) { return n ? rnd64() % n : 0; }

static uint64_t mon_seed;
static unsigned long mon_round;

/* a digest of what happened in a round: rounds with the same one are not
 * counted twice, and those with too few events not at all */
static uint64_t mon_dig;
static unsigned long mon_events;
__attribute__((unused)) static void mon_mix(uint64_t x)
{
	mon_dig = (mon_dig ^ x) * 0x100000001b3UL;
	mon_dig ^= mon_dig >> 29;
	++mon_events;
}

/* the last operations, for the report */
static char mon_trace[24][120];
static unsigned mon_trace_n;
__attribute__((format(printf, 1, 2), unused)) static void trace(const char* f, ...)
{
	va_list a;
	va_start(a, f);
	char* t = mon_trace[mon_trace_n++ % 24];
	vsnprintf(t, 120, f, a);
	va_end(a);
	uint64_t h = 0;
	for (; *t; ++t) {
		h = (h ^ (unsigned char)*t) * 0x100000001b3UL;
	}
	mon_mix(h);
}

static void ops_print(void)
{
	unsigned n = mon_trace_n < 24 ? mon_trace_n : 24;
	for (unsigned i = mon_trace_n - n; i < mon_trace_n; ++i) {
		printf("OP %s\n", mon_trace[i % 24]);
	}
}

__attribute__((format(printf, 2, 3), noreturn, unused)) static void
violation(const char* key, const char* f, ...)
{
	va_list a;
	printf("VIOL %s round %lu: ", key, mon_round);
	va_start(a, f);
	vprintf(f, a);
	va_end(a);
	printf("\n");
	ops_print();
	fflush(stdout);
	_exit(3);
}

#define expect(c_, key_, ...) \
	do { if (!(c_)) violation(key_, __VA_ARGS__); } while (0)

/* named counters, printed at the end */
struct mon_stat { const char* name; unsigned long n; };
static struct mon_stat mon_stats[96];
static void stat_add(const char* name, unsigned long n)
{
	for (unsigned i = 0; i < 96; ++i) {
		if (mon_stats[i].name == NULL) {
			mon_stats[i].name = name;
		}
		if (mon_stats[i].name == name || !strcmp(mon_stats[i].name, name)) {
			mon_stats[i].n += n;
			return;
		}
	}
}
#define seen(name_) stat_add(name_, 1)

static void stats_print(void)
{
	for (unsigned i = 0; i < 96 && mon_stats[i].name; ++i) {
		printf("STAT %s %lu\n", mon_stats[i].name, mon_stats[i].n);
	}
	printf("DONE\n");
	fflush(stdout);
}

/* A heap block of exactly n bytes, so that a read past it is seen. */
__attribute__((unused)) static void* exact(const void* p, size_t n)
{
	char* c = malloc(n ? n : 1);
	if (n) {
		memcpy(c, p, n);
	}
	return c;
}

__attribute__((unused)) static const char* show(const void* p, unsigned n)
{
	static char buf[4][200];
	static unsigned k;
	char* o = buf[k++ % 4];
	unsigned j = 0;
	const unsigned char* s = p;
	for (unsigned i = 0; i < n && j < 180; ++i) {
		if (s[i] >= 32 && s[i] < 127 && s[i] != '\\') {
			o[j++] = s[i];
		} else {
			j += sprintf(o + j, "\\x%02x", s[i]);
		}
	}
	o[j] = 0;
	return o;
}

/* rounds "from" up to (not including) "to", each with its own seed */
#define MON_MAIN(round_)                                                  \
	int main(int argc, char** argv)                                   \
	{                                                                 \
		setvbuf(stdout, NULL, _IOLBF, 1 << 16);                   \
		bool show_ = getenv("MON_SHOW") != NULL;                  \
		mon_seed = strtoull(argv[1], NULL, 10);                   \
		unsigned long from = strtoul(argv[2], NULL, 10);          \
		unsigned long to = strtoul(argv[3], NULL, 10);            \
		for (mon_round = from; mon_round < to; ++mon_round) {     \
			rng_state = mon_seed * 0x2545f4914f6cdd1dUL      \
			            + mon_round * 0x9e3779b97f4a7c15UL;   \
			rnd64();                                          \
			mon_trace_n = 0;                                  \
			mon_dig = mon_events = 0;                         \
			round_;                                           \
			printf("ROUND %lx %lu\n", (unsigned long)mon_dig, \
			       mon_events);                               \
			if (show_) {                                      \
				ops_print();                              \
			}                                                 \
			seen("rounds");                                   \
		}                                                         \
		stats_print();                                            \
		return 0;                                                 \
	}
#endif
