/* Delays for stress.h.  STRESS_RATE=n in the environment: about one point in n
 * sleeps up to STRESS_US microseconds, one in n yields. */
#define _GNU_SOURCE
#include <pthread.h>
#include <sched.h>
#include <stdint.h>
#include <stdlib.h>
#include <time.h>
#include <unistd.h>

unsigned stress_rate;
unsigned stress_us = 60;
unsigned long stress_seed;
static int ready;
static __thread uint64_t state;
static uint64_t next_thread;

static void setup(void)
{
	const char* s = getenv("STRESS_RATE");
	stress_rate = s ? atoi(s) : 12;
	s = getenv("STRESS_US");
	if (s) {
		stress_us = atoi(s);
	}
	__atomic_store_n(&ready, 1, __ATOMIC_RELEASE);
}

static void point(unsigned rarer)
{
	if (!__atomic_load_n(&ready, __ATOMIC_ACQUIRE)) {
		setup();
	}
	if (stress_rate == 0) {
		return;
	}
	if (state == 0) {
		state = (stress_seed + getpid()) * 0x9e3779b97f4a7c15UL
		        + __atomic_add_fetch(&next_thread, 1, __ATOMIC_RELAXED)
		                  * 0xbf58476d1ce4e5b9UL;
	}
	uint64_t z = (state += 0x9e3779b97f4a7c15UL);
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9UL;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebUL;
	z ^= z >> 31;
	uint64_t rate = (uint64_t)stress_rate * rarer;
	if (z % rate == 0) {
		struct timespec t = {0, 1000 * (long)(1 + (z >> 20) % stress_us)};
		nanosleep(&t, NULL);
	} else if (z % rate == 1) {
		sched_yield();
	}
}

void stress_point(void)
{
	point(1);
}

/* -finstrument-functions */
void __cyg_profile_func_enter(void* fn, void* from)
{
	point(16);
}

void __cyg_profile_func_exit(void* fn, void* from)
{
	point(16);
}
