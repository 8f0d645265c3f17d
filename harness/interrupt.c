/* Signals at chosen points: the n-th of the calls below, in the process of a
 * case that asked for it, finds itself interrupted before it does anything.
 * These are the places between which files change. */
#include <signal.h>
#include <stdio.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>

static volatile long left;
static volatile int which;

void interrupt_arm(int sig, long n)
{
	which = sig;
	left = n;
}

static void here(void)
{
	if (left > 0 && --left == 0) {
		static const char note[] = "interrupted here\n";
		(void)!write(2, note, sizeof(note) - 1);
		raise(which);
	}
}

#define WRAP(type, name, params, args)                                        \
	type __real_##name params;                                            \
	type __wrap_##name params                                             \
	{                                                                     \
		here();                                                       \
		return __real_##name args;                                    \
	}

WRAP(size_t, fwrite, (const void* p, size_t s, size_t n, FILE* f), (p, s, n, f))
WRAP(int, fflush, (FILE * f), (f))
WRAP(int, fclose, (FILE * f), (f))
WRAP(int, rename, (const char* a, const char* b), (a, b))
WRAP(int, chmod, (const char* a, mode_t m), (a, m))
WRAP(void*, mmap, (void* a, size_t n, int p, int f, int d, off_t o), (a, n, p, f, d, o))
WRAP(int, munmap, (void* a, size_t n), (a, n))
