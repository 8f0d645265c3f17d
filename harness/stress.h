/* Included ahead of every source of a "stress" build: calls that order threads
 * are preceded and followed by delays of random length. */
#ifndef STRESS_H
#define STRESS_H
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <pthread.h>
#include <sched.h>

#ifdef __cplusplus
extern "C" {
#endif
void stress_point(void);
extern unsigned stress_rate;   /* one in so many points sleeps; 0: none */
#ifdef __cplusplus
}
#endif

static inline int stress_lock(pthread_mutex_t* m)
{
	stress_point();
	int r = pthread_mutex_lock(m);
	stress_point();
	return r;
}

static inline int stress_trylock(pthread_mutex_t* m)
{
	stress_point();
	return pthread_mutex_trylock(m);
}

static inline int stress_unlock(pthread_mutex_t* m)
{
	int r = pthread_mutex_unlock(m);
	stress_point();
	return r;
}

static inline int stress_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
	stress_point();
	int r = pthread_cond_wait(c, m);
	stress_point();
	return r;
}

static inline int stress_signal(pthread_cond_t* c)
{
	stress_point();
	return pthread_cond_signal(c);
}

static inline int stress_broadcast(pthread_cond_t* c)
{
	stress_point();
	return pthread_cond_broadcast(c);
}

#define pthread_mutex_lock stress_lock
#define pthread_mutex_trylock stress_trylock
#define pthread_mutex_unlock stress_unlock
#define pthread_cond_wait stress_wait
#define pthread_cond_signal stress_signal
#define pthread_cond_broadcast stress_broadcast
#endif
