/* A clock for the Python checks: reading k (per thread, after a reset) shows 7 s + k(k+3)/2 microseconds. */
#include <time.h>
static __thread long vf_k;
long vf_reset(void) { long k = vf_k; vf_k = 0; return k; }
int vf_clock_gettime(clockid_t id, struct timespec *t) { long k = ++vf_k, us = k * (k + 3) / 2; (void)id; t->tv_sec = 7 + us / 1000000; t->tv_nsec = us % 1000000 * 1000; return 0; }
