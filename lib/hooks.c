#include "hooks.h"
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <time.h>
#include <pthread.h>
struct vh_state vh = { -1, 0, -1, -1, 0 };
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
/* open-addressing table of live blocks */
typedef struct { void *p; size_t n; } ent;
static ent *tab; static size_t cap, used;
static size_t hsh(const void *p) { uint64_t x = (uint64_t)(uintptr_t)p; x ^= x >> 33; x *= 0xff51afd7ed558ccdull; x ^= x >> 33; return (size_t)x; }
#define TOMB ((void *)1)
static void put(void *p, size_t n)
{
    if ((used + 1) * 2 > cap) {
        size_t oc = cap, nc = 256; ent *o = tab; size_t live = 0, i;
        for (i = 0; i < oc; ++i) if (o[i].p && o[i].p != TOMB) live++;
        while (nc < live * 4 + 16) nc *= 2;
        tab = (ent *)calloc(nc, sizeof(ent)); cap = nc; used = 0;
        for (i = 0; i < oc; ++i) if (o[i].p && o[i].p != TOMB) { size_t k = hsh(o[i].p) & (cap - 1); while (tab[k].p) k = (k + 1) & (cap - 1); tab[k] = o[i]; used++; }
        free(o);
    }
    { size_t k = hsh(p) & (cap - 1); while (tab[k].p && tab[k].p != TOMB) k = (k + 1) & (cap - 1); if (!tab[k].p) used++; tab[k].p = p; tab[k].n = n; }
}
static ent *find(const void *p)
{
    if (!cap || !p || p == TOMB) return 0;
    { size_t k = hsh(p) & (cap - 1), c = 0; while (tab[k].p && c++ < cap) { if (tab[k].p == p) return &tab[k]; k = (k + 1) & (cap - 1); } }
    return 0;
}
void vh_reset(void) { vh.fill = -1; vh.fail_at = vh.fail_from = -1; vh.nalloc = vh.nfree = vh.badfree = 0; vh.bytes = vh.peak = 0; vh.clock_fake = 0; vh.clock_reads = vh.clock_wall_reads = 0; vh.clock_step = 0; vh.first_read = vh.last_read = 0; vh.alloc_tick = vh.after_last = 0; vh.track = 0; vh_drop_all(); vh.live = 0; vh.cur = 0; }
int vh_owned(const void *p) { int r; pthread_mutex_lock(&mu); r = find(p) != 0; pthread_mutex_unlock(&mu); return r; }
size_t vh_size(const void *p) { size_t r; ent *e; pthread_mutex_lock(&mu); e = find(p); r = e ? e->n : 0; pthread_mutex_unlock(&mu); return r; }
void vh_drop_all(void) { size_t i; for (i = 0; i < cap; ++i) if (tab[i].p && tab[i].p != TOMB) { free(tab[i].p); tab[i].p = TOMB; } if (cap) memset(tab, 0, cap * sizeof(ent)); used = 0; }
static void fillmem(unsigned char *p, size_t n)
{
    if (vh.fill < 0) return;
    if (vh.fill < 256) { memset(p, vh.fill, n); return; }
    { uint64_t s = vh.fill_seed += 0x9E3779B97F4A7C15ull; size_t i; for (i = 0; i < n; ++i) { if (!(i & 7)) { s ^= s << 13; s ^= s >> 7; s ^= s << 17; } p[i] = (unsigned char)(s >> ((i & 7) * 8)); } }
}
static void tick(void) { if (vh.clock_fake) vh.clock_now += vh.alloc_tick; }
static int plan_fail(void) { tick(); long k = __atomic_fetch_add(&vh.nalloc, 1, __ATOMIC_RELAXED); return k == vh.fail_at || (vh.fail_from >= 0 && k >= vh.fail_from); }
static void *track(void *p, size_t n)
{
    if (!p) return p;
    __atomic_fetch_add(&vh.live, 1, __ATOMIC_RELAXED); __atomic_fetch_add(&vh.bytes, n, __ATOMIC_RELAXED);
    if (vh.track) { pthread_mutex_lock(&mu); put(p, n); pthread_mutex_unlock(&mu); }
    return p;
}
void *v_malloc(size_t n) { void *p; if (plan_fail()) return 0; p = malloc(n); if (p) fillmem((unsigned char *)p, n); return track(p, n); }
void *v_calloc(size_t a, size_t b) { if (plan_fail()) return 0; return track(calloc(a, b), a * b); }
void v_free(void *p)
{
    if (!p) return;
    tick();
    if (vh.track) {
        int ok; ent *e; pthread_mutex_lock(&mu); e = find(p); ok = e != 0; if (e) { e->p = TOMB; } pthread_mutex_unlock(&mu);
        if (!ok) { vh.badfree++; return; }
    }
    __atomic_fetch_add(&vh.nfree, 1, __ATOMIC_RELAXED); __atomic_fetch_add(&vh.live, -1, __ATOMIC_RELAXED);
    free(p);
}
void *v_realloc(void *p, size_t n)
{
    void *q; if (!p) return v_malloc(n);
    if (plan_fail()) return 0;
    if (vh.track) { size_t o = vh_size(p); q = malloc(n); if (!q) return 0; fillmem((unsigned char *)q, n); memcpy(q, p, o < n ? o : n); track(q, n); v_free(p); return q; }
    return realloc(p, n);
}
int v_clock_gettime(clockid_t id, struct timespec *ts)
{
    if (!vh.clock_fake) return clock_gettime(id, ts);
    if (id == CLOCK_REALTIME
#ifdef CLOCK_REALTIME_COARSE
        || id == CLOCK_REALTIME_COARSE
#endif
        ) { /* a wall clock that jumps about */
        long k = vh.clock_wall_reads++; long long w = 1700000000000000000ll - (long long)k * 3600000000000ll; ts->tv_sec = w / 1000000000ll; ts->tv_nsec = w % 1000000000ll; return 0; }
    if (!vh.clock_reads) vh.first_read = vh.clock_now;
    vh.last_read = vh.clock_now;
    ts->tv_sec = (time_t)(vh.clock_now / 1000000000ll); ts->tv_nsec = (long)(vh.clock_now % 1000000000ll);
    { long k = vh.clock_reads++; vh.after_last = vh.clock_step ? vh.clock_step(k) : 0; vh.clock_now += vh.after_last; }
    return 0;
}
