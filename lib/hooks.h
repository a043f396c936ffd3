// Stand-ins for the allocator and the clock as seen by the code under test (its objects are
// linked with malloc, calloc, realloc, free and clock_gettime renamed to v_*).
#pragma once
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
struct vh_state {
    int fill;               /* -1: leave memory as it comes; 0..255: byte pattern; 256: seeded pattern */
    unsigned long fill_seed;
    long fail_at;           /* allocation number (0-based, counted from vh_reset) that returns NULL; -1 never */
    long fail_from;         /* all allocations from this number on fail; -1 never */
    int track;              /* keep a table of live blocks */
    long nalloc, nfree, live, badfree;
    unsigned long bytes, peak, cur;
    /* clock */
    int clock_fake;
    long long clock_now;    /* ns */
    long clock_reads; long clock_wall_reads;
    long long (*clock_step)(long read_index); /* ns to advance after this read */
    long long first_read, last_read;
    long long alloc_tick;   /* ns that pass at every allocation and release while the clock is simulated */
    long long after_last;   /* ns that passed at the last reading itself (after its value was taken) */
};
extern struct vh_state vh;
void vh_reset(void);            /* counters, failure plan, fill pattern; frees nothing */
int vh_owned(const void *p);    /* 1 if p is a live block handed to the code under test */
size_t vh_size(const void *p);
void vh_drop_all(void);         /* release every tracked live block */
void *v_malloc(size_t n);
void v_free(void *p);
#ifdef __cplusplus
}
#endif
