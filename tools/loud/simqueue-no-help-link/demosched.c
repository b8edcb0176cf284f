#define _GNU_SOURCE
#include "demosched.h"
#include <pthread.h>
#include <semaphore.h>
#include <string.h>
#include <time.h>
#include <unistd.h>
#include <sched.h>
#define MAXT 80
void setThreadId(int32_t id);
static sem_t go[MAXT], done_sem;
static pthread_t th[MAXT];
static int started, n_run, live;
static volatile int fin[MAXT];
static void (*cur_body)(int);
static uint64_t rng;
static long steps, limit, slice[MAXT], own[MAXT];
static int mode, prob, prio[MAXT], nchg; static long chg[8]; static int minprio;
static volatile int hung; static volatile long now;
int demo_stall_tid = -1; long demo_stall_at;
static __thread int me = -1;
static __thread int inside;
static uint64_t rnd(void) { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng >> 11; }
long demo_now(void) { return ++now; }
double demo_time(void) { static struct timespec t0; struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); if (!t0.tv_sec) t0 = t; return (t.tv_sec - t0.tv_sec) + (t.tv_nsec - t0.tv_nsec) / 1e9; }
static int stalled(int t) { return t == demo_stall_tid && own[t] >= demo_stall_at; }
static int pick(void) {
    int c[MAXT], k = 0, i;
    for (i = 0; i < n_run; i++) if (!fin[i] && !stalled(i)) c[k++] = i;
    if (k == 0) return -1;
    if (mode == 0) return c[rnd() % k];
    int b = c[0]; for (i = 1; i < k; i++) if (prio[c[i]] > prio[b]) b = c[i];
    return b;
}
static void hand(int t) { if (t != me) { sem_post(&go[t]); while (sem_wait(&go[me])) ; } }
static void point(void);
void demo_point(void) { point(); }
static void point(void) {
    if (me < 0 || inside) return;
    if (++steps > limit) { hung = 1; sem_post(&done_sem); for (;;) pause(); }
    own[me]++;
    int sw = 0;
    if (mode == 0) sw = rnd() % prob == 0;
    else {
        int i; for (i = 0; i < nchg; i++) if (chg[i] == steps) { prio[me] = --minprio; sw = 1; }
        if (++slice[me] > 400) { slice[me] = 0; prio[me] = --minprio; sw = 1; }
    }
    if (stalled(me)) sw = 1;
    if (!sw) return;
    int t = pick();
    if (t < 0) { sem_post(&done_sem); for (;;) pause(); }   // only stalled threads remain
    if (t != me) { slice[t] = 0; hand(t); }
}
int demo_tid(void) { return me; }
static void *worker(void *a) {
    int id = (long)a;
    setThreadId(id);
    for (;;) {
        while (sem_wait(&go[id])) ;
        me = id; cur_body(id); 
        fin[id] = 1;
        int t = pick();
        me = -1;
        if (t < 0) sem_post(&done_sem); else sem_post(&go[t]);
    }
    return NULL;
}
int demo_run(int n, void (*body)(int), uint64_t seed, long max_steps) {
    int i;
    rng = seed * 0x9E3779B97F4A7C15ull + 88172645463325252ull; for (i = 0; i < 5; i++) rnd();
    static long last = 300;
    steps = 0; limit = max_steps; n_run = n; cur_body = body; hung = 0;
    mode = rnd() & 1; prob = 1 << (rnd() % 7);
    nchg = 1 + rnd() % 5; for (i = 0; i < nchg; i++) chg[i] = 1 + rnd() % (last + 1);
    minprio = 0; memset(slice, 0, sizeof slice); memset(own, 0, sizeof own);
    for (i = 0; i < n; i++) { prio[i] = rnd() & 0xffff; fin[i] = 0; }
    for (; started < n; started++) { if (!started) sem_init(&done_sem, 0, 0); sem_init(&go[started], 0, 0); pthread_create(&th[started], NULL, worker, (void *)(long)started); }
    sem_post(&go[pick()]);
    while (sem_wait(&done_sem)) ;
    if (!hung) last = steps < 3000 ? steps : 3000;
    return hung;
}
// ---- callbacks of the instrumentation
void __tsan_init(void) {}
void __tsan_func_entry(void *p) {}
void __tsan_func_exit(void) {}
#define A(n) void __tsan_read##n(void *p) { point(); } void __tsan_write##n(void *p) { point(); } void __tsan_unaligned_read##n(void *p) { point(); } void __tsan_unaligned_write##n(void *p) { point(); } \
    void __tsan_volatile_read##n(void *p) { point(); } void __tsan_volatile_write##n(void *p) { point(); }
A(1) A(2) A(4) A(8) A(16)
void __tsan_read_range(void *p, size_t n) { point(); }
void __tsan_write_range(void *p, size_t n) { point(); }
void __tsan_vptr_update(void **p, void *v) {}
#define T(b, ty) \
    ty __tsan_atomic##b##_load(volatile ty *p, int o) { point(); return *p; } \
    void __tsan_atomic##b##_store(volatile ty *p, ty v, int o) { point(); *p = v; } \
    ty __tsan_atomic##b##_exchange(volatile ty *p, ty v, int o) { point(); ty r = *p; *p = v; return r; } \
    ty __tsan_atomic##b##_fetch_add(volatile ty *p, ty v, int o) { point(); ty r = *p; *p = r + v; return r; } \
    ty __tsan_atomic##b##_fetch_sub(volatile ty *p, ty v, int o) { point(); ty r = *p; *p = r - v; return r; } \
    ty __tsan_atomic##b##_fetch_or(volatile ty *p, ty v, int o) { point(); ty r = *p; *p = r | v; return r; } \
    ty __tsan_atomic##b##_fetch_and(volatile ty *p, ty v, int o) { point(); ty r = *p; *p = r & v; return r; } \
    ty __tsan_atomic##b##_fetch_xor(volatile ty *p, ty v, int o) { point(); ty r = *p; *p = r ^ v; return r; } \
    int __tsan_atomic##b##_compare_exchange_strong(volatile ty *p, ty *e, ty v, int o, int f) { point(); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
    int __tsan_atomic##b##_compare_exchange_weak(volatile ty *p, ty *e, ty v, int o, int f) { return __tsan_atomic##b##_compare_exchange_strong(p, e, v, o, f); } \
    ty __tsan_atomic##b##_compare_exchange_val(volatile ty *p, ty e, ty v, int o, int f) { point(); ty r = *p; if (r == e) *p = v; return r; }
T(8, uint8_t) T(16, uint16_t) T(32, uint32_t) T(64, uint64_t)
void __tsan_atomic_thread_fence(int o) { point(); }
void __tsan_atomic_signal_fence(int o) {}
