// synchStartThreadsN / synchJoinThreadsN with kernel threads. The main thread (simulated thread 0) runs the rounds listed in its program:
// 'K' n: one round with n kernel threads; 'F' n*256+u (stateless runtime): one round of n threads as fibers, u in each kernel thread. The slots 1.. are the kernel threads the library creates (a fresh slot for each pthread_create).
#include <threadtools.h>
#include <barrier.h>
#include <primitives.h>
#include <uthreads.h>
#include <pthread.h>
#include <mc.h>
// ghost: 0..31 how often id i ran in this round; 32..63 how often it finished; 64: round; 65: next free slot; 66: cores; 128..: kernel-thread ids, 160..: kernel threads, 192..: recorded, 224..: core asked for
typedef struct { void *(*fn)(void *); void *arg; } Start;
static Start *start;
static SynchBarrier *ub;
static long *cells;
static int nround, fround;   // threads of this round, fibers per kernel thread (1: no fibers)
static void *body(void *a) {
    long id = (long)a, i;
    int n = nround;
    if (id < 0 || id >= n) mc_fail("a thread function got the id %ld in a round of %d threads", id, n);
    mc_ghost_set(id, mc_ghost(id) + 1);
    if (mc_ghost(id) > 1) mc_fail("the function ran twice for id %ld", id);
    if (synchGetThreadId() != id) mc_fail("thread %ld sees the thread id %d", id, synchGetThreadId());
    {   // the kernel thread runs on the core the placement policy gives for it
        long c = mc_ghost(224 + mc_tid()) - 1, kt = id / fround % mc_ghost(66);
        if (c != (long)synchPreferredCoreOfThread(kt)) mc_fail("thread %ld runs on core %ld, but the policy gives core %u to kernel thread %ld", id, c, synchPreferredCoreOfThread(kt), kt);
        if (synchGetPreferredCore() != c) mc_fail("thread %ld runs on core %ld, but core %d is reported", id, c, synchGetPreferredCore());
        if (synchGetPreferredNumaNode() != (int)synchPreferredNumaNodeOfThread(kt)) mc_fail("thread %ld is reported to be on node %d", id, synchGetPreferredNumaNode());
    }
    if (fround == 1) { if (synchGetPosixThreadId() != id) mc_fail("kernel thread %ld sees the kernel-thread id %d", id, synchGetPosixThreadId()); }
    else {
        int k = mc_tid();
        mc_ghost_set(128 + id, synchGetPosixThreadId()); mc_ghost_set(160 + id, k); mc_ghost_set(192 + id, 1);
        for (i = 0; i < n; i++) if (mc_ghost(192 + i) && (mc_ghost(128 + i) == mc_ghost(128 + id)) != (mc_ghost(160 + i) == k))
            mc_fail("threads %ld and %ld: the kernel-thread ids are %ld and %ld, although they run in %s kernel thread", i, id, mc_ghost(128 + i), mc_ghost(128 + id), mc_ghost(160 + i) == k ? "the same" : "a different");
        if (synchCurrentFiberIndex() != id - synchGetPosixThreadId()) mc_fail("thread %ld has the fiber index %d", id, synchCurrentFiberIndex());
    }
    if (fround == 1 && synchIsSystemOversubscribed() != (n > mc_ghost(66))) mc_fail("oversubscription of %d threads on %ld cores is reported wrongly", n, mc_ghost(66));
    for (i = 0; i < mc_param("resched", 1); i++) { synchResched(); if (synchGetThreadId() != id) mc_fail("thread %ld sees the thread id %d after rescheduling", id, synchGetThreadId()); }
    if (mc_param("sync", 0)) synchBarrierWait(ub);
    mc_log("T%ld", id);
    cells[id] = id + 100 * mc_ghost(64) + 1;   // must be visible after join
    if (synchGetThreadId() != id) mc_fail("thread %ld sees the thread id %d", id, synchGetThreadId());
    mc_ghost_set(32 + id, mc_ghost(32 + id) + 1);
    return 0;
}
void mc_on_affinity(int c) { mc_ghost_set(224 + mc_tid(), c + 1); }   // the core this kernel thread asked for
int mcw_pthread_create(pthread_t *t, const void *at, void *(*fn)(void *), void *arg) {
    int s = mc_ghost(65);
    if (s >= mc_nthreads()) mc_fail("more kernel threads are created than asked for");
    mc_ghost_set(65, s + 1);
    start[s].fn = fn; start[s].arg = arg;
    synchFullFence();
    *t = s;
    mc_spawn(s);
    return 0;
}
static int slot_done(void *a) { return mc_done((int)(long)a); }
int mcw_pthread_join(pthread_t t, void **r) { if ((int)t < 1 || (int)t >= mc_ghost(65)) mc_fail("pthread_join of a thread that was never created"); mc_block(slot_done, (void *)(long)t); return 0; }
void mc_setup(void) {
    int t;
    start = mc_alloc(32 * sizeof(Start)); ub = mc_alloc(sizeof(*ub)); cells = mc_alloc(32 * sizeof(long));
    if (mc_param("policy", 0)) synchSetThreadPlacementPolicy(mc_param("policy", 0));
    for (t = 0; t < 32; t++) cells[t] = 0;
    for (t = 1; t < mc_nthreads(); t++) mc_spawnable(t);
    mc_ghost_set(65, 1); mc_ghost_set(66, mc_param("cpus", 8));
}
void mc_thread(int t) {
    int r, i; long live;
    if (t > 0) { start[t].fn(start[t].arg); return; }
    for (r = 0; r < mc_prog_len(0); r++) {
        int n = mc_prog_arg(0, r), u = 1;
        if (mc_prog_kind(0, r) == 'F') { u = n % 256; n /= 256; }
        mc_op_begin('K', n); fround = u;
        mc_ghost_set(64, r); nround = n;
        for (i = 0; i < 32; i++) { mc_ghost_set(i, 0); mc_ghost_set(32 + i, 0); mc_ghost_set(192 + i, 0); }
        synchBarrierSet(ub, n);
        live = mc_live_blocks();
        synchStartThreadsN(n, body, u > 1 ? u : mc_param("nofib", 0) ? 1 : SYNCH_DONT_USE_UTHREADS);
        synchJoinThreadsN(n);
        for (i = 0; i < n; i++) {
            if (mc_ghost(i) != 1) mc_fail("the function ran %ld times for id %d of %d", mc_ghost(i), i, n);
            if (mc_ghost(32 + i) != 1) mc_fail("join returned before thread %d of %d finished", i, n);
            if (cells[i] != i + 100 * r + 1) mc_fail("a write of thread %d is not visible after join", i);
        }
        mc_op_end(0);
    }
}
void mc_drain(void) {}
