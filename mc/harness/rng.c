// Random numbers and backoff. 'S' k: sequential sweep (k-th share of 8) over seeds and ranges; 'R' seed: a thread seeds its generator and draws, compared with the sequence of that seed;
// 'B': (--choose) every sequence of operations on a backoff object.
#include <fastrand.h>
#include <backoff.h>
#include <mc.h>
static const uint32_t SEEDS[] = {0, 1, 2, 3, 12345, 0x464fffff, 0x464ffffe, 0x46500000, 0x9068ffff, 0x9068fffe, 0x90690000, 0x8c9ffffe, 0x8c9fffff, 0x8ca00000, 0x7fffffff, 0x80000000u, 0xffff, 0x10000, 0xfffffffeu, 0xffffffffu};
#define NS 20
static const long LO[] = {0, 0, 1, 5, 0, 0, 100, -5, -1, 32766, 0}, HI[] = {1, 2, 2, 6, 32767, 32768, 30000, 5, 0, 32767, 99};
static const uint32_t LO32[] = {0, 0, 1, 0, 0, 0x7fffffff, 0xfffffffeu, 100, 0x80000000u}, HI32[] = {1, 2, 2, 0xffffffffu, 0x7fffffff, 0x80000001u, 0xffffffffu, 1000000, 0xffffffffu};
static long (*ref)[8];
static long draw(int i) { return i % 4 == 0 ? synchFastRandom() : i % 4 == 1 ? synchFastRandomRange(1, 100) : i % 4 == 2 ? (long)synchFastRandom32() : (long)synchFastRandomRange32(10, 20000); }
void mc_setup(void) { int s, i; ref = mc_alloc(sizeof(long) * 8 * NS); for (s = 0; s < NS; s++) { synchFastRandomSetSeed(SEEDS[s]); for (i = 0; i < 8; i++) ref[s][i] = draw(i); } }
static void sweep(int share) {
    uint32_t k; int i, r;
    for (k = share; k < 3000; k += 8) {
        uint32_t seed = k < NS ? SEEDS[k] : k < 1000 ? k : k < 2000 ? k * 2654435761u : 0xffffffffu - k;
        long a[24]; int same = 0, n;
        for (n = 0; n < 2; n++) {
            synchFastRandomSetSeed(seed);
            for (i = 0; i < 8; i++) { long v = synchFastRandom(); if (v < 0 || v > SYNCH_RAND_MAX) mc_fail("seed %u: synchFastRandom returned %ld", seed, v); if (n && v != a[i]) mc_fail("seed %u: the sequence is not reproducible", seed); a[i] = v; }
            for (i = 8; i < 24; i++) { long v = synchFastRandom32(); if (v < 0 || v > 0xffffffffL) mc_fail("synchFastRandom32 returned %ld", v); if (n && v != a[i]) mc_fail("seed %u: the 32-bit sequence is not reproducible", seed); a[i] = v; }
        }
        for (i = 1; i < 8; i++) same += a[i] == a[0];
        if (same == 7) mc_fail("seed %u: synchFastRandom always returns %ld", seed, a[0]);
        for (same = 0, i = 9; i < 24; i++) same += a[i] == a[8];
        if (same == 15) mc_fail("seed %u: synchFastRandom32 always returns %ld", seed, a[8]);
        for (r = 0; r < 11; r++) for (i = 0; i < 12; i++) { long v = synchFastRandomRange(LO[r], HI[r]); if (v < LO[r] || v > HI[r]) mc_fail("seed %u: range %ld..%ld returned %ld", seed, LO[r], HI[r], v); }
        for (r = 0; r < 9; r++) for (i = 0; i < 12; i++) { uint32_t v = synchFastRandomRange32(LO32[r], HI32[r]); if (v < LO32[r] || v > HI32[r]) mc_fail("seed %u: 32-bit range %u..%u returned %u", seed, LO32[r], HI32[r], v); }
    }
}
static void backoff(void) {
    SynchBackoffStruct *b = mc_alloc(sizeof(*b)); int base = mc_choose(6), cap = base + mc_choose(7), shift = 1 + mc_choose(3), i; unsigned init, lim = 1u << cap, before;
    synchInitBackoff(b, base, cap, shift); init = b->backoff;
    mc_log("init(%d %d %d)", base, cap, shift);
    if (init > 1u << base || init + 1 < 1u << base) mc_fail("the initial backoff is %u instead of 2^%d", init, base);
    for (i = 0; i < mc_param("budget", 6); i++) {
        int c = mc_choose(4); static const char *names[] = {"delay", "reduce", "increase", "reset"};
        before = b->backoff; mc_log("%s", names[c]);
        if (c == 0) synchBackoffDelay(b); else if (c == 1) synchBackoffReduce(b); else if (c == 2) synchBackoffIncrease(b); else synchResetBackoff(b);
        if (b->backoff > lim) mc_fail("the backoff is %u, the limit %u", b->backoff, lim);
        if (b->backoff < init) mc_fail("the backoff is %u, below the initial %u", b->backoff, init);
        if ((c == 0 || c == 2) && b->backoff < before) mc_fail("%s shrinks the backoff from %u to %u", names[c], before, b->backoff);
        if (c == 2 && before + 1 < lim && b->backoff == before) mc_fail("increase leaves the backoff at %u", before);
        if (c == 1 && (b->backoff > before || (before > init && b->backoff == before))) mc_fail("reduce changes the backoff from %u to %u", before, b->backoff);
        if (c == 3 && b->backoff != init) mc_fail("reset sets the backoff to %u instead of %u", b->backoff, init);
    }
}
void mc_thread(int t) {
    int k, i;
    for (k = 0; k < mc_prog_len(t); k++) {
        int o = mc_prog_kind(t, k); long a = mc_prog_arg(t, k);
        mc_op_begin(o, a);
        if (o == 'S') sweep(a);
        else if (o == 'B') backoff();
        else {
            synchFastRandomSetSeed(SEEDS[a]);
            for (i = 0; i < mc_param("draws", 4); i++) { long v; mc_point(); v = draw(i); if (v != ref[a][i]) mc_fail("draw %d of thread %d after seeding with %u is %ld instead of %ld", i, t, SEEDS[a], v, ref[a][i]); }
        }
        mc_op_end(0);
    }
}
void mc_drain(void) {}
