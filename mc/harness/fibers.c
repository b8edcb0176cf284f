// Fibers (stateless runtime). Every kernel thread runs one program 'I'max 'B'budget: it initialises its fiber environment and then every fiber, the main one included,
// chooses (exhaustively) what to do next: finish, yield, spawn a fiber; main: wait for all, and initialise again with another maximum.
#include <uthreads.h>
#include <primitives.h>
#include <mc.h>
#define G(i) mc_ghost(128 * mc_tid() + (i))
#define GS(i, v) mc_ghost_set(128 * mc_tid() + (i), v)
enum { LIVE, BUDGET, NEXT, MAX, OWNER = 16, TURN = 32, STATE = 48, NID = 16 };   // OWNER+index: id+1 of the live fiber with this index
#define ARG(id) (0x7a0000000000L + 4096 * mc_tid() + (id))
static void *fib(void *a);
static void spawn(void) {
    int id = G(NEXT), r, full = G(LIVE) == G(MAX);
    if (id >= NID) return;
    mc_log("spawn(%d)", id);
    GS(NEXT, id + 1); GS(STATE + id, 1); GS(LIVE, G(LIVE) + 1);
    r = synchSpawnFiber(fib, ARG(id));
    if (full) {
        if (r != -1) mc_fail("a fiber beyond the maximum of %ld was accepted (result %d)", G(MAX), r);
        if (G(STATE + id) != 1) mc_fail("a refused fiber ran");
        GS(STATE + id, 4); GS(LIVE, G(LIVE) - 1);
    } else if (r != 1) mc_fail("fiber %d was refused (result %d) although only %ld of %ld exist", id, r, G(LIVE) - 1, G(MAX));
}
static void yield(int id) {
    long before[NID]; int i;
    for (i = 0; i < NID; i++) before[i] = (G(STATE + i) == 1 || G(STATE + i) == 2) && i != id ? G(TURN + i) : -1;
    mc_log("%d.yield", id);
    synchFiberYield();
    GS(TURN + id, G(TURN + id) + 1);
    if (G(STATE + id) != 2) mc_fail("fiber %d continues although it is not running", id);
    for (i = 0; i < NID; i++) if (before[i] >= 0 && G(TURN + i) == before[i]) mc_fail("fiber %d got the control back before fiber %d had its turn", id, i);
}
static void act(int id) {
    volatile unsigned char pad[6000]; volatile long loc[4]; int i, idx = synchCurrentFiberIndex(), me = mc_tid();
    if (idx < 0 || idx >= G(MAX)) mc_fail("fiber %d has the index %d of %ld", id, idx, G(MAX));
    if ((id == 0) != (idx == 0)) mc_fail("fiber %d has the index %d", id, idx);
    if (G(OWNER + idx)) mc_fail("fibers %d and %ld have the same index %d", id, G(OWNER + idx) - 1, idx);
    GS(OWNER + idx, id + 1);
    for (i = 0; i < 4; i++) loc[i] = 1000 * id + i;
    for (i = 0; i < 6000; i += 59) pad[i] = id + i;
    while (1) {
        int c = 0;
        for (i = 0; i < 4; i++) if (loc[i] != 1000 * id + i) mc_fail("a local variable of fiber %d changed", id);
        for (i = 0; i < 6000; i += 59) if (pad[i] != (unsigned char)(id + i)) mc_fail("a local array of fiber %d changed", id);
        if (!mc_is_live((void *)pad, sizeof pad) || !mc_is_live((void *)loc, sizeof loc)) mc_fail("fiber %d runs on memory that was released or never allocated", id);
        if (me != mc_tid()) mc_fail("fiber %d moved to another kernel thread", id);
        if (synchCurrentFiberIndex() != idx) mc_fail("the index of fiber %d changed from %d to %d", id, idx, synchCurrentFiberIndex());
        if (G(BUDGET) > 0) { GS(BUDGET, G(BUDGET) - 1); c = mc_choose(id ? 3 : 4); }
        if (mc_nthreads() > 1) mc_point();
        if (c == 0) {
            if (id == 0) {
                mc_log("0.wait"); GS(STATE, 5); synchWaitForAllFibers(); GS(STATE, 2);
                GS(TURN, G(TURN) + 1);
                if (G(LIVE) != 1) mc_fail("waiting for all fibers returned although %ld are alive", G(LIVE) - 1);
                for (i = 1; i < G(NEXT); i++) if (G(STATE + i) != 3 && G(STATE + i) != 4) mc_fail("fiber %d never ran to its end", i);
                if (G(BUDGET) <= 0) break;
                continue;
            }
            break;
        }
        if (c == 1) yield(id);
        if (c == 2) spawn();
        if (c == 3 && G(LIVE) == 1) { int m = 1 + mc_choose(4); GS(MAX, m); mc_log("init(%d)", m); synchInitFibers(m); }
    }
    GS(OWNER + idx, 0);
}
static void *fib(void *a) {
    long id = (long)a - ARG(0);
    if (id < 1 || id >= G(NEXT)) mc_fail("a fiber got the argument %lx", (long)a);
    if (G(STATE + id) != 1) mc_fail("fiber %ld was started twice", id);
    GS(STATE + id, 2); GS(TURN + id, G(TURN + id) + 1);
    mc_log("%ld.start", id);
    act(id);
    mc_log("%ld.end", id);
    GS(STATE + id, 3); GS(LIVE, G(LIVE) - 1);
    return 0;
}
// 'M' n: n fibers at once, in a fixed pattern of ends, yields and spawns; afterwards again with another maximum
enum { BIG = 1100 };
static struct { int st, turn, idx, left; } F[BIG]; static int fnext, flive, fmax, howner[BIG];
static void *many(void *a) {
    volatile unsigned char pad[5000]; long id = (long)a - 0x3a000000000L; int i, idx = synchCurrentFiberIndex();
    if (id < 1 || id >= fnext || F[id].st != 1) mc_fail("a fiber got the argument %lx", (long)a);
    if (idx < 1 || idx >= fmax || howner[idx]) mc_fail("fiber %ld of %d got the index %d", id, fmax, idx);
    howner[idx] = id; F[id].st = 2;
    for (i = 0; i < 5000; i += 97) pad[i] = id * 7 + i;
    for (;;) {
        F[id].turn++;
        for (i = 0; i < 5000; i += 97) if (pad[i] != (unsigned char)(id * 7 + i)) mc_fail("a local array of fiber %ld changed", id);
        if (!mc_is_live((void *)pad, sizeof pad)) mc_fail("fiber %ld runs on memory that was released or never allocated", id);
        if (synchCurrentFiberIndex() != idx) mc_fail("the index of fiber %ld changed", id);
        if (F[id].left-- <= 0) break;
        synchFiberYield();
    }
    F[id].st = 3; howner[idx] = 0; flive--;
    return 0;
}
static void crowd(int n) {
    int r, i, k, before[BIG];
    for (i = 0; i < BIG; i++) howner[i] = F[i].st = F[i].turn = 0;
    fnext = flive = 1; fmax = n;
    synchInitFibers(n);
    for (r = 0; r < 6; r++) {
        while (flive < n && fnext < BIG) {
            int id = fnext++;
            F[id].st = 1; F[id].left = (id * 5 + r) % 4; flive++;
            if (synchSpawnFiber(many, 0x3a000000000L + id) != 1) mc_fail("fiber %d was refused although only %d of %d exist", id, flive - 1, n);
        }
        if (flive == n) for (k = 0; k < 2; k++) if (synchSpawnFiber(many, 0) != -1) mc_fail("a fiber beyond the maximum of %d was accepted", n);
        if (r == 5) break;
        for (i = 1; i < fnext; i++) before[i] = F[i].st == 1 || F[i].st == 2 ? F[i].turn : -1;
        synchFiberYield();
        for (i = 1; i < fnext; i++) if (before[i] >= 0 && F[i].turn == before[i]) mc_fail("the main fiber got the control back before fiber %d had its turn", i);
        if (synchCurrentFiberIndex() != 0) mc_fail("the main fiber has the index %d", synchCurrentFiberIndex());
    }
    synchWaitForAllFibers();
    if (flive != 1) mc_fail("waiting for all fibers returned although %d are alive", flive - 1);
    for (i = 1; i < fnext; i++) if (F[i].st != 3) mc_fail("fiber %d never ran to its end", i);
}
void mc_setup(void) {}
void mc_thread(int t) {
    if (mc_prog_kind(t, 0) == 'M') { int i; for (i = 0; i < mc_prog_len(t); i++) crowd(mc_prog_arg(t, i)); return; }
    GS(LIVE, 1); GS(NEXT, 1); GS(STATE, 2); GS(MAX, mc_prog_arg(t, 0)); GS(BUDGET, mc_prog_arg(t, 1));
    synchFiberYield();                       // before the initialisation there is only the kernel thread itself
    synchInitFibers(G(MAX));
    act(0);
    if (synchCurrentFiberIndex() != 0) mc_fail("the main fiber ends with the index %d", synchCurrentFiberIndex());
}
void mc_drain(void) {}
