// CLH (default) or MCS (-DH_MCS) locks. 'L' k: lock k, critical section, unlock k. 'N': lock 0, then lock 1, both released.
#ifdef H_MCS
#include <mcs.h>
#else
#include <clh.h>
#endif
#define H_OWN_DRAIN
#include "common.h"
#define NLOCKS 2
typedef struct { volatile long v; char pad[120]; } Cell;
static Cell *cell;   // cell[k] is protected by lock k
#ifdef H_MCS
static MCSLockStruct *lk[NLOCKS]; static MCSThreadState *ts[16][NLOCKS];
static void obj_init(int n) { int i; cell = mc_alloc(sizeof(Cell) * NLOCKS); for (i = 0; i < NLOCKS; i++) { lk[i] = MCSLockInit(); cell[i].v = 0; } }
static void obj_tinit(int t) { int i; for (i = 0; i < NLOCKS; i++) { ts[t][i] = mc_alloc(sizeof(MCSThreadState)); MCSThreadStateInit(ts[t][i], mc_pid(t)); } }
#define LOCK(t, i) MCSLock(lk[i], ts[t][i], mc_pid(t))
#define UNLOCK(t, i) MCSUnlock(lk[i], ts[t][i], mc_pid(t))
#else
static CLHLockStruct *lk[NLOCKS];
static void obj_init(int n) { int i; cell = mc_alloc(sizeof(Cell) * NLOCKS); for (i = 0; i < NLOCKS; i++) { lk[i] = CLHLockInit(n); cell[i].v = 0; } }
static void obj_tinit(int t) {}
#define LOCK(t, i) CLHLock(lk[i], mc_pid(t))
#define UNLOCK(t, i) CLHUnlock(lk[i], mc_pid(t))
#endif
static void cs(int i) {
    long v;
    if (mc_param("loop", 0)) { cell[i].v = 1; if (cell[i].v != 1) mc_fail("two threads are inside the same critical section"); cell[i].v = 0; if (cell[i].v != 0) mc_fail("two threads are inside the same critical section"); return; }
    v = cell[i].v;
    cell[i].v = v + 1;
}
static long obj_op(int t, int kind, long arg) {
    if (kind == 'L') { LOCK(t, arg); mc_enter(arg); cs(arg); mc_leave(arg); UNLOCK(t, arg); return 0; }
    if (kind == 'N') { LOCK(t, 0); mc_enter(0); LOCK(t, 1); mc_enter(1); cs(0); cs(1); mc_leave(1); UNLOCK(t, 1); mc_leave(0); UNLOCK(t, 0); return 0; }
    mc_fail("bad op");
    return 0;
}
void mc_drain(void) {
    int t, i, k; long want[NLOCKS] = {0, 0};
    for (t = -1; t < mc_nthreads(); t++) for (i = 0; i < mc_prog_len(t); i++) {
        if (mc_prog_kind(t, i) == 'N') { want[0]++; want[1]++; } else want[mc_prog_arg(t, i)]++;
    }
    for (k = 0; k < NLOCKS; k++) {
        if (cell[k].v != want[k]) mc_fail("an update made inside a critical section was lost: lock %d protects %ld updates, %ld remain", k, want[k], cell[k].v);
        LOCK(0, k); cs(k); UNLOCK(0, k);  // the lock still works
        LOCK(0, k); cs(k); UNLOCK(0, k);
    }
}
