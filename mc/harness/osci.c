#include <osci.h>
#include "synch_common.h"
// fibers of one POSIX thread share their thread state, as in the benchmarks
static OsciStruct *obj; static OsciThreadState *ts[16]; static int F;
static void obj_init(int n) { F = mc_param("uthreads", 1); obj = mc_alloc(sizeof(*obj)); OsciInit(obj, n, F); h_state_init(); }
static void obj_tinit(int t) { ts[t] = mc_alloc(sizeof(**ts)); OsciThreadStateInit(ts[t], obj, mc_pid(t)); }
static long h_apply(int t, long arg) { return OsciApplyOp(obj, ts[t], h_sfunc, h_state, arg, mc_pid(t)); }
