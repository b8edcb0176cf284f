#include <hsynch.h>
#include "synch_common.h"
static HSynchStruct *obj; static HSynchThreadState *ts[16];
static void obj_init(int n) { obj = mc_alloc(sizeof(*obj)); HSynchStructInit(obj, n, mc_param("regions", HSYNCH_DEFAULT_NUMA_POLICY)); h_state_init(); }
static void obj_tinit(int t) { ts[t] = mc_alloc(sizeof(**ts)); HSynchThreadStateInit(obj, ts[t], mc_pid(t)); }
static long h_apply(int t, long arg) { return HSynchApplyOp(obj, ts[t], h_sfunc, h_state, arg, mc_pid(t)); }
