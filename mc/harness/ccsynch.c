#include <ccsynch.h>
#include "synch_common.h"
static CCSynchStruct *obj; static CCSynchThreadState *ts[16];
static void obj_init(int n) { obj = mc_alloc(sizeof(*obj)); CCSynchStructInit(obj, n); h_state_init(); }
static void obj_tinit(int t) { ts[t] = mc_alloc(sizeof(**ts)); CCSynchThreadStateInit(obj, ts[t], mc_pid(t)); }
static long h_apply(int t, long arg) { return CCSynchApplyOp(obj, ts[t], h_sfunc, h_state, arg, mc_pid(t)); }
