#include <dsmsynch.h>
#include "synch_common.h"
static DSMSynchStruct *obj; static DSMSynchThreadState *ts[16];
static void obj_init(int n) { obj = mc_alloc(sizeof(*obj)); DSMSynchStructInit(obj, n); h_state_init(); }
static void obj_tinit(int t) { ts[t] = mc_alloc(sizeof(**ts)); DSMSynchThreadStateInit(obj, ts[t], mc_pid(t)); }
static long h_apply(int t, long arg) { return DSMSynchApplyOp(obj, ts[t], h_sfunc, h_state, arg, mc_pid(t)); }
