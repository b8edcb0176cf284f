#include <oyama.h>
#define H_NO_STATE_ARG
#include "synch_common.h"
static OyamaStruct *obj; static OyamaThreadState *ts[16];
static void obj_init(int n) { obj = mc_alloc(sizeof(*obj)); OyamaInit(obj, n); h_state_init(); }
static void obj_tinit(int t) { ts[t] = mc_alloc(sizeof(**ts)); OyamaThreadStateInit(ts[t]); }
static long h_apply(int t, long arg) { return OyamaApplyOp(obj, ts[t], h_sfunc, arg, mc_pid(t)); }
