#include <dsmstack.h>
#include "common.h"
#include <queue-stack.h>
static DSMStackStruct *obj; static DSMStackThreadState *ts[16];
static void obj_init(int n) { obj = mc_alloc(sizeof(*obj)); DSMSStackInit(obj, n); }
static void obj_tinit(int t) { ts[t] = mc_alloc(sizeof(**ts)); DSMStackThreadStateInit(obj, ts[t], mc_pid(t)); }
static long obj_op(int t, int kind, long arg) {
    if (kind == 'E' || kind == 'P') { DSMStackPush(obj, ts[t], arg, mc_pid(t)); return 0; }
    { long r = DSMStackPop(obj, ts[t], mc_pid(t)); return r == EMPTY_STACK ? H_EMPTY : r; }
}
