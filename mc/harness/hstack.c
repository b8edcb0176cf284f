#include <hstack.h>
#include "common.h"
#include <queue-stack.h>
static HStackStruct *obj; static HStackThreadState *ts[16];
static void obj_init(int n) { obj = mc_alloc(sizeof(*obj)); HStackInit(obj, n, mc_param("regions", HSYNCH_DEFAULT_NUMA_POLICY)); }
static void obj_tinit(int t) { ts[t] = mc_alloc(sizeof(**ts)); HStackThreadStateInit(obj, ts[t], mc_pid(t)); }
static long obj_op(int t, int kind, long arg) {
    if (kind == 'E' || kind == 'P') { HStackPush(obj, ts[t], arg, mc_pid(t)); return 0; }
    { long r = HStackPop(obj, ts[t], mc_pid(t)); return r == EMPTY_STACK ? H_EMPTY : r; }
}
