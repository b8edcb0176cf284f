#include <fcstack.h>
#include "common.h"
#include <queue-stack.h>
static FCStackStruct *obj; static FCStackThreadState *ts[16];
static void obj_init(int n) { obj = mc_alloc(sizeof(*obj)); FCStackInit(obj, n); }
static void obj_tinit(int t) { ts[t] = mc_alloc(sizeof(**ts)); FCStackThreadStateInit(obj, ts[t], mc_pid(t)); }
static long obj_op(int t, int kind, long arg) {
    if (kind == 'E' || kind == 'P') { FCStackPush(obj, ts[t], arg, mc_pid(t)); return 0; }
    { long r = FCStackPop(obj, ts[t], mc_pid(t)); return r == EMPTY_STACK ? H_EMPTY : r; }
}
