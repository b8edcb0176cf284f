#include <simstack.h>
#include "common.h"
#include <queue-stack.h>
static SimStackStruct *obj; static SimStackThreadState *ts[16];
static int n_total;
static void obj_init(int n) { n_total = n; obj = mc_alloc(sizeof(*obj)); SimStackStructInit(obj, n, 0); }
static void obj_tinit(int t) { ts[t] = mc_alloc(sizeof(**ts)); SimStackThreadStateInit(ts[t], (int)n_total, mc_pid(t)); }
static long obj_op(int t, int kind, long arg) {
    if (kind == 'E' || kind == 'P') { SimStackPush(obj, ts[t], arg, mc_pid(t)); return 0; }
    { long r = SimStackPop(obj, ts[t], mc_pid(t)); return r == EMPTY_STACK ? H_EMPTY : r; }
}
