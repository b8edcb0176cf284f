#include <simqueue.h>
#include "common.h"
#include <queue-stack.h>
static SimQueueStruct *obj; static SimQueueThreadState *ts[16];
static void obj_init(int n) { obj = mc_alloc(sizeof(*obj)); SimQueueStructInit(obj, n, 0); }
static void obj_tinit(int t) { ts[t] = mc_alloc(sizeof(**ts)); SimQueueThreadStateInit(obj, ts[t], mc_pid(t)); }
static long obj_op(int t, int kind, long arg) {
    if (kind == 'E' || kind == 'P') { SimQueueEnqueue(obj, ts[t], arg, mc_pid(t)); return 0; }
    { long r = SimQueueDequeue(obj, ts[t], mc_pid(t)); return r == EMPTY_QUEUE ? H_EMPTY : r; }
}
