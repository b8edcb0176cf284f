#include <fcqueue.h>
#include "common.h"
#include <queue-stack.h>
static FCQueueStruct *obj; static FCQueueThreadState *ts[16];
static void obj_init(int n) { obj = mc_alloc(sizeof(*obj)); FCQueueStructInit(obj, n); }
static void obj_tinit(int t) { ts[t] = mc_alloc(sizeof(**ts)); FCQueueThreadStateInit(obj, ts[t], mc_pid(t)); }
static long obj_op(int t, int kind, long arg) {
    if (kind == 'E' || kind == 'P') { FCQueueApplyEnqueue(obj, ts[t], arg, mc_pid(t)); return 0; }
    { long r = FCQueueApplyDequeue(obj, ts[t], mc_pid(t)); return r == EMPTY_QUEUE ? H_EMPTY : r; }
}
