#include <ccqueue.h>
#include "common.h"
#include <queue-stack.h>
static CCQueueStruct *obj; static CCQueueThreadState *ts[16];
static void obj_init(int n) { obj = mc_alloc(sizeof(*obj)); CCQueueStructInit(obj, n); }
static void obj_tinit(int t) { ts[t] = mc_alloc(sizeof(**ts)); CCQueueThreadStateInit(obj, ts[t], mc_pid(t)); }
static long obj_op(int t, int kind, long arg) {
    if (kind == 'E' || kind == 'P') { CCQueueApplyEnqueue(obj, ts[t], arg, mc_pid(t)); return 0; }
    { long r = CCQueueApplyDequeue(obj, ts[t], mc_pid(t)); return r == EMPTY_QUEUE ? H_EMPTY : r; }
}
