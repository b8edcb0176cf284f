#include <msqueue.h>
#include "common.h"
#include <queue-stack.h>
static MSQueueStruct *obj; static MSQueueThreadState *ts[16];
static void obj_init(int n) { obj = mc_alloc(sizeof(*obj)); MSQueueInit(obj); }
static void obj_tinit(int t) { ts[t] = mc_alloc(sizeof(**ts)); MSQueueThreadStateInit(ts[t], 1, 1); }
static long obj_op(int t, int kind, long arg) {
    if (kind == 'E' || kind == 'P') { MSQueueEnqueue(obj, ts[t], arg); return 0; }
    { long r = MSQueueDequeue(obj, ts[t]); return r == EMPTY_QUEUE ? H_EMPTY : r; }
}
