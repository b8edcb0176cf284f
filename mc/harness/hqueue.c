#include <hqueue.h>
#include "common.h"
#include <queue-stack.h>
static HQueueStruct *obj; static HQueueThreadState *ts[16];
static void obj_init(int n) { obj = mc_alloc(sizeof(*obj)); HQueueInit(obj, n, mc_param("regions", HSYNCH_DEFAULT_NUMA_POLICY)); }
static void obj_tinit(int t) { ts[t] = mc_alloc(sizeof(**ts)); HQueueThreadStateInit(obj, ts[t], mc_pid(t)); }
static long obj_op(int t, int kind, long arg) {
    if (kind == 'E' || kind == 'P') { HQueueApplyEnqueue(obj, ts[t], arg, mc_pid(t)); return 0; }
    { long r = HQueueApplyDequeue(obj, ts[t], mc_pid(t)); return r == EMPTY_QUEUE ? H_EMPTY : r; }
}
