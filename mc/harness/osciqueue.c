#include <osciqueue.h>
#include "common.h"
#include <queue-stack.h>
static OsciQueueStruct *obj; static OsciQueueThreadState *ts[16];
static void obj_init(int n) { obj = mc_alloc(sizeof(*obj)); OsciQueueInit(obj, n, mc_param("uthreads", 1)); }
static void obj_tinit(int t) { ts[t] = mc_alloc(sizeof(**ts)); OsciQueueThreadStateInit(obj, ts[t], mc_pid(t)); }
static long obj_op(int t, int kind, long arg) {
    if (kind == 'E' || kind == 'P') { OsciQueueApplyEnqueue(obj, ts[t], arg, mc_pid(t)); return 0; }
    { long r = OsciQueueApplyDequeue(obj, ts[t], mc_pid(t)); return r == EMPTY_QUEUE ? H_EMPTY : r; }
}
