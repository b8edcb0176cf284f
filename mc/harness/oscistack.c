#include <oscistack.h>
#include "common.h"
#include <queue-stack.h>
static OsciStackStruct *obj; static OsciStackThreadState *ts[16];
static void obj_init(int n) { obj = mc_alloc(sizeof(*obj)); OsciStackInit(obj, n, mc_param("uthreads", 1)); }
static void obj_tinit(int t) { ts[t] = mc_alloc(sizeof(**ts)); OsciStackThreadStateInit(obj, ts[t], mc_pid(t)); }
static long obj_op(int t, int kind, long arg) {
    if (kind == 'E' || kind == 'P') { OsciStackApplyPush(obj, ts[t], arg, mc_pid(t)); return 0; }
    { long r = OsciStackApplyPop(obj, ts[t], mc_pid(t)); return r == EMPTY_STACK ? H_EMPTY : r; }
}
