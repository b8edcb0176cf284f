#include <lfstack.h>
#include "common.h"
#include <queue-stack.h>
static LFStackStruct *obj; static LFStackThreadState *ts[16];
static void obj_init(int n) { obj = mc_alloc(sizeof(*obj)); LFStackInit(obj); }
static void obj_tinit(int t) { ts[t] = mc_alloc(sizeof(**ts)); LFStackThreadStateInit(ts[t], 1, 1); }
static long obj_op(int t, int kind, long arg) {
    if (kind == 'E' || kind == 'P') { LFStackPush(obj, ts[t], arg); return 0; }
    { long r = LFStackPop(obj, ts[t]); return r == EMPTY_STACK ? H_EMPTY : r; }
}
