#include <primitives.h>
#ifndef MC_LCRQ_H
#define MC_LCRQ_H
#include <lcrq.h>
#endif
#include "common.h"
#include <queue-stack.h>
static LCRQStruct *obj; static LCRQThreadState *ts[16];
static void obj_init(int n) { obj = mc_alloc(sizeof(*obj)); LCRQInit(obj, n); }
static void obj_tinit(int t) { ts[t] = mc_alloc(sizeof(**ts)); LCRQThreadStateInit(ts[t], mc_pid(t)); }
static long obj_op(int t, int kind, long arg) {
    if (kind == 'E' || kind == 'P') { LCRQEnqueue(obj, ts[t], arg, mc_pid(t)); return 0; }
    { long r = LCRQDequeue(obj, ts[t], mc_pid(t)); return r == EMPTY_QUEUE ? H_EMPTY : r; }
}
