#include <lfuobject.h>
#include "common.h"
static LFUObjectStruct *obj; static LFUObjectThreadState *ts[16];
#define H_SET (1L << 40)   // 'S' a: the register becomes a (so that values come back)
static RetVal h_sfunc(void *st, ArgVal arg, int pid) {
    volatile Object *s = st; Object o = *s;
    if (arg >= H_SET) *s = arg - H_SET;
    else if (arg) *s = (Object)((unsigned long)o * 3ul + (unsigned long)arg * 64 + pid);
    return o;
}
static void obj_init(int n) { obj = mc_alloc(sizeof(*obj)); LFUObjectInit(obj, mc_param("specarg", 0)); }
static void obj_tinit(int t) { ts[t] = mc_alloc(sizeof(**ts)); LFUObjectThreadStateInit(ts[t], 1, 1); }
static long obj_op(int t, int kind, long arg) { return LFUObjectApplyOp(obj, ts[t], h_sfunc, kind == 'G' ? 0 : kind == 'S' ? H_SET + arg : arg, mc_pid(t)); }
