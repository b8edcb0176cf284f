#include <sim.h>
#include "common.h"
// PSim simulates an object whose whole state is one 64-bit word: an order-sensitive register, new = old*3 + f(arg, pid)
static SimStruct *obj; static SimThreadState *ts[16]; static int N;
#define H_SET (1L << 40)   // 'S' a: the register becomes a (so that values come back)
static RetVal h_sfunc(void *st, ArgVal arg, int pid) {
    volatile Object *s = st; Object o = *s;
    if (arg >= H_SET) *s = arg - H_SET;
    else if (arg) *s = (Object)((unsigned long)o * 3ul + (unsigned long)arg * 64 + pid);
    return o;
}
static void obj_init(int n) { N = n; obj = mc_alloc(sizeof(*obj)); synchSimStructInit(obj, n, mc_param("backoff", 0)); }
static void obj_tinit(int t) { ts[t] = mc_alloc(sizeof(**ts)); SimThreadStateInit(ts[t], N, mc_pid(t)); }
static long obj_op(int t, int kind, long arg) { return SimApplyOp(obj, ts[t], h_sfunc, kind == 'G' ? 0 : kind == 'S' ? H_SET + arg : arg, mc_pid(t)); }
