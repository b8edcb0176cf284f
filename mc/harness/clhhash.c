#include <clhhash.h>
#include "common.h"
static CLHHash *obj; static CLHHashThreadState *ts[16]; static int C;
static void obj_init(int n) { C = mc_param("cells", 2); obj = mc_alloc(sizeof(*obj)); CLHHashStructInit(obj, C, n); }
static void obj_tinit(int t) { ts[t] = mc_alloc(sizeof(**ts)); CLHHashThreadStateInit(obj, ts[t], C, mc_pid(t)); }
static long obj_op(int t, int kind, long arg) {
    if (kind == 'I') return CLHHashInsert(obj, ts[t], arg, arg * 10 + 1, mc_pid(t));
    if (kind == 'S') return CLHHashSearch(obj, ts[t], arg, mc_pid(t));
    CLHHashDelete(obj, ts[t], arg, mc_pid(t));
    return 0;
}
