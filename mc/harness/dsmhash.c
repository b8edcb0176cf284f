#include <dsmhash.h>
#include "common.h"
static DSMHash *obj; static DSMHashThreadState *ts[16]; static int C;
static void obj_init(int n) { C = mc_param("cells", 2); obj = mc_alloc(sizeof(*obj)); DSMHashInit(obj, C, n); }
static void obj_tinit(int t) { ts[t] = mc_alloc(sizeof(**ts)); DSMHashThreadStateInit(obj, ts[t], C, mc_pid(t)); }
static long obj_op(int t, int kind, long arg) {
    if (kind == 'I') return DSMHashInsert(obj, ts[t], arg, arg * 10 + 1, mc_pid(t));
    if (kind == 'S') return DSMHashSearch(obj, ts[t], arg, mc_pid(t));
    DSMHashDelete(obj, ts[t], arg, mc_pid(t));
    return 0;
}
