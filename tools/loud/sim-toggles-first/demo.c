#include <sim.h>
#define NT 3
static SimStruct l; static SimThreadState ts[NT];
#define OPS 3
#define SECS 40
#include "lin.h"
static long base; static int ini[NT];
static RetVal f(ObjectState *s, ArgVal a, int p) { RetVal r = s->state; s->state = r + a; return r; }
static void body(int i) { int k; if (!ini[i]) { ini[i] = 1; SimThreadStateInit(&ts[i], NT, i); } for (k = 0; k < OPS; k++) { int s = lin_n++; Ev e = {0, 1, 0, demo_now(), 1L << 60}; lin_ev[s] = e; e.ret = SimApplyOp(&l, &ts[i], (void *)f, 1, i) - base; e.t1 = demo_now(); lin_ev[s] = e; } }
int main() { long r; synchSimStructInit(&l, NT, 0); for (r = 1; demo_time() < SECS; r++) { lin_n = 0; base = l.pool[l.sp.struct_data.index]->state.state; if (demo_run(NT, body, r, 300000)) DEMO_FAIL("schedule %ld does not finish", r);
  if (!lin_check('F')) { lin_show(); DEMO_FAIL("schedule %ld: the answers do not fit one order", r); } } printf("demo: %ld schedules\n", r); return 0; }
