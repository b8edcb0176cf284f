#include <sim.h>
#include "lin.h"
#define NT 3
#define OPS 4
static SimStruct q; static SimThreadState ts[NT]; static int ini[NT]; static long base;
static RetVal f(void *s, ArgVal a, int pid) { long r = *(long *)s; *(long *)s = r + 1; return r; }
static void body(int i) { int k; if (!ini[i]) { ini[i] = 1; SimThreadStateInit(&ts[i], NT, i); }
  for (k = 0; k < OPS; k++) { int s = lin_n++; Ev e = {0, 1, 0, demo_now(), 1L << 60}; lin_ev[s] = e; e.ret = (long)SimApplyOp(&q, &ts[i], f, 1, i) - base; e.t1 = demo_now(); lin_ev[s] = e; } }
int main() { long r; synchSimStructInit(&q, NT, 0);
  for (r = 1; demo_time() < 60; r++) { lin_n = 0; if (demo_run(NT, body, r, 1000000)) DEMO_FAIL("schedule %ld does not finish", r); if (!lin_check('F')) { lin_show(); DEMO_FAIL("schedule %ld: not one order", r); } base += NT * OPS; }
  printf("demo: %ld schedules\n", r); return 0; }
