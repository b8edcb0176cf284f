#include <sim.h>
#define NT 2
static SimStruct l; static SimThreadState ts[NT];
#include "demosched.h"
static long got[NT][12]; 
static RetVal f(HalfSimObjectState *s, ArgVal a, int p) { RetVal r = s->state.state; s->state.state = r + 1; return r; }
static int in[NT];
static void body(int i) { int k; for (k = 0; k < 8; k++) got[i][k] = SimApplyOp(&l, &ts[i], (void *)f, i, i); }
int main() { long r; int i, k; synchSimStructInit(&l, NT, 0); for (i = 0; i < NT; i++) SimThreadStateInit(&ts[i], NT, i);
 long base = 0; for (r = 1; demo_time() < 60; r++) {
  if (demo_run(NT, body, r, 300000)) DEMO_FAIL("schedule %ld does not finish", r);
  unsigned long m = 0; for (i = 0; i < NT; i++) for (k = 0; k < 8; k++) { long g = got[i][k] - base; if (g < 0 || g > 15) DEMO_FAIL("schedule %ld: result %ld", r, g); m |= 1ul << g; }
  if (m != 0xffff) DEMO_FAIL("schedule %ld: results %lx", r, m); base += 16; }
 printf("demo: %ld schedules\n", r); return 0; }
