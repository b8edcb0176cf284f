#include <oyama.h>
#define NT 3
static OyamaStruct l; static OyamaThreadState ts[NT];
#include "demosched.h"
static volatile long st; static long got[NT][40];
static RetVal f(ArgVal a, int p) { long r = st; int j; for (j = 0; j < 100; j++) demo_point(); st = r + 1; return r; }
static void body(int i) { int k; for (k = 0; k < 40; k++) got[i][k] = OyamaApplyOp(&l, &ts[i], f, i, i); }
int main() { long r; for (r = 1; demo_time() < 30; r++) { OyamaInit(&l, NT); OyamaThreadStateInit(&ts[0]); OyamaThreadStateInit(&ts[1]); OyamaThreadStateInit(&ts[2]); st = 0;
  if (demo_run(NT, body, r, 300000)) DEMO_FAIL("schedule %ld: an operation never returns", r); if (st != NT * 40) DEMO_FAIL("schedule %ld: %ld applied", r, (long)st); }
 printf("demo: %ld schedules\n", r); return 0; }
