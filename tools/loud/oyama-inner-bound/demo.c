#include <oyama.h>
#include "demosched.h"
#define NT 4
static OyamaStruct l; static OyamaThreadState ts[NT]; static volatile long n;
static RetVal f(ArgVal a, int pid) { int k; for (k = 0; k < 300; k++) demo_point(); return n++; }
static void body(int i) { int k; for (k = 0; k < 60; k++) OyamaApplyOp(&l, &ts[i], f, 1, i); }
int main() { long r; int i; for (r = 1; demo_time() < 40; r++) { OyamaInit(&l, NT); n = 0; for (i = 0; i < NT; i++) OyamaThreadStateInit(&ts[i]);
  if (demo_run(NT, body, r, 30000000)) DEMO_FAIL("schedule %ld does not finish", r); if (n != 60 * NT) DEMO_FAIL("schedule %ld: %ld operations", r, (long)n); }
 printf("demo: %ld schedules\n", r); return 0; }
