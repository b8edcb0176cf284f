#include <osci.h>
#include "demosched.h"
#define NT 3
static OsciStruct l; static OsciThreadState ts[NT]; static volatile long n;
static RetVal f(void *s, ArgVal a, int pid) { return n++; }
static void body(int i) { int k; for (k = 0; k < 4; k++) OsciApplyOp(&l, &ts[i], f, 0, 1, i); }
int main() { long r; int i; for (r = 1; demo_time() < 40; r++) { OsciInit(&l, NT, 1); n = 0; for (i = 0; i < NT; i++) OsciThreadStateInit(&ts[i], &l, i);
  if (demo_run(NT, body, r, 1000000)) DEMO_FAIL("schedule %ld does not finish", r); if (n != 4 * NT) DEMO_FAIL("schedule %ld: %ld operations", r, (long)n); }
 printf("demo: %ld schedules\n", r); return 0; }
