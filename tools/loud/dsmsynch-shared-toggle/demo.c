#include <dsmsynch.h>
#include "demosched.h"
#define NT 3
static DSMSynchStruct l[2]; static DSMSynchThreadState ts[2][NT]; static volatile long st[2];
static RetVal f(void *s, ArgVal a, int p) { volatile long *x = s; long r = *x; demo_point(); *x = r + 1; return r; }
static void body(int i) { int k; for (k = 0; k < 6; k++) DSMSynchApplyOp(&l[k & 1], &ts[k & 1][i], f, (void *)&st[k & 1], 0, i); }
int main() { long r; int i, j; for (r = 1; demo_time() < 40; r++) { for (j = 0; j < 2; j++) { st[j] = 0; DSMSynchStructInit(&l[j], NT); for (i = 0; i < NT; i++) DSMSynchThreadStateInit(&l[j], &ts[j][i], i); }
  if (demo_run(NT, body, r, 300000)) DEMO_FAIL("schedule %ld does not finish", r); if (st[0] != 3 * NT || st[1] != 3 * NT) DEMO_FAIL("schedule %ld: %ld and %ld operations applied", r, (long)st[0], (long)st[1]); } printf("demo: %ld schedules\n", r); return 0; }
