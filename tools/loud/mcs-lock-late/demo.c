#include <mcs.h>
#define NT 3
static MCSLockStruct *l; static MCSThreadState ts[NT]; static volatile int in;
#include "demosched.h"
static const char *bad;
static void body(int i) { int k; for (k = 0; k < 3; k++) { MCSLock(l, &ts[i], i); if (in++) bad = "two in the critical section"; demo_point(); in--; MCSUnlock(l, &ts[i], i); } }
int main() { long r; int i; l = MCSLockInit(); for (i = 0; i < NT; i++) MCSThreadStateInit(&ts[i], i);
 for (r = 1; demo_time() < 25; r++) { if (demo_run(NT, body, r, 100000)) DEMO_FAIL("schedule %ld does not finish", r); if (bad) DEMO_FAIL("schedule %ld: %s", r, bad); }
 printf("demo: %ld schedules\n", r); return 0; }
