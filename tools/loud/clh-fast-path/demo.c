#include <clh.h>
#include "demosched.h"
#define NT 3
static CLHLockStruct *l; static volatile int in; static const char *bad;
static void body(int i) { int k; for (k = 0; k < 5; k++) { CLHLock(l, i); if (in++) bad = "two in the critical section"; demo_point(); demo_point(); demo_point(); in--; CLHUnlock(l, i); } }
int main() { long r; l = CLHLockInit(NT);
 for (r = 1; demo_time() < 60; r++) { if (demo_run(NT, body, r, 1000000)) DEMO_FAIL("schedule %ld does not finish", r); if (bad) DEMO_FAIL("schedule %ld: %s", r, bad); }
 printf("demo: %ld schedules\n", r); return 0; }
