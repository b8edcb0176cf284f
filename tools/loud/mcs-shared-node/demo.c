#include <mcs.h>
#include "demosched.h"
#define NT 2
static MCSLockStruct *a, *b; static MCSThreadState ta[NT], tb[NT]; static volatile int in; static const char *bad; static int ini[NT];
static void body(int i) { int k; if (!ini[i]) { ini[i] = 1; MCSThreadStateInit(&ta[i], i); MCSThreadStateInit(&tb[i], i); }
 for (k = 0; k < 2; k++) { MCSLock(a, &ta[i], i); if (in++) bad = "two in the critical section"; MCSLock(b, &tb[i], i); demo_point(); MCSUnlock(b, &tb[i], i); demo_point(); in--; MCSUnlock(a, &ta[i], i); } }
int main() { long r; a = MCSLockInit(); b = MCSLockInit(); for (r = 1; demo_time() < 20; r++) { if (demo_run(NT, body, r, 100000)) DEMO_FAIL("schedule %ld does not finish", r); if (bad) DEMO_FAIL("schedule %ld: %s", r, bad); } printf("demo: %ld schedules\n", r); return 0; }
