#include <mcs.h>
#include "demosched.h"
#define NT 4
static MCSLockStruct *l; static MCSThreadState ts[NT]; static volatile int in; static const char *bad;
static long since[NT], queued[NT];   // start of the current call, time at which it was seen waiting
void __wrap_synchResched(void) { int i = demo_tid(); if (i >= 0 && since[i] && !queued[i]) queued[i] = demo_now(); demo_point(); }
static void body(int i) { int k, j; for (k = 0; k < 4; k++) { queued[i] = 0; since[i] = demo_now(); MCSLock(l, &ts[i], i); if (in++) bad = "two in the critical section";
   for (j = 0; j < NT; j++) if (j != i && since[j] && queued[j] && queued[j] < since[i]) bad = "a thread that came later overtakes a waiting one";
   since[i] = queued[i] = 0; demo_point(); in--; MCSUnlock(l, &ts[i], i); } }
int main() { long r; int i; l = MCSLockInit(); for (i = 0; i < NT; i++) MCSThreadStateInit(&ts[i], i);
 for (r = 1; demo_time() < 60; r++) { for (i = 0; i < NT; i++) since[i] = queued[i] = 0; if (demo_run(NT, body, r, 1000000)) DEMO_FAIL("schedule %ld does not finish", r); if (bad) DEMO_FAIL("schedule %ld: %s", r, bad); }
 printf("demo: %ld schedules\n", r); return 0; }
