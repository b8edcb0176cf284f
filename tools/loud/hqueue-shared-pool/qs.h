// Random concurrent programs on a queue or stack; every history, completed by a sequential drain, must be linearizable.
// Before inclusion define: KIND ('Q'/'S'), NT threads, OPS per thread, SECS, SETUP() once, TSETUP(i) once per thread,
// PUT(i, v), GET(i), EMPTYV; optionally PROG(i, k, seed) = 1 for a put.
#include "lin.h"
static uint64_t qs_seed; static int qs_init[80]; static long qs_next;
#ifndef PROG
#define PROG(i, k, s) ((((s) * 2654435761u >> ((i) * 5 + (k))) & 1))
#endif
static int qs_slot(void) { return lin_n++; }
static void qs_do(int i, int put) {
    Ev e; int s = qs_slot();
    e.op = !put; e.val = put ? ++qs_next : 0; e.ret = 0; e.t0 = demo_now();
    lin_ev[s] = e; lin_ev[s].t1 = 1L << 60;
    if (put) PUT(i, e.val); else e.ret = GET(i);
    e.t1 = demo_now(); lin_ev[s] = e;
}
static void qs_body(int i) { int k; for (k = 0; k < OPS; k++) qs_do(i, PROG(i, k, qs_seed)); }
static void qs_tinit(int i) { TSETUP(i); }
static void qs_tbody(int i) { if (!qs_init[i]) { qs_init[i] = 1; qs_tinit(i); } qs_body(i); }
static void qs_drain(int i) { if (i) return; do qs_do(0, 0); while (lin_n < 60 && lin_ev[lin_n - 1].ret != EMPTYV); }
int main() {
    long r; lin_empty = EMPTYV; SETUP();
    for (r = 1; demo_time() < SECS; r++) {
        qs_seed = r * 7919; lin_n = 0;
        if (demo_run(NT, qs_tbody, r, 3000000)) DEMO_FAIL("schedule %ld does not finish", r);
        demo_run(NT, qs_drain, 1, 3000000);
        if (!lin_check(KIND)) { lin_show(); DEMO_FAIL("schedule %ld: this history is not linearizable", r); }
    }
    printf("demo: %ld schedules, all fine\n", r); return 0;
}
