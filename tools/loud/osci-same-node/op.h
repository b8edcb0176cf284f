// Random schedules of fetch-and-add operations on a combining object. SETUP(), TSETUP(i), APPLY(i, arg), NT, OPS, SECS.
// Every application must see the submitter's argument and id, and the answers must be those of one atomic order.
#include "lin.h"
static int qs_init[80]; static volatile long op_state; static long op_arg[80]; static volatile int op_in; static const char *op_bad;
static RetVal op_f(void *s, ArgVal a, int pid) {
    if (op_in++) op_bad = "two applications at the same time";
    if (pid < 0 || pid >= NT || op_arg[pid] != a) op_bad = "wrong argument or thread id";
    long r = op_state; demo_point(); op_state = r + 1; demo_point(); op_in--;
    return r;
}
static void op_body(int i) {
    int k; if (!qs_init[i]) { qs_init[i] = 1; TSETUP(i); }
    for (k = 0; k < OPS; k++) { int s = lin_n++; Ev e = {0, 1, 0, demo_now(), 1L << 60}; lin_ev[s] = e; op_arg[i] = (i + 1) * 1000 + ((k + 1) * 37 + e.t0) % 900; e.ret = APPLY(i, op_arg[i]); e.t1 = demo_now(); lin_ev[s] = e; }
}
int main() {
    long r; SETUP();
    for (r = 1; demo_time() < SECS; r++) {
        lin_n = 0; op_state = 0;
        if (demo_run(NT, op_body, r, 3000000)) DEMO_FAIL("schedule %ld does not finish", r);
        if (op_bad) DEMO_FAIL("schedule %ld: %s", r, op_bad);
        if (op_state != NT * OPS || !lin_check('F')) { lin_show(); DEMO_FAIL("schedule %ld: %ld operations applied; the answers do not fit one order", r, (long)op_state); }
    }
    printf("demo: %ld schedules, all fine\n", r); return 0;
}
