// Common part of the operation-program harnesses: each simulated thread executes its list of operations.
#ifndef MC_HCOMMON_H
#define MC_HCOMMON_H
#ifndef MC_HCOMMON_DEFS
#define MC_HCOMMON_DEFS
#include <mc.h>
#include <stdint.h>
#include <limits.h>
#include <stdbool.h>
#define H_EMPTY (LONG_MIN + 1)
#endif
#ifndef MC_PAIR
static void obj_init(int n);
static void obj_tinit(int t);
static long obj_op(int t, int kind, long arg);
extern void mc_clean_call(void *fn, long a, long b, long c);
static void h_one(long t, long kind, long arg) {
    long r;
    mc_op_begin((int)kind, arg);
    r = obj_op((int)t, (int)kind, arg);
    mc_op_end(r);
}
static void h_tinit(long t, long b, long c) { obj_tinit((int)t); }
#ifndef H_NTOTAL
#define H_NTOTAL mc_param("n", mc_nthreads())
#endif
// warm=N: N rounds of operations by the threads in turn before the exploration starts (answers are checked, the object is left as it was)
static long h_warming;
static void h_warm(void) {
    long n = mc_param("warm", 0), m = mc_param("wmode", 0), r, i, d, v;
    h_warming = 1;
    for (r = 0; r < n; r++) {
        int t = r % mc_nthreads(), u = t; if (mc_param("handover", 0)) { t = 0; u = mc_nthreads() - 1; }   // one thread puts in, the other takes out
        mc_as(t); mc_point(); d = 1 + r % mc_param("wdepth", 1);
        if (m <= 1) {      // 0: queue, 1: stack
            for (i = 0; i < d; i++) obj_op(t, m ? 'P' : 'E', 1000 + r + i);
            mc_as(u);
            for (i = 0; i < d; i++) if ((v = obj_op(u, 'D', 0)) != 1000 + r + (m ? d - 1 - i : i)) mc_fail("after %ld rounds of a sequential history: %ld comes out instead of %ld", r, v, 1000 + r + (m ? d - 1 - i : i));
            if (obj_op(u, 'D', 0) != H_EMPTY) mc_fail("after %ld rounds of a sequential history: not empty", r);
        } else if (m == 2) { // set
            for (i = 0; i < d; i++) { obj_op(t, 'I', 1000 + r + i); if (!obj_op(t, 'S', 1000 + r + i)) mc_fail("after %ld rounds of a sequential history: an inserted key is not found", r); }
            for (i = 0; i < d; i++) { obj_op(t, 'D', 1000 + r + i); if (obj_op(t, 'S', 1000 + r + i)) mc_fail("after %ld rounds of a sequential history: a deleted key is found", r); }
        } else if (m == 3) { // register: there and back
            v = obj_op(t, 'G', 0);
            for (i = 0; i < d; i++) if (obj_op(t, 'S', i + 1) != (i ? i : v)) mc_fail("after %ld rounds of a sequential history: wrong answer", r);
            if (obj_op(t, 'S', v) != d) mc_fail("after %ld rounds of a sequential history: wrong answer", r);
        } else obj_op(t, 'T', 1 + r % 7);   // stateless operation, checks its own answer
    }
    h_warming = 0; mc_as(0);
}
void mc_setup(void) {
    int t, i;
    obj_init((int)H_NTOTAL);
    if (!mc_param("cinit", 0)) for (t = 0; t < mc_nthreads(); t++) { mc_as(t); obj_tinit(t); }
    else { mc_as(0); if (mc_prog_len(-1) > 0) obj_tinit(0); }
    mc_as(0);
    if (mc_param("warm", 0)) h_warm();
    for (i = 0; i < mc_prog_len(-1); i++) { int k = mc_prog_kind(-1, i); int a = 0; h_one(a, k, mc_prog_arg(-1, i)); }
}
void mc_thread(int t) {
    int i, n = mc_prog_len(t);
    if (mc_param("cinit", 0) && !(t == 0 && mc_prog_len(-1) > 0)) mc_clean_call((void *)h_tinit, t, 0, 0);
    if (mc_param("loop", 0)) { for (;;) { mc_point(); mc_clean_call((void *)h_one, t, mc_prog_kind(t, 0), mc_prog_arg(t, 0)); } }
    for (i = 0; i < n; i++) mc_clean_call((void *)h_one, t, mc_prog_kind(t, i), mc_prog_arg(t, i));
}
#ifndef H_OWN_DRAIN
void mc_drain(void) {
    int i;
    for (i = 0; i < mc_prog_len(-2); i++) h_one(0, mc_prog_kind(-2, i), mc_prog_arg(-2, i));
}
#endif
#endif
#endif
