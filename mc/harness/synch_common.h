// A sequential object protected by a combining protocol: an append-only log of (pid, argument).
// 'A' a appends; the result is the position. The drain reads every position back ('R' i).
// sfunc also records that it is running, so that two overlapping executions are noticed.
#include "common.h"
#define H_LOGMAX 24
typedef struct { long len; long busy; long item[H_LOGMAX]; } HLog;
static HLog *h_state;
static void h_state_init(void) { long i; h_state = mc_alloc(sizeof(HLog)); for (i = 0; i < (long)(sizeof(HLog) / 8); i++) ((long *)h_state)[i] = 0; }
static long h_apply(int t, long arg);
// amap=1..4: the library sees wide arguments and results; with sarg=V (sres=V) the operation with number 11 has argument (result) V.
#ifndef H_WIDE
#define H_WIDE
static long h_lib(long a) {
    unsigned long u = a;
    if (mc_param("special", 0)) return a == 11 ? mc_param("sarg", 0) : a + 1000000007;
    switch (mc_param("amap", 0)) { case 1: return u << 32; case 2: return -a; case 3: return u << 48 | 1ul << 63; case 4: return 0x7fffffff00000000ul + u; case 5: return u << 31; case 6: return u << 58; }
    return a;
}
static long h_num(long x) { long a; for (a = 0; a < 64; a++) if (h_lib(a) == x) return a; mc_fail("the sequential function was called with an argument that nobody submitted"); return 0; }
static long h_res(long a) { return mc_param("special", 0) && a == 11 ? mc_param("sres", 0) : (long)((unsigned long)h_lib(a) * 0x9E3779B97F4A7C15ul); }
#endif
#ifndef H_NO_STATE_ARG
static RetVal h_sfunc(void *st, ArgVal arg, int pid) {
    HLog *l = st;
#else
static RetVal h_sfunc(ArgVal arg, int pid) {
    HLog *l = h_state;
#endif
    long n;
    int wide = mc_param("amap", 0) || mc_param("special", 0);
    if (mc_param("loop", 0) || (arg < 0 && mc_param("warm", 0))) { if (l->busy) mc_fail("the sequential function runs while another execution of it is in progress"); l->busy = 1; l->busy = 0; return arg * 1000 - pid; } // stateless operation (endless clients)
    if (l != h_state) mc_fail("the sequential function was called with a wrong state pointer");
    if (l->busy) mc_fail("the sequential function runs while another execution of it is in progress");
    if (wide) arg = h_num(arg);
    l->busy = 1;
    n = l->len;
    if (n >= H_LOGMAX) mc_fail("the sequential function was applied more often than operations were requested");
    l->item[n] = arg * 1000 + pid;
    l->len = n + 1;
    l->busy = 0;
    return wide ? h_res(arg) : n;
}
static long obj_op(int t, int kind, long arg) {
    if (kind == 'A' && (mc_param("amap", 0) || mc_param("special", 0))) {
        long i;
        if (h_apply(t, h_lib(arg)) != h_res(arg)) mc_fail("the caller got a result that is not the one of its own operation");
        for (i = 0; i < h_state->len && h_state->item[i] != arg * 1000 + mc_pid(t); i++) ;
        return i;
    }
    if (kind == 'A') return h_apply(t, arg);
    if (kind == 'T') { if (h_apply(t, -arg) != -arg * 1000 - mc_pid(t)) mc_fail("wrong answer"); return 0; }
    if (kind == 'R') return arg < h_state->len ? h_state->item[arg] : -1;
    mc_fail("bad op");
    return 0;
}
