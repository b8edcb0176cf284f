// Linearizability of short histories, by exhaustive search. Kinds: 'Q' queue, 'S' stack, 'F' fetch-and-add (put = add, returns old value).
#pragma once
#include "demosched.h"
typedef struct { int op; long val, ret, t0, t1; } Ev;   // op: 0 put(val), 1 get() -> ret
static Ev lin_ev[64]; static int lin_n; static long lin_empty = -9223372036854775807L - 1;
static long lin_st[64]; static int lin_h, lin_t; static long lin_steps;
static int lin_dfs(int kind, unsigned long done) {
    int i, j; long lim = 1L << 60;
    if (done == (1UL << lin_n) - 1) return 1;
    if (++lin_steps > 20000000) return 1;
    for (i = 0; i < lin_n; i++) if (!(done >> i & 1) && lin_ev[i].t1 < lim) lim = lin_ev[i].t1;
    for (i = 0; i < lin_n; i++) {
        Ev *e = &lin_ev[i]; int h = lin_h, t = lin_t; 
        if ((done >> i & 1) || e->t0 > lim) continue;
        if (kind == 'F') { if (lin_h != (int)e->ret) continue; lin_h += e->val; }
        else if (e->op == 0) { lin_st[lin_t++] = e->val; }
        else if (lin_h == lin_t) { if (e->ret != lin_empty) continue; }
        else if (kind == 'Q') { if (lin_st[lin_h] != e->ret) continue; lin_h++; }
        else { if (lin_st[lin_t - 1] != e->ret) continue; lin_t--; }
        long keep = kind == 'S' ? lin_st[t ? t - 1 : 0] : 0, keep2 = lin_st[t];
        if (lin_dfs(kind, done | 1UL << i)) return 1;
        lin_h = h; lin_t = t;
        if (kind == 'S' && t) lin_st[t - 1] = keep;
        (void)keep2;
    }
    return 0;
}
static int lin_check(int kind) { lin_h = lin_t = 0; lin_steps = 0; return lin_dfs(kind, 0); }
static void lin_show(void) { int i; for (i = 0; i < lin_n; i++) printf("  [%ld,%ld] %s %ld -> %ld\n", lin_ev[i].t0, lin_ev[i].t1, lin_ev[i].op ? "get" : "put", lin_ev[i].val, lin_ev[i].ret); }
