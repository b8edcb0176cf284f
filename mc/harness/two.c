// Two objects used by the same threads. Compiled with -DMC_A="\"ccqueue.c\"" -DMC_B=...: upper-case operations go to the first object, lower-case ones to the second.
#define MC_PAIR
#define obj A_obj
#define ts A_ts
#define obj_init A_init
#define obj_tinit A_tinit
#define obj_op A_op
#define h_state A_h_state
#define h_state_init A_h_state_init
#define h_apply A_h_apply
#define h_sfunc A_h_sfunc
#define HLog A_HLog
#define n_total A_n_total
#define N A_N
#define C A_C
#define F A_F
#define S A_S
#include MC_A
#undef obj
#undef ts
#undef obj_init
#undef obj_tinit
#undef obj_op
#undef h_state
#undef h_state_init
#undef h_apply
#undef h_sfunc
#undef HLog
#undef n_total
#undef N
#undef C
#undef F
#undef S
#undef H_NO_STATE_ARG
#define obj B_obj
#define ts B_ts
#define obj_init B_init
#define obj_tinit B_tinit
#define obj_op B_op
#define h_state B_h_state
#define h_state_init B_h_state_init
#define h_apply B_h_apply
#define h_sfunc B_h_sfunc
#define HLog B_HLog
#define n_total B_n_total
#define N B_N
#define C B_C
#define F B_F
#define S B_S
#include MC_B
#undef obj_init
#undef obj_tinit
#undef obj_op
#undef MC_PAIR
#undef MC_HCOMMON_H
#define MC_HPAIR_MAIN
#include "common.h"
static void obj_init(int n) { A_init(n); B_init(n); }
static void obj_tinit(int t) { A_tinit(t); B_tinit(t); }
static long obj_op(int t, int kind, long arg) { return kind >= 'a' ? B_op(t, kind - 'a' + 'A', arg) : A_op(t, kind, arg); }
