// Interface between harnesses (instrumented, C or C++) and the model-checking engine.
#ifndef MC_H
#define MC_H
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
// ---- provided by the harness
void mc_setup(void);        // sequential initialisation (main thread)
void mc_thread(int t);      // body of simulated thread t
void mc_drain(void);        // sequential epilogue, run in every terminal state
// ---- provided by the engine
int  mc_nthreads(void);
int  mc_tid(void);                              // index of the running simulated thread
int  mc_pid(int t);                             // library-level pid of thread t
long mc_param(const char *name, long dflt);
void mc_as(int t);                              // setup only: act as thread t (allocation arena, TLS, ids)
void *mc_alloc(size_t sz);                      // tracked, zeroed, red-zoned memory
int  mc_prog_len(int t);                        // t>=0: thread t; -1: init; -2: drain
int  mc_prog_kind(int t, int i);
long mc_prog_arg(int t, int i);
void mc_op_begin(int kind, long arg);
void mc_op_end(long ret);
void mc_enter(int which);                       // critical-section style events (mutual exclusion / fifo monitor)
void mc_leave(int which);
void mc_fail(const char *fmt, ...);             // property violation
void mc_point(void);                            // explicit scheduling point
void mc_note(long v);                           // adds v to the observable outcome of the execution
void mc_block(int (*cond)(void *), void *arg);  // block until cond() (evaluated by the engine) is true
int  mc_done(int t);                            // has thread t finished?
int  mc_is_live(const void *p, size_t n);       // is [p,p+n) inside one live allocation?
long mc_live_blocks(void);                      // number of live heap blocks
size_t mc_block_size(const void *p);            // size of the block starting at p (0 if none)
void mc_spawnable(int t);                       // setup: thread t does not run until mc_spawn(t)
void mc_spawn(int t);
void mc_set_group(int t, int g);                // setup: fibers: threads of one group switch only at yields
void mc_fiber_yield(void);
void mc_log(const char *fmt, ...);               // describes the execution (in counterexamples)
long mc_ghost(int i);                           // 256 harness variables that are part of the state but not of the memory under test:
void mc_ghost_set(int i, long v);               // reading or writing them is no scheduling point
int  mc_choose(int n);                          // --choose=1 (one thread): every value 0..n-1 (n <= 16) is explored
#ifdef __cplusplus
}
#endif
#endif
