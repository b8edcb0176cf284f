// Barrier. 'W': wait; 'L': leave; 'Z': last leave; 'S' n: (after everybody left) set again for n participants; 'B': block until set again.
#include <barrier.h>
#include <mc.h>
// 'M' k: k participants without a thread of their own leave, one after the other (there are 'crowd' of them).
// ghost: 0..15 rounds entered by thread t since the last set; 16..31: has left; 32: number of sets; 33: participants with a thread; 34: of the crowd, those who left
static SynchBarrier *bar;
static int member(int t) { return t < mc_ghost(33); }
static int everybody_left(void *a) { int t; for (t = 0; t < mc_ghost(33); t++) if (!mc_ghost(16 + t)) return 0; return 1; }
static int was_set(void *a) { return mc_ghost(32) > (long)a; }
void mc_setup(void) { bar = mc_alloc(sizeof(*bar)); mc_ghost_set(33, mc_param("n", mc_nthreads())); synchBarrierSet(bar, mc_ghost(33) + mc_param("crowd", 0)); }
void mc_thread(int t) {
    int i, u;
    long gen = 0;
    for (i = 0; i < mc_prog_len(t); i++) {
        int k = mc_prog_kind(t, i); long arg = mc_prog_arg(t, i);
        mc_op_begin(k, arg);
        if (k == 'W') {
            mc_ghost_set(t, mc_ghost(t) + 1);
            synchBarrierWait(bar);
            for (u = 0; u < mc_nthreads(); u++) if (member(u) && mc_ghost(u) < mc_ghost(t) && !mc_ghost(16 + u))
                mc_fail("thread %d returned from round %ld of the barrier before thread %d entered it", t, mc_ghost(t), u);
        } else if (k == 'L') { mc_ghost_set(16 + t, 1); synchBarrierLeave(bar); }
        else if (k == 'M') { long j; for (j = 0; j < arg; j++) { mc_ghost_set(34, mc_ghost(34) + 1); synchBarrierLeave(bar); } }
        else if (k == 'Z') {
            mc_ghost_set(16 + t, 1);
            synchBarrierLastLeave(bar);
            for (u = 0; u < mc_nthreads(); u++) if (member(u) && !mc_ghost(16 + u)) mc_fail("last-leave returned before thread %d left", u);
            if (mc_ghost(34) != mc_param("crowd", 0)) mc_fail("last-leave returned when %ld of %ld others had left", mc_ghost(34), mc_param("crowd", 0));
        } else if (k == 'S') {
            mc_block(everybody_left, 0);
            for (u = 0; u < 32; u++) mc_ghost_set(u, 0);
            mc_ghost_set(33, arg);
            synchBarrierSet(bar, arg);
            gen++; mc_ghost_set(32, gen);
        } else if (k == 'B') { mc_block(was_set, (void *)gen); gen++; }
        mc_op_end(0);
    }
}
void mc_drain(void) {}
