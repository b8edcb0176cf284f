// Thread placement: every topology (nodes x physical cores per node x hardware threads) x every policy x every thread id.
#include <threadtools.h>
#include <mc.h>
void mc_set_topology(long c, long n, long s);
extern long mc_env_affinity_cpu;
int mcw_numa_node_of_cpu(int);
void mc_setup(void) {}
static int node(int c) { return mcw_numa_node_of_cpu(c); }
void mc_thread(int t) {
    int nodes = 1 + mc_choose(mc_param("maxnodes", 8)), percore = 1 + mc_choose(mc_param("maxcores", 8)), smt = mc_choose(2), policy = mc_choose(8);
    int phys = nodes * percore, cpus = smt ? 2 * phys : phys, i, k, set, used[260], core[520];
    static const char *names[] = {"default", "flat", "sparse", "dense", "sparse, SMT preferred", "dense, SMT preferred", "beyond the last", "-1"};
    mc_set_topology(cpus, nodes, smt);
    mc_log("%d nodes of %d cores%s, policy %s", nodes, percore, smt ? " with two hardware threads" : "", names[policy]);
    if (synchGetThreadPlacementPolicy() != SYNCH_THREAD_PLACEMENT_DEFAULT) mc_fail("the default policy is %u", synchGetThreadPlacementPolicy());
    set = policy == 0 ? SYNCH_THREAD_PLACEMENT_DEFAULT : policy == 6 ? SYNCH_THREAD_PLACEMENT_POLICY_MAX + 1 : policy == 7 ? -1 : policy;
    if (policy) synchSetThreadPlacementPolicy(set);
    if (policy >= 6) set = SYNCH_THREAD_PLACEMENT_POLICY_MAX;
    if (synchGetThreadPlacementPolicy() != (uint32_t)set) mc_fail("policy %u is selected instead of %d", synchGetThreadPlacementPolicy(), set);
    if (synchGetNCores() != (uint32_t)cpus) mc_fail("%u cores are reported on a machine with %d", synchGetNCores(), cpus);
    for (i = 0; i < cpus; i++) used[i] = -1;
    for (i = 0; i < 2 * cpus; i++) {
        int c, n;
        mc_env_affinity_cpu = -2;
        if (synchThreadPin(i) != 0) mc_fail("pinning thread %d failed", i);
        c = mc_env_affinity_cpu;
        if (c < 0 || c >= cpus) mc_fail("thread %d is pinned to core %d of %d", i, c, cpus);
        if (synchGetPreferredCore() != c) mc_fail("thread %d is pinned to core %d, but core %d is reported", i, c, synchGetPreferredCore());
        if (synchPreferredCoreOfThread(i) != (uint32_t)c) mc_fail("thread %d is pinned to core %d, but core %u is reported for its id", i, c, synchPreferredCoreOfThread(i));
        n = node(c);
        if (synchGetPreferredNumaNode() != n || synchPreferredNumaNodeOfThread(i) != (uint32_t)n) mc_fail("core %d of thread %d belongs to node %d, but node %d / %u is reported", c, i, n, synchGetPreferredNumaNode(), synchPreferredNumaNodeOfThread(i));
        core[i] = c;
        if (i < cpus) { if (used[c] >= 0) mc_fail("threads %d and %d share core %d although there are %d cores", used[c], i, c, cpus); used[c] = i; }
    }
#define N(i) node(core[i])
#define PC(i) (smt ? core[i] % phys : core[i])
    if (nodes == 1 && !smt || mc_param("flat", 0)) return;   // flat: a build that knows nothing about the topology
    for (i = 0; i < cpus; i++) {
        if (set == SYNCH_THREAD_PLACEMENT_FLAT && i > 0 && core[i] == core[i - 1] && cpus > 1) mc_fail("flat: threads %d and %d on one core", i - 1, i);
        if (set == SYNCH_THREAD_PLACEMENT_NUMA_SPARSE || set == SYNCH_THREAD_PLACEMENT_NUMA_SPARSE_SMT_PREFER)
            for (k = i + 1; k < i + nodes && k < cpus; k++) if (i % nodes < k % nodes && N(i) == N(k)) mc_fail("sparse: threads %d and %d are on node %d while another node has fewer threads", i, k, N(i));
        if (smt && (set == SYNCH_THREAD_PLACEMENT_NUMA_SPARSE || set == SYNCH_THREAD_PLACEMENT_NUMA_DENSE) && i < phys)
            for (k = 0; k < i; k++) if (PC(i) == PC(k)) mc_fail("threads %d and %d share a physical core although others are free", k, i);
        if (smt && set == SYNCH_THREAD_PLACEMENT_NUMA_DENSE_SMT_PREFER && i % 2 && PC(i) != PC(i - 1)) mc_fail("dense, SMT preferred: threads %d and %d are not on the same physical core", i - 1, i);
        if (set == SYNCH_THREAD_PLACEMENT_NUMA_DENSE) { int per = percore; if (N(i) != N(i / per * per)) mc_fail("dense: thread %d is on node %d, before node %d is full", i, N(i), N(i / per * per)); if (i >= per && i < phys) for (k = 0; k < i / per * per; k++) if (N(k) == N(i)) mc_fail("dense: thread %d", i); }
        if (set == SYNCH_THREAD_PLACEMENT_NUMA_DENSE_SMT_PREFER) { int per = cpus / nodes; if (N(i) != i / per) mc_fail("dense, SMT preferred: thread %d is on node %d instead of %d", i, N(i), i / per); }
    }
    if (smt && set == SYNCH_THREAD_PLACEMENT_NUMA_SPARSE_SMT_PREFER)    // after every 2N threads exactly N physical cores are in use, completely
        for (i = 2 * nodes; i <= cpus; i += 2 * nodes) for (k = 0; k < i; k++) { int m, s = 0; for (m = 0; m < i; m++) if (PC(m) == PC(k)) s++; if (s != 2) mc_fail("sparse, SMT preferred: the core of thread %d is half empty after %d threads", k, i); }
}
void mc_drain(void) {}
