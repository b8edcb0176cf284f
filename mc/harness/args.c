// Benchmark arguments (stateless runtime): every sequence of up to 'budget' different options, every spelling, boundary values.
#include <bench_args.h>
#include <config.h>
#include <hsynch.h>
#include <threadtools.h>
#include <getopt.h>
#include <setjmp.h>
#include <mc.h>
extern int snprintf(char *, size_t, const char *, ...);
static jmp_buf jb; static int exited;
void mc_exit_hook(int code) { exited = code; longjmp(jb, 1); }
static const char sh[] = "tfrwbbln"; static const char *lo[] = {"threads", "fibers", "runs", "max_work", "backoff", "backoff_high", "backoff_low", "numa_nodes"};
static const long vals[8][4] = {{1, 3, 64, 1000}, {2, 1, 5, 64}, {1000000, 7, 0, 5000000000L}, {64, 0, 1, 2000000000L}, {0, 1, 100, 65535}, {0, 1, 101, 65535}, {0, 1, 102, 65535}, {1, 2, 4, 64}};
void mc_setup(void) {}
void mc_thread(int t) {
    SynchBenchArgs a; char buf[16][64]; char *argv[20]; int argc = 1, k = mc_choose(mc_param("budget", 3) + 1), i, c; long set[8]; int has[8], special = 0;
    long thr, fib, runs;
    for (i = 0; i < 8; i++) has[i] = 0;
    argv[0] = "bench";
    for (i = 0; i < k; i++) {
        int o = mc_choose(8), sp, nv = mc_param("values", 2);
        int dup = has[o] || (o == 4 && has[5]) || (o == 5 && has[4]);
        if (dup) return;
        sp = mc_choose(4); has[o] = 1; set[o] = vals[o][mc_choose(nv)];
        if (sp == 0) { snprintf(buf[2 * i], 64, "-%c", sh[o]); argv[argc++] = buf[2 * i]; snprintf(buf[2 * i + 1], 64, "%ld", set[o]); argv[argc++] = buf[2 * i + 1]; }
        else if (sp == 1) { snprintf(buf[2 * i], 64, "-%c%ld", sh[o], set[o]); argv[argc++] = buf[2 * i]; }
        else if (sp == 2) { snprintf(buf[2 * i], 64, "--%s", lo[o]); argv[argc++] = buf[2 * i]; snprintf(buf[2 * i + 1], 64, "%ld", set[o]); argv[argc++] = buf[2 * i + 1]; }
        else { snprintf(buf[2 * i], 64, "--%s=%ld", lo[o], set[o]); argv[argc++] = buf[2 * i]; }
    }
    c = k < mc_param("budget", 3) ? mc_choose(5) : 0;
    if (c == 1) argv[argc++] = "-h";
    if (c == 2) argv[argc++] = "--help";
    if (c == 3) argv[argc++] = "-x";
    if (c == 4) argv[argc++] = "-t";   // the value is missing
    argv[argc] = 0;
    for (i = 1; i < argc; i++) mc_log("%s", argv[i]);
    optind = 0; opterr = 0; exited = -1;
    if (setjmp(jb) == 0) synchParseArguments(&a, argc, argv);
    if (c) {
        if (exited == -1) mc_fail("the arguments were accepted");
        if ((exited == 0) != (c <= 2)) mc_fail("the program ends with exit code %d", exited);
        return;
    }
    if (exited != -1) mc_fail("documented arguments end the program with exit code %d", exited);
    thr = has[0] ? set[0] : mc_param("cpus", 8); fib = has[1] ? set[1] : 1; runs = has[2] ? set[2] : SYNCH_RUNS;
    if (a.fibers_per_thread != (uint32_t)fib) mc_fail("%u fibers per thread instead of %ld", a.fibers_per_thread, fib);
    if (a.nthreads != (uint32_t)(thr * fib)) mc_fail("%u threads in total instead of %ld", a.nthreads, thr * fib);
    if (a.total_runs != (uint64_t)runs) mc_fail("%lu operations in total instead of %ld", a.total_runs, runs);
    if (a.runs != (uint64_t)(runs / (thr * fib))) mc_fail("%lu operations per thread instead of %ld", a.runs, runs / (thr * fib));
    if (a.max_work != (uint32_t)(has[3] ? set[3] : SYNCH_MAX_WORK)) mc_fail("maximum work %u", a.max_work);
    if (a.backoff_high != (uint16_t)(has[4] ? set[4] : has[5] ? set[5] : 0)) mc_fail("upper backoff bound %u", a.backoff_high);
    if (a.backoff_low != (uint16_t)(has[6] ? set[6] : 0)) mc_fail("lower backoff bound %u", a.backoff_low);
    if (a.numa_nodes != (uint32_t)(has[7] ? set[7] : HSYNCH_DEFAULT_NUMA_POLICY)) mc_fail("%u NUMA nodes", a.numa_nodes);
}
void mc_drain(void) {}
