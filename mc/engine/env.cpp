// Environment of the code under test: everything nondeterministic or machine dependent is decided here.
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <ctime>
#include <unistd.h>
#include <sched.h>
#include <pthread.h>
#include "mc.h"
static long ncpus = 8, nodes = 1, smt = 0, model = 2, oversub = 0, uthreads = 0, realsched = 0;
extern "C" {
unsigned synchPreferredCoreOfThread(unsigned) __attribute__((weak));
unsigned synchPreferredNumaNodeOfThread(unsigned) __attribute__((weak));
void mc_env_init(void) {
  ncpus = mc_param("cpus", 8); nodes = mc_param("nodes", 1); smt = mc_param("smt", 0); model = mc_param("model", 2);
  oversub = mc_param("oversub", 0); uthreads = mc_param("uthreads", 0); realsched = mc_param("realsched", 0);
}
void mc_set_topology(long c, long n, long s) { ncpus = c; nodes = n; smt = s; }
long mc_env_affinity_cpu = -1, mc_env_affinity_calls = 0;
void mc_exit_hook(int) __attribute__((weak));
void mcw_exit(int c) { if (mc_exit_hook) mc_exit_hook(c); mc_fail("the library called exit(%d)", c); }
void mcw__exit(int c) { mc_fail("the library called _exit(%d)", c); }
void mcw_abort(void) { mc_fail("the library called abort()"); }
void mcw___assert_fail(const char *e, const char *, unsigned, const char *) { mc_fail("assertion failed: %s", e); }
void mcw_perror(const char *) {}
int mcw_fprintf(FILE *, const char *, ...) { return 0; }
int mcw_printf(const char *, ...) { return 0; }
int mcw_puts(const char *) { return 0; }
int mcw_putchar(int c) { return c; }
int mcw_fputs(const char *, FILE *) { return 0; }
int mcw_fputc(int c, FILE *) { return c; }
size_t mcw_fwrite(const void *, size_t, size_t n, FILE *) { return n; }
int mcw_fflush(FILE *) { return 0; }
int mcw_rand(void) { return 1; }
void mcw_srand(unsigned) {}
long mcw_random(void) { return 1; }
char *mcw_getenv(const char *) { return nullptr; }
int mcw_clock_gettime(int, struct timespec *t) { t->tv_sec = 1; t->tv_nsec = 0; return 0; }
time_t mcw_time(time_t *t) { if (t) *t = 1; return 1; }
int mcw_gettimeofday(void *, void *) { return 0; }
int mcw_usleep(unsigned) { return 0; }
int mcw_nanosleep(const void *, void *) { return 0; }
int mcw_getpid(void) { return 1; }
int mcw_sched_getcpu(void) { return 0; }
int mcw_get_nprocs(void) { return ncpus; }
int mcw_mlock(const void *, size_t) { return 0; }
int mcw_munlock(const void *, size_t) { return 0; }
int mcw_madvise(void *, size_t, int) { return 0; }
long mcw_sysconf(int n) { if (n == _SC_NPROCESSORS_ONLN || n == _SC_NPROCESSORS_CONF) return ncpus; return sysconf(n); }
int mcw_numa_available(void) { return 0; }
int mcw_numa_num_task_nodes(void) { return nodes; }
int mcw_numa_num_configured_nodes(void) { return nodes; }
int mcw_numa_max_node(void) { return nodes - 1; }
int mcw_numa_num_configured_cpus(void) { return ncpus; }
int mcw_numa_num_task_cpus(void) { return ncpus; }
// smt=0: node n owns cpus [n*c/N,(n+1)*c/N); smt=1: hyper-threads: cpu i and i+c/2 belong to the same core
int mcw_numa_node_of_cpu(int c) {
  if (c < 0 || c >= ncpus) return -1;
  if (smt && ncpus % 2 == 0 && ncpus / 2 >= nodes) { long half = ncpus / 2; long per = half / nodes; long n = (c % half) / per; return n < nodes ? n : nodes - 1; }
  long per = ncpus / nodes; if (per == 0) return c % nodes; long n = c / per; return n < nodes ? n : nodes - 1;
}
int mcw_pthread_setconcurrency(int) { return 0; }
int mcw_pthread_setaffinity_np(pthread_t, size_t, const void *) { return 0; }
void __attribute__((weak)) mc_on_affinity(int) {}
int mcw_sched_setaffinity(int, size_t n, const cpu_set_t *m) {
  int c = -1, k = 0; for (int i = 0; i < CPU_SETSIZE && i < (int)n * 8; i++) if (CPU_ISSET(i, m)) { c = i; k++; }
  mc_env_affinity_cpu = k == 1 ? c : -1; mc_env_affinity_calls++;
  mc_on_affinity(k == 1 ? c : -1);
  return 0; }
int mcw_sched_yield(void) { return 0; }
// ---- library functions replaced by link-time wrapping (thread identity, scheduling)
unsigned long __wrap_synchGetMachineModel(void) { return model; }
void __attribute__((weak)) __real_synchResched(void);
void __wrap_synchResched(void) { if (realsched && __real_synchResched) __real_synchResched(); mc_fiber_yield(); }
bool __wrap_synchIsSystemOversubscribed(void) { return oversub; }
int __wrap_synchGetThreadId(void) { return mc_pid(mc_tid()); }
int __wrap_synchGetPosixThreadId(void) { int p = mc_pid(mc_tid()); return uthreads > 1 ? p - p % uthreads : p; }
int __wrap_synchCurrentFiberIndex(void) { int p = mc_pid(mc_tid()); return uthreads > 1 ? p % uthreads : 0; }
static unsigned kid(void) { int p = mc_pid(mc_tid()); if (uthreads > 1) p /= uthreads; return p % ncpus; }
int __wrap_synchGetPreferredCore(void) { return synchPreferredCoreOfThread(kid()); }
int __wrap_synchGetPreferredNumaNode(void) { return synchPreferredNumaNodeOfThread(kid()); }
int __attribute__((weak)) mcw_pthread_create(pthread_t *, const void *, void *(*)(void *), void *) { mc_fail("unexpected pthread_create"); return 1; }
int __attribute__((weak)) mcw_pthread_join(pthread_t, void **) { return 0; }
int __attribute__((weak)) mcw_pthread_detach(pthread_t) { return 0; }
unsigned long __attribute__((weak)) mcw_pthread_self(void) { return mc_tid(); }
struct Site; void mc_memmove(void *, void *, unsigned long, const Site *); void *mcw_malloc(size_t); void mcw_free(void *); void *mcw_numa_alloc(size_t); void mcw_numa_free(void *, size_t);
void *mcw_realloc(void *p, size_t n) {
  if (!p) return mcw_malloc(n);
  size_t o = mc_block_size(p); if (!o) mc_fail("realloc of memory that is not allocated");
  void *q = mcw_malloc(n); mc_memmove(q, p, o < n ? o : n, nullptr); mcw_free(p); return q; }
void *mcw_mmap(void *, size_t n, int, int, int, long) { return mcw_numa_alloc(n); }
int mcw_munmap(void *p, size_t n) { mcw_numa_free(p, n); return 0; }
int mcw_mprotect(void *, size_t, int) { return 0; }
int mcw_sched_getaffinity(int, size_t n, cpu_set_t *m) { for (size_t i = 0; i < n; i++) ((char *)m)[i] = i * 8 < (size_t)ncpus ? (char)((1 << (ncpus - i * 8 > 8 ? 8 : ncpus - i * 8)) - 1) : 0; return 0; }
}
