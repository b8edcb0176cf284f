// Stateless explorer: re-executes the program for every schedule (bounded number of deviations from the fair round-robin
// schedule) and for every outcome of mc_choose. Used where the code under test switches stacks itself (fibers), so that the
// state of a thread cannot be saved and restored. Same interface to the instrumented code and to the harness as engine.cpp.
#include <algorithm>
#include <csetjmp>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <sys/mman.h>
#include <unistd.h>
#include "mc.h"
typedef uint64_t u64; typedef uint32_t u32; typedef uint8_t u8; typedef int64_t i64;
struct Site { const char *fn; const char *file; u32 line; u32 pad; };
static const u64 BASE = 0x100000000000ull;
static const int MAXT = 16;
static const u64 ARENA = 1ull << 26, REGION = ARENA * (MAXT + 1), TLSBASE = BASE + ARENA * MAXT, TLSSPAN = ARENA / MAXT;
static const u64 STACKBASE = 0x200000000000ull, STACKSZ = 512 * 1024, STACKSTEP = 1 << 20;
static u8 *shadow; static u32 *metaHeap, *metaGlob; static u64 glo, ghi;
static u64 bump[MAXT + 1];
struct GReg { u64 a, n; u32 cst; };
static std::vector<GReg> *gregs; static std::vector<u8> gsnap;
extern "C" void mc_register_global(void *p, u64 n, u32 cst, const char *) { if (!gregs) gregs = new std::vector<GReg>; gregs->push_back({(u64)p, n, cst}); }
static std::map<std::string, std::string> opts;
static std::string opt(const char *n, const char *d = "") { auto i = opts.find(n); return i == opts.end() ? d : i->second; }
static long optl(const char *n, long d) { auto i = opts.find(n); return i == opts.end() ? d : strtol(i->second.c_str(), 0, 0); }
static int NT = 1, DEV = 2; static u64 STEPLIM = 20000; static double TIMECAP; static bool TRACE;
struct POp { int kind; long arg; };
static std::vector<POp> prog[MAXT], initProg, drainProg;
static int pids[MAXT];
struct Thr { u64 sp; u8 status; bool yielded; int (*bc)(void *); void *ba; }; // status 0 ready 1 finished 2 not spawned
static Thr T[MAXT]; static int cur; static u64 schedSp; static int mode; // 0 setup 1 run 2 drain
static const Site *lastSite;
static long ghostv[256];
static u64 outcome;
struct Blk { u64 n; bool live; };
static std::map<u64, Blk> blks; static long liveCount;
static std::string violKind, violMsg, opLog; static jmp_buf violJmp;
// one execution
struct Choice { u8 n, idx, sched; };
static std::vector<Choice> path; static size_t pos; static int budget; static u64 steps;
static std::vector<u64> newShared; static std::vector<u64> sharedList;
static const u32 SHARED = 1u << 31;

[[noreturn]] static void violation(const char *kind, const char *fmt, ...) {
  char b[2048]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  violKind = kind; violMsg = b;
  if (lastSite) { char s[512]; const char *f = strrchr(lastSite->file, '/'); snprintf(s, sizeof s, " [kernel thread %d, %s:%u in %s]", cur, f ? f + 1 : lastSite->file, lastSite->line, lastSite->fn); violMsg += s; }
  if (!opLog.empty()) violMsg += " after:" + opLog;
  longjmp(violJmp, 1);
}
extern "C" void mc_fail(const char *fmt, ...) { char b[1500]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); violation("property", "%s", b); }
extern "C" void mc_log(const char *fmt, ...) { char b[300]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); opLog += " "; opLog += b; if (TRACE) printf("  %s\n", b); }
static void onSegv(int sig, siginfo_t *si, void *) {
  sigset_t s; sigemptyset(&s); sigaddset(&s, sig); sigprocmask(SIG_UNBLOCK, &s, 0);
  violation("crash", sig == SIGFPE ? "arithmetic exception" : "invalid memory access at %p (signal %d)", si->si_addr, sig);
}
static inline u64 mix(u64 a, u64 v) { __uint128_t r = (__uint128_t)(a ^ 0xa0761d6478bd642full) * (v ^ 0xe7037ed1a0b428dbull); return (u64)r ^ (u64)(r >> 64); }
static bool inHeap(u64 a) { return a - BASE < REGION; }
static const char *badAccess(u64 a, unsigned sz) {
  if (!inHeap(a)) return a < 4096 ? "null pointer dereference" : nullptr;
  if (a >= TLSBASE) return nullptr;
  for (u64 x = a; x < a + sz; x++) { u8 s = shadow[x - BASE]; if (s == 2) return "use after free"; if (s == 0) return "access outside any allocated block"; }
  return nullptr;
}
static void *arenaAlloc(size_t n, size_t al, bool poison) {
  u64 b = bump[cur]; if (!b) b = BASE + ARENA * cur + 4096;
  u64 a = (b + 64 + al - 1) & ~(u64)(al - 1);
  if (a + n + 128 > BASE + ARENA * (cur + 1)) violation("resource", "arena exhausted");
  bump[cur] = (a + n + 15) & ~15ull;
  blks[a] = {n, true}; liveCount++;
  memset(shadow + (a - BASE), 1, n);
  if (poison) memset((void *)a, 0xA5, n);
  return (void *)a;
}
static void arenaFree(void *p, i64 sz, const char *who) {
  if (!p) return;
  auto i = blks.find((u64)p);
  if (i == blks.end()) violation("free", "%s(%p): not the start of an allocated block", who, p);
  if (!i->second.live) violation("free", "%s(%p): double free", who, p);
  if (sz >= 0 && (u64)sz > ((i->second.n + 4095) & ~4095ull)) violation("free", "%s(%p, %ld): block has only %lu bytes", who, p, (long)sz, i->second.n);
  if (sz >= 0 && (((u64)sz + 4095) & ~4095ull) < ((i->second.n + 4095) & ~4095ull)) violation("free", "%s(%p, %ld): only a part of a block of %lu bytes is released", who, p, (long)sz, i->second.n);
  i->second.live = false; liveCount--;
  memset(p, 0xDD, i->second.n); memset(shadow + ((u64)p - BASE), 2, i->second.n);
}
extern "C" {
void *mcw_malloc(size_t n) { return arenaAlloc(n ? n : 1, 16, true); }
void *mcw_calloc(size_t n, size_t m) { return arenaAlloc(n * m ? n * m : 1, 16, false); }
void *mcw_memalign(size_t al, size_t n) { return arenaAlloc(n ? n : 1, al < 16 ? 16 : al, true); }
void *mcw_aligned_alloc(size_t al, size_t n) { return mcw_memalign(al, n); }
int mcw_posix_memalign(void **p, size_t al, size_t n) { *p = mcw_memalign(al, n); return 0; }
void *mcw_numa_alloc_local(size_t n) { return arenaAlloc(n ? n : 1, 4096, false); }
void *mcw_numa_alloc_onnode(size_t n, int) { return arenaAlloc(n ? n : 1, 4096, false); }
void *mcw_numa_alloc(size_t n) { return arenaAlloc(n ? n : 1, 4096, false); }
void *mcw_numa_alloc_interleaved(size_t n) { return arenaAlloc(n ? n : 1, 4096, false); }
void mcw_numa_free(void *p, size_t n) { arenaFree(p, n, "numa_free"); }
void mcw_free(void *p) { arenaFree(p, -1, "free"); }
void *mc_alloc(size_t n) { return arenaAlloc(n, 256, false); }
long mc_live_blocks(void) { return liveCount; }
int mc_is_live(const void *p, size_t n) { return badAccess((u64)p, n) == nullptr; }
size_t mc_block_size(const void *p) { auto i = blks.find((u64)p); return i == blks.end() || !i->second.live ? 0 : i->second.n; }
void mc_switch(u64 *save, u64 load);
}
asm(R"(
.text
.globl mc_switch
mc_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.section .note.GNU-stack,"",@progbits
.text
)");
static int decide(int n, bool sched) { // 0 is the default
  if (n > 255) violation("harness", "too many choices");
  if (pos == path.size()) path.push_back({(u8)n, 0, sched});
  else if (path[pos].n != n) violation("nondeterminism", "replay diverged");
  return path[pos++].idx;
}
static bool runnable(int t) { return T[t].status == 0 && !(T[t].bc && !T[t].bc(T[t].ba)); }
static void pick() { // decides who runs next; switches
  if (++steps > STEPLIM) { lastSite = nullptr; violation("hang", "the execution does not end (%lu scheduling steps of a fair schedule)", steps); }
  int o[MAXT], n = 0; bool curOk = runnable(cur) && !T[cur].yielded;
  if (curOk) o[n++] = cur;
  for (int k = 1; k < NT; k++) { int t = (cur + k) % NT; if (runnable(t)) o[n++] = t; }
  if (!curOk && runnable(cur)) o[n++] = cur;  // yielded: last in the round
  if (!n) { bool all = true; for (int i = 0; i < NT; i++) if (T[i].status == 0) all = false; if (all) return; lastSite = nullptr; violation("deadlock", "no thread can run"); }
  int m = budget > 0 ? n : 1;
  int c = m > 1 ? decide(m, true) : 0;
  if (c) budget--;
  T[cur].yielded = false;
  cur = o[c];
}
static void point() {
  if (mode != 1) return;
  int me = cur; pick();
  if (cur != me) { u64 to = T[cur].sp; mc_switch(&T[me].sp, to); }
}
static void threadMain() {
  int t = cur;
  mc_thread(t);
  T[t].status = 1;
  bool any = false; for (int i = 0; i < NT; i++) if (T[i].status == 0) any = true;
  if (!any) { u64 d; mc_switch(&d, schedSp); }
  pick(); u64 d; mc_switch(&d, T[cur].sp);
  abort();
}
static void *mainFn;
static void mainTramp() { ((void (*)())mainFn)(); u64 d; mc_switch(&d, schedSp); abort(); }
static void mkctx(int t, void (*f)()) { u64 *s = (u64 *)((STACKBASE + t * STACKSTEP + STACKSTEP - 64) & ~15ull); *--s = 0; *--s = (u64)f; for (int i = 0; i < 6; i++) *--s = 0; T[t].sp = (u64)s; }
static void runSeq(void (*f)()) { Thr save = T[MAXT - 1]; mainFn = (void *)f; mkctx(MAXT - 1, mainTramp); mc_switch(&schedSp, T[MAXT - 1].sp); T[MAXT - 1] = save; }
static u64 seqAcc;
static inline void access(u64 a, unsigned sz, bool w, const Site *s) {
  lastSite = s;
  if (mode == 1) {
    u32 *m = inHeap(a) ? &metaHeap[(a - BASE) >> 3] : (a - glo < ghi - glo) ? &metaGlob[(a - glo) >> 3] : nullptr;
    if (m) {
      if (*m & SHARED) { point(); lastSite = s; }
      else if (a < TLSBASE || a >= BASE + REGION) { u32 n = *m | 1u << cur | (w ? 1u << 30 : 0); if (n != *m) { *m = n; u32 acc = n & 0xFFFF; if ((n >> 30 & 1) && (acc & (acc - 1)) && !(n >> 29 & 1)) { *m |= 1u << 29; newShared.push_back(a & ~7ull); } } }
      if (++seqAcc > 2000000) violation("hang", "a thread executes millions of memory accesses without finishing");
    }
  }
  const char *e = badAccess(a, sz); if (e) violation("memory", "%s: %s of %u bytes at %p", e, w ? "write" : "read", sz, (void *)a);
}
#define LS(B, TY) u64 mc_load##B(void *p, const Site *s) { access((u64)p, B / 8, false, s); TY v; memcpy(&v, p, sizeof v); return v; } \
  void mc_store##B(void *p, u64 v, const Site *s) { access((u64)p, B / 8, true, s); TY x = v; memcpy(p, &x, sizeof x); }
extern "C" {
LS(8, u8) LS(16, uint16_t) LS(32, u32) LS(64, u64)
u64 mc_rmw(u32 op, void *p, u64 v, u32 sz, const Site *s) {
  access((u64)p, sz, true, s); u64 o = 0, n; memcpy(&o, p, sz);
  switch (op) { case 0: n = v; break; case 1: n = o + v; break; case 2: n = o - v; break; case 3: n = o & v; break; case 4: n = o | v; break; case 5: n = o ^ v; break; default: n = ~(o & v); }
  memcpy(p, &n, sz); return o; }
u64 mc_cas(void *p, u64 e, u64 n, u32 sz, const Site *s) { access((u64)p, sz, true, s); u64 o = 0; memcpy(&o, p, sz); if (o == e) memcpy(p, &n, sz); return o; }
void mc_pre(void *p, u64 sz, u32 fl, const Site *s) { access((u64)p, sz, fl & 1, s); }
void mc_post(void *, u64, u32, const Site *) {}
void mc_fence(u32, const Site *) {}
void mc_memset(void *p, u32 c, u64 n, const Site *s) { if (n) { access((u64)p, 1, true, s); access((u64)p + n - 1, 1, true, s); memset(p, c, n); } }
void mc_memmove(void *d, void *p, u64 n, const Site *s) { if (n) { access((u64)p, 1, false, s); access((u64)p + n - 1, 1, false, s); access((u64)d, 1, true, s); access((u64)d + n - 1, 1, true, s); memmove(d, p, n); } }
int mc_nthreads(void) { return NT; }
int mc_tid(void) { return cur; }
int mc_pid(int t) { return t >= 0 && t < MAXT ? pids[t] : 0; }
long mc_param(const char *n, long d) { return optl(n, d); }
void mc_as(int t) { cur = t; }
static std::vector<POp> &pg(int t) { return t == -1 ? initProg : t == -2 ? drainProg : prog[t]; }
int mc_prog_len(int t) { return pg(t).size(); }
int mc_prog_kind(int t, int i) { return pg(t)[i].kind; }
long mc_prog_arg(int t, int i) { return pg(t)[i].arg; }
void mc_op_begin(int, long) {}
void mc_op_end(long) {}
void mc_enter(int) {}
void mc_leave(int) {}
void mc_point(void) { point(); }
void mc_yield(void) { if (mode == 1) { T[cur].yielded = true; point(); } }
void mc_fiber_yield(void) { mc_yield(); }
void mc_note(long v) { outcome = mix(outcome, v); }
int mc_done(int t) { return T[t].status == 1; }
void mc_spawnable(int t) { T[t].status = 2; }
void mc_spawn(int t) { if (T[t].status != 2) violation("harness", "mc_spawn"); T[t].status = 0; }
void mc_set_group(int, int) {}
void mc_block(int (*c)(void *), void *a) { if (mode != 1) { if (!c(a)) violation("hang", "sequential code blocks forever"); return; } T[cur].bc = c; T[cur].ba = a; point(); T[cur].bc = nullptr; }
long mc_ghost(int i) { return ghostv[i]; }
void mc_ghost_set(int i, long v) { ghostv[i] = v; }
int mc_choose(int n) { return n > 1 ? decide(n, false) : 0; }
static std::vector<std::pair<u64, u64>> tlsUsed;
static u64 dataStart; struct EmuCtl { u64 size, align, idx; void *templ; };
void *__emutls_get_address(EmuCtl *c) {
  u64 off = ((u64)c - dataStart) * 64; if (off + 4096 > TLSSPAN) { fprintf(stderr, "tls span\n"); _exit(3); }
  u64 b = TLSBASE + cur * TLSSPAN + off; u64 &flag = *(u64 *)(b + c->size + (8 - c->size % 8) % 8);
  if (!flag) { flag = 1; tlsUsed.push_back({b, c->size + 16}); if (c->templ) memcpy((void *)b, c->templ, c->size); }
  return (void *)b;
}
extern char __data_start, _end;
void mc_env_init(void);
}
static double now() { timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); return ts.tv_sec + ts.tv_nsec * 1e-9; }
static void reset() {
  size_t k = 0; for (auto &g : *gregs) if (!g.cst) { memcpy((void *)g.a, &gsnap[k], g.n); k += g.n; }
  for (int i = 0; i <= MAXT; i++) if (bump[i]) { u64 b = BASE + ARENA * i, n = bump[i] - b; if (n > (1 << 20)) { madvise((void *)b, (n + 4095) & ~4095ull, MADV_DONTNEED); madvise(shadow + (b - BASE), (n + 4095) & ~4095ull, MADV_DONTNEED); } else { memset((void *)b, 0, n); memset(shadow + (b - BASE), 0, n); } bump[i] = 0; }
  for (auto &u : tlsUsed) memset((void *)u.first, 0, u.second); tlsUsed.clear();
  blks.clear(); liveCount = 0; memset(ghostv, 0, sizeof ghostv); outcome = 0; opLog.clear(); lastSite = nullptr;
  for (int i = 0; i < MAXT; i++) T[i] = Thr{0, (u8)(i < NT ? 0 : 1), false, nullptr, nullptr};
  pos = 0; budget = DEV; steps = 0; seqAcc = 0;
}
static bool inRun;
static void onExit() { if (inRun) { inRun = false; lastSite = nullptr; violation("property", "the program ends in the middle of an execution (a context without successor returned)"); } }
static bool runOnce() { // true: no violation
  reset(); inRun = true;
  if (setjmp(violJmp)) { inRun = false; return false; }
  mode = 0; cur = MAXT - 1; runSeq(mc_setup);
  for (int i = 0; i < NT; i++) mkctx(i, threadMain);
  mode = 1; cur = 0;
  for (int i = 0; i < NT; i++) if (T[i].status == 0) { cur = i; break; }
  mc_switch(&schedSp, T[cur].sp);
  mode = 2; cur = 0; runSeq(mc_drain); mode = 0; inRun = false;
  return true;
}
static void jstr(std::string &o, const std::string &s) { o += '"'; for (char ch : s) { if (ch == '"' || ch == '\\') { o += '\\'; o += ch; } else if ((unsigned char)ch < 32) o += ' '; else o += ch; } o += '"'; }
static std::vector<POp> parseOps(const std::string &s) { std::vector<POp> v; size_t i = 0; while (i < s.size()) { if (s[i] == ',' || s[i] == ' ') { i++; continue; } POp p; p.kind = (unsigned char)s[i++]; char *e; p.arg = strtol(s.c_str() + i, &e, 0); i = e - s.c_str(); v.push_back(p); } return v; }
int main(int argc, char **argv) {
  atexit(onExit);
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; if (a.rfind("--", 0) == 0) { size_t e = a.find('='); if (e == std::string::npos) opts[a.substr(2)] = "1"; else opts[a.substr(2, e - 2)] = a.substr(e + 1); } }
  stack_t ss{}; ss.ss_sp = mmap(0, 1 << 18, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); ss.ss_size = 1 << 18; sigaltstack(&ss, 0);
  struct sigaction sa{}; sa.sa_sigaction = onSegv; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER; for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL}) sigaction(s, &sa, 0);
  auto map = [](u64 a, u64 n) { void *p = mmap((void *)a, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | (a ? MAP_FIXED_NOREPLACE : 0), -1, 0); if (p == MAP_FAILED) { perror("mmap"); _exit(3); } return p; };
  map(BASE, REGION); shadow = (u8 *)map(0, REGION); metaHeap = (u32 *)map(0, REGION / 2);
  for (int i = 0; i < MAXT; i++) map(STACKBASE + i * STACKSTEP + (STACKSTEP - STACKSZ), STACKSZ);
  glo = (u64)&__data_start & ~7ull; ghi = ((u64)&_end + 7) & ~7ull; dataStart = glo; metaGlob = (u32 *)calloc((ghi - glo) / 8 + 8, 4);
  if (!gregs) gregs = new std::vector<GReg>;
  for (auto &g : *gregs) if (!g.cst) gsnap.insert(gsnap.end(), (u8 *)g.a, (u8 *)g.a + g.n);
  { std::string p = opt("prog"); int t = 0; size_t b = 0; if (!p.empty()) { while (true) { size_t e = p.find('/', b); prog[t++] = parseOps(p.substr(b, e == std::string::npos ? e : e - b)); if (e == std::string::npos) break; b = e + 1; } NT = t; } }
  NT = optl("threads", NT); DEV = optl("dev", 2); STEPLIM = optl("steplim", 20000); TIMECAP = optl("time", 600); u64 maxx = optl("maxstates", 100000000);
  for (int i = 0; i < MAXT; i++) pids[i] = i;
  initProg = parseOps(opt("init")); drainProg = parseOps(opt("drain"));
  mc_env_init();
  auto addShared = [&](u64 a) { u32 *m = inHeap(a) ? &metaHeap[(a - BASE) >> 3] : &metaGlob[(a - glo) >> 3]; if (!(*m & SHARED)) { *m |= SHARED; sharedList.push_back(a); } };
  double t0 = now();
  if (opts.count("replay")) {
    FILE *f = fopen(opt("replay").c_str(), "r"); if (!f) { perror("replay"); return 3; } char line[1 << 16];
    while (fgets(line, sizeof line, f)) {
      if (!strncmp(line, "shared ", 7)) addShared(strtoull(line + 7, 0, 16));
      else if (!strncmp(line, "choices", 7)) { char *p = line + 7; while (*p && *p != '\n') { long n = strtol(p, &p, 10); if (*p != ':') break; long i = strtol(p + 1, &p, 10); path.push_back({(u8)n, (u8)i, 0}); while (*p == ' ') p++; } }
    }
    fclose(f); TRACE = optl("trace", 0);
    bool ok = !runOnce(); std::string o; jstr(o, violMsg);
    printf("{\"replay\":\"%s\",\"kind\":\"%s\",\"msg\":%s}\n", ok ? "reproduced" : "not-reproduced", violKind.c_str(), o.c_str()); return ok ? 0 : 5;
  }
  u64 execs = 0, totSteps = 0, restarts = 0, maxPath = 0; bool capped = false, viol = false; const char *why = ""; std::set<u64> outs; std::vector<std::string> samples;
  std::vector<std::vector<Choice>> sp; std::vector<u64> so;
  while (true) {
    bool ok = runOnce(); execs++; totSteps += steps + path.size(); maxPath = std::max<u64>(maxPath, path.size());
    if (!ok) { viol = true; break; }
    outs.insert(outcome);
    if (!newShared.empty()) { for (u64 a : newShared) addShared(a); newShared.clear(); path.clear(); restarts++; sp.clear(); so.clear(); continue; }
    if (samples.size() < 3) samples.push_back(opLog.empty() ? "schedule of " + std::to_string(steps) + " steps" : opLog);
    if (sp.size() < 64 && (execs % (1 + execs / 16)) == 0) { sp.push_back(path); so.push_back(outcome); }
    while (!path.empty() && path.back().idx + 1 >= path.back().n) path.pop_back();
    if (path.empty()) break;
    path.back().idx++;
    if ((execs & 63) == 0 && now() - t0 > TIMECAP) { capped = true; why = "time"; break; }
    if (execs > maxx) { capped = true; why = "executions"; break; }
  }
  u64 replayed = 0; bool nondet = false;
  if (!viol) for (size_t i = 0; i < sp.size(); i++) { path = sp[i]; size_t n = path.size(); if (!runOnce() || path.size() != n || outcome != so[i]) { nondet = true; break; } replayed++; }
  std::string o = "{\"result\":\""; o += viol ? "violation" : capped ? "capped" : "ok"; o += "\"";
  if (capped) { o += ",\"cap\":\""; o += why; o += "\""; } if (nondet) o += ",\"nondeterministic\":true";
  char b[512]; snprintf(b, sizeof b, ",\"states\":%lu,\"transitions\":%lu,\"rounds\":%lu,\"shared_granules\":%zu,\"terminals\":%lu,\"histories\":%zu,\"lin_checks\":0,\"max_depth\":%lu,\"replayed\":%lu,\"wall\":%.3f", execs, totSteps, restarts + 1, sharedList.size(), execs, outs.size(), maxPath, replayed, now() - t0);
  o += b; o += ",\"samples\":["; for (size_t i = 0; i < samples.size(); i++) { if (i) o += ","; jstr(o, samples[i]); } o += "]";
  if (viol) {
    o += ",\"kind\":"; jstr(o, violKind); o += ",\"msg\":"; jstr(o, violMsg);
    std::string wf = opt("witness");
    if (!wf.empty()) if (FILE *f = fopen(wf.c_str(), "w")) {
      fprintf(f, "# witness: one decision per line entry (number of alternatives:alternative taken)\nkind %s\nmsg %s\n", violKind.c_str(), violMsg.c_str());
      for (u64 a : sharedList) fprintf(f, "shared %lx\n", a);
      for (size_t i = 0; i < path.size() || i == 0; i += 2000) { fprintf(f, "choices"); for (size_t k = i; k < std::min(path.size(), i + 2000); k++) fprintf(f, " %d:%d", path[k].n, path[k].idx); fprintf(f, "\n"); }
      fclose(f);
    }
  }
  o += "}"; puts(o.c_str()); fflush(stdout); _exit(0);
}
