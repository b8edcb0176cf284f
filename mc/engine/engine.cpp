// Explicit-state model checker for the real (instrumented) library code.
//   - simulated threads are coroutines on fixed-address stacks
//   - every memory access of the instrumented code calls mc_*; accesses to shared granules are scheduling points
//   - all writes go through an undo log, so the search backtracks without re-execution
//   - states (memory + stacks + registers + history) are hashed and stored; the search is exhaustive DFS
#include <algorithm>
#include <csetjmp>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <map>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <unistd.h>
#include "mc.h"
#include "spec.h"

typedef uint64_t u64; typedef uint32_t u32; typedef uint16_t u16; typedef uint8_t u8; typedef int64_t i64; typedef int16_t i16;

struct Site { const char *fn; const char *file; u32 line; u32 pad; };

// ------------------------------------------------------------------ address space
static const u64 BASE = 0x100000000000ull;
static const int MAXT = 16;           // 0..14 workers, 15 = main
static const int MAINT = 15;
static const u64 ARENA = 1ull << 32;  // 4 GB virtual per arena
static const u64 REGION = ARENA * (MAXT + 1);  // last one: TLS
static const u64 TLSBASE = BASE + ARENA * MAXT;
static const u64 TLSSPAN = ARENA / MAXT;
static const u64 STACKBASE = 0x200000000000ull;
static const u64 STACKSZ = 256 * 1024, STACKSTEP = 1 << 20;
static u32 *metaHeap;   // per 8-byte granule
static u8 *shadow;      // per 8-byte granule: number of valid bytes, 0 = invalid, 0xFF freed
static u8 *pageState;   // per 4 KB page: 0 = none, 1 = fine grained, 2 = all valid, 3 = freed
static u64 glo, ghi;    // globals of the binary
static u32 *metaGlob;

struct GReg { u64 a, n; u32 cst; const char *name; };
static std::vector<GReg> *gregs;
extern "C" void mc_register_global(void *p, u64 n, u32 cst, const char *name) {
  if (!gregs) gregs = new std::vector<GReg>;
  gregs->push_back({(u64)p, n, cst, name});
}

// ------------------------------------------------------------------ options
static std::map<std::string, std::string> opts;
static std::string opt(const char *n, const char *d = "") { auto i = opts.find(n); return i == opts.end() ? d : i->second; }
static long optl(const char *n, long d) { auto i = opts.find(n); return i == opts.end() ? d : strtol(i->second.c_str(), 0, 0); }
static int NT = 2;
static bool CHOOSE; static int chosen;
static bool TSO, FAIR, NB, LOOP, STEPS, TRACE, REPLAY, KEEP_EDGES, POISON;
static int PB = -1;      // preemption bound (-1: unbounded)
static int FIFOK = 0;
static u64 MAXSTATES, MAXDEPTH; static double TIMECAP;
static int pids[MAXT];

struct POp { int kind; long arg; };
static std::vector<POp> prog[MAXT], initProg, drainProg;

// ------------------------------------------------------------------ threads
struct SB { u64 a; u64 v; u32 sz; u32 pad; };
struct Thr {
  u64 sp; u64 shash;
  u8 status;     // 0 ready, 1 finished, 2 not spawned
  u8 pendBegin, inOp, opEnded, yielded, waiting, nch;
  u16 stepsInOp; i16 curOp; u16 opIdx; u16 nsb;
  u32 local;     // accesses since last scheduling point
  u64 mustWait;  // fifo monitor
  u64 pendDone;  // TSO
  int (*bcond)(void *); void *barg;
  SB sb[8];
};
static Thr T[MAXT];
static int groupOf[MAXT];
static int cur = MAINT;           // identity of the running code
static u64 schedSp;
static int mode = 0;              // 0 setup, 1 explore, 2 drain
static u64 Hmem = 0, Hhist = 0;
static const Site *lastSite; static u64 lastAddr;
static bool segvGuard;

// history
struct Op { int t, kind; long arg, ret; u64 pred; u8 done; };
static Op ops[64]; static int nops; static u64 doneMask; static int opBase[MAXT];
static u32 inCrit[4];            // per lock: mask of threads inside
static u64 spawned;
static u64 ghost[256];           // harness variables outside the program's memory
static u64 activeF[MAXT];        // active fiber of a group (index: group)

// ------------------------------------------------------------------ undo log
struct Log { u64 a, old; };
static Log *ulog_; static u64 nlog, caplog;
static void logGrow() { caplog *= 2; ulog_ = (Log *)realloc(ulog_, caplog * sizeof(Log)); if (!ulog_) { fprintf(stderr, "undo log: out of memory\n"); _exit(3);} }
static inline void pushlog(u64 a, u64 old) { if (__builtin_expect(nlog == caplog, 0)) logGrow(); ulog_[nlog++] = {a, old}; }
static inline u64 mum(u64 a, u64 b) { __uint128_t r = (__uint128_t)a * b; return (u64)r ^ (u64)(r >> 64); }
static inline u64 mix(u64 a, u64 v) { return mum(a ^ 0xa0761d6478bd642full, v ^ 0xe7037ed1a0b428dbull) + mum(v ^ 0x8ebc6af09c88c6e3ull ^ (a << 7), a ^ 0x589965cc75374cc3ull); }
static inline bool logging() { return mode != 0; }
template <class X, class Y> static inline void eset(X &var, Y v) { // engine variable, logged (8-byte aligned types only)
  static_assert(sizeof(X) == 8, "");
  if (logging()) pushlog((u64)&var, *(u64 *)&var);
  var = v;
}
// word write with logging; hashed
static inline void wr64(u64 a, u64 v) {
  u64 o = *(u64 *)a;
  if (o == v) return;
  if (logging()) pushlog(a | 1, o);
  Hmem ^= mix(a, o) ^ mix(a, v);
  *(u64 *)a = v;
}
enum { EV_SHADOW_ALLOC = 2, EV_SHADOW_FREE = 4 };

static bool inHeap(u64 a) { return a - BASE < REGION; }
static inline bool inGlob(u64 a) { return a - glo < ghi - glo; }
static inline int stackOf(u64 a) { u64 o = a - STACKBASE; return o < STACKSTEP * MAXT ? (int)(o / STACKSTEP) : -1; }
static u32 stackDirty;

static inline void wrbytes(u64 a, unsigned sz, u64 v) {
  u64 w = a & ~7ull; unsigned off = a & 7;
  if (off + sz <= 8) {
    u64 m = sz == 8 ? ~0ull : ((1ull << (sz * 8)) - 1) << (off * 8);
    u64 o = *(u64 *)w;
    wr64(w, (o & ~m) | ((v << (off * 8)) & m));
  } else {
    unsigned f = 8 - off;
    wrbytes(a, f, v & ((1ull << (f * 8)) - 1));
    wrbytes(a + f, sz - f, v >> (f * 8));
  }
}
static inline u64 rdbytes(u64 a, unsigned sz) { u64 v = 0; memcpy(&v, (void *)a, sz); return v; }

// ------------------------------------------------------------------ violations
static std::string violKind, violMsg;
static jmp_buf violJmp;
static bool violArmed;
[[noreturn]] static void violation(const char *kind, const char *fmt, ...) {
  char b[2048]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  violKind = kind; violMsg = b;
  if (lastSite) { char s[512]; const char *f = strrchr(lastSite->file, '/'); snprintf(s, sizeof s, " [thread %d, %s:%u in %s]", cur, f ? f + 1 : lastSite->file, lastSite->line, lastSite->fn); violMsg += s; }
  if (!violArmed) { printf("{\"error\":\"violation while not armed: %s %s\"}\n", kind, violMsg.c_str()); fflush(stdout); _exit(3); }
  longjmp(violJmp, 1);
}
extern "C" void mc_fail(const char *fmt, ...) {
  char b[1500]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  violation("property", "%s", b);
}
static void onSegv(int sig, siginfo_t *si, void *) {
  sigset_t s; sigemptyset(&s); sigaddset(&s, sig); sigprocmask(SIG_UNBLOCK, &s, 0);
  u64 a = (u64)si->si_addr;
  int so = stackOf(a);
  if (sig == SIGFPE) violation("crash", "arithmetic exception (division by zero)");
  if (so >= 0) violation("crash", "stack overflow in simulated thread %d", so);
  violation("crash", "invalid memory access at %p (signal %d)", (void *)a, sig);
}

// ------------------------------------------------------------------ shadow memory / allocator
static u64 bump[MAXT + 1];
struct Blk { u64 a, n; u8 live; };
static std::unordered_map<u64, u32> blkIdx; // by start
static std::vector<Blk> blks;
static u64 liveCount;
static void shadowSet(u64 a, u64 n, int v) { // v: 0 none, 1 valid, 2 freed
  u64 o = a - BASE, e = o + n;
  u64 p0 = (o + 4095) >> 12, p1 = e >> 12; // full pages inside
  auto fine = [&](u64 s, u64 t) {
    if (s >= t) return;
    for (u64 p = s >> 12; p <= (t - 1) >> 12; p++) pageState[p] = 1;
    for (u64 g = s >> 3; g < (t + 7) >> 3; g++) {
      u64 valid = std::min<u64>(8, t - (g << 3));
      shadow[g] = v == 1 ? valid : v == 2 ? 0xFF : 0;
    }
  };
  if (p1 > p0 && n >= 65536) {
    fine(o, p0 << 12);
    memset(pageState + p0, v == 1 ? 2 : v == 2 ? 3 : 0, p1 - p0);
    fine(p1 << 12, e);
  } else fine(o, e);
}
static const char *badAccess(u64 a, unsigned sz) { // null if ok
  if (inHeap(a)) {
    if (a >= TLSBASE) return nullptr;
    for (u64 g = (a - BASE) >> 3, ge = (a + sz - 1 - BASE) >> 3; g <= ge; g++) {
      u8 ps = pageState[g >> 9];
      if (ps == 2) continue;
      if (ps == 3) return "use after free";
      if (ps == 0) return "access outside any allocated block";
      u8 s = shadow[g];
      if (s == 0xFF) return "use after free";
      if (s == 0) return "access outside any allocated block";
      u64 lim = BASE + (g << 3) + s;
      if (s < 8 && std::min<u64>(a + sz, BASE + (g << 3) + 8) > lim) return "access past the end of a block";
    }
    return nullptr;
  }
  if (a < 4096) return "null pointer dereference";
  return nullptr;
}
static void *arenaAlloc(size_t n, size_t align, bool poison) {
  int ar = cur;
  u64 b = bump[ar];
  if (!b) b = BASE + ARENA * ar + 4096;
  u64 a = (b + 64 + align - 1) & ~(u64)(align - 1);
  if (a + n + 128 > BASE + ARENA * (ar + 1)) violation("resource", "arena of thread %d exhausted by an allocation of %zu bytes", ar, n);
  eset(bump[ar], (a + n + 15) & ~15ull);
  u32 bi;
  auto it = blkIdx.find(a);
  if (it == blkIdx.end()) { bi = blks.size(); blks.push_back({a, n, 1}); blkIdx[a] = bi; }
  else { bi = it->second; blks[bi].n = n; blks[bi].live = 1; }
  if (logging()) pushlog(EV_SHADOW_ALLOC, bi);
  shadowSet(a, n, 1);
  liveCount++;
  if (poison && n < (1u << 23)) for (u64 i = 0; i + 8 <= n; i += 8) wr64(a + i, 0xA5A5A5A5A5A5A5A5ull);
  return (void *)a;
}
static bool unallocated(u64 a) { const char *e = badAccess(a, 1); return e && !strcmp(e, "access outside any allocated block"); }
static void arenaFree(void *p, i64 sz, const char *who) {
  if (!p) return;
  u64 a = (u64)p;
  auto it = blkIdx.find(a);
  if (it == blkIdx.end() || unallocated(a)) violation("free", "%s(%p): not the start of an allocated block", who, p);
  Blk &b = blks[it->second];
  if (!b.live) violation("free", "%s(%p): double free", who, p);
  if (sz >= 0 && (u64)sz > ((b.n + 4095) & ~4095ull)) violation("free", "%s(%p, %ld): block has only %lu bytes", who, p, (long)sz, b.n);
  if (sz >= 0 && (((u64)sz + 4095) & ~4095ull) < ((b.n + 4095) & ~4095ull)) violation("free", "%s(%p, %ld): only a part of a block of %lu bytes is released", who, p, (long)sz, b.n);
  b.live = 0; liveCount--;
  if (logging()) pushlog(EV_SHADOW_FREE, it->second);
  shadowSet(a, b.n, 2);
}
static void undoTo(u64 mark) {
  while (nlog > mark) {
    Log l = ulog_[--nlog];
    if (l.a & 1) { u64 a = l.a & ~1ull; *(u64 *)a = l.old; }
    else if (l.a == EV_SHADOW_ALLOC) { Blk &b = blks[l.old]; b.live = 0; liveCount--; shadowSet(b.a, b.n, 0); }
    else if (l.a == EV_SHADOW_FREE) { Blk &b = blks[l.old]; b.live = 1; liveCount++; shadowSet(b.a, b.n, 1); }
    else *(u64 *)l.a = l.old;
  }
}
extern "C" {
void *mcw_malloc(size_t n) { return arenaAlloc(n ? n : 1, 16, true); }
void *mcw_calloc(size_t n, size_t m) { return arenaAlloc(n * m ? n * m : 1, 16, false); }
void *mcw_memalign(size_t al, size_t n) { return arenaAlloc(n ? n : 1, al < 16 ? 16 : al, true); }
void *mcw_aligned_alloc(size_t al, size_t n) { return mcw_memalign(al, n); }
int mcw_posix_memalign(void **p, size_t al, size_t n) { *p = mcw_memalign(al, n); return 0; }
void *mcw_numa_alloc_local(size_t n) { return arenaAlloc(n ? n : 1, 4096, false); }
void *mcw_numa_alloc_onnode(size_t n, int) { return arenaAlloc(n ? n : 1, 4096, false); }
void *mcw_numa_alloc(size_t n) { return arenaAlloc(n ? n : 1, 4096, false); }
void *mcw_numa_alloc_interleaved(size_t n) { return arenaAlloc(n ? n : 1, 4096, false); }
void mcw_numa_free(void *p, size_t n) { arenaFree(p, n, "numa_free"); }
void mcw_free(void *p) { arenaFree(p, -1, "free"); }
void *mc_alloc(size_t n) { return arenaAlloc(n, 256, POISON); }
long mc_live_blocks(void) { return liveCount; }
int mc_is_live(const void *p, size_t n) { return badAccess((u64)p, n) == nullptr; }
size_t mc_block_size(const void *p) { auto it = blkIdx.find((u64)p); return it == blkIdx.end() || !blks[it->second].live ? 0 : blks[it->second].n; }
}

// ------------------------------------------------------------------ switching
extern "C" void mc_switch(u64 *save, u64 load);
asm(R"(
.text
.globl mc_switch
mc_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.globl mc_clean_call
mc_clean_call: # rdi=fn rsi=a rdx=b rcx=c : calls fn(a,b,c) with clean callee-saved registers
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  subq $8, %rsp
  movq %rdi, %rax
  movq %rsi, %rdi
  movq %rdx, %rsi
  movq %rcx, %rdx
  xorl %ebp, %ebp
  xorl %ebx, %ebx
  xorl %r12d, %r12d
  xorl %r13d, %r13d
  xorl %r14d, %r14d
  xorl %r15d, %r15d
  xorl %ecx, %ecx
  call *%rax
  addq $8, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.section .note.GNU-stack,"",@progbits
.text
)");
static inline u64 stackTop(int t) { return STACKBASE + (u64)t * STACKSTEP + STACKSTEP - 64; }
static void threadMain() {
  int t = cur;
  mc_thread(t);
  T[t].status = 1;
  mc_switch(&T[t].sp, schedSp);
  abort();
}
static void drainMain() { mc_drain(); T[cur].status = 1; mc_switch(&T[cur].sp, schedSp); abort(); }
static void setupMain() { mc_setup(); mc_switch(&T[MAINT].sp, schedSp); abort(); }
static void mkctx(int t, void (*f)()) {
  u64 top = stackTop(t);
  u64 *s = (u64 *)(top & ~15ull);
  *--s = 0;             // fake return address (alignment)
  *--s = (u64)f;
  for (int i = 0; i < 6; i++) *--s = 0;
  T[t].sp = (u64)s;
}
static inline u64 liveTop(int t) { return (stackTop(t) & ~15ull); }
static inline void rehash(int t) {
  u64 h = 0x9E3779B97F4A7C15ull + t, g = 0x1234567ull;
  if (T[t].status != 1) {
    const u64 *p = (const u64 *)T[t].sp, *e = (const u64 *)liveTop(t);
    u64 k = 0;
    for (; p + 2 <= e; p += 2) { h = mum(h ^ p[0] ^ 0xa0761d6478bd642full, p[1] ^ 0xe7037ed1a0b428dbull ^ h) + 0x1F3D5B79u; k++; }
    if (p < e) h = mum(h ^ p[0] ^ 0x8ebc6af09c88c6e3ull, 0x589965cc75374cc3ull);
    h ^= mum(T[t].sp ^ 0x2127599bf4325c37ull, 0x880355f21e6d1965ull);
  }
  g = mix(T[t].status | T[t].pendBegin << 8 | T[t].inOp << 16 | (u64)T[t].waiting << 24 | (u64)T[t].opIdx << 32, T[t].mustWait ^ (T[t].pendDone << 20)) ^ t;
  for (int i = 0; i < T[t].nsb; i++) g = mix(g ^ T[t].sb[i].a, T[t].sb[i].v ^ T[t].sb[i].sz);
  if (FIFOK) g = mix(g, T[t].stepsInOp);
  T[t].shash = mix(h, g);
}

// ------------------------------------------------------------------ scheduling points
static const u32 SHARED = 1u << 31;
static std::vector<u64> newShared; static std::vector<u64> sharedList;
static u64 accessCount; static u64 ACCLIM = 3000000;
static u32 LOCALLIM = 400;
static void traceAcc(const char *what, u64 a, unsigned sz, u64 v);

static void tick() { if (++accessCount > ACCLIM) violation(mode == 2 ? "drain-hang" : "setup-hang", "sequential code executed more than %lu memory accesses without finishing", ACCLIM); }

__attribute__((noinline)) static void yieldPoint() {
  Thr &t = T[cur];
  t.local = 0;
  mc_switch(&t.sp, schedSp);
}
static inline void afterResume() {
  Thr &t = T[cur];
  if (t.pendBegin) {
    t.pendBegin = 0;
    if (!LOOP) {
      int o = t.curOp;
      eset(ops[o].pred, doneMask);
      Hhist ^= mix(0x77000 + o, doneMask);
    }
    if (FIFOK) { u64 m = 0; for (int i = 0; i < NT; i++) if (i != cur && T[i].inOp && T[i].waiting && (LOOP || ops[T[i].curOp].arg == ops[t.curOp].arg)) m |= 1ull << i; t.mustWait = m; } // arg: the lock
  }
}
static inline u32 *metaOf(u64 a) {
  if (inHeap(a)) return &metaHeap[(a - BASE) >> 3];
  if (inGlob(a)) return &metaGlob[(a - glo) >> 3];
  return nullptr;
}
static inline bool touch(u64 a, bool w) { // learn sharing; returns true if the granule is a scheduling point
  u32 *m = metaOf(a);
  if (!m) return false;
  u32 o = *m;
  if (o & SHARED) return true;
  u32 rd = 1u << cur, n = o | rd | (w ? 1u << (15 + cur) : 0);   // readers bits 0..14 (any access), writers 15..29
  if (n != o) {
    *m = n;
    u32 acc = n & 0x7FFF, wrs = (n >> 15) & 0x7FFF;
    if (wrs && (acc & (acc - 1)) && !(n & (1u << 30))) { *m |= 1u << 30; newShared.push_back(a & ~7ull); }
  }
  return false;
}
static inline bool isOwnStack(u64 a) { u64 o = a - (STACKBASE + (u64)cur * STACKSTEP); return o < STACKSTEP; }
static inline void check(u64 a, unsigned sz, bool w) {
  const char *e = badAccess(a, sz);
  if (__builtin_expect(e != nullptr, 0)) violation("memory", "%s: %s of %u bytes at %p", e, w ? "write" : "read", sz, (void *)a);
}
static void tsoDrain(Thr &t, bool point);
// returns true when in TSO mode and the granule is shared
static inline bool pre(u64 a, unsigned sz, bool w, const Site *s, bool tsoPlain) {
  lastSite = s; lastAddr = a;
  if (mode == 1) {
    bool sh = touch(a, w);
    if (((a & 7) + sz) > 8) sh |= touch(a + sz - 1, w);
    if (stackOf(a) >= 0) { sh = true; stackDirty |= 1u << stackOf(a); }
    if (sh) {
      if (TSO && tsoPlain) {
        if (w && T[cur].pendBegin) { yieldPoint(); afterResume(); lastSite = s; lastAddr = a; }
        if (w) { check(a, sz, w); return true; }  // buffered: no scheduling point
        yieldPoint(); afterResume();
        lastSite = s; lastAddr = a;
        check(a, sz, w);
        return true;
      }
      yieldPoint(); afterResume(); lastSite = s; lastAddr = a;
    } else if (__builtin_expect(++T[cur].local > LOCALLIM, 0)) { yieldPoint(); afterResume(); lastSite = s; lastAddr = a; }
  } else tick();
  check(a, sz, w);
  return false;
}
static void sbPut(Thr &t, u64 a, unsigned sz, u64 v) {
  if (t.nsb == 8) { // buffer full: oldest entry drains (a scheduling point precedes it)
    yieldPoint(); afterResume();
    if (t.nsb == 8) { SB e = t.sb[0]; memmove(t.sb, t.sb + 1, 7 * sizeof(SB)); t.nsb--; t.sb[t.nsb] = SB{}; wrbytes(e.a, e.sz, e.v); }
  }
  t.sb[t.nsb++] = {a, sz == 8 ? v : v & ((1ull << (sz * 8)) - 1), sz, 0};
}
static void doneFlush(int c) { if (!T[c].nsb && T[c].pendDone) { eset(doneMask, doneMask | T[c].pendDone); T[c].pendDone = 0; } }
static void flushOne(int c) {
  Thr &t = T[c];
  SB e = t.sb[0]; memmove(t.sb, t.sb + 1, 7 * sizeof(SB)); t.nsb--; t.sb[t.nsb] = SB{};
  wrbytes(e.a, e.sz, e.v);
  doneFlush(c);
}
static void tsoDrain(Thr &t, bool point) {
  if (!TSO || mode != 1 || !t.nsb) return;
  if (point) { yieldPoint(); afterResume(); }
  while (t.nsb) flushOne(cur);
}
static u64 tsoLoad(Thr &t, u64 a, unsigned sz) {
  u64 v = rdbytes(a, sz); u8 *b = (u8 *)&v;
  for (int i = 0; i < t.nsb; i++) { SB &e = t.sb[i];
    for (unsigned k = 0; k < e.sz; k++) { u64 x = e.a + k - a; if (x < sz) b[x] = (u8)(e.v >> (8 * k)); } }
  return v;
}
template <unsigned SZ> static inline u64 loadT(void *p, const Site *s) {
  u64 a = (u64)p;
  if (isOwnStack(a)) return rdbytes(a, SZ);
  u64 v;
  if (pre(a, SZ, false, s, true)) v = tsoLoad(T[cur], a, SZ); else v = rdbytes(a, SZ);
  if (__builtin_expect(TRACE, 0)) traceAcc("R", a, SZ, v);
  return v;
}
template <unsigned SZ> static inline void storeT(void *p, u64 v, const Site *s) {
  u64 a = (u64)p;
  if (isOwnStack(a)) { memcpy(p, &v, SZ); return; }
  bool b = pre(a, SZ, true, s, true);
  if (__builtin_expect(TRACE, 0)) traceAcc(b ? "W(buffered)" : "W", a, SZ, v);
  if (b) sbPut(T[cur], a, SZ, v); else wrbytes(a, SZ, v);
}
extern "C" {
u64 mc_load8(void *p, const Site *s) { return loadT<1>(p, s); }
u64 mc_load16(void *p, const Site *s) { return loadT<2>(p, s); }
u64 mc_load32(void *p, const Site *s) { return loadT<4>(p, s); }
u64 mc_load64(void *p, const Site *s) { return loadT<8>(p, s); }
void mc_store8(void *p, u64 v, const Site *s) { storeT<1>(p, v, s); }
void mc_store16(void *p, u64 v, const Site *s) { storeT<2>(p, v, s); }
void mc_store32(void *p, u64 v, const Site *s) { storeT<4>(p, v, s); }
void mc_store64(void *p, u64 v, const Site *s) { storeT<8>(p, v, s); }
u64 mc_rmw(u32 op, void *p, u64 v, u32 sz, const Site *s) {
  u64 a = (u64)p;
  if (isOwnStack(a)) { /* plain */ }
  else { if (TSO && mode == 1 && T[cur].nsb) { tsoDrain(T[cur], true); } pre(a, sz, true, s, false); tsoDrain(T[cur], false); }
  u64 o = rdbytes(a, sz), n;
  switch (op) { case 0: n = v; break; case 1: n = o + v; break; case 2: n = o - v; break; case 3: n = o & v; break; case 4: n = o | v; break; case 5: n = o ^ v; break; default: n = ~(o & v); }
  if (TRACE) traceAcc("RMW", a, sz, n);
  if (isOwnStack(a)) memcpy(p, &n, sz); else wrbytes(a, sz, n);
  return o;
}
u64 mc_cas(void *p, u64 e, u64 n, u32 sz, const Site *s) {
  u64 a = (u64)p;
  if (!isOwnStack(a)) { if (TSO && mode == 1 && T[cur].nsb) { tsoDrain(T[cur], true); } pre(a, sz, true, s, false); tsoDrain(T[cur], false); }
  u64 o = rdbytes(a, sz);
  if (TRACE) traceAcc(o == e ? "CAS ok" : "CAS fail", a, sz, n);
  if (o == e) { if (isOwnStack(a)) memcpy(p, &n, sz); else wrbytes(a, sz, n); }
  return o;
}
static u64 preBuf[16];
void mc_pre(void *p, u64 sz, u32 fl, const Site *s) {
  u64 a = (u64)p;
  if (isOwnStack(a)) return;
  if (fl & 2) { if (TSO && mode == 1 && T[cur].nsb) tsoDrain(T[cur], true); }
  else tsoDrain(T[cur], true);
  lastSite = s;
  if (mode == 1) {
    bool sh = false;
    for (u64 x = a & ~7ull; x < a + sz; x += 8) sh |= touch(x, fl & 1);
    if (stackOf(a) >= 0) { sh = true; stackDirty |= 1u << stackOf(a); }
    if (sh) { yieldPoint(); afterResume(); lastSite = s; }
  } else tick();
  tsoDrain(T[cur], false);
  check(a, sz, fl & 1);
  u64 w = a & ~7ull; unsigned n = (a + sz - w + 7) / 8; if (n > 16) n = 16;
  for (unsigned i = 0; i < n; i++) preBuf[i] = ((u64 *)w)[i];
}
void mc_post(void *p, u64 sz, u32 fl, const Site *) {
  u64 a = (u64)p;
  if (isOwnStack(a) || !(fl & 1)) return;
  u64 w = a & ~7ull; unsigned n = (a + sz - w + 7) / 8; if (n > 16) n = 16;
  for (unsigned i = 0; i < n; i++) {
    u64 x = w + 8 * i, nv = *(u64 *)x;
    if (nv != preBuf[i]) { if (logging()) pushlog(x | 1, preBuf[i]); Hmem ^= mix(x, preBuf[i]) ^ mix(x, nv); if (TRACE) traceAcc("ASM W", x, 8, nv); }
    else if (TRACE) traceAcc("ASM", x, 8, nv);
  }
}
void mc_fence(u32 k, const Site *s) { if (k == 3) { lastSite = s; tsoDrain(T[cur], true); } }
void mc_memset(void *p, u32 c, u64 n, const Site *s) {
  u64 a = (u64)p, e = a + n; u64 v = 0x0101010101010101ull * (c & 0xff);
  if (n > (1u << 16) && mode == 0) { const char *b = badAccess(a, 1); if (!b) b = badAccess(e - 1, 1); if (b) violation("memory", "%s: memset", b); memset(p, c, n); return; }
  while (a < e) {
    unsigned k = 8 - (a & 7); if (k > e - a) k = e - a;
    if (k == 8) mc_store64((void *)a, v, s);
    else for (unsigned i = 0; i < k; i++) mc_store8((void *)(a + i), v & 0xff, s);
    a += k;
  }
}
void mc_memmove(void *d, void *sp, u64 n, const Site *s) {
  u64 a = (u64)d, b = (u64)sp;
  if (a == b || n == 0) return;
  if (((a ^ b) & 7) == 0) {
    if (a < b || a >= b + n) {
      u64 i = 0;
      while (i < n) {
        unsigned k = 8 - ((a + i) & 7); if (k > n - i) k = n - i;
        if (k == 8) mc_store64((void *)(a + i), mc_load64((void *)(b + i), s), s);
        else if (k >= 4 && !((a + i) & 3)) { mc_store32((void *)(a + i), mc_load32((void *)(b + i), s), s); i += 4; continue; }
        else { mc_store8((void *)(a + i), mc_load8((void *)(b + i), s), s); i++; continue; }
        i += k;
      }
    } else for (u64 i = n; i-- > 0;) mc_store8((void *)(a + i), mc_load8((void *)(b + i), s), s);
  } else if (((a ^ b) & 3) == 0 && (a & 3) == 0 && (n & 3) == 0 && (a < b || a >= b + n)) {
    for (u64 i = 0; i < n; i += 4) mc_store32((void *)(a + i), mc_load32((void *)(b + i), s), s);
  } else if (a < b || a >= b + n) for (u64 i = 0; i < n; i++) mc_store8((void *)(a + i), mc_load8((void *)(b + i), s), s);
  else for (u64 i = n; i-- > 0;) mc_store8((void *)(a + i), mc_load8((void *)(b + i), s), s);
}
}

// ------------------------------------------------------------------ harness API
static u64 outcome;  // drain notes
extern "C" {
int mc_nthreads(void) { return NT; }
int mc_tid(void) { return cur; }
int mc_pid(int t) { return t >= 0 && t < MAXT ? pids[t] : 0; }
long mc_param(const char *n, long d) { return optl(n, d); }
void mc_as(int t) { cur = t; }
static std::vector<POp> &pg(int t) { return t == -1 ? initProg : t == -2 ? drainProg : prog[t]; }
int mc_prog_len(int t) { return pg(t).size(); }
int mc_prog_kind(int t, int i) { return pg(t)[i].kind; }
long mc_prog_arg(int t, int i) { return pg(t)[i].arg; }
void mc_point(void) { if (mode == 1) { lastSite = nullptr; yieldPoint(); afterResume(); } else accessCount = 0; }
static std::vector<Op> seqOps; // init ops, then (in drain) appended
static std::vector<Op> drainOps;
static Op curSeq;
static bool seqOpen;
void mc_op_begin(int kind, long arg) {
  if (mode == 0 || mode == 2) { curSeq = Op{cur, kind, arg, 0, 0, 0}; seqOpen = true; return; }
  Thr &t = T[cur];
  t.inOp = 1; t.pendBegin = 1; t.stepsInOp = 0; t.waiting = 0; t.mustWait = 0;
  if (!LOOP) { t.curOp = opBase[cur] + t.opIdx; ops[t.curOp].kind = kind; ops[t.curOp].arg = arg; ops[t.curOp].t = cur; t.opIdx++; }
}
void mc_op_end(long ret) {
  if (mode == 0) { curSeq.ret = ret; curSeq.done = 1; seqOps.push_back(curSeq); seqOpen = false; return; }
  if (mode == 2) { curSeq.ret = ret; curSeq.done = 1; drainOps.push_back(curSeq); seqOpen = false; return; }
  Thr &t = T[cur];
  if (t.pendBegin) afterResume();
  t.inOp = 0; t.opEnded = 1; t.waiting = 0; t.mustWait = 0; t.stepsInOp = 0;
  if (LOOP) return;
  int o = t.curOp;
  eset(*(u64 *)&ops[o].ret, (u64)ret);
  Hhist ^= mix(0x88000 + o, (u64)ret);
  if (TSO && t.nsb) t.pendDone |= 1ull << o;
  else eset(doneMask, doneMask | 1ull << o);
}
void mc_enter(int w) {
  if (mode != 1) return;
  Thr &t = T[cur];
  if (t.pendBegin) afterResume();
  if (inCrit[w]) violation("mutual-exclusion", "thread %d entered critical section %d while occupied (mask %x)", cur, w, inCrit[w]);
  if (FIFOK && t.mustWait) for (int i = 0; i < NT; i++) if ((t.mustWait >> i & 1) && T[i].inOp && T[i].waiting)
    violation("fifo", "thread %d overtook thread %d, which was already waiting when thread %d arrived", cur, i, cur);
  u64 &wd = *(u64 *)&inCrit[w & ~1]; u64 nv = wd; ((u32 *)&nv)[w & 1] = 1u << cur; 
  pushlog((u64)&wd, wd); Hhist ^= mix(0x99000, wd) ^ mix(0x99000, nv); wd = nv;
  t.waiting = 0; t.inOp = 0; t.mustWait = 0;
  if (FIFOK) for (int i = 0; i < NT; i++) if (i != cur && (T[i].mustWait >> cur & 1)) { eset(T[i].mustWait, T[i].mustWait & ~(1ull << cur)); stackDirty |= 1u << i; } // served: nobody has to let it pass any more
}
void mc_leave(int w) {
  if (mode != 1) return;
  u64 &wd = *(u64 *)&inCrit[w & ~1]; u64 nv = wd; ((u32 *)&nv)[w & 1] = 0;
  pushlog((u64)&wd, wd); Hhist ^= mix(0x99000, wd) ^ mix(0x99000, nv); wd = nv;
}
void mc_note(long v) { outcome = mix(outcome, v); }
int mc_done(int t) { return T[t].status == 1; }
void mc_log(const char *fmt, ...) { if (!TRACE) return; va_list ap; va_start(ap, fmt); printf("  "); vprintf(fmt, ap); va_end(ap); puts(""); }
long mc_ghost(int i) { return ghost[i]; }
void mc_ghost_set(int i, long v) { if (logging()) { Hhist ^= mix(0xBB000 + i, ghost[i]) ^ mix(0xBB000 + i, v); } eset(ghost[i], (u64)v); }
int mc_choose(int n) {
  if (mode != 1 || !CHOOSE || n < 1 || n > 16) violation("harness", "mc_choose");
  if (n == 1) return 0;
  lastSite = nullptr; T[cur].nch = n; yieldPoint(); T[cur].nch = 0; afterResume(); return chosen;
}
void mc_spawnable(int t) { T[t].status = 2; }
void mc_spawn(int t) { if (T[t].status == 2 && !(spawned >> t & 1)) { Hhist ^= mix(0xCC000, spawned) ^ mix(0xCC000, spawned | 1ull << t); eset(spawned, spawned | 1ull << t); } else violation("harness", "mc_spawn"); }
void mc_set_group(int t, int g) { groupOf[t] = g; }
void mc_fiber_yield(void) {
  if (mode != 1) return;
  T[cur].yielded = 1;
  int g = groupOf[cur];
  if (g < 0) { if (T[cur].local > 16) { yieldPoint(); afterResume(); } return; } // a spin on data not known to be shared yet
  int n = cur;
  for (int k = 1; k <= NT; k++) { int c = (cur + k) % NT; if (groupOf[c] == g && T[c].status == 0) { n = c; break; } }
  if (n != cur) {
    Hhist ^= mix(0xAA000 + g, activeF[g]) ^ mix(0xAA000 + g, n);
    eset(activeF[g], (u64)n);
    lastSite = nullptr; yieldPoint(); afterResume();
  }
}
void mc_block(int (*c)(void *), void *a) { if (mode == 1) { T[cur].bcond = c; T[cur].barg = a; yieldPoint(); T[cur].bcond = nullptr; afterResume(); } else if (!c(a)) violation("hang", "sequential code blocks forever"); }
// TLS: emulated, at an address fixed by the variable and the simulated POSIX thread
static u64 dataStart;
static std::unordered_set<u64> tlsInit;
struct EmuCtl { u64 size, align, idx; void *templ; };
void *__emutls_get_address(EmuCtl *c) {
  u64 off = ((u64)c - dataStart) * 128;
  if (off + 4096 > TLSSPAN) { fprintf(stderr, "tls span\n"); _exit(3); }
  if (tlsInit.insert((u64)c).second) {
    if (c->size > 4096) { fprintf(stderr, "tls var too large\n"); _exit(3); }
    for (int i = 0; i < MAXT; i++) { u64 b = TLSBASE + i * TLSSPAN + off; if (c->templ) memcpy((void *)b, c->templ, c->size); }
  }
  int owner = cur; // fibers of one processor share the TLS of the lowest member
  if (mode == 1 && cur < NT && groupOf[cur] >= 0) for (int i = 0; i < NT; i++) if (groupOf[i] == groupOf[cur]) { owner = i; break; }
  return (void *)(TLSBASE + owner * TLSSPAN + off);
}
}

// ------------------------------------------------------------------ search
struct VT { u64 key; u32 id; };
static std::vector<VT> vt; static u64 vtN, vtMask;
static void vtInit(u64 n) { vt.assign(n, {0, 0}); vtMask = n - 1; vtN = 0; }
static VT *vtFind(u64 k, bool &isNew) {
  if (!k) k = 1;
  if (vtN * 10 > vt.size() * 6) {
    std::vector<VT> o; o.swap(vt); vt.assign(o.size() * 2, {0, 0}); vtMask = vt.size() - 1;
    for (auto &e : o) if (e.key) { u64 i = (e.key ^ e.key >> 29) & vtMask; while (vt[i].key) i = (i + 1) & vtMask; vt[i] = e; }
  }
  u64 i = (k ^ k >> 29) & vtMask;
  while (vt[i].key) { if (vt[i].key == k) { isNew = false; return &vt[i]; } i = (i + 1) & vtMask; }
  vt[i].key = k; vtN++; isNew = true; return &vt[i];
}
struct Node {
  u64 logMark, hmem, hhist; u32 id; u32 todo; int curChoice; u32 snapOff; int lastT; int budget; u32 allTodo;
};
static std::vector<Node> st;
static std::vector<u8> onStack;      // per state
static std::vector<u8> bestBudget;
static std::vector<u32> parent; static std::vector<u8> parentT;
struct Edge { u32 src, dst; u8 t, fl; };
static std::vector<u32> eSrc, eDst; static std::vector<u8> eInfo; // t | opEnd<<5
static std::vector<u8> snapBuf; static u64 snapTop;
static u64 nTrans, nTerm, nDistinctHist, maxDepthSeen, nCapped; static bool capped; static const char *capWhy = "";
static std::unordered_map<u64, bool> histSeen;
static std::vector<std::vector<u8>> sampleTraces; static std::vector<u64> sampleHash;
static double t0; static double now() { timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); return ts.tv_sec + ts.tv_nsec * 1e-9; }
static std::vector<std::string> sampleHist; 
static u64 waitMaxSteps[MAXT];

static u64 stateHash() {
  u64 h = Hmem ^ mum(Hhist ^ 0x1234, 0x9E3779B97F4A7C15ull);
  for (int i = 0; i < NT; i++) h = mum(h ^ T[i].shash, 0xD6E8FEB86659FD93ull ^ (u64)i << 32) ^ T[i].shash;
  return h ? h : 1;
}
static bool runnable(int t) {
  if (T[t].status == 1 || (T[t].status == 2 && !(spawned >> t & 1))) return false;
  if (groupOf[t] >= 0 && activeF[groupOf[t]] != (u64)t) return false;
  if (T[t].bcond && !T[t].bcond(T[t].barg)) return false;
  return true;
}
static u32 enabled() {
  u32 m = 0;
  if (CHOOSE) return runnable(0) ? (T[0].nch ? (1u << T[0].nch) - 1 : 1) : 0;
  for (int i = 0; i < NT; i++) { if (runnable(i)) m |= 1u << i; if (T[i].nsb) m |= 1u << (16 + i); }
  return m;
}
static bool allDone() { for (int i = 0; i < NT; i++) if ((T[i].status != 1 && !(T[i].status == 2 && !(spawned >> i & 1))) || T[i].nsb) return false; return true; }

static void snapSave(Node &n, int t) {
  u64 sz = liveTop(t) - T[t].sp;
  u64 need = sizeof(Thr) + 8 + sz;
  n.snapOff = snapTop;
  if (snapTop + need > snapBuf.size()) snapBuf.resize((snapTop + need) * 2);
  memcpy(&snapBuf[snapTop], &T[t], sizeof(Thr));
  memcpy(&snapBuf[snapTop + sizeof(Thr)], &sz, 8);
  memcpy(&snapBuf[snapTop + sizeof(Thr) + 8], (void *)T[t].sp, sz);
  snapTop += (need + 15) & ~15ull;
}
static void snapRestore(Node &n, int t) {
  u64 sz; memcpy(&T[t], &snapBuf[n.snapOff], sizeof(Thr)); memcpy(&sz, &snapBuf[n.snapOff + sizeof(Thr)], 8);
  memcpy((void *)T[t].sp, &snapBuf[n.snapOff + sizeof(Thr) + 8], sz);
  snapTop = n.snapOff;
}
static void fiberFinish(int t) { // processor switches to its next fiber
  int g = groupOf[t]; if (g < 0 || T[t].status != 1 || activeF[g] != (u64)t) return;
  for (int k = 1; k <= NT; k++) { int c = (t + k) % NT; if (groupOf[c] == g && T[c].status == 0) { Hhist ^= mix(0xAA000 + g, activeF[g]) ^ mix(0xAA000 + g, c); eset(activeF[g], (u64)c); return; } }
}
static void stepThread(int c) {
  if (CHOOSE) { chosen = c; c = 0; }
  if (c >= 16) { int t = c - 16; cur = t; lastSite = nullptr; if (TRACE) printf("  T%d flush %#lx\n", t, T[t].sb[0].a); flushOne(t); rehash(t); return; }
  cur = c;
  Thr &t = T[c];
  t.opEnded = 0; t.yielded = 0; if (t.status == 2) t.status = 0;
  memset((void *)(t.sp - 3072), 0, 3072);
  if (FIFOK && t.inOp) { if (t.stepsInOp < FIFOK) t.stepsInOp++; if (t.stepsInOp >= FIFOK) t.waiting = 1; }
  mc_switch(&schedSp, t.sp);
  if (t.status == 1) fiberFinish(c);
  rehash(c);
  if (stackDirty) { for (int i = 0; i < NT; i++) if (stackDirty >> i & 1) rehash(i); }
}
static std::string histStr(bool withDrain) {
  std::string s; char b[256];
  auto add = [&](const Op &o, const char *ph) { snprintf(b, sizeof b, "%s%s T%d:%c(%ld)->%ld", s.empty() ? "" : " ", ph, o.t, o.kind, o.arg, o.ret); s += b; };
  for (auto &o : seqOps) add(o, "init");
  for (int i = 0; i < nops; i++) { add(ops[i], ""); snprintf(b, sizeof b, "{after:%lx}", ops[i].pred); s += b; if (!(doneMask >> i & 1)) s += "(pending)"; }
  if (withDrain) for (auto &o : drainOps) add(o, "drain");
  return s;
}
static Spec *spec;
static u64 linChecks, linNodes; static SState spec0; // abstract state after the sequential prefix
static void checkTerminal() {
  nTerm++;
  // drain sequentially with the real code
  u64 mark = nlog, hm = Hmem, hh = Hhist; Thr saveT = T[0]; int sc = cur;
  drainOps.clear(); outcome = 0;
  mode = 2; cur = 0; accessCount = 0;
  T[0].nsb = 0;
  memset((void *)(stackTop(MAINT) - 8192), 0, 8192);
  u64 saveMain = T[MAINT].sp; u8 sst = T[MAINT].status;
  { // run drain on the main stack but with identity of thread 0
    u64 top = stackTop(MAINT); u64 *s = (u64 *)(top & ~15ull); *--s = 0; *--s = (u64)drainMain; for (int i = 0; i < 6; i++) *--s = 0;
    cur = 0; T[0].sp = 0; T[0].status = 0;
    mc_switch(&schedSp, (u64)s);
  }
  mode = 1;
  // history key
  u64 k = mix(Hhist, outcome);
  for (auto &o : drainOps) k = mix(k ^ o.kind, o.ret);
  u64 rk = mix(outcome, 77); for (int i = 0; i < nops; i++) rk = mix(rk, ops[i].ret); for (auto &o : drainOps) rk = mix(rk, o.ret);
  if (!histSeen.count(k)) {
    nDistinctHist++;
    histSeen[k] = true;
    if (spec) {
      std::vector<SOp> v;
      u64 b = 0, im = 0;
      for (int i = 0; i < nops; i++) v.push_back({ops[i].t, ops[i].kind, ops[i].arg, ops[i].ret, (ops[i].pred << b) | im});
      // program order (implied by pred in SC; explicit for TSO)
      for (int i = 0; i < nops; i++) for (int j = 0; j < i; j++) if (ops[i].t == ops[j].t) v[b + i].pred |= 1ull << (b + j);
      for (auto &o : drainOps) { u64 n = v.size(); v.push_back({o.t, o.kind, o.arg, o.ret, (1ull << n) - 1}); }
      linChecks++;
      if (!linearizable(*spec, v, linNodes, spec0)) {
        lastSite = nullptr;
        violation("linearizability", "history has no legal sequential order: %s", histStr(true).c_str());
      }
    }
    if (sampleHist.size() < 3) sampleHist.push_back(histStr(true));
  }
  undoTo(mark); Hmem = hm; Hhist = hh; T[0] = saveT; T[MAINT].sp = saveMain; T[MAINT].status = sst; cur = sc;
}

// root snapshot ------------------------------------------------------
static Thr rootT[MAXT]; static u64 rootHmem, rootHhist, rootMark; static std::vector<u8> rootStacks[MAXT];
static void saveRoot() { for (int i = 0; i < MAXT; i++) { rootT[i] = T[i]; } rootHmem = Hmem; rootHhist = Hhist; rootMark = nlog;
  for (int i = 0; i < NT; i++) { rootStacks[i].assign((u8 *)T[i].sp, (u8 *)liveTop(i)); } }
static void restoreRoot() { undoTo(rootMark); for (int i = 0; i < MAXT; i++) T[i] = rootT[i]; Hmem = rootHmem; Hhist = rootHhist;
  for (int i = 0; i < NT; i++) memcpy((void *)T[i].sp, rootStacks[i].data(), rootStacks[i].size()); }

static void traceAcc(const char *what, u64 a, unsigned sz, u64 v) {
  const char *f = lastSite ? strrchr(lastSite->file, '/') : 0;
  u32 *m = metaOf(a);
  printf("  T%d %-8s %s%#lx.%u = %#lx  %s:%u %s\n", cur, what, m && (*m & SHARED) ? "*" : " ", a, sz, v, lastSite ? (f ? f + 1 : lastSite->file) : "?", lastSite ? lastSite->line : 0, lastSite ? lastSite->fn : "");
}

static std::vector<u8> violSched; static std::vector<u8> violLoop; static int violDrain;
static std::vector<u8> pathOf(u32 id) { std::vector<u8> p; while (id != 0) { p.push_back(parentT[id]); id = parent[id]; } std::reverse(p.begin(), p.end()); return p; }

enum { RC_OK = 0, RC_VIOL = 1, RC_CAP = 2 };
static int explore() {
  st.clear(); onStack.clear(); parent.clear(); parentT.clear(); bestBudget.clear(); eSrc.clear(); eDst.clear(); eInfo.clear(); snapTop = 0;
  vtInit(1 << 16); nTrans = nTerm = nDistinctHist = maxDepthSeen = 0; histSeen.clear(); sampleTraces.clear(); sampleHash.clear(); sampleHist.clear(); capped = false;
  restoreRoot();
  for (int i = 0; i < NT; i++) rehash(i);
  bool nw; u64 h0 = stateHash(); if (PB >= 0) h0 = mix(h0, 99);
  vtFind(h0, nw)->id = 0; parent.push_back(0); parentT.push_back(0); onStack.push_back(1); bestBudget.push_back(PB >= 0 ? PB : 0);
  Node r{}; r.logMark = nlog; r.hmem = Hmem; r.hhist = Hhist; r.id = 0; r.todo = r.allTodo = enabled(); r.lastT = -1; r.budget = PB; r.curChoice = -1;
  st.reserve(1 << 16); st.push_back(r);
  volatile int rc = RC_OK;
  violArmed = true;
  if (setjmp(violJmp)) {
    // violation: schedule = choices on the stack
    violSched.clear(); for (auto &n : st) if (n.curChoice >= 0) violSched.push_back(n.curChoice);
    violDrain = mode == 2; mode = 1;
    violArmed = false;
    return RC_VIOL;
  }
  if (allDone()) checkTerminal();
  u64 iter = 0;
  while (!st.empty()) {
    Node &n = st.back();
    if (!n.todo) {
      onStack[n.id] = 0; st.pop_back();
      if (!st.empty()) { Node &p = st.back(); undoTo(p.logMark); Hmem = p.hmem; Hhist = p.hhist; int c = p.curChoice; u32 dirty = stackDirty; snapRestore(p, CHOOSE ? 0 : c & 15);
        if (dirty) for (int i = 0; i < NT; i++) rehash(i); }
      continue;
    }
    if ((++iter & 0xFFF) == 0) { if (now() - t0 > TIMECAP) { capped = true; capWhy = "time"; break; } if (parent.size() > MAXSTATES) { capped = true; capWhy = "states"; break; } }
    int c = __builtin_ctz(n.todo); n.todo &= n.todo - 1;
    int budget = n.budget;
    if (PB >= 0) {
      // cost of switching away from the previously running thread inside an operation
      int lt = n.lastT;
      if (c < 16 && lt >= 0 && lt != c && runnable(lt) && T[lt].inOp && !T[lt].yielded) { if (budget == 0) continue; budget--; }
    }
    n.curChoice = c;
    int t = CHOOSE ? 0 : c & 15;
    snapSave(n, t);
    u64 nl0 = nlog; u64 hm0 = Hmem, sh0 = T[t].shash;
    stepThread(c);
    nTrans++;
    bool opEnd = c < 16 && T[t].opEnded;
    if (PB >= 0 && c < 16 && Hmem == hm0 && T[t].shash == sh0) T[t].yielded = 1; // spinning: free switch
    u64 h = stateHash();
    if (PB >= 0) h = mix(h, (c < 16 ? c : n.lastT) * 2 + T[t].yielded);
    VT *e = vtFind(h, nw);
    if (PB >= 0 && !nw && c < 16 && !T[t].yielded && onStack[e->id]) { // a cycle: the thread spins without yielding: free switch
      T[t].yielded = 1; h = mix(stateHash(), c * 2 + 1); e = vtFind(h, nw);
    }
    bool expand = nw;
    if (nw) {
      e->id = parent.size(); parent.push_back(n.id); parentT.push_back(c); onStack.push_back(0); if (PB >= 0) bestBudget.push_back(budget);
    } else {
      if (PB >= 0 && budget > bestBudget[e->id] ) { bestBudget[e->id] = budget; expand = !onStack[e->id]; }
      if (NB && onStack[e->id]) {
        bool progress = false;
        if (!progress) {
          // nonblocking progress violated: a cycle without completion
          violSched.clear(); violLoop.clear(); size_t k = 0; for (; k < st.size(); k++) { if (st[k].id == e->id) break; violSched.push_back(st[k].curChoice); }
          for (; k < st.size(); k++) violLoop.push_back(st[k].curChoice);
          violKind = "progress"; violMsg = "an execution repeats a state forever without completing any operation (not non-blocking)";
          if (lastSite) { char s[512]; const char *f = strrchr(lastSite->file, '/'); snprintf(s, sizeof s, " [thread %d, %s:%u in %s]", cur, f ? f + 1 : lastSite->file, lastSite->line, lastSite->fn); violMsg += s; }
          violDrain = 0; violArmed = false; return RC_VIOL;
        }
      }
    }
    u32 id = e->id;
    if (KEEP_EDGES) { eSrc.push_back(n.id); eDst.push_back(id); eInfo.push_back((c & 31) | (opEnd ? 32 : 0)); }
    if (expand) {
      if (st.size() > maxDepthSeen) maxDepthSeen = st.size();
      if (allDone()) {
        checkTerminal();
        if (sampleTraces.size() < 64 && (nTerm % (1 + nTerm / 32)) == 0) { std::vector<u8> p; for (auto &x : st) p.push_back(x.curChoice); sampleTraces.push_back(p); sampleHash.push_back(stateHash()); }
      } else {
        u32 en = enabled();
        if (!en) { lastSite = nullptr; std::string s; for (int i = 0; i < NT; i++) if (T[i].status == 0) s += " T" + std::to_string(i); violation("deadlock", "no thread can run; blocked:%s", s.c_str()); }
        if (st.size() >= MAXDEPTH) { capped = true; capWhy = "depth"; }
        else {
          Node x{}; x.logMark = nlog; x.hmem = Hmem; x.hhist = Hhist; x.id = id; x.todo = x.allTodo = en; x.curChoice = -1; x.budget = budget; x.lastT = c < 16 ? c : n.lastT;
          onStack[id] = 1; st.push_back(x);
          continue;
        }
      }
    }
    // undo
    Node &m = st.back();
    undoTo(m.logMark); Hmem = m.hmem; Hhist = m.hhist; snapRestore(m, t);
    if (stackDirty) for (int i = 0; i < NT; i++) rehash(i);
    (void)nl0;
  }
  violArmed = false;
  // leave everything at root
  if (!st.empty()) { restoreRoot(); }
  return capped ? RC_CAP : rc;
}

// ------------------------------------------------------------------ fairness / progress on the stored graph
static u64 nScc, nBigScc; 
static int fairCheck(bool perThreadStarvation, int victim) {
  // looks for an SCC in which every unfinished processor has an internal edge (weak fairness), ignoring, when
  // victim>=0, edges that complete an operation of the victim (starvation)
  u32 n = parent.size(); u64 m = eSrc.size();
  std::vector<u64> off(n + 1, 0);
  auto ignored = [&](u64 e) { return perThreadStarvation ? ((eInfo[e] & 32) && (eInfo[e] & 31) == victim) : false; };
  for (u64 e = 0; e < m; e++) if (!ignored(e)) off[eSrc[e] + 1]++;
  for (u32 i = 0; i < n; i++) off[i + 1] += off[i];
  std::vector<u32> adj(off[n]); std::vector<u8> inf(off[n]); std::vector<u64> pos(off.begin(), off.end() - 1);
  for (u64 e = 0; e < m; e++) if (!ignored(e)) { adj[pos[eSrc[e]]] = eDst[e]; inf[pos[eSrc[e]]++] = eInfo[e]; }
  // Tarjan
  std::vector<u32> idx(n, 0), low(n, 0), comp(n, ~0u), stk; std::vector<std::pair<u32, u64>> cs; u32 ctr = 0, nc = 0;
  for (u32 r = 0; r < n; r++) if (!idx[r]) {
    cs.push_back({r, off[r]}); idx[r] = low[r] = ++ctr; stk.push_back(r);
    while (!cs.empty()) {
      u32 v = cs.back().first; u64 &p = cs.back().second;
      if (p < off[v + 1]) { u32 w = adj[p++]; if (!idx[w]) { idx[w] = low[w] = ++ctr; stk.push_back(w); cs.push_back({w, off[w]}); } else if (comp[w] == ~0u) low[v] = std::min(low[v], idx[w]); }
      else { if (low[v] == idx[v]) { u32 w; do { w = stk.back(); stk.pop_back(); comp[w] = nc; } while (w != v); nc++; }
        cs.pop_back(); if (!cs.empty()) low[cs.back().first] = std::min(low[cs.back().first], low[v]); }
    }
  }
  nScc = nc;
  // for each SCC: which procs have internal edges; which procs are unfinished
  std::vector<u32> have(nc, 0), rep(nc, 0), en(nc, 0), sz(nc, 0);
  for (u32 v = 0; v < n; v++) { sz[comp[v]]++; rep[comp[v]] = v; }
  for (u32 v = 0; v < n; v++) for (u64 p = off[v]; p < off[v + 1]; p++) { u32 t = inf[p] & 31; en[comp[v]] |= 1u << t; if (comp[adj[p]] == comp[v]) have[comp[v]] |= 1u << t; }
  // flush edges (16+t) must be fair as well if enabled everywhere in the SCC: conservative: require when enabled somewhere in it
  for (u32 c = 0; c < nc; c++) {
    if (!have[c]) continue;
    nBigScc++;
    // 'en' counts procs with any outgoing edge from the SCC; every one must be able to stay inside
    u32 procsEn = en[c], procsHave = have[c];
    // fibers: merge by group
    auto merge = [&](u32 m) { u32 o = m; for (int i = 0; i < NT; i++) if (groupOf[i] >= 0) { if (m >> i & 1) for (int j = 0; j < NT; j++) if (groupOf[j] == groupOf[i]) o |= 1u << j; } return o; };
    procsEn = merge(procsEn) ; procsHave = merge(procsHave);
    if ((procsEn & 0xFFFF) == 0) continue;
    if (perThreadStarvation) { /* ignored edges of the victim count as enabled */ }
    if (perThreadStarvation && !(procsHave >> victim & 1)) continue;
    bool allHave = (procsEn & ~procsHave) == 0;
    if (perThreadStarvation) { for (int i = 0; i < NT; i++) if (!(procsHave >> i & 1)) allHave = false; }
    if (allHave) {
      // witness: path to rep + loop covering every proc
      u32 s = rep[c]; violSched = pathOf(s); violLoop.clear();
      u32 at = s; u32 need = have[c];
      auto bfs = [&](u32 from, auto goalEdge, auto goalNode) { // appends labels; returns node
        std::unordered_map<u32, std::pair<u32, u8>> pr; std::vector<u32> q{from}; pr[from] = {from, 0};
        for (size_t qi = 0; qi < q.size(); qi++) { u32 v = q[qi];
          if (goalNode(v)) { std::vector<u8> l; for (u32 x = v; x != from; x = pr[x].first) l.push_back(pr[x].second); std::reverse(l.begin(), l.end()); violLoop.insert(violLoop.end(), l.begin(), l.end()); return v; }
          for (u64 p = off[v]; p < off[v + 1]; p++) if (comp[adj[p]] == c) {
            if (goalEdge(inf[p])) { std::vector<u8> l; for (u32 x = v; x != from; x = pr[x].first) l.push_back(pr[x].second); std::reverse(l.begin(), l.end()); violLoop.insert(violLoop.end(), l.begin(), l.end()); violLoop.push_back(inf[p] & 31); return adj[p]; }
            if (!pr.count(adj[p])) { pr[adj[p]] = {v, (u8)(inf[p] & 31)}; q.push_back(adj[p]); } } }
        return from; };
      for (int t = 0; t < 32; t++) if (need >> t & 1) at = bfs(at, [&](u8 i) { return (i & 31) == t; }, [](u32) { return false; });
      if (at != s) at = bfs(at, [](u8) { return false; }, [&](u32 v) { return v == s; });
      return c + 1;
    }
  }
  return 0;
}
// longest own-step count of an operation of each thread (graph must be acyclic)
static bool stepBound() {
  u32 n = parent.size(); u64 m = eSrc.size();
  std::vector<u64> off(n + 1, 0); std::vector<u32> indeg(n, 0);
  for (u64 e = 0; e < m; e++) { off[eSrc[e] + 1]++; indeg[eDst[e]]++; }
  for (u32 i = 0; i < n; i++) off[i + 1] += off[i];
  std::vector<u32> adj(m); std::vector<u8> inf(m); std::vector<u64> pos(off.begin(), off.end() - 1);
  for (u64 e = 0; e < m; e++) { adj[pos[eSrc[e]]] = eDst[e]; inf[pos[eSrc[e]]++] = eInfo[e]; }
  std::vector<u16> cnt((u64)n * NT, 0);
  std::vector<u32> q; for (u32 i = 0; i < n; i++) if (!indeg[i]) q.push_back(i);
  u64 seen = 0;
  for (size_t k = 0; k < q.size(); k++) { u32 v = q[k]; seen++;
    for (u64 p = off[v]; p < off[v + 1]; p++) { u32 w = adj[p]; int t = inf[p] & 31;
      for (int i = 0; i < NT; i++) { u16 x = cnt[(u64)v * NT + i]; if (i == t) { x++; if (inf[p] & 32) { if (x > waitMaxSteps[i]) waitMaxSteps[i] = x; x = 0; } } u16 &y = cnt[(u64)w * NT + i]; if (x > y) y = x; }
      if (!--indeg[w]) q.push_back(w); } }
  return seen == n;
}

// ------------------------------------------------------------------ replay
static bool replaySchedule(const std::vector<u8> &s, std::string &why) {
  for (u8 c : s) {
    if (!(enabled() >> c & 1)) { why = "schedule step not enabled"; return false; }
    if (TRACE) printf("step: %s%d\n", CHOOSE ? "choice " : c >= 16 ? "flush of T" : "T", CHOOSE ? c : c & 15);
    stepThread(c);
  }
  return true;
}

static void jstr(std::string &o, const std::string &s) { o += '"'; for (char ch : s) { if (ch == '"' || ch == '\\') { o += '\\'; o += ch; } else if (ch == '\n') o += "\\n"; else if ((unsigned char)ch < 32) o += ' '; else o += ch; } o += '"'; }
static std::vector<POp> parseOps(const std::string &s) {
  std::vector<POp> v; size_t i = 0;
  while (i < s.size()) { if (s[i] == ',' || s[i] == ' ') { i++; continue; } POp p; p.kind = (unsigned char)s[i++]; char *e; p.arg = strtol(s.c_str() + i, &e, 0); i = e - s.c_str(); v.push_back(p); }
  return v;
}
extern "C" char __data_start, _end, __bss_start;
extern "C" void mc_env_init(void);
static std::string outDir;

static void doSetup() {
  mode = 0; cur = MAINT; accessCount = 0;
  for (int i = 0; i < MAXT; i++) { T[i].status = i < NT ? 0 : 1; T[i].curOp = -1; }
  mkctx(MAINT, setupMain);
  violArmed = true;
  if (setjmp(violJmp)) { printf("{\"result\":\"violation\",\"kind\":\"%s\",\"phase\":\"setup\",\"msg\":", violKind.c_str()); std::string o; jstr(o, violMsg + (seqOpen ? " during sequential operation " + std::string(1, (char)curSeq.kind) + "(" + std::to_string(curSeq.arg) + ")" : "")); printf("%s,\"states\":1,\"transitions\":1,\"terminals\":0,\"histories\":0,\"replayed\":0}\n", o.c_str()); fflush(stdout); _exit(0); }
  mc_switch(&schedSp, T[MAINT].sp);
  violArmed = false;
  if (spec) {
    spec0 = spec->init(); bool ok = true;
    for (auto &o : seqOps) if (!spec->step(spec0, {o.t, o.kind, o.arg, o.ret, 0})) { ok = false; break; }
    if (!ok) { std::string o; jstr(o, "sequential history is wrong: " + histStr(false)); printf("{\"result\":\"violation\",\"kind\":\"linearizability\",\"phase\":\"setup\",\"msg\":%s,\"states\":1,\"transitions\":1,\"terminals\":0,\"histories\":0,\"replayed\":0}\n", o.c_str()); fflush(stdout); _exit(0); }
  }
  for (int i = 0; i < NT; i++) { mkctx(i, threadMain); if (groupOf[i] >= 0) { int g = groupOf[i]; bool first = true; for (int j = 0; j < i; j++) if (groupOf[j] == g) first = false; if (first) activeF[g] = i; } }
  Hmem = 0; Hhist = 0;
  mode = 1;
  saveRoot();
}

static bool inMain;
static void onExit() { if (inMain && violArmed) { lastSite = nullptr; violation("property", "the program ends in the middle of an execution"); } }
static int engineMain(int argc, char **argv) {
  atexit(onExit);
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; if (a.rfind("--", 0) == 0) { size_t e = a.find('='); if (e == std::string::npos) opts[a.substr(2)] = "1"; else opts[a.substr(2, e - 2)] = a.substr(e + 1); } }
  // a fixed-size alternate signal stack
  stack_t ss{}; ss.ss_sp = mmap(0, 65536 * 4, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); ss.ss_size = 65536 * 4; sigaltstack(&ss, 0);
  struct sigaction sa{}; sa.sa_sigaction = onSegv; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER; sigaction(SIGSEGV, &sa, 0); sigaction(SIGBUS, &sa, 0); sigaction(SIGFPE, &sa, 0); sigaction(SIGILL, &sa, 0);
  auto map = [](u64 a, u64 n) { void *p = mmap((void *)a, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | (a ? MAP_FIXED_NOREPLACE : 0), -1, 0); if (p == MAP_FAILED) { perror("mmap"); _exit(3); } return p; };
  map(BASE, REGION);
  metaHeap = (u32 *)map(0, REGION / 8 * 4); shadow = (u8 *)map(0, REGION / 8); pageState = (u8 *)map(0, REGION / 4096);
  for (int i = 0; i < MAXT; i++) { map(STACKBASE + i * STACKSTEP + (STACKSTEP - STACKSZ), STACKSZ); }
  glo = (u64)&__data_start & ~7ull; ghi = ((u64)&_end + 7) & ~7ull; dataStart = glo;
  metaGlob = (u32 *)calloc((ghi - glo) / 8 + 8, 4);
  caplog = 1 << 16; ulog_ = (Log *)malloc(caplog * sizeof(Log));

  TSO = optl("tso", 0); NB = optl("nb", 0); FAIR = optl("fair", 0); LOOP = optl("loop", 0); STEPS = optl("steps", 0); PB = optl("pb", -1); FIFOK = optl("fifo", 0); TRACE = optl("trace", 0) && opts.count("replay");
  CHOOSE = optl("choose", 0); if (CHOOSE) { NT = 1; NB = true; }
  KEEP_EDGES = FAIR || STEPS || LOOP; MAXSTATES = optl("maxstates", 60000000); MAXDEPTH = optl("maxdepth", 2000000); TIMECAP = optl("time", 600); POISON = optl("poison", 0);
  for (int i = 0; i < MAXT; i++) { pids[i] = i; groupOf[i] = -1; }
  { // programs
    std::string p = opt("prog"); int t = 0; size_t b = 0;
    if (!p.empty()) { while (true) { size_t e = p.find('/', b); prog[t++] = parseOps(p.substr(b, e == std::string::npos ? e : e - b)); if (e == std::string::npos) break; b = e + 1; } NT = t; }
    NT = CHOOSE ? 1 : optl("threads", NT);
    initProg = parseOps(opt("init")); drainProg = parseOps(opt("drain"));
    std::string ps = opt("pids"); int k = 0; const char *c = ps.c_str(); while (*c && k < MAXT) { pids[k++] = strtol(c, (char **)&c, 10); if (*c == ',') c++; }
    nops = 0; for (int i = 0; i < NT; i++) { opBase[i] = nops; nops += prog[i].size(); }
    if (nops > 60) { fprintf(stderr, "too many ops\n"); return 3; }
    std::string gs = opt("groups"); k = 0; c = gs.c_str(); while (*c && k < MAXT) { groupOf[k++] = strtol(c, (char **)&c, 10); if (*c == ',') c++; }
  }
  spec = makeSpec(opt("spec"), optl("specarg", 0));
  t0 = now();
  mc_env_init();
  doSetup();
  // initial knowledge of shared granules (replay, or learnt by a previous run)
  auto addShared = [&](u64 a) { u32 *m = metaOf(a); if (m && !(*m & SHARED)) { *m |= SHARED; sharedList.push_back(a); } };
  bool isReplay = opts.count("replay");
  if (isReplay) {
    FILE *f = fopen(opt("replay").c_str(), "r"); if (!f) { perror("replay"); return 3; }
    char line[1 << 16]; std::vector<u8> s, lp; bool hasLoop = false; std::string kind; bool drain = false;
    while (fgets(line, sizeof line, f)) {
      if (!strncmp(line, "shared ", 7)) { addShared(strtoull(line + 7, 0, 16)); }
      else if (!strncmp(line, "schedule", 8) || !strncmp(line, "loop", 4)) { bool l = line[0] == 'l'; char *p = strchr(line, ' '); while (p && *p && *p != '\n') { long v = strtol(p, &p, 10); (l ? lp : s).push_back(v); while (*p == ' ') p++; } if (l) hasLoop = true; }
      else if (!strncmp(line, "kind ", 5)) { kind = line + 5; while (!kind.empty() && kind.back() == '\n') kind.pop_back(); }
      else if (!strncmp(line, "drain", 5)) drain = true;
    }
    fclose(f);
    for (int i = 0; i < NT; i++) rehash(i);
    violArmed = true;
    std::string why = ""; bool ok = false;
    if (setjmp(violJmp)) { ok = true; }
    else {
      if (!replaySchedule(s, why)) { printf("{\"replay\":\"diverged\",\"msg\":\"%s\"}\n", why.c_str()); return 4; }
      if (hasLoop) {
        u64 h = stateHash(); if (TRACE) printf("--- loop starts\n");
        u64 d = doneMask;
        if (!replaySchedule(lp, why)) { printf("{\"replay\":\"diverged\",\"msg\":\"%s\"}\n", why.c_str()); return 4; }
        if (stateHash() == h && d == doneMask) { ok = true; violKind = "progress"; violMsg = "the loop returns to the same state"; }
      } else if (allDone()) { if (TRACE) printf("--- all threads finished: %s\n", histStr(false).c_str()); checkTerminal(); if (TRACE) printf("--- final history: %s\n", histStr(true).c_str()); }
      else if (!enabled()) { ok = true; violKind = "deadlock"; violMsg = "no thread can run"; }
    }
    if (!ok && kind.empty()) { printf("{\"replay\":\"hash\",\"hash\":\"%016lx\"}\n", stateHash()); return 0; }
    std::string o; jstr(o, violMsg);
    printf("{\"replay\":\"%s\",\"kind\":\"%s\",\"msg\":%s}\n", ok ? "reproduced" : "not-reproduced", violKind.c_str(), o.c_str());
    return ok ? 0 : 5;
  }
  int rc, rounds = 0; u64 totTrans = 0;
  while (true) {
    rounds++;
    newShared.clear();
    // forget non-final sharing info
    rc = explore(); totTrans += nTrans;
    // A round that learnt new shared granules may have recorded an invocation too late (or, under TSO, may have let a write
    // bypass the buffer): its real-time verdicts count only once no new granule turns up.
    if (rc == RC_VIOL && !(!newShared.empty() && (TSO || violKind == "linearizability" || violKind == "fifo"))) break;
    if (rc == RC_CAP && strcmp(capWhy, "states")) break;
    if (newShared.empty()) break;
    for (u64 a : newShared) addShared(a);
  }
  int fairV = 0;
  std::string extra;
  if (rc == RC_OK) {
    if (FAIR && !LOOP) {
      if (fairCheck(false, -1)) { fairV = 1; violKind = "progress"; violMsg = "under a fair schedule the threads run forever without completing their operations (deadlock or livelock)"; }
    }
    if (LOOP) for (int v = 0; v < NT && !fairV; v++) if (fairCheck(true, v)) { fairV = 1; violKind = "starvation"; violMsg = "under a fair schedule thread " + std::to_string(v) + " never completes its operation (starvation)"; }
    if (STEPS) { if (!stepBound()) { fairV = 0; extra += ",\"steps_cyclic\":true"; } else { extra += ",\"own_steps\":["; for (int i = 0; i < NT; i++) extra += (i ? "," : "") + std::to_string(waitMaxSteps[i]); extra += "]"; } }
    if (fairV) rc = RC_VIOL;
  } else if (rc == RC_CAP && LOOP) {  // a cycle of the explored part in which every thread moves is a fair execution, whatever lies beyond
    for (int v = 0; v < NT && !fairV; v++) if (fairCheck(true, v)) { fairV = 1; violKind = "starvation"; violMsg = "under a fair schedule thread " + std::to_string(v) + " never completes its operation (starvation)"; }
    if (fairV) rc = RC_VIOL;
  }
  // replay a set of explored schedules from the root: same final state hash
  u64 replayed = 0; bool nondet = false;
  if (rc != RC_VIOL) for (size_t i = 0; i < sampleTraces.size(); i++) {
    restoreRoot(); for (int k = 0; k < NT; k++) rehash(k);
    std::string why; violArmed = true; if (setjmp(violJmp)) { nondet = true; break; }
    if (!replaySchedule(sampleTraces[i], why) || stateHash() != sampleHash[i]) { nondet = true; break; }
    replayed++;
  }
  std::string o = "{\"result\":\"";
  o += rc == RC_VIOL ? "violation" : rc == RC_CAP ? "capped" : "ok";
  o += "\"";
  if (rc == RC_CAP) { o += ",\"cap\":\""; o += capWhy; o += "\""; }
  if (nondet) o += ",\"nondeterministic\":true";
  char b[512];
  snprintf(b, sizeof b, ",\"states\":%zu,\"transitions\":%lu,\"total_transitions\":%lu,\"rounds\":%d,\"shared_granules\":%zu,\"terminals\":%lu,\"histories\":%lu,\"lin_checks\":%lu,\"max_depth\":%lu,\"replayed\":%lu,\"wall\":%.3f", parent.size(), nTrans, totTrans, rounds, sharedList.size(), nTerm, nDistinctHist, linChecks, maxDepthSeen, replayed, now() - t0);
  o += b; o += extra;
  if (KEEP_EDGES) { snprintf(b, sizeof b, ",\"sccs\":%lu,\"cyclic_sccs\":%lu", nScc, nBigScc); o += b; }
  o += ",\"samples\":["; for (size_t i = 0; i < sampleHist.size(); i++) { if (i) o += ","; jstr(o, sampleHist[i]); } o += "]";
  if (rc == RC_VIOL) {
    o += ",\"kind\":"; jstr(o, violKind); o += ",\"msg\":"; jstr(o, violMsg); snprintf(b, sizeof b, ",\"schedule_len\":%zu,\"loop_len\":%zu", violSched.size(), violLoop.size()); o += b;
    std::string wf = opt("witness");
    if (!wf.empty()) {
      FILE *f = fopen(wf.c_str(), "w");
      if (f) {
        fprintf(f, "# witness schedule: one thread number per scheduling step (16+t: flush of thread t's store buffer)\n");
        fprintf(f, "kind %s\nmsg %s\n", violKind.c_str(), violMsg.c_str());
        fprintf(f, "cmd"); for (int i = 0; i < argc; i++) if (strncmp(argv[i], "--witness", 9)) fprintf(f, " '%s'", argv[i]); fprintf(f, "\n");
        for (u64 a : sharedList) fprintf(f, "shared %lx\n", a);
        // long schedules are split over several lines
        for (size_t i = 0; i < violSched.size() || i == 0; i += 2000) { fprintf(f, "schedule"); for (size_t k = i; k < std::min(violSched.size(), i + 2000); k++) fprintf(f, " %d", violSched[k]); fprintf(f, "\n"); }
        for (size_t i = 0; i < violLoop.size(); i += 2000) { fprintf(f, "loop"); for (size_t k = i; k < std::min(violLoop.size(), i + 2000); k++) fprintf(f, " %d", violLoop[k]); fprintf(f, "\n"); }
        fclose(f);
      }
    }
  }
  o += "}";
  puts(o.c_str()); fflush(stdout);
  _exit(0);
}

int main(int argc, char **argv) { inMain = true; int rc = engineMain(argc, argv); inMain = false; return rc; }
