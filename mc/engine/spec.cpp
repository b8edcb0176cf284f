#include "spec.h"
#include "mc.h"
#include <algorithm>
#include <climits>
#include <cstdio>
#include <cstdlib>
#include <set>
#include <utility>
using namespace std;
static const long EMPTY = LONG_MIN + 1; // normalised "empty" answer of the harness adaptors
// E/P v: insert; D/O: remove
struct QueueSpec : Spec { SState init() override { return {}; }
  bool step(SState &s, const SOp &o) override {
    if (o.kind == 'E') { s.push_back(o.arg); return o.ret == 0; }
    if (s.empty()) return o.ret == EMPTY;
    if (o.ret != s[0]) return false; s.erase(s.begin()); return true; } };
struct StackSpec : Spec { SState init() override { return {}; }
  bool step(SState &s, const SOp &o) override {
    if (o.kind == 'P') { s.push_back(o.arg); return o.ret == 0; }
    if (s.empty()) return o.ret == EMPTY;
    if (o.ret != s.back()) return false; s.pop_back(); return true; } };
// set of keys: I insert (ret 0/1 ignored unless strict), S search -> 0/1, D delete -> 0/1 . specarg bit0: insert returns true if key was absent
struct SetSpec : Spec { long f; SetSpec(long a) : f(a) {} SState init() override { return {}; }
  bool step(SState &s, const SOp &o) override {
    auto it = find(s.begin(), s.end(), o.arg); bool has = it != s.end();
    if (o.kind == 'I') { if (!has) { s.push_back(o.arg); sort(s.begin(), s.end()); } return (f & 1) ? true : o.ret == 1; }
    if (o.kind == 'S') return o.ret == (has ? 1 : 0);
    if (o.kind == 'D') { if (has) s.erase(it); return (f & 2) ? true : o.ret == (has ? 1 : 0); }
    return false; } };
// log object: every 'A' returns the number of operations applied before it; the digest returned by the final reads
// ('R' with arg i) is the arg*1000+pid of the i-th applied operation
struct LogSpec : Spec { SState init() override { return {}; }
  bool step(SState &s, const SOp &o) override {
    if (o.kind == 'A') { if (o.ret != (long)s.size()) return false; s.push_back(o.arg * 1000 + mc_pid(o.t)); return true; }
    if (o.kind == 'R') { long v = o.arg < (long)s.size() ? s[o.arg] : -1; return o.ret == v; }
    return false; } };
// fetch-and-multiply/-add style register: 'F' a: returns old value, new = old*3+a  (order sensitive); 'S' a: returns old value, new = a
struct RmwSpec : Spec { long i0; RmwSpec(long a) : i0(a) {} SState init() override { return {i0}; }
  bool step(SState &s, const SOp &o) override { if (o.kind == 'G') return o.ret == s[0]; if (o.ret != s[0]) return false; if (o.kind == 'S') s[0] = o.arg; else if (o.arg) s[0] = (long)((unsigned long)s[0] * 3ul + (unsigned long)o.arg * 64 + mc_pid(o.t)); return true; } };
// announce object: 'A' with unique arg; returns running digest; checks that the applied argument/pid are the announcer's
// 128-bit location under atomic primitives (operands: indices into the same table as in harness/prims.c)
struct WordSpec : Spec { long i0; WordSpec(long a) : i0(a) {}
  static long V(long i) { static const long v[8] = {0, 1, -1, LONG_MAX, LONG_MIN, 0x100000000L, 0x80000000L, 0x7fffffffL}; return v[i & 7]; }
  SState init() override { return {V(i0), V(i0 >> 3)}; }
  bool step(SState &s, const SOp &o) override {
    unsigned long w = s[0]; unsigned lo = w, hi = w >> 32; long a = o.arg; bool hit;
    switch (o.kind) {
    case 'C': case 'P': hit = s[0] == V(a >> 3); if (hit) s[0] = V(a); return o.ret == hit;
    case 'c': hit = lo == (unsigned)V(a >> 3); if (hit) s[0] = (long)((unsigned long)hi << 32 | (unsigned)V(a)); return o.ret == hit;
    case 'h': hit = hi == (unsigned)V(a >> 3); if (hit) s[0] = (long)((unsigned long)(unsigned)V(a) << 32 | lo); return o.ret == hit;
    case 'X': if (o.ret != s[0]) return false; s[0] = V(a); return true;
    case 'A': if (o.ret != s[0]) return false; s[0] = (long)(w + (unsigned long)V(a)); return true;
    case 'a': if (o.ret != (long)(int)lo) return false; s[0] = (long)((unsigned long)hi << 32 | (unsigned)(lo + (unsigned)V(a))); return true;
    case 'T': { long bit = w >> a & 1; if (o.ret != s[0] && o.ret != bit) return false; s[0] = (long)(w | 1ul << a); return true; } // documented: the result of the test; delivered: the old word
    case 'D': hit = s[0] == V(a >> 9) && s[1] == V(a >> 6); if (hit) { s[0] = V(a >> 3); s[1] = V(a); } return o.ret == hit;
    case 'G': return o.ret == s[a];
    case 'K': return true; }
    return false; } };
// two independent objects: upper-case operations belong to the first, lower-case ones to the second. State: length of the first part, first part, second part
struct PairSpec : Spec { Spec *a, *b; PairSpec(Spec *x, Spec *y) : a(x), b(y) {}
  SState join(const SState &x, const SState &y) { SState s{(long)x.size()}; s.insert(s.end(), x.begin(), x.end()); s.insert(s.end(), y.begin(), y.end()); return s; }
  SState init() override { return join(a->init(), b->init()); }
  bool step(SState &s, const SOp &o) override {
    SState x(s.begin() + 1, s.begin() + 1 + s[0]), y(s.begin() + 1 + s[0], s.end()); SOp p = o; bool second = o.kind >= 'a'; if (second) p.kind -= 32;
    if (!(second ? b->step(y, p) : a->step(x, p))) return false;
    s = join(x, y); return true; } };
struct NoSpec : Spec { SState init() override { return {}; } bool step(SState &, const SOp &) override { return true; } };
Spec *makeSpec(const string &n, long a) {
  if (n.rfind("pair:", 0) == 0) { size_t k = n.find(':', 5); return new PairSpec(makeSpec(n.substr(5, k - 5), a), makeSpec(n.substr(k + 1), a)); }
  if (n == "queue") return new QueueSpec; if (n == "stack") return new StackSpec; if (n == "set") return new SetSpec(a);
  if (n == "log") return new LogSpec; if (n == "rmw") return new RmwSpec(a); if (n == "word") return new WordSpec(a); if (n == "" || n == "none") return nullptr;
  fprintf(stderr, "unknown spec %s\n", n.c_str()); exit(3);
}
namespace { struct Ctx { Spec &sp; const vector<SOp> &ops; set<pair<uint64_t, SState>> seen; uint64_t &nodes; }; }
static bool rec(Ctx &c, uint64_t done, const SState &s) {
  size_t n = c.ops.size();
  if (done == (n == 64 ? ~0ull : (1ull << n) - 1)) return true;
  if (!c.seen.insert({done, s}).second) return false;
  c.nodes++;
  for (size_t i = 0; i < n; i++) if (!(done >> i & 1) && (c.ops[i].pred & ~done) == 0) {
    SState x = s;
    if (c.sp.step(x, c.ops[i]) && rec(c, done | 1ull << i, x)) return true;
  }
  return false;
}
bool linearizable(Spec &sp, const vector<SOp> &ops, uint64_t &nodes, const SState &s0) { Ctx c{sp, ops, {}, nodes}; return rec(c, 0, s0); }
