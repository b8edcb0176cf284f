// Atomic primitives on one 128-bit location. Operands are indices into a table of boundary values.
#include <primitives.h>
#include <mc.h>
static const long V[8] = {0, 1, -1, 0x7fffffffffffffffL, -0x7fffffffffffffffL - 1, 0x100000000L, 0x80000000L, 0x7fffffffL};
static uint64_t *w, *guard;
void mc_setup(void) {
    w = mc_alloc(64); w = w + 2;   // 16-byte aligned, neighbours in front and behind
    w[-1] = 0x1111; w[2] = 0x2222; w[0] = V[mc_param("specarg", 0) & 7]; w[1] = V[mc_param("specarg", 0) >> 3 & 7];
}
static int ctz(uint64_t x) { int i; for (i = 0; !(x >> i & 1); i++); return i; }
static int cnt(uint64_t x) { int i, c = 0; for (i = 0; i < 64; i++) c += x >> i & 1; return c; }
static void bits(uint64_t x) {
    if (x && (int)synchBitSearchFirst(x) != ctz(x)) mc_fail("the first set bit of %lx is reported as %d", x, (int)synchBitSearchFirst(x));
    if ((int)synchNonZeroBits(x) != cnt(x)) mc_fail("%lx is reported to have %d bits", x, (int)synchNonZeroBits(x));
}
// every primitive with every pair of operands on every value, one after the other, against its definition
static long op(int k, long a) {
    switch (k) {
    case 'C': return synchCAS64(&w[0], V[a >> 3], V[a & 7]);
    case 'P': return synchCASPTR(&w[0], V[a >> 3], V[a & 7]);
    case 'c': return synchCAS32(&w[0], V[a >> 3], V[a & 7]);
    case 'h': return synchCAS32((uint32_t *)&w[0] + 1, V[a >> 3], V[a & 7]);
    case 'X': return (long)synchSWAP(&w[0], V[a]);
    case 'A': return synchFAA64(&w[0], V[a]);
    case 'a': return synchFAA32(&w[0], V[a]);
    case 'T': return synchBitTAS64(&w[0], a);
    case 'D': return synchCAS128(&w[0], V[a >> 9 & 7], V[a >> 6 & 7], V[a >> 3 & 7], V[a & 7]);
    }
    return 0;
}
static void one(int k, long a, int i0, int i1) {
    uint64_t x = V[i0], y = V[i1], n = x, m = y; uint32_t lo = x, hi = x >> 32; long want = 0, r;
    w[0] = x; w[1] = y; w[-1] = 0x1111; w[2] = 0x2222;
    switch (k) {
    case 'C': case 'P': want = x == (uint64_t)V[a >> 3]; if (want) n = V[a & 7]; break;
    case 'c': want = lo == (uint32_t)V[a >> 3]; if (want) n = (uint64_t)hi << 32 | (uint32_t)V[a & 7]; break;
    case 'h': want = hi == (uint32_t)V[a >> 3]; if (want) n = (uint64_t)(uint32_t)V[a & 7] << 32 | lo; break;
    case 'X': want = x; n = V[a]; break;
    case 'A': want = x; n = x + (uint64_t)V[a]; break;
    case 'a': want = (int32_t)lo; n = (uint64_t)hi << 32 | (uint32_t)(lo + (uint32_t)V[a]); break;
    case 'T': want = x; n = x | (uint64_t)1 << a; break;
    case 'D': want = x == (uint64_t)V[a >> 9 & 7] && y == (uint64_t)V[a >> 6 & 7]; if (want) { n = V[a >> 3 & 7]; m = V[a & 7]; } break;
    }
    r = op(k, a);
    if (r != want && !(k == 'T' && r == (x >> a & 1))) mc_fail("primitive %c with operands %lo on %lx,%lx returned %ld instead of %ld", k, a, (long)x, (long)y, r, want);
    if (w[0] != n || w[1] != m) mc_fail("primitive %c with operands %lo on %lx,%lx left %lx,%lx instead of %lx,%lx", k, a, (long)x, (long)y, (long)w[0], (long)w[1], (long)n, (long)m);
    if (w[-1] != 0x1111 || w[2] != 0x2222) mc_fail("primitive %c changed a neighbouring word", k);
}
static void sequential(void) {
    static const char kinds[] = "CPchXAaTD"; static const int range[] = {64, 64, 64, 64, 8, 8, 8, 64, 4096};
    int k, i0, i1; long a;
    for (k = 0; kinds[k]; k++) for (a = 0; a < range[k]; a++) for (i0 = 0; i0 < 8; i0++) for (i1 = 0; i1 < 8; i1++) one(kinds[k], a, i0, i1);
}
void mc_thread(int t) {
    int i;
    for (i = 0; i < mc_prog_len(t); i++) {
        int k = mc_prog_kind(t, i); long a = mc_prog_arg(t, i), r = 0;
        mc_op_begin(k, a);
        if (k == 'S') sequential();
        else if (k == 'G') r = w[a];
        else if (k == 'K') { int x, y, z; uint64_t u = 1; bits(0); bits(~0ull); for (x = 0; x < 64; x++) for (y = x; y < 64; y++) for (z = y; z < 64; z++) { uint64_t v = u << x | u << y | u << z; bits(v); bits(~v); } bits(0x5555555555555555ull); bits(0xaaaaaaaaaaaaaaaaull); bits(0x8000000080000000ull); }
        else r = op(k, a);
        mc_op_end(r);
    }
}
void mc_drain(void) {
    int i; for (i = 0; i < 2; i++) { mc_op_begin('G', i); mc_op_end(w[i]); }
    if (w[-1] != 0x1111 || w[2] != 0x2222) mc_fail("a neighbouring word changed");
}
