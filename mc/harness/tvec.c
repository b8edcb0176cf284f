// Toggle vectors. --choose: one thread, every sequence of operations on three vectors (parameters n, budget). Otherwise: the threads toggle their bits ('A') in one shared vector.
#include <primitives.h>
#include <tvec.h>
#include <mc.h>
#define NV 3
#define MW 17
static ToggleVector *v; static uint64_t (*m)[MW]; static int n; static ToggleVector *mine;
static void *guard[NV];
void mc_setup(void) {
    int i, k; n = mc_param("n", mc_nthreads());
    v = mc_alloc(sizeof(ToggleVector) * NV); m = mc_alloc(sizeof(uint64_t) * MW * NV); mine = mc_alloc(sizeof(ToggleVector) * 16);
    for (i = 0; i < NV; i++) {
        if (i == 1) TVEC_INIT_AT(&v[i], n, mc_alloc(_TVEC_VECTOR_SIZE(n))); else TVEC_INIT(&v[i], n);
        for (k = 0; k < MW; k++) m[i][k] = 0;
    }
    for (i = 0; i < mc_nthreads(); i++) { TVEC_INIT(&mine[i], n); }
}
static void check(const char *what) {
    int i, b, c, words = (n + 63) / 64;
    for (i = 0; i < NV; i++) {
        for (c = b = 0; b < n; b++) { int s = m[i][b / 64] >> b % 64 & 1; c += s; if (TVEC_IS_SET(&v[i], b) != s) mc_fail("after %s: bit %d of vector %d is reported as %d (length %d)", what, b, i, !s, n); }
        for (b = 0; b < words; b++) if (v[i].cell[b] != m[i][b]) mc_fail("after %s: word %d of vector %d is %lx instead of %lx (length %d)", what, b, i, v[i].cell[b], m[i][b], n);
        for (c = b = 0; b < 64 * words; b++) c += m[i][b / 64] >> b % 64 & 1;
        if (TVEC_COUNT_BITS(&v[i]) != c) mc_fail("after %s: vector %d of length %d is reported to have %d bits instead of %d", what, i, n, TVEC_COUNT_BITS(&v[i]), c);
    }
}
static const int cand[] = {0, 1, 31, 32, 62, 63, 64, 65, 126, 127, 128, 130}, far[] = {0, 31, 32, 63, 64, 127, 128, 191, 192, 255, 256, 511, 512, 1022};
void mc_thread(int t) {
    int step, i, words = (n + 63) / 64;
    if (mc_param("choose", 0)) {
        int bits[24], nb = 0;
        if (n > 200) { for (i = 0; i < 14; i++) if (far[i] < n) bits[nb++] = far[i]; } else for (i = 0; i < 12; i++) if (cand[i] < n) bits[nb++] = cand[i];
        for (i = 0; i < nb && bits[i] != n - 1; i++) ; if (i == nb) bits[nb++] = n - 1;
        for (i = 0; i < n; i++) if (TVEC_GET_BANK_OF_BIT(i, n) != i / 64) mc_fail("bit %d of a vector of length %d is reported in bank %d", i, n, TVEC_GET_BANK_OF_BIT(i, n));
        check("initialisation");
        for (step = 0; step < mc_param("budget", 4); step++) {
            int op = mc_choose(13), d, s1 = 0, s2 = 0, b = 0, k;
            const char *names[] = {"set bit", "reverse bit", "zero", "copy", "negative", "or", "and", "xor", "copy bank", "add bank", "negative bank", "xor bank", "and bank"};
            d = mc_choose(op < 3 || words == 1 ? NV : NV);
            if (op < 2) b = bits[mc_choose(nb)];
            if (op >= 3) s1 = mc_choose(NV);
            if (op >= 5 && op <= 7 || op >= 11) s2 = mc_choose(NV);
            if (op >= 8) b = words > 1 ? mc_choose(words > 4 ? 5 : words) : 0;
            if (op >= 8 && b == 4) b = words - 1;
            mc_log("%s(%d %d %d %d)", names[op], d, s1, s2, b);
            switch (op) {
            case 0: TVEC_SET_BIT(&v[d], b); m[d][b / 64] |= (uint64_t)1 << b % 64; break;
            case 1: TVEC_REVERSE_BIT(&v[d], b); m[d][b / 64] ^= (uint64_t)1 << b % 64; break;
            case 2: TVEC_SET_ZERO(&v[d]); for (k = 0; k < words; k++) m[d][k] = 0; break;
            case 3: TVEC_COPY(&v[d], &v[s1]); for (k = 0; k < words; k++) m[d][k] = m[s1][k]; break;
            case 4: TVEC_NEGATIVE(&v[d], &v[s1]); for (k = 0; k < words; k++) m[d][k] = 0 - m[s1][k]; break;
            case 5: TVEC_OR(&v[d], &v[s1], &v[s2]); for (k = 0; k < words; k++) m[d][k] = m[s1][k] | m[s2][k]; break;
            case 6: TVEC_AND(&v[d], &v[s1], &v[s2]); for (k = 0; k < words; k++) m[d][k] = m[s1][k] & m[s2][k]; break;
            case 7: TVEC_XOR(&v[d], &v[s1], &v[s2]); for (k = 0; k < words; k++) m[d][k] = m[s1][k] ^ m[s2][k]; break;
            case 8: TVEC_ATOMIC_COPY_BANKS(&v[d], &v[s1], b); m[d][b] = m[s1][b]; break;
            case 9: TVEC_ATOMIC_ADD_BANK(&v[d], &v[s1], b); m[d][b] += m[s1][b]; break;
            case 10: TVEC_NEGATIVE_BANK(&v[d], &v[s1], b); m[d][b] = 0 - m[s1][b]; break;
            case 11: TVEC_XOR_BANKS(&v[d], &v[s1], &v[s2], b); m[d][b] = m[s1][b] ^ m[s2][b]; break;
            case 12: TVEC_AND_BANKS(&v[d], &v[s1], &v[s2], b); m[d][b] = m[s1][b] & m[s2][b]; break;
            }
            check(names[op]);
        }
        return;
    }
    {
        int pid = mc_pid(t), bank = TVEC_GET_BANK_OF_BIT(pid, n), want = 0;
        TVEC_SET_BIT(&mine[t], pid);
        for (i = 0; i < mc_prog_len(t); i++) {   // as the wait-free constructions do: add the bit, then its negative, then the bit ...
            mc_op_begin('A', 0);
            TVEC_ATOMIC_ADD_BANK(&v[0], &mine[t], bank);
            TVEC_NEGATIVE_BANK(&mine[t], &mine[t], bank);
            want ^= 1;
            if (TVEC_IS_SET(&v[0], pid) != want) mc_fail("bit %d is %d right after its owner made it %d", pid, !want, want);
            mc_op_end(0);
        }
    }
}
void mc_drain(void) {
    int t, c = 0; if (mc_param("choose", 0)) return;
    for (t = 0; t < mc_nthreads(); t++) { int want = mc_prog_len(t) & 1; c += want; if (TVEC_IS_SET(&v[0], mc_pid(t)) != want) mc_fail("bit %d is %d after %d toggles of its owner", mc_pid(t), !want, mc_prog_len(t)); }
    if (TVEC_COUNT_BITS(&v[0]) != c) mc_fail("%d bits are reported instead of %d", TVEC_COUNT_BITS(&v[0]), c);
}
