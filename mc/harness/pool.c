// Object pools (one thread, every sequence of operations up to a budget). 'Z' size...: the object sizes to choose from. Parameters: budget, pools, recycling (0: disabled in this build)
#include <pool.h>
#include <mc.h>
#define MAXO 24
typedef struct { SynchPoolStruct pool; int used; long size, blocks; int n; unsigned char *obj[MAXO]; int id[MAXO], fresh[MAXO]; int recycled, rolled, next; } P;
static P *ps;
static unsigned char pat(int id, long off) { return id * 37 + off * 11 + 5; }
static long spots[7]; static int nspots;
static void place(long size) {   // the bytes of an object that are written and checked
    long c[6]; int i, k; c[0] = 0; c[1] = 1; c[2] = 7; c[3] = size / 2; c[4] = size - 8; c[5] = size - 1;
    nspots = 0;
    for (i = 0; i < 6; i++) { if (c[i] < 0 || c[i] >= size) continue; for (k = 0; k < nspots; k++) if (spots[k] == c[i]) break; if (k == nspots) spots[nspots++] = c[i]; }
}
static void check(P *p) {
    int i, k; place(p->size);
    for (i = 0; i < p->n; i++) for (k = 0; k < nspots; k++) if (p->obj[i][spots[k]] != pat(p->id[i], spots[k])) mc_fail("byte %ld of object %d (size %ld) changed although nobody wrote to it", spots[k], p->id[i], p->size);
}
static void drop(P *p, int i) { p->n--; for (; i < p->n; i++) { p->obj[i] = p->obj[i + 1]; p->id[i] = p->id[i + 1]; p->fresh[i] = p->fresh[i + 1]; } }
static void alloc(P *p) {
    long live = mc_live_blocks(); unsigned char *o = synchAllocObj(&p->pool); int i, k, q;
    mc_log("alloc"); p->blocks += mc_live_blocks() - live;
    if (!o) mc_fail("synchAllocObj returned NULL");
    if (!mc_is_live(o, p->size)) mc_fail("object of %ld bytes at %p does not lie inside memory of the pool", p->size, o);
    for (q = 0; q < mc_param("pools", 1); q++) if (ps[q].used) for (i = 0; i < ps[q].n; i++)
        if (o < ps[q].obj[i] + ps[q].size && ps[q].obj[i] < o + p->size) mc_fail("object at %p (size %ld) overlaps object %d of pool %d at %p, which is in use", o, p->size, ps[q].id[i], q, ps[q].obj[i]);
    if (p->recycled > 0 && mc_param("recycling", 1) && mc_live_blocks() != live) mc_fail("new memory was obtained although recycled objects are available");
    if (p->rolled > 0 && mc_live_blocks() != live) mc_fail("new memory was obtained although allocations had been rolled back");
    p->obj[p->n] = o; p->id[p->n] = p->next++; p->fresh[p->n] = p->recycled == 0; p->n++;
    if (p->recycled > 0) p->recycled--; else if (p->rolled > 0) p->rolled--;
    place(p->size); for (k = 0; k < nspots; k++) o[spots[k]] = pat(p->id[p->n - 1], spots[k]);
}
void mc_setup(void) { ps = mc_alloc(sizeof(P) * mc_param("pools", 1)); { int i; for (i = 0; i < mc_param("pools", 1); i++) ps[i].used = 0; } }
void mc_thread(int t) {
    int budget = mc_param("budget", 6), step, np = mc_param("pools", 1), q, i;
    for (step = 0; step < budget; step++) {
        P *p = &ps[np > 1 ? mc_choose(np) : 0];
        for (q = 0; q < np; q++) if (ps[q].used) check(&ps[q]);
        if (!p->used) {
            long size = mc_prog_arg(0, mc_choose(mc_prog_len(0))), live = mc_live_blocks(); int r;
            mc_log("init(%ld)", size);
            r = synchInitPool(&p->pool, size);
            if (r != SYNCH_POOL_INIT_SUCC) {
                if (r != SYNCH_POOL_INIT_ERROR) mc_fail("synchInitPool returned %d", r);
                if (size <= 1 << 20) mc_fail("a pool of %ld-byte objects was refused", size);
                if (mc_live_blocks() != live) mc_fail("a refused pool keeps memory");
            } else { p->used = 1; p->size = size; p->n = p->recycled = p->rolled = p->next = 0; p->blocks = mc_live_blocks() - live; }
        } else {
            int nfresh = 0, c, nrec = p->n < 4 ? p->n : 4;
            for (i = p->n - 1; i >= 0 && p->fresh[i] && p->id[i] == p->next - (p->n - i); i--) nfresh++;
            c = mc_choose(2 + nrec + nfresh > 15 ? 15 : 2 + nrec + nfresh);
            if (c == 0) { if (p->n < MAXO) alloc(p); }
            else if (c == 1) {
                long live = mc_live_blocks();
                synchDestroyPool(&p->pool); mc_log("destroy");
                if (live - mc_live_blocks() != p->blocks) mc_fail("destroying the pool released %ld of the %ld blocks it obtained", live - mc_live_blocks(), p->blocks);
                p->used = 0;
            } else if (c < 2 + nrec) {
                int k = c - 2; if (k == 2 && p->n > 3) k = p->n - 2; else if (k == 3) k = p->n - 1;
                mc_log("recycle(%d)", p->id[k]);
                synchRecycleObj(&p->pool, p->obj[k]); drop(p, k); p->recycled++;
            } else {
                int k = c - 2 - nrec + 1; mc_log("rollback(%d)", k);
                synchRollback(&p->pool, k);
                p->n -= k; p->next -= k; p->rolled += k;
            }
        }
        for (q = 0; q < np; q++) if (ps[q].used) check(&ps[q]);
    }
    for (q = 0; q < np; q++) if (ps[q].used) synchDestroyPool(&ps[q].pool);
}
void mc_drain(void) {}
