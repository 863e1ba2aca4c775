/* C10 arena, C11 buffer stack, C15 hashtable, C21 queue: every operation sequence up to a depth
   on the real structures, against reference models, with heap checking. */
#include "vs.h"
#include <errno.h>
#include <string.h>
#include "hashtable.h"
#include "queue.h"
#include "arena.h"

/* ============================================================ C15 hashtable */
struct ent { uint32_t key; uint32_t val; };
static int hmode;
#define NK 700
static uint64_t hfn(const void* e) {
    uint32_t k = ((const struct ent*)e)->key;
    switch (hmode) {
    case 0: return k;                            /* what handles/ids look like */
    case 1: return 5;                            /* total collision */
    case 2: return 14 + (k & 3);                 /* chains across the end of the table */
    case 3: return (k & 1) ? 15 : 31;            /* distinct hashes, same slot at capacity 16 */
    case 4: return (uint64_t)k << 4;             /* same slot at capacity 16, spread at 32 and 64 */
    case 5: return (k * 0x9e3779b97f4a7c15ull) >> 32;   /* like random numbers */
    case 6: return (k & 1) ? 31 : 14;            /* chains that overtake each other when the table is halved */
    default: { static const uint8_t H[] = { 14, 31, 15, 30, 13, 29, 63, 46 }; return H[k & 7]; }
    }
}
static int cfn(const void* a, const void* b) { return ((const struct ent*)a)->key == ((const struct ent*)b)->key ? 0 : 1; }
static struct { bool in; uint32_t val; } M[NK]; static int Mn;
static int seen_[NK];
static void enumfn(int ix, const void* e, void* ctx) {
    (void)ix; const struct ent* x = e;
    VS_CHECK(ctx == (void*)M, "enumerate passed a wrong context");
    VS_CHECK(x->key < NK && M[x->key].in, "enumerate visited key %u, which is not in the table", x->key);
    VS_CHECK(x->val == M[x->key].val, "enumerate visited key %u with a stale value", x->key);
    seen_[x->key]++;
}
static void ht_verify(gr_hashtable_t* t, uint32_t hi) {
    for (uint32_t k = 0; k < hi; k++) {
        struct ent q = { k, 0xdead }; struct ent* g = gr_hashtable_get(t, &q);
        if (M[k].in) { VS_CHECK(g, "lookup of present key %u fails", k); VS_CHECK(vs_addr_ok(g, sizeof *g) && g->key == k && g->val == M[k].val, "lookup of key %u finds the wrong entry", k); }
        else VS_CHECK(!g, "lookup of absent key %u finds an entry", k);
    }
    memset(seen_, 0, sizeof seen_);
    gr_hashtable_enumerate(t, enumfn, M);
    for (uint32_t k = 0; k < NK; k++) VS_CHECK(seen_[k] == (M[k].in ? 1 : 0), "enumeration visited key %u %d times (present: %d)", k, seen_[k], M[k].in);
}
static void ht_set(gr_hashtable_t* t, uint32_t k, uint32_t v) {
    struct ent e = { k, v }; struct ent* old = gr_hashtable_set(t, &e);
    if (M[k].in) VS_CHECK(old && old->key == k && old->val == M[k].val, "replacing key %u does not return the old entry", k);
    else { VS_CHECK(!old, "inserting new key %u claims to replace an entry", k); Mn++; }
    M[k].in = true; M[k].val = v;
}
static void ht_remove(gr_hashtable_t* t, uint32_t k) {
    struct ent e = { k, 0 }; struct ent* old = gr_hashtable_remove(t, &e);
    if (M[k].in) { VS_CHECK(old && old->key == k && old->val == M[k].val, "removing key %u does not return its entry", k); M[k].in = false; Mn--; }
    else VS_CHECK(!old, "removing absent key %u returns an entry", k);
}
/* every history of set/remove over nkeys keys up to a depth, starting from a table with some entries */
VS_SCENARIO(ht_seq) {
    hmode = (int)vs_param("hash", 0); int nk = (int)vs_param("keys", 4), depth = (int)vs_param("depth", 6), pre = (int)vs_param("prefill", 0), up = (int)vs_param("upto", 0);
    memset(M, 0, sizeof M); Mn = 0;
    gr_hashtable_t* t = vs_guarded_alloc(sizeof *t);
    VS_CHECK(!gr_hashtable_construct(t, (size_t)vs_param("cap", 0), sizeof(struct ent), hfn, cfn), "construct fails");
    /* fill up to 'upto' first and drain to 'prefill': the capacity then comes from an earlier growth */
    int hi = pre > up ? pre : up;
    if (hi + nk > NK) hi = NK - nk;
    for (int i = 0; i < hi; i++) ht_set(t, (uint32_t)(nk + i), (uint32_t)(100 + i));
    for (int i = hi; i-- > pre; ) ht_remove(t, (uint32_t)(nk + i));
    ht_verify(t, (uint32_t)(nk + hi));
    uint32_t ver = 1;
    for (int d = 0; d < depth; d++) {
        vs_prune(vs_mix(vs_heap_hash(), 1), depth - d);
        int op = vs_choose(2 * nk, "operation");
        if (op < nk) { ht_set(t, (uint32_t)op, M[op].in ? (M[op].val ^ 1) : ver); }
        else ht_remove(t, (uint32_t)(op - nk));
        vs_trace("%s %d", op < nk ? "set" : "remove", op % nk);
        ht_verify(t, (uint32_t)(nk + hi));
        vs_count("operations", 1);
    }
    vs_outcome((uint64_t)Mn);
    gr_hashtable_destroy(t);
    vs_check_no_leaks("after the table was destroyed");
}
/* long deterministic growth and shrink through several capacities, then every removal order class */
VS_SCENARIO(ht_growshrink) {
    memset(M, 0, sizeof M); Mn = 0; hmode = vs_choose(8, "hash function");
    static const int sizes[] = { 3, 6, 11, 12, 13, 23, 24, 25, 48, 49, 60 };
    int n = sizes[vs_choose(11, "fill")], order = vs_choose(4, "removal order"), keep = vs_choose(3, "re-insert");
    gr_hashtable_t* t = vs_guarded_alloc(sizeof *t);
    VS_CHECK(!gr_hashtable_construct(t, vs_choose(2, "initial capacity") ? 17 : 0, sizeof(struct ent), hfn, cfn), "construct fails");
    for (int i = 0; i < n; i++) { ht_set(t, (uint32_t)i, (uint32_t)i); ht_verify(t, (uint32_t)n + 2); if (i % 4 == 0) { ht_remove(t, (uint32_t)n + 1); ht_verify(t, (uint32_t)n + 2); } }
    ht_verify(t, (uint32_t)n + 2);
    for (int i = 0; i < n; i++) {
        uint32_t k = order == 0 ? (uint32_t)i : order == 1 ? (uint32_t)(n - 1 - i) : order == 2 ? (uint32_t)((i * 7) % n) : (uint32_t)(i ^ 1);
        if (k >= (uint32_t)n) k = (uint32_t)i;
        ht_remove(t, k); ht_verify(t, (uint32_t)n + 2);
        if (keep && i % 3 == keep) { ht_set(t, k, 500 + k); ht_verify(t, (uint32_t)n + 2); }
        vs_count("operations", 1);
    }
    vs_trace("fill %d hash %d order %d re-insert %d", n, hmode, order, keep);
    vs_outcome((uint64_t)Mn);
    gr_hashtable_destroy(t);
    vs_check_no_leaks("after the table was destroyed");
}

/* hundreds of entries, all of them colliding or not */
VS_SCENARIO(ht_wide) {
    static const int sizes[] = { 130, 255, 256, 257, 258, 400, 520, 690 };
    memset(M, 0, sizeof M); Mn = 0; hmode = vs_choose(8, "hash function");
    int n = sizes[vs_choose(8, "fill")], order = vs_choose(3, "removal order");
    vs_long(20000000);
    gr_hashtable_t* t = vs_guarded_alloc(sizeof *t);
    VS_CHECK(!gr_hashtable_construct(t, 0, sizeof(struct ent), hfn, cfn), "construct fails");
    for (int i = 0; i < n; i++) { ht_set(t, (uint32_t)i, (uint32_t)i); if (i % 64 < 2) ht_verify(t, (uint32_t)n + 2); }
    ht_verify(t, (uint32_t)n + 2);
    for (int i = 0; i < n; i++) {
        uint32_t k = order == 0 ? (uint32_t)i : order == 1 ? (uint32_t)(n - 1 - i) : (uint32_t)(((uint64_t)i * 7) % (uint32_t)n);
        ht_remove(t, k); if (i % 64 < 2) ht_verify(t, (uint32_t)n + 2);
        vs_count("operations", 1);
    }
    ht_verify(t, (uint32_t)n + 2);
    vs_trace("fill %d hash %d order %d", n, hmode, order);
    gr_hashtable_destroy(t);
    vs_check_no_leaks("after the table was destroyed");
}

/* ============================================================ C21 queue */
static int q_depth, q_cap;
static void q_run(struct gr_queue* q, int cap, int depth, int salt) {
    void* ref[64]; int n = 0, next = 1;
    for (int d = 0; d < depth; d++) {
        uint64_t st = vs_mix((uint64_t)salt, vs_heap_hash()); for (int i = 0; i < n; i++) st = vs_mix(st, 1); 
        vs_prune(vs_mix(st, (uint64_t)d), depth - d);
        if (vs_choose(2, "operation") == 0) {
            void* p = (void*)(uintptr_t)(0x1000 + next++);
            int r = gr_queue_enqueue(q, p);
            vs_trace("enqueue -> %d", r);
            if (n < cap) { VS_CHECK(r == 0, "a queue holding %d of %d elements refuses an element", n, cap); ref[n++] = p; }
            else VS_CHECK(r != 0, "a full queue accepts an element");
        } else {
            void* p = gr_queue_dequeue(q);
            vs_trace("dequeue -> %p", p);
            if (!n) VS_CHECK(!p, "an empty queue returns an element");
            else { VS_CHECK(p == ref[0], "the queue returns %p, the oldest element is %p", p, ref[0]); memmove(ref, ref + 1, sizeof ref[0] * (size_t)--n); }
        }
        vs_count("operations", 1);
    }
    while (n) { void* p = gr_queue_dequeue(q); VS_CHECK(p == ref[0], "draining returns %p, the oldest element is %p", p, ref[0]); memmove(ref, ref + 1, sizeof ref[0] * (size_t)--n); }
    VS_CHECK(!gr_queue_dequeue(q), "a drained queue returns an element");
}
VS_SCENARIO(queue_seq) {
    q_cap = (int)vs_param("cap", 3); q_depth = (int)vs_param("depth", 12);
    struct gr_queue* q = vs_guarded_alloc(sizeof *q);
    VS_CHECK(!gr_queue_construct(q, (unsigned)q_cap), "construct fails");
    int fill = (int)vs_param("fill", 0);
    for (int i = 0; i < fill; i++) { VS_CHECK(!gr_queue_enqueue(q, (void*)(uintptr_t)(i + 1)), "refused"); VS_CHECK(gr_queue_dequeue(q) == (void*)(uintptr_t)(i + 1), "wrong element"); }
    q_run(q, q_cap, q_depth, q_cap);
    gr_queue_destroy(q);
    vs_check_no_leaks("after the queue was destroyed");
}
/* the state after 2^32-k enqueue/dequeue pairs, if the implementation uses free-running counters:
   those are the 32-bit words that equal n after n pairs */
VS_SCENARIO(queue_wrap) {
    int cap = (int)vs_param("cap", 32), depth = (int)vs_param("depth", 10), back = vs_choose(4, "distance to the wrap-around") + 1;
    struct gr_queue* q = vs_guarded_alloc(sizeof *q); uint32_t* w = (uint32_t*)q; bool cnt[sizeof *q / 4];
    memset(q, 0, sizeof *q);
    VS_CHECK(!gr_queue_construct(q, (unsigned)cap), "construct fails");
    struct gr_queue s0; memcpy(&s0, q, sizeof s0);
    int pairs = 3 * cap + 1;
    for (int i = 0; i < pairs; i++) { VS_CHECK(!gr_queue_enqueue(q, (void*)(uintptr_t)(i + 1)), "refused"); VS_CHECK(gr_queue_dequeue(q) == (void*)(uintptr_t)(i + 1), "wrong element"); }
    int nc = 0;
    for (size_t i = 0; i < sizeof *q / 4; i++) { cnt[i] = ((uint32_t*)&s0)[i] == 0 && w[i] == (uint32_t)pairs; nc += cnt[i]; }
    if (nc == 2) for (size_t i = 0; i < sizeof *q / 4; i++) if (cnt[i]) w[i] = (uint32_t)-back;
    vs_trace("%d free-running counters, %d before the wrap-around", nc, back);
    vs_count("free_running_counters", nc);
    q_run(q, cap, depth, back);
    gr_queue_destroy(q);
}

/* ============================================================ C10 arena */
struct blk { unsigned char* p; size_t n; unsigned char fill; };
static void* arena; static unsigned char *abase; static size_t asize;
static void blk_check(struct blk* b, int n) {
    for (int i = 0; i < n; i++) for (size_t j = 0; j < b[i].n; j++) VS_CHECK(b[i].p[j] == b[i].fill, "contents of a live block (%zu bytes) changed at offset %zu", b[i].n, j);
}
static void* a_alloc(size_t n) {
    unsigned char* p = gracht_arena_allocate(arena, NULL, n);
    if (p) VS_CHECK(vs_addr_ok(p, n), "block of %zu bytes is not inside the arena", n);
    return p;
}
static size_t biggest(size_t limit) { /* largest single block that can be allocated now */
    size_t lo = 0, hi = limit;
    while (lo < hi) { size_t m = (lo + hi + 1) / 2; void* p = a_alloc(m); if (p) { gracht_arena_free(arena, p, 0); lo = m; } else hi = m - 1; }
    return lo;
}
static void arena_seq(const size_t* sizes, int ns, const size_t* parts, int np, size_t asz, int maxb, int depth) {
    struct gracht_arena* a; struct blk b[8]; int n = 0;
    vs_set_threaded(false);
    VS_CHECK(!gracht_arena_create(asz, &a), "create fails"); arena = a; asize = asz;
    for (int d = 0; d < depth; d++) {
        uint64_t st = vs_heap_hash(); for (int i = 0; i < n; i++) st = vs_mix(vs_mix(st, b[i].n), (uint64_t)b[i].p & 0xffff);
        vs_prune(vs_mix(st, 3), depth - d);
        int nops = ns + n * (1 + np);
        int op = vs_choose(nops, "operation");
        if (op < ns) {
            if (n >= maxb) { vs_assume(false); }
            size_t sz = sizes[op]; unsigned char* p = a_alloc(sz);
            vs_trace("allocate(%zu) -> %s", sz, p ? "block" : "NULL");
            if (p) {
                for (int i = 0; i < n; i++) VS_CHECK(p + sz <= b[i].p || b[i].p + b[i].n <= p, "a new block of %zu bytes overlaps a live block of %zu bytes", sz, b[i].n);
                b[n].p = p; b[n].n = sz; b[n].fill = (unsigned char)(0x10 + d); memset(p, b[n].fill, sz); n++;
            } else VS_CHECK(n > 0 || sz > asz - 64, "an empty arena of %zu bytes cannot provide %zu bytes", asz, sz);
        } else {
            int i = (op - ns) / (1 + np), k = (op - ns) % (1 + np);
            if (k == 0) { vs_trace("free(block %d, %zu bytes)", i, b[i].n); gracht_arena_free(a, b[i].p, 0); memmove(&b[i], &b[i + 1], sizeof b[0] * (size_t)(--n - i)); }
            else {
                size_t give = parts[k - 1]; if (give >= b[i].n) vs_assume(false);
                vs_trace("partial free(block %d of %zu bytes, %zu)", i, b[i].n, give);
                gracht_arena_free(a, b[i].p, give); b[i].n -= give;
            }
        }
        blk_check(b, n);
        vs_count("operations", 1);
    }
    int order = vs_choose(2, "order of the final frees");
    vs_trace("free the remaining %d block(s), %s first", n, order ? "newest" : "oldest");
    while (n) { int i = order ? n - 1 : 0; blk_check(b, n); gracht_arena_free(a, b[i].p, 0); memmove(&b[i], &b[i + 1], sizeof b[0] * (size_t)(--n - i)); }
    size_t got = biggest(asz);
    VS_CHECK(got + 64 >= asz, "with everything freed only %zu of %zu bytes can be allocated", got, asz);
    vs_outcome(got);
    gracht_arena_destroy(a);
    vs_check_no_leaks("after the arena was destroyed");
}
VS_SCENARIO(arena_small) { static const size_t sz[] = { 40, 200, 300 }, pt[] = { 16, 150 }; arena_seq(sz, 3, pt, 2, 1024, 4, (int)vs_param("depth", 6)); }
VS_SCENARIO(arena_tight) { static const size_t sz[] = { 128, 252, 380, 508 }, pt[] = { 8, 64 }; arena_seq(sz, 4, pt, 2, 512, 3, (int)vs_param("depth", 6)); }
VS_SCENARIO(arena_odd)   { static const size_t sz[] = { 33, 129, 131, 262 }, pt[] = { 3, 11, 130 }; arena_seq(sz, 4, pt, 3, 777, 4, (int)vs_param("depth", 5)); }
/* the server's usage: blocks of one size, trimmed to the message, freed by workers in any order */
VS_SCENARIO(arena_server) { static const size_t sz[] = { 2560 }, pt[] = { 2500, 1000 }; arena_seq(sz, 1, pt, 2, 4 * 2560, 5, (int)vs_param("depth", 8)); }
VS_SCENARIO(arena_client) { static const size_t sz[] = { 11, 20, 2048 }; arena_seq(sz, 3, NULL, 0, 4096, 4, (int)vs_param("depth", 7)); }
/* boundary sizes: everything from 1 byte to the whole arena, one or two blocks */
VS_SCENARIO(arena_sizes) {
    struct gracht_arena* a; size_t asz = (size_t)vs_param("size", 600);
    vs_set_threaded(false);
    VS_CHECK(!gracht_arena_create(asz, &a), "create fails"); arena = a;
    size_t n1 = 1 + (size_t)vs_choose((int)asz + 8, "first size");
    static const size_t second[] = { 1, 64, 128, 300 };
    size_t n2 = second[vs_choose(4, "second size")]; int order = vs_choose(2, "order");
    unsigned char* p = a_alloc(n1); vs_trace("allocate(%zu) -> %s", n1, p ? "block" : "NULL");
    VS_CHECK(p || n1 + 64 > asz, "an empty arena of %zu bytes cannot provide %zu", asz, n1);
    if (p) memset(p, 0xA1, n1);
    unsigned char* q = a_alloc(n2); vs_trace("allocate(%zu) -> %s", n2, q ? "block" : "NULL");
    if (q) memset(q, 0xB2, n2);
    VS_CHECK(q || !p || n1 + n2 + 64 + 128 > asz, "%zu of %zu bytes are in use and %zu cannot be provided", n1, asz, n2);
    if (p && q) VS_CHECK(p + n1 <= q || q + n2 <= p, "blocks overlap");
    if (p) for (size_t i = 0; i < n1; i++) VS_CHECK(p[i] == 0xA1, "contents changed");
    if (q) for (size_t i = 0; i < n2; i++) VS_CHECK(q[i] == 0xB2, "contents changed");
    if (order) { if (p) gracht_arena_free(a, p, 0); if (q) gracht_arena_free(a, q, 0); } else { if (q) gracht_arena_free(a, q, 0); if (p) gracht_arena_free(a, p, 0); }
    size_t got = biggest(asz);
    VS_CHECK(got + 64 >= asz, "with everything freed only %zu of %zu bytes can be allocated", got, asz);
    gracht_arena_destroy(a);
    vs_check_no_leaks("after the arena was destroyed");
}
/* allocation and release from several threads */
static int arena_thread(void* arg) {
    size_t n = 100 + 30 * (size_t)(uintptr_t)arg; unsigned char tag = (unsigned char)(0x40 + (uintptr_t)arg);
    for (int i = 0; i < 2; i++) {
        unsigned char* p = gracht_arena_allocate(arena, NULL, n);
        VS_CHECK(p, "an arena with enough room refuses %zu bytes", n);
        memset(p, tag, n);
        vs_touch(&abase);
        if (i == 0) { gracht_arena_free(arena, p, 50); n -= 50; }
        for (size_t j = 0; j < n; j++) VS_CHECK(p[j] == tag, "contents of a block changed under a concurrent operation");
        gracht_arena_free(arena, p, 0);
    }
    return 0;
}
VS_SCENARIO(arena_mt) {
    struct gracht_arena* a; size_t asz = 2048;
    VS_CHECK(!gracht_arena_create(asz, &a), "create fails"); arena = a;
    int t1 = vs_spawn("A", arena_thread, (void*)1, false), t2 = vs_spawn("B", arena_thread, (void*)2, false);
    vs_join(t1); vs_join(t2);
    size_t got = biggest(asz);
    VS_CHECK(got + 64 >= asz, "with everything freed only %zu of %zu bytes can be allocated", got, asz);
    vs_outcome(got);
    gracht_arena_destroy(a);
    vs_check_no_leaks("after the arena was destroyed");
}
