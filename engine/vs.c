/* vsched: fibers, scheduler, exploration, heap and access checking. */
#define _GNU_SOURCE
#include "vs.h"
#include <errno.h>
#include <setjmp.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

enum { CL_NONE, CL_P, CL_F, CL_S, CL_E, NCL };
static const char* const cl_name[NCL] = { "none", "preemptions", "switches", "spurious", "env" };

/* ------------------------------------------------------------------ fibers */
struct fiber {
    int id; const char* name;
    void* sp; char* stack;
    enum { F_FREE, F_LIVE, F_DONE } state;
    int (*fn)(void*); void* arg; int ret;
    bool daemon, quiesc, timed, timed_fired, yielding, spin, cutthr;
    bool (*pred)(void*); void* pred_arg; const char* what;
    void* cond; bool signaled;          /* condition wait */
    bool detached;
    int err;
    uint64_t h;
    uint32_t vc[VS_MAXF];
    void* emutls[64];
};
static struct fiber F[VS_MAXF];
static int nF, cur;
#define STACKSZ (256*1024)

__asm__(
".text\n.globl vs_switch\n.type vs_switch,@function\nvs_switch:\n"
" pushq %rbp\n pushq %rbx\n pushq %r12\n pushq %r13\n pushq %r14\n pushq %r15\n"
" movq %rsp,(%rdi)\n movq %rsi,%rsp\n"
" popq %r15\n popq %r14\n popq %r13\n popq %r12\n popq %rbx\n popq %rbp\n ret\n");
void vs_switch(void** save, void* load);

static sigjmp_buf exec_jmp;
enum { X_DONE = 1, X_PRUNE, X_FAIL, X_RACE };
static bool in_exec;
static volatile bool sig_in_exec;
const char* vs_where = "";

/* ------------------------------------------------------------------ exploration state */
struct rec { uint16_t n, chosen; uint8_t nc; uint8_t cls[2*VS_MAXF]; uint16_t used[NCL]; const char* what; };
static struct rec* R; static size_t Rn, Rcap, prefix_len;
static int B[NCL];                        /* bounds */
static uint16_t used_now[NCL];
static bool replaying, verbose;
static uint64_t n_nodes; /* distinct histories of data choices (the states of histories that are run to quiescence) */

static uint64_t n_exec, n_pruned, n_points, n_visible, n_states, n_done;
static size_t max_points, max_choices; static uint64_t max_steps_seen;
static uint64_t outcome; 
static uint64_t* outtab; static size_t outcap, n_outcomes;
static char failmsg[2048];
static char tracebuf[1<<16]; static size_t tracelen;
static uint64_t steps, points;
#define POINTS 60000
static uint64_t step_limit = 30000000, point_limit = POINTS;
void vs_long(uint64_t points) { point_limit = points; step_limit = points * 500; }
static bool allow_deadlock;
static bool threaded = true;

/* ------------------------------------------------------------------ params, counters */
static struct { char k[40]; long v; } params[64]; static int nparams;
static struct { char k[40]; long v; } counters[64]; static int ncounters;
long vs_param(const char* name, long d) {
    for (int i = 0; i < nparams; i++) if (!strcmp(params[i].k, name)) return params[i].v;
    return d;
}
void vs_count(const char* name, long n) {
    for (int i = 0; i < ncounters; i++) if (!strcmp(counters[i].k, name)) { counters[i].v += n; return; }
    if (ncounters < 64) { snprintf(counters[ncounters].k, 40, "%s", name); counters[ncounters++].v = n; }
}
uint64_t vs_hash_bytes(uint64_t h, const void* p, size_t n) {
    const unsigned char* c = p;
    while (n >= 8) { uint64_t v; memcpy(&v, c, 8); h = vs_mix(h, v); c += 8; n -= 8; }
    uint64_t v = n; for (size_t i = 0; i < n; i++) v = (v << 8) | c[i];
    return vs_mix(h, v);
}

void vs_trace(const char* fmt, ...) {
    va_list ap; va_start(ap, fmt);
    if (tracelen < sizeof tracebuf - 600) {
        int n = vsnprintf(tracebuf + tracelen, 512, fmt, ap);
        if (n > 511) n = 511;
        tracelen += (size_t)n; tracebuf[tracelen++] = '\n'; tracebuf[tracelen] = 0;
    }
    va_end(ap);
}
static void leave(int code) __attribute__((noreturn));
static void leave(int code) { in_exec = false; sig_in_exec = false; siglongjmp(exec_jmp, code); }
void vs_fail(const char* fmt, ...) {
    va_list ap; va_start(ap, fmt);
    vsnprintf(failmsg, sizeof failmsg, fmt, ap);
    va_end(ap);
    leave(X_FAIL);
}
void vs_assume(bool c) { if (!c) { n_pruned++; leave(X_PRUNE); } }
void vs_outcome(uint64_t h) { outcome = vs_mix(outcome, h); }

/* ------------------------------------------------------------------ seen table */
struct seen { uint64_t key, bud; };
static struct seen* ST; static size_t STcap, STn;
static uint64_t pack_rem(int depth) {
    uint64_t p = 0;
    for (int c = 1; c < NCL; c++) { int r = B[c] - used_now[c]; if (r < 0) r = 0; if (r > 4095) r = 4095; p = (p << 12) | (uint64_t)r; }
    if (depth > 4095) depth = 4095;
    return (p << 12) | (uint64_t)depth;
}
static bool dominates(uint64_t a, uint64_t b) { /* a >= b in every 12-bit field */
    for (int i = 0; i < 5; i++) { if ((a & 4095) < (b & 4095)) return false; a >>= 12; b >>= 12; }
    return true;
}
static void st_grow(void) {
    size_t nc = STcap ? STcap * 2 : 1 << 16; struct seen* o = ST; size_t oc = STcap;
    ST = calloc(nc, sizeof *ST); STcap = nc;
    if (!ST) { fprintf(stderr, "vs: out of memory for the state table\n"); _exit(4); }
    for (size_t i = 0; i < oc; i++) if (o[i].key) {
        size_t j = o[i].key & (nc - 1); while (ST[j].key) j = (j + 1) & (nc - 1); ST[j] = o[i];
    }
    free(o);
}
static bool seen_or_add(uint64_t key, uint64_t bud) {
    if (!key) key = 1;
    if ((STn + 1) * 10 > STcap * 7) st_grow();
    size_t j = key & (STcap - 1);
    while (ST[j].key) {
        if (ST[j].key == key) {
            if (dominates(ST[j].bud, bud)) return true;
            if (dominates(bud, ST[j].bud)) { ST[j].bud = bud; return false; }
        }
        j = (j + 1) & (STcap - 1);
    }
    ST[j].key = key; ST[j].bud = bud; STn++; n_states++;
    return false;
}

/* ------------------------------------------------------------------ choices */
static int choose(int n, const uint8_t* cls, const char* what) {
    if (n <= 1) return 0;
    struct rec* r;
    if (Rn < prefix_len) {
        r = &R[Rn];
        if (r->n != n) vs_fail("vs-internal: nondeterministic replay at choice %zu (%s: %d alternatives, had %d at %s)", Rn, what, n, r->n, r->what);
    } else {
        if (Rn == Rcap) { Rcap = Rcap ? Rcap * 2 : 4096; R = realloc(R, Rcap * sizeof *R); }
        r = &R[Rn];
        r->n = (uint16_t)n; r->chosen = 0; r->nc = 0; r->what = what;
        if (cls) { r->nc = (uint8_t)n; memcpy(r->cls, cls, (size_t)n); }
        memcpy(r->used, used_now, sizeof used_now); if (!cls) n_nodes++;
        prefix_len = 0; /* beyond the prefix */
    }
    Rn++;
    if (r->nc) used_now[r->cls[r->chosen]]++;
    used_now[CL_NONE] = 0;
    return r->chosen;
}
static bool fresh(void) { return Rn >= prefix_len; }

int vs_choose(int n, const char* what) {
    int c = choose(n, NULL, what);
    if (nF) F[cur].h = vs_mix(F[cur].h, 0x1000 + (uint64_t)c);
    return c;
}
int vs_choose_env(int n, const char* what) {
    uint8_t cls[2*VS_MAXF];
    if (n > 2*VS_MAXF) n = 2*VS_MAXF;
    for (int i = 0; i < n; i++) cls[i] = i ? CL_E : CL_NONE;
    if (B[CL_E] - used_now[CL_E] <= 0) { F[cur].h = vs_mix(F[cur].h, 0x2000); return 0; } /* a function of the prefix */
    int c = choose(n, cls, what);
    F[cur].h = vs_mix(F[cur].h, 0x2000 + (uint64_t)c);
    return c;
}
void vs_prune(uint64_t state, int depthLeft) {
    if (!fresh()) return;
    if (replaying) return;
    if (seen_or_add(vs_mix(state, 77), pack_rem(depthLeft))) { n_pruned++; leave(X_PRUNE); }
}

/* ------------------------------------------------------------------ scheduler */
static bool runnable(struct fiber* f) {
    if (f->state != F_LIVE || f->quiesc) return false;
    return !f->pred || f->pred(f->pred_arg);
}
static void finish_or_deadlock(void) {
    bool pending = false;
    for (int i = 0; i < nF; i++) if (F[i].state == F_LIVE && !F[i].daemon) pending = true;
    if (!pending || allow_deadlock) leave(X_DONE);
    char b[1024]; size_t l = 0;
    for (int i = 0; i < nF && l < 900; i++)
        if (F[i].state == F_LIVE) l += (size_t)snprintf(b + l, sizeof b - l, " [%s%s blocked in %s]", F[i].name, F[i].daemon ? "(daemon)" : "", F[i].what ? F[i].what : "?");
    vs_fail("deadlock: no thread can proceed:%s", b);
}
static uint64_t signature(void) {
    uint64_t s = vs_mix(0x51, (uint64_t)cur);
    for (int i = 0; i < nF; i++) s = vs_mix(s, F[i].h + (uint64_t)F[i].state);
    return s;
}
static void switch_to(int t) {
    if (t == cur) return;
    int from = cur;
    F[from].err = errno;
    cur = t;
    vs_switch(&F[from].sp, F[t].sp);
    errno = F[cur].err;
}
static int last_timed;
static bool explore_on = true;
void vs_explore(bool on) { explore_on = on; }
static void schedule(void) {
    int opt[2*VS_MAXF]; uint8_t cls[2*VS_MAXF]; int n = 0;
    if (++points > point_limit) vs_fail("livelock: more than %llu scheduling points without finishing (last: %s in %s)", (unsigned long long)point_limit, F[cur].name, F[cur].what ? F[cur].what : "?");
    n_points++;
    bool curEn = runnable(&F[cur]) && !F[cur].yielding;
    if (curEn) { opt[n] = cur; cls[n++] = CL_NONE; }
    for (int k = 1; k <= nF; k++) {
        int i = (cur + k) % nF;
        if (i == cur && !F[cur].yielding) continue;
        if (!runnable(&F[i])) continue;
        opt[n] = i; cls[n] = curEn ? CL_P : (n ? CL_F : CL_NONE); n++;
    }
    if (!n) { /* timers, then quiescence */
        for (int k = 1; k <= nF && !n; k++) {
            int i = (last_timed + k) % nF;
            if (F[i].state == F_LIVE && F[i].timed) { F[i].timed_fired = true; last_timed = i; opt[n] = i; cls[n++] = CL_NONE; }
        }
        for (int i = 0; i < nF && !n; i++)
            if (F[i].state == F_LIVE && F[i].quiesc) { opt[n] = i; cls[n++] = CL_NONE; }
        for (int i = 0; i < nF && !n; i++)
            if (F[i].state == F_LIVE && F[i].spin) { opt[n] = i; cls[n++] = CL_NONE; }
    }
    if (!n) finish_or_deadlock();
    for (int i = 0; i < nF; i++)
        if (F[i].state == F_LIVE && F[i].cond && !F[i].signaled && n < 2*VS_MAXF) { opt[n] = i; cls[n++] = CL_S; }
    /* alternatives that can never be afforded are dropped, so that a prefix sees the same list
       (the budget used so far is a function of the prefix) */
    int m = 0;
    for (int i = 0; i < n; i++)
        if (cls[i] == CL_NONE || B[cls[i]] > (int)used_now[cls[i]]) { opt[m] = opt[i]; cls[m++] = cls[i]; }
    n = m;
    int c = 0;
    if (n > 1 && explore_on) {
        if (fresh() && !replaying) {
            if (seen_or_add(signature(), pack_rem(0))) { n_pruned++; leave(X_PRUNE); }
        }
        c = choose(n, cls, F[cur].what);
    }
    int t = opt[c];
    if (cls[c] == CL_S) { F[t].signaled = true; F[t].h = vs_mix(F[t].h, 0x5b); if (verbose) printf("  spurious wake-up of %s\n", F[t].name); }
    F[cur].yielding = false;
    if (verbose && (t != cur || n > 1)) printf("  [%zu] %s -> %s  (%s, %d options)\n", Rn, F[cur].name, F[t].name, F[t].what ? F[t].what : "start", n);
    switch_to(t);
    /* spurious choice may pick a fiber whose pred needs more: handled by its wait loop */
}
void vs_point(const char* what) {
    if (!in_exec) return;
    F[cur].what = what; F[cur].pred = NULL;
    schedule();
}
void vs_block(bool (*pred)(void*), void* arg, const char* what) {
    F[cur].what = what; F[cur].pred = pred; F[cur].pred_arg = arg;
    schedule();
    F[cur].pred = NULL;
}
/* a poll that would return the same answer again: runs on once another thread did something visible,
   or when nobody else can run (so that endless polling alone still shows up as a livelock) */
static bool pred_spin(void* a) { return n_visible != (uint64_t)(uintptr_t)a; }
void vs_spin_block(const char* what) {
    F[cur].what = what; F[cur].pred = pred_spin; F[cur].pred_arg = (void*)(uintptr_t)n_visible; F[cur].spin = true;
    schedule();
    F[cur].pred = NULL; F[cur].spin = false;
}
static void vc_join(uint32_t* a, const uint32_t* b) { for (int i = 0; i < VS_MAXF; i++) if (b[i] > a[i]) a[i] = b[i]; }
void vs_visible(struct vs_obj* o, uint64_t op, bool write, bool acq, bool rel) {
    struct fiber* f = &F[cur];
    n_visible++;
    if (write) { f->h = vs_mix(vs_mix(vs_mix(f->h, op), o->w), o->r); o->w = f->h; o->r = 0; }
    else { f->h = vs_mix(vs_mix(f->h, op), o->w); o->r += vs_mix(f->h, 3); }
    if (acq) vc_join(f->vc, o->vc);
    if (rel) { vc_join(o->vc, f->vc); f->vc[cur]++; }
}
/* objects keyed by address */
struct oent { uintptr_t key; uint32_t gen; struct vs_obj o; };
#define OTCAP 16384
static struct oent OT[OTCAP]; static uint32_t gen;
static struct vs_obj* obj_of(const void* p) {
    uintptr_t k = (uintptr_t)p; size_t j = (k * 0x9e3779b97f4a7c15ull) >> 50; int tries = 0;
    while (OT[j].gen == gen && OT[j].key != k) { j = (j + 1) & (OTCAP - 1); if (++tries > OTCAP - 2) { fprintf(stderr, "vs: object table full\n"); _exit(4); } }
    if (OT[j].gen != gen) { OT[j].key = k; OT[j].gen = gen; memset(&OT[j].o, 0, sizeof OT[j].o); OT[j].o.w = vs_mix(0x0b, k); }
    return &OT[j].o;
}
void vs_touch(void* p) { vs_point("harness object"); vs_visible(obj_of(p), 0x70, true, true, true); }
void vs_yield_point(const char* what) { vs_point(what); }

static void fiber_main(void) {
    struct fiber* f = &F[cur];
    errno = 0;
    f->ret = f->fn(f->arg);
    f = &F[cur];
    vs_point("thread exit");
    vs_visible(obj_of(f), 0x71, true, true, true);
    f->state = F_DONE; f->pred = NULL; f->what = "done";
    schedule();
    abort();
}
static int spawn(const char* name, int (*fn)(void*), void* arg, bool daemon) {
    if (nF == VS_MAXF) vs_fail("vs-internal: too many threads");
    struct fiber* f = &F[nF];
    char* st = f->stack;
    memset(f, 0, sizeof *f);
    if (!st) {
        st = mmap(NULL, STACKSZ + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        mprotect(st, 4096, PROT_NONE);
    }
    f->stack = st; f->id = nF; f->name = name; f->fn = fn; f->arg = arg; f->daemon = daemon;
    f->state = F_LIVE; f->what = "start";
    uintptr_t top = (uintptr_t)st + 4096 + STACKSZ;
    top &= ~15ull;
    void** sp = (void**)top;
    *--sp = 0;                 /* alignment: entry sees rsp % 16 == 8 */
    *--sp = (void*)fiber_main;
    for (int i = 0; i < 6; i++) *--sp = 0;
    f->sp = sp;
    f->h = vs_mix(0x99, (uint64_t)nF);
    if (nF) { /* creation edge */
        f->h = vs_mix(f->h, F[cur].h);
        F[cur].h = vs_mix(F[cur].h, 0x72);
        memcpy(f->vc, F[cur].vc, sizeof f->vc);
        F[cur].vc[cur]++;
    }
    f->vc[nF]++;
    return nF++;
}
int vs_spawn(const char* name, int (*fn)(void*), void* arg, bool daemon) {
    vs_point("spawn");
    return spawn(name, fn, arg, daemon);
}
static bool pred_done(void* a) { return ((struct fiber*)a)->state == F_DONE; }
void vs_join(int id) {
    vs_block(pred_done, &F[id], "join");
    vs_visible(obj_of(&F[id]), 0x73, true, true, true);
}
bool vs_finished(int id) { return F[id].state == F_DONE; }
void vs_wait_until(bool (*pred)(void*), void* arg, const char* what) { vs_block(pred, arg, what); }
void vs_wait_quiescent(void) {
    F[cur].quiesc = true; F[cur].what = "wait for quiescence"; F[cur].pred = NULL;
    schedule();
    F[cur].quiesc = false;
    /* everything happened before now */
    for (int i = 0; i < nF; i++) if (i != cur) { F[cur].h = vs_mix(F[cur].h, F[i].h); vc_join(F[cur].vc, F[i].vc); }
}
int vs_self(void) { return cur; }
int vs_threads_alive(void) { int n = 0; for (int i = 0; i < nF; i++) n += F[i].cutthr && F[i].state == F_LIVE; return n; }
void vs_set_threaded(bool on) { threaded = on; }
void vs_daemon_self(bool d) { F[cur].daemon = d; }
void vs_allow_deadlock(bool d) { allow_deadlock = d; }

/* ------------------------------------------------------------------ heap */
#define REGION (48ull<<20)
#define NREG   VS_MAXF
static unsigned char* HEAP; static unsigned char* SH; /* shadow: one byte per byte */
static size_t regused[NREG];
enum { S_NONE, S_OK, S_FREED, S_ARENA };
struct chunk { uint64_t magic; size_t size; bool live, cut; uint32_t seq; size_t arena_off; };
#define CHMAGIC 0x43484b4d41474943ull
static struct chunk** CH; static size_t nCH, capCH;
static size_t live_n, live_bytes, total_n; static long n_refused; static bool refuse_on;
static long heap_limit_hit;

void vs_refuse(bool on) { refuse_on = on; }
long vs_refused(void) { return n_refused; }
bool vs_refusal(const char* what) { if (!refuse_on || !vs_choose_env(2, what)) return false; n_refused++; vs_trace("%s", what); return true; }
static void heap_init(void) {
    HEAP = mmap(NULL, REGION * NREG, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    SH = mmap(NULL, REGION * NREG, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (HEAP == MAP_FAILED || SH == MAP_FAILED) { fprintf(stderr, "vs: mmap failed\n"); _exit(4); }
}
static void heap_reset(void) {
    for (int i = 0; i < NREG; i++) if (regused[i]) { memset(SH + (size_t)i * REGION, 0, regused[i]); regused[i] = 0; }
    nCH = 0; live_n = live_bytes = total_n = 0; n_refused = 0; refuse_on = false;
}
static bool in_heap(const void* p) { return (uintptr_t)p - (uintptr_t)HEAP < REGION * NREG; }
static void* heap_alloc(size_t n, bool cut) {
    if (cut && vs_refusal("refused memory")) { errno = ENOMEM; return NULL; }
    int r = cur;
    size_t need = 48 + ((n + 15) & ~(size_t)15) + 64;
    if (n > REGION || regused[r] + need > REGION) {
        if (n <= REGION / 2) vs_fail("unbounded memory use: an execution allocated more than %llu MB", (unsigned long long)(REGION >> 20));
        errno = ENOMEM; return NULL;
    }
    unsigned char* base = HEAP + (size_t)r * REGION + regused[r];
    struct chunk* c = (struct chunk*)base;
    unsigned char* u = base + 48 + 16;
    regused[r] += need;
    c->magic = CHMAGIC; c->size = n; c->live = true; c->cut = cut; c->seq = (uint32_t)nCH; c->arena_off = 0;
    memset(SH + (u - HEAP), S_OK, n);
    memset(u, 0xCD, n);
    if (nCH == capCH) { capCH = capCH ? capCH * 2 : 1024; CH = realloc(CH, capCH * sizeof *CH); }
    CH[nCH++] = c;
    if (cut) { live_n++; live_bytes += n; total_n++; }
    return u;
}
static struct chunk* chunk_of_base(void* p) {
    if (!in_heap(p)) return NULL;
    struct chunk* c = (struct chunk*)((unsigned char*)p - 64);
    return c->magic == CHMAGIC && (unsigned char*)p - (unsigned char*)c == 64 ? c : NULL;
}
static void heap_free(void* p, bool cut) {
    if (!p) return;
    struct chunk* c = chunk_of_base(p);
    if (!c) vs_fail("memory: free of a pointer that was not allocated");
    if (!c->live) vs_fail("memory: double free");
    c->live = false;
    if (c->cut) { live_n--; live_bytes -= c->size; }
    memset(SH + ((unsigned char*)p - HEAP), S_FREED, c->size);
    (void)cut;
}
/* canonical hash of the live heap: chunk addresses are replaced by their rank among the live chunks */
uint64_t vs_heap_hash(void) {
    static uint32_t* rank; static size_t rcap;
    if (rcap < nCH) { rcap = nCH * 2; rank = realloc(rank, rcap * sizeof *rank); }
    uint32_t k = 0; uint64_t h = 0x4ea9;
    for (size_t i = 0; i < nCH; i++) { CH[i]->seq = (uint32_t)i; rank[i] = CH[i]->live ? ++k : 0; }
    for (size_t i = 0; i < nCH; i++) {
        if (!CH[i]->live) continue;
        const unsigned char* u = (unsigned char*)CH[i] + 64; size_t n = CH[i]->size;
        h = vs_mix(h, n);
        for (size_t o = 0; o + 8 <= n; o += 8) {
            uint64_t v; memcpy(&v, u + o, 8);
            if (in_heap((void*)v)) {
                struct chunk* t = NULL;
                if (nCH < 64) { for (size_t j = 0; j < nCH && !t; j++) { uint64_t b = (uint64_t)CH[j] + 64; if (v >= b && v < b + CH[j]->size + 1) t = CH[j]; } }
                if (t) v = 0x9000000000000000ull | ((uint64_t)(t->live ? rank[t->seq] : 0xffff) << 32) | (v - ((uint64_t)t + 64));
            }
            h = vs_mix(h, v);
        }
        h = vs_hash_bytes(h, u + (n & ~(size_t)7), n & 7);
    }
    return h;
}
size_t vs_live_allocs(void) { return live_n; }
size_t vs_live_bytes(void) { return live_bytes; }
size_t vs_total_allocs(void) { return total_n; }

void vs_check_no_leaks(const char* when) {
    if (!live_n) return;
    char b[256]; size_t l = 0; b[0] = 0;
    for (size_t i = 0; i < nCH && l < 180; i++) if (CH[i]->live && CH[i]->cut) l += (size_t)snprintf(b + l, sizeof b - l, " #%u(%zu bytes)", CH[i]->seq, CH[i]->size);
    vs_fail("leak: %zu allocation(s) still live %s:%s", live_n, when, b);
}
void* vs_guarded_alloc(size_t n) { return heap_alloc(n, false); }
void vs_guarded_free(void* p) { heap_free(p, false); }
static int in_arena[VS_MAXF];
static const char* bad_access(const void* p, size_t n) {
    uintptr_t o = (uintptr_t)p - (uintptr_t)HEAP;
    const unsigned char* s = SH + o;
    if (o + n > REGION * NREG) return "outside the heap";
    for (size_t i = 0; i < n; i++)
        if (s[i] != S_OK) {
            if (s[i] == S_ARENA) { if (in_arena[cur]) continue; return "receive memory outside any live message buffer"; }
            return s[i] == S_FREED ? "freed memory" : "out of bounds";
        }
    return NULL;
}
bool vs_addr_ok(const void* p, size_t n) { return !in_heap(p) || !bad_access(p, n); }

/* ------------------------------------------------------------------ races */
struct cell { uintptr_t key; uint32_t gen; uint8_t wt, wmask; uint32_t wc; void* wpc; uint32_t rc[VS_MAXF]; uint8_t rmask[VS_MAXF]; void* rpc[VS_MAXF]; };
#define RTCAP 65536
static struct cell* RT; static uint32_t RTn;
static void* prom[512]; static int nprom; static bool prom_new;
static void* prom_hash[4096];
static bool promoted(void* pc) {
    size_t j = ((uintptr_t)pc * 0x9e3779b97f4a7c15ull) >> 52;
    while (prom_hash[j]) { if (prom_hash[j] == pc) return true; j = (j + 1) & 4095; }
    return false;
}
static void promote(void* pc) {
    if (!pc || promoted(pc) || nprom == 512) return;
    prom[nprom++] = pc; prom_new = true;
    size_t j = ((uintptr_t)pc * 0x9e3779b97f4a7c15ull) >> 52;
    while (prom_hash[j]) j = (j + 1) & 4095;
    prom_hash[j] = pc;
}
static void race_cell(uintptr_t k, uint8_t mask, bool w, void* pc) {
    size_t j = (k * 0x9e3779b97f4a7c15ull) >> 48;
    while (RT[j].gen == gen && RT[j].key != k) j = (j + 1) & (RTCAP - 1);
    struct cell* c = &RT[j];
    if (c->gen != gen) {
        if (RTn > RTCAP / 2) { vs_count("race_table_full", 1); return; }
        RTn++;
        memset(c, 0, sizeof *c); c->gen = gen; c->key = k; c->wt = 255;
    }
    uint32_t* vc = F[cur].vc;
    if (c->wt != 255 && c->wt != cur && (c->wmask & mask) && c->wc > vc[c->wt]) { promote(c->wpc); promote(pc); }
    if (w) {
        for (int i = 0; i < nF; i++) if (i != cur && c->rc[i] && (c->rmask[i] & mask) && c->rc[i] > vc[i]) { promote(c->rpc[i]); promote(pc); }
        if (c->wt == cur && c->wc == vc[cur]) c->wmask |= mask; else c->wmask = mask;
        c->wt = (uint8_t)cur; c->wc = vc[cur]; c->wpc = pc;
    } else {
        if (c->rc[cur] == vc[cur]) c->rmask[cur] |= mask; else c->rmask[cur] = mask;
        c->rc[cur] = vc[cur]; c->rpc[cur] = pc;
    }
}
static void do_access(const void* a, size_t n, bool w, void* pc) {
    if (!in_exec || !n) return;
    steps += 1 + n / 64;
    if (steps > step_limit) vs_fail("hang: an execution exceeded %llu memory accesses (%s)", (unsigned long long)step_limit, F[cur].name);
    if (in_heap(a)) {
        const char* why = bad_access(a, n);
        if (why) vs_fail("memory: %s of %zu bytes %s (%s)", w ? "write" : "read", n, why, F[cur].name);
    } else if ((uintptr_t)a < 65536) {
        vs_fail("memory: %s through a null pointer (%s)", w ? "write" : "read", F[cur].name);
    }
    if (threaded && nF > 1 && a != (const void*)&errno) {   /* errno is saved and restored per thread */
        if (nprom && promoted(pc)) { vs_point("racy access"); vs_visible(obj_of((void*)((uintptr_t)a & ~7ull)), 0x74, w, false, false); 
            if (in_heap(a)) { const char* why = bad_access(a, n); if (why) vs_fail("memory: %s of %zu bytes %s (%s)", w ? "write" : "read", n, why, F[cur].name); } }
        uintptr_t k = (uintptr_t)a >> 3, e = ((uintptr_t)a + n - 1) >> 3;
        for (; k <= e; k++) {
            unsigned lo = k == (uintptr_t)a >> 3 ? (unsigned)((uintptr_t)a & 7) : 0, hi = k == e ? (unsigned)(((uintptr_t)a + n - 1) & 7) : 7;
            race_cell(k, (uint8_t)(((1u << (hi - lo + 1)) - 1) << lo), w, pc);
        }
    }
}
void vs_check_access(const void* p, size_t n, bool write, void* pc) {
    if (!n) return;
    if (in_heap(p)) { const char* why = bad_access(p, n); if (why) vs_fail("memory: %s of %zu bytes %s (system call by %s)", write ? "write" : "read", n, why, F[cur].name); }
    do_access(p, n, write, pc);
}

/* ------------------------------------------------------------------ tsan hooks */
#define RA __builtin_return_address(0)
void __tsan_init(void) {}
void __tsan_func_entry(void* p) { (void)p; }
void __tsan_func_exit(void) {}
void __tsan_ignore_thread_begin(void) {}
void __tsan_ignore_thread_end(void) {}
#define ACC(N) \
void __tsan_read##N(void* a) { do_access(a, N, false, RA); } \
void __tsan_write##N(void* a) { do_access(a, N, true, RA); } \
void __tsan_unaligned_read##N(void* a) { do_access(a, N, false, RA); } \
void __tsan_unaligned_write##N(void* a) { do_access(a, N, true, RA); } \
void __tsan_read_write##N(void* a) { do_access(a, N, true, RA); } \
void __tsan_unaligned_read_write##N(void* a) { do_access(a, N, true, RA); } \
void __tsan_volatile_read##N(void* a) { do_access(a, N, false, RA); } \
void __tsan_volatile_write##N(void* a) { do_access(a, N, true, RA); } \
void __tsan_unaligned_volatile_read##N(void* a) { do_access(a, N, false, RA); } \
void __tsan_unaligned_volatile_write##N(void* a) { do_access(a, N, true, RA); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __tsan_read_range(void* a, size_t n) { do_access(a, n, false, RA); }
void __tsan_write_range(void* a, size_t n) { do_access(a, n, true, RA); }
void* __tsan_memcpy(void* d, const void* s, size_t n) { do_access(s, n, false, RA); do_access(d, n, true, RA); return memmove(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { do_access(s, n, false, RA); do_access(d, n, true, RA); return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { do_access(d, n, true, RA); return memset(d, c, n); }

static void atom(const volatile void* a, size_t n, bool w, const char* what) {
    if (!in_exec) return;
    steps++;
    if (steps > step_limit) vs_fail("hang: an execution exceeded %llu memory accesses (%s)", (unsigned long long)step_limit, F[cur].name);
    if (nF > 1) { vs_point(what); vs_visible(obj_of((const void*)a), 0x75, w, true, true); }
    if (in_heap((const void*)a)) { const char* why = bad_access((const void*)a, n); if (why) vs_fail("memory: atomic access %s (%s)", why, F[cur].name); }
    else if ((uintptr_t)a < 65536) vs_fail("memory: atomic access through a null pointer (%s)", F[cur].name);
}
#define ATOM(T, N) \
T __tsan_atomic##N##_load(const volatile T* a, int mo) { (void)mo; atom(a, N/8, false, "atomic load"); return *a; } \
void __tsan_atomic##N##_store(volatile T* a, T v, int mo) { (void)mo; atom(a, N/8, true, "atomic store"); *a = v; } \
T __tsan_atomic##N##_exchange(volatile T* a, T v, int mo) { (void)mo; atom(a, N/8, true, "atomic exchange"); T o = *a; *a = v; return o; } \
T __tsan_atomic##N##_fetch_add(volatile T* a, T v, int mo) { (void)mo; atom(a, N/8, true, "atomic add"); T o = *a; *a = (T)(o + v); return o; } \
T __tsan_atomic##N##_fetch_sub(volatile T* a, T v, int mo) { (void)mo; atom(a, N/8, true, "atomic sub"); T o = *a; *a = (T)(o - v); return o; } \
T __tsan_atomic##N##_fetch_and(volatile T* a, T v, int mo) { (void)mo; atom(a, N/8, true, "atomic and"); T o = *a; *a = o & v; return o; } \
T __tsan_atomic##N##_fetch_or(volatile T* a, T v, int mo) { (void)mo; atom(a, N/8, true, "atomic or"); T o = *a; *a = o | v; return o; } \
T __tsan_atomic##N##_fetch_xor(volatile T* a, T v, int mo) { (void)mo; atom(a, N/8, true, "atomic xor"); T o = *a; *a = o ^ v; return o; } \
T __tsan_atomic##N##_fetch_nand(volatile T* a, T v, int mo) { (void)mo; atom(a, N/8, true, "atomic nand"); T o = *a; *a = (T)~(o & v); return o; } \
int __tsan_atomic##N##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int fmo) { (void)mo; (void)fmo; atom(a, N/8, true, "atomic cas"); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
int __tsan_atomic##N##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int fmo) { (void)mo; (void)fmo; atom(a, N/8, true, "atomic cas"); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
T __tsan_atomic##N##_compare_exchange_val(volatile T* a, T c, T v, int mo, int fmo) { (void)mo; (void)fmo; atom(a, N/8, true, "atomic cas"); T o = *a; if (o == c) *a = v; return o; }
ATOM(uint8_t, 8) ATOM(uint16_t, 16) ATOM(uint32_t, 32) ATOM(uint64_t, 64)
void __tsan_atomic_thread_fence(int mo) { (void)mo; }
void __tsan_atomic_signal_fence(int mo) { (void)mo; }

/* ------------------------------------------------------------------ libc replacements */
int* vs___errno_location(void) { return &errno; }
void* vs_malloc(size_t n) { return heap_alloc(n, true); }
void  vs_free(void* p) { heap_free(p, true); }
void* vs_calloc(size_t a, size_t b) { if (b && a > (size_t)-1 / b) { errno = ENOMEM; return NULL; } void* p = heap_alloc(a * b, true); if (p) memset(p, 0, a * b); return p; }
void* vs_realloc(void* p, size_t n) {
    if (!p) return heap_alloc(n, true);
    struct chunk* c = chunk_of_base(p);
    if (!c || !c->live) vs_fail("memory: realloc of an invalid pointer");
    if (!n) { heap_free(p, true); return NULL; }
    void* q = heap_alloc(n, true);
    if (q) { memcpy(q, p, n < c->size ? n : c->size); heap_free(p, true); }
    return q;
}
void* vs_reallocarray(void* p, size_t a, size_t b) { return vs_realloc(p, a * b); }
void* vs_aligned_alloc(size_t al, size_t n) { (void)al; return heap_alloc(n, true); }
static size_t slen(const char* s, size_t max, void* pc) {
    size_t n = 0;
    for (;;) {
        if (n == max) break;
        if ((uintptr_t)s < 65536) vs_fail("memory: string read through a null pointer (%s)", F[cur].name);
        if (in_heap(s + n)) { const char* why = bad_access(s + n, 1); if (why) vs_fail("memory: string read %s (%s)", why, F[cur].name); }
        if (!s[n]) break;
        n++;
    }
    do_access(s, n < max ? n + 1 : n, false, pc);
    return n;
}
size_t vs_strlen(const char* s) { return slen(s, (size_t)-1, RA); }
size_t vs_strnlen(const char* s, size_t m) { return slen(s, m, RA); }
char* vs_strdup(const char* s) { size_t n = slen(s, (size_t)-1, RA); char* p = heap_alloc(n + 1, true); if (p) { memcpy(p, s, n); p[n] = 0; } return p; }
char* vs_strndup(const char* s, size_t m) { size_t n = slen(s, m, RA); char* p = heap_alloc(n + 1, true); if (p) { memcpy(p, s, n); p[n] = 0; } return p; }
char* vs_strcpy(char* d, const char* s) { size_t n = slen(s, (size_t)-1, RA); do_access(d, n + 1, true, RA); memmove(d, s, n + 1); return d; }
char* vs_strncpy(char* d, const char* s, size_t m) { size_t n = slen(s, m, RA); do_access(d, m, true, RA); memmove(d, s, n); if (n < m) memset(d + n, 0, m - n); return d; }
char* vs_strcat(char* d, const char* s) { size_t a = slen(d, (size_t)-1, RA), n = slen(s, (size_t)-1, RA); do_access(d + a, n + 1, true, RA); memmove(d + a, s, n + 1); return d; }
int vs_strcmp(const char* a, const char* b) { slen(a, (size_t)-1, RA); slen(b, (size_t)-1, RA); return strcmp(a, b); }
int vs_strncmp(const char* a, const char* b, size_t n) { slen(a, n, RA); slen(b, n, RA); return strncmp(a, b, n); }
void* vs_memcpy(void* d, const void* s, size_t n) { do_access(s, n, false, RA); do_access(d, n, true, RA); return memmove(d, s, n); }
void* vs_memmove(void* d, const void* s, size_t n) { do_access(s, n, false, RA); do_access(d, n, true, RA); return memmove(d, s, n); }
void* vs_memset(void* d, int c, size_t n) { do_access(d, n, true, RA); return memset(d, c, n); }
int vs_memcmp(const void* a, const void* b, size_t n) { do_access(a, n, false, RA); do_access(b, n, false, RA); return memcmp(a, b, n); }
void* vs_memchr(const void* a, int c, size_t n) { void* r = memchr(a, c, n); do_access(a, r ? (size_t)((char*)r - (char*)a) + 1 : n, false, RA); return r; }
int vs_printf(const char* f, ...) { if (verbose) { va_list ap; va_start(ap, f); printf("    <%s> ", F[cur].name); vprintf(f, ap); va_end(ap); } return 1; }
int vs_fprintf(FILE* o, const char* f, ...) { (void)o; (void)f; return 1; }
int vs_puts(const char* s) { (void)s; return 1; }
int vs_putchar(int s) { return s; }
void vs___assert_fail(const char* e, const char* f, unsigned l, const char* fn) { (void)f; (void)l; vs_fail("assertion failed in the code under test: %s (%s)", e, fn); }
void vs_stack_chk_fail(void) { vs_fail("a function of the code under test wrote past the end of its local variables"); }
void vs_abort(void) { vs_fail("abort() called by the code under test"); }
void vs_exit(int c) { vs_fail("exit(%d) called by the code under test", c); }

/* emulated TLS, per fiber */
struct emutls_control { size_t size, align; union { uintptr_t index; void* address; } object; void* value; };
static int n_emutls;
static struct emutls_control* emutls_ctl[64];
void* vs_emutls_get_address(struct emutls_control* c) {
    int ix = -1;
    for (int i = 0; i < n_emutls; i++) if (emutls_ctl[i] == c) ix = i;
    if (ix < 0) { if (n_emutls == 64) vs_fail("vs-internal: too many TLS objects"); ix = n_emutls++; emutls_ctl[ix] = c; }
    if (!F[cur].emutls[ix]) { void* p = heap_alloc(c->size, false); if (c->value) memcpy(p, c->value, c->size); else memset(p, 0, c->size); F[cur].emutls[ix] = p; }
    return F[cur].emutls[ix];
}

/* ------------------------------------------------------------------ threads.h / pthread.h */
struct vmtx { uint32_t magic; int32_t type; int32_t owner; int32_t count; };
#define MMAGIC 0x4d545831u
#define MDEAD  0x4d545844u
static struct vmtx* mget(void* m, const char* op) {
    struct vmtx* v = m;
    if ((uintptr_t)m < 65536) vs_fail("memory: %s on a null mutex (%s)", op, F[cur].name);
    if (in_heap(m)) { const char* why = bad_access(m, sizeof *v); if (why) vs_fail("memory: %s on a mutex in %s (%s)", op, why, F[cur].name); }
    if (v->magic == MDEAD) vs_fail("mutex used after it was destroyed: %s (%s)", op, F[cur].name);
    if (v->magic != MMAGIC) {
        struct vmtx z; memset(&z, 0, sizeof z);
        if (memcmp(v, &z, sizeof z)) vs_fail("mutex used before it was initialised: %s (%s)", op, F[cur].name);
        v->magic = MMAGIC; v->owner = -1;
    }
    return v;
}
static bool pred_mtx(void* a) { struct vmtx* v = a; return v->owner < 0; }
static void mx_lock(void* m, const char* what) {
    struct vmtx* v = mget(m, "lock");
    if (v->owner == cur && v->type == 1) { v->count++; return; }
    if (nF > 1 || v->owner >= 0) vs_block(pred_mtx, v, what);
    v = mget(m, "lock");
    v->owner = cur; v->count = 1;
    vs_visible(obj_of(m), 0x76, true, true, false);
}
static int mx_unlock(void* m, bool pt) {
    struct vmtx* v = mget(m, "unlock");
    if (v->owner != cur) vs_fail("mutex unlocked by a thread that does not hold it (%s)", F[cur].name);
    if (--v->count) return 0;
    if (pt && nF > 1) vs_point("unlock");
    v->owner = -1;
    vs_visible(obj_of(m), 0x77, true, false, true);
    return 0;
}
int vs_mtx_init(void* m, int type) { if (in_heap(m)) { const char* w = bad_access(m, sizeof(struct vmtx)); if (w) vs_fail("memory: mtx_init on %s", w); } struct vmtx* v = m; memset(v, 0, sizeof *v); v->magic = MMAGIC; v->type = type & 1; v->owner = -1; return 0; }
void vs_mtx_destroy(void* m) { struct vmtx* v = mget(m, "destroy"); if (v->owner >= 0) vs_fail("mutex destroyed while held (%s)", F[cur].name); v->magic = MDEAD; }
int vs_mtx_lock(void* m) { mx_lock(m, "mutex lock"); return 0; }
int vs_mtx_unlock(void* m) { return mx_unlock(m, false); }
int vs_mtx_trylock(void* m) {
    struct vmtx* v = mget(m, "trylock");
    if (nF > 1) vs_point("mutex trylock");
    v = mget(m, "trylock");
    if (v->owner == cur && v->type == 1) { v->count++; return 0; }
    if (v->owner >= 0) { vs_visible(obj_of(m), 0x78, true, false, false); return 1; /* thrd_busy */ }
    v->owner = cur; v->count = 1;
    vs_visible(obj_of(m), 0x76, true, true, false);
    return 0;
}
int vs_mtx_timedlock(void* m, const void* ts) { (void)ts; mx_lock(m, "mutex timedlock"); return 0; }

static void cchk(void* c, const char* op) {
    if ((uintptr_t)c < 65536) vs_fail("memory: %s on a null condition (%s)", op, F[cur].name);
    if (in_heap(c)) { const char* why = bad_access(c, 8); if (why) vs_fail("memory: %s on a condition in %s (%s)", op, why, F[cur].name); }
    if (*(uint32_t*)c == MDEAD) vs_fail("condition used after it was destroyed: %s (%s)", op, F[cur].name);
}
static bool pred_cnd(void* a) { return ((struct fiber*)a)->signaled || ((struct fiber*)a)->timed_fired; }
int vs_cnd_init(void* c) { if (in_heap(c)) { const char* w = bad_access(c, 8); if (w) vs_fail("memory: cnd_init on %s", w); } memset(c, 0, 8); return 0; }
void vs_cnd_destroy(void* c) {
    cchk(c, "cnd_destroy");
    for (int i = 0; i < nF; i++) if (F[i].state == F_LIVE && F[i].cond == c && !F[i].signaled) vs_fail("condition destroyed while a thread waits on it (%s)", F[i].name);
    *(uint32_t*)c = MDEAD;
}
static int cwait(void* c, void* m, bool timed) {
    cchk(c, "cnd_wait");
    struct vmtx* v = mget(m, "cnd_wait");
    if (v->owner != cur) vs_fail("condition wait without holding the mutex (%s)", F[cur].name);
    vs_point("cnd_wait");
    struct fiber* f = &F[cur];
    int cnt = v->count;
    vs_visible(obj_of(c), 0x79, true, true, true);
    v->owner = -1; v->count = 0;
    vs_visible(obj_of(m), 0x77, true, false, true);
    f->cond = c; f->signaled = false; f->timed = timed; f->timed_fired = false;
    vs_block(pred_cnd, f, timed ? "timed condition wait" : "condition wait");
    f = &F[cur];
    f->cond = NULL; f->timed = false;
    vs_visible(obj_of(c), 0x7a, true, true, false);
    bool fired = f->timed_fired && !f->signaled; f->timed_fired = false; f->signaled = false;
    mx_lock(m, "mutex re-lock after condition wait");
    v->count = cnt;
    return fired ? 4 : 0;
}
int vs_cnd_wait(void* c, void* m) { return cwait(c, m, false); }
int vs_cnd_timedwait(void* c, void* m, const void* ts) { (void)ts; return cwait(c, m, true); }
static int csignal(void* c, bool all) {
    cchk(c, "cnd_signal");
    if (nF > 1) vs_point("cnd_signal");
    cchk(c, "cnd_signal");
    vs_visible(obj_of(c), 0x7b, true, false, true);
    int w[VS_MAXF], n = 0;
    for (int i = 0; i < nF; i++) if (F[i].state == F_LIVE && F[i].cond == c && !F[i].signaled) w[n++] = i;
    if (!n) return 0;
    if (all) { for (int i = 0; i < n; i++) F[w[i]].signaled = true; return 0; }
    int k = n > 1 ? vs_choose(n, "which waiter to wake") : 0;
    F[w[k]].signaled = true;
    return 0;
}
int vs_cnd_signal(void* c) { return csignal(c, false); }
int vs_cnd_broadcast(void* c) { return csignal(c, true); }
static char worker_names[VS_MAXF][16];
int vs_thrd_create(unsigned long* id, int (*fn)(void*), void* arg) {
    if (nF == VS_MAXF) return 2;
    vs_point("thrd_create");
    if (vs_refusal("refused thread")) return 3;
    snprintf(worker_names[nF], 16, "thread%d", nF);
    int k = spawn(worker_names[nF], fn, arg, true); F[k].cutthr = true;
    vs_check_access(id, sizeof *id, true, RA);
    *id = (unsigned long)k + 1;
    return 0;
}
int vs_thrd_join(unsigned long id, int* res) {
    if (id < 1 || id > (unsigned long)nF) vs_fail("join of an invalid thread id");
    int k = (int)id - 1;
    if (F[k].detached) vs_fail("thread joined twice or after detach");
    vs_join(k);
    F[k].detached = true;
    if (res) *res = F[k].ret;
    return 0;
}
int vs_thrd_detach(unsigned long id) { if (id >= 1 && id <= (unsigned long)nF) F[id - 1].detached = true; return 0; }
unsigned long vs_thrd_current(void) { return (unsigned long)cur + 1; }
int vs_thrd_equal(unsigned long a, unsigned long b) { return a == b; }
static void yieldp(const char* w) { if (nF > 1) { F[cur].yielding = true; vs_point(w); } }
void vs_thrd_yield(void) { yieldp("yield"); }
int vs_thrd_sleep(const void* a, void* b) { (void)a; (void)b; yieldp("sleep"); return 0; }
void vs_thrd_exit(int r) { (void)r; vs_fail("vs-internal: thrd_exit is not supported"); }
int vs_usleep(unsigned u) { (void)u; yieldp("sleep"); return 0; }
unsigned vs_sleep(unsigned u) { (void)u; yieldp("sleep"); return 0; }
int vs_nanosleep(const void* a, void* b) { return vs_thrd_sleep(a, b); }
int vs_sched_yield(void) { yieldp("yield"); return 0; }
void vs_call_once(int* flag, void (*fn)(void)) { vs_touch(flag); if (!*flag) { *flag = 2; fn(); } }
/* pthread flavour */
static void* pt_arg[VS_MAXF]; static void* (*pt_fn[VS_MAXF])(void*); static void* pt_ret[VS_MAXF];
static int pt_tramp(void* a) { int i = (int)(long)a; pt_ret[cur] = pt_fn[i](pt_arg[i]); return 0; }
int vs_pthread_create(unsigned long* id, const void* at, void* (*fn)(void*), void* arg) { (void)at; int i = nF; if (i == VS_MAXF) return 11; pt_arg[i] = arg; pt_fn[i] = fn; return vs_thrd_create(id, pt_tramp, (void*)(long)i); }
int vs_pthread_join(unsigned long id, void** r) { int rc = vs_thrd_join(id, NULL); if (r) *r = pt_ret[id - 1]; return rc; }
int vs_pthread_detach(unsigned long id) { return vs_thrd_detach(id); }
unsigned long vs_pthread_self(void) { return vs_thrd_current(); }
int vs_pthread_mutex_init(void* m, const void* a) { return vs_mtx_init(m, a ? 1 : 0); }
int vs_pthread_mutex_destroy(void* m) { vs_mtx_destroy(m); return 0; }
int vs_pthread_mutex_lock(void* m) { return vs_mtx_lock(m); }
int vs_pthread_mutex_trylock(void* m) { return vs_mtx_trylock(m) ? 16 : 0; }
int vs_pthread_mutex_unlock(void* m) { return vs_mtx_unlock(m); }
int vs_pthread_mutexattr_init(void* a) { (void)a; return 0; }
int vs_pthread_mutexattr_settype(void* a, int t) { (void)a; (void)t; return 0; }
int vs_pthread_mutexattr_destroy(void* a) { (void)a; return 0; }
int vs_pthread_cond_init(void* c, const void* a) { (void)a; return vs_cnd_init(c); }
int vs_pthread_cond_destroy(void* c) { vs_cnd_destroy(c); return 0; }
int vs_pthread_cond_wait(void* c, void* m) { return vs_cnd_wait(c, m); }
int vs_pthread_cond_timedwait(void* c, void* m, const void* t) { return vs_cnd_timedwait(c, m, t) ? 110 : 0; }
int vs_pthread_cond_signal(void* c) { return vs_cnd_signal(c); }
int vs_pthread_cond_broadcast(void* c) { return vs_cnd_broadcast(c); }
/* pthread_rwlock: type 2, count = readers, owner = writer */
static bool pred_wr(void* a) { struct vmtx* v = a; return v->owner < 0 && v->count == 0; }
static bool pred_rd(void* a) { struct vmtx* v = a; return v->owner < 0; }
int vs_pthread_rwlock_init(void* m, const void* a) { (void)a; return vs_mtx_init(m, 0); }
int vs_pthread_rwlock_destroy(void* m) { vs_mtx_destroy(m); return 0; }
int vs_pthread_rwlock_rdlock(void* m) { struct vmtx* v = mget(m, "rdlock"); vs_block(pred_rd, v, "rdlock"); v->count++; vs_visible(obj_of(m), 0x76, true, true, false); return 0; }
int vs_pthread_rwlock_wrlock(void* m) { struct vmtx* v = mget(m, "wrlock"); vs_block(pred_wr, v, "wrlock"); v->owner = cur; vs_visible(obj_of(m), 0x76, true, true, false); return 0; }
int vs_pthread_rwlock_unlock(void* m) { struct vmtx* v = mget(m, "rwunlock"); if (v->owner == cur) v->owner = -1; else if (v->count > 0) v->count--; else vs_fail("rwlock unlocked while not held"); vs_visible(obj_of(m), 0x77, true, false, true); return 0; }

/* ------------------------------------------------------------------ arena tracking: gives message buffers their own bounds */
extern void* gracht_arena_allocate(void*, void*, size_t) __attribute__((weak));
extern void  gracht_arena_free(void*, void*, size_t) __attribute__((weak));
static struct { unsigned char* p; size_t n; } AB[4096]; static int nAB;
static bool arena_track = true;
static struct chunk* chunk_containing(void* p) {
    for (size_t i = nCH; i-- > 0; ) { unsigned char* u = (unsigned char*)CH[i] + 64; if (CH[i]->live && (unsigned char*)p >= u && (unsigned char*)p < u + CH[i]->size) return CH[i]; }
    return NULL;
}
static void arena_overlap(unsigned char* p, size_t n) {
    for (int i = 0; i < nAB; i++) if (AB[i].p < p + n && p < AB[i].p + AB[i].n) vs_fail("receive memory: two live message buffers overlap");
}
void* vs_arena_allocate(void* arena, void* allocation, size_t size) {
    in_arena[cur]++;
    unsigned char* p = gracht_arena_allocate(arena, allocation, size);
    in_arena[cur]--;
    if (!p) vs_count("receive_memory_exhausted", 1);
    if (!arena_track || !p || allocation || !in_heap(p)) return p;
    struct chunk* c = chunk_containing(p);
    if (!c) vs_fail("receive memory: a message buffer lies outside the memory pool");
    unsigned char* u = (unsigned char*)c + 64;
    if (!c->arena_off) { c->arena_off = 1; memset(SH + (u - HEAP), S_ARENA, c->size); }
    if (p + size > u + c->size) vs_fail("receive memory: a message buffer extends past the end of the memory pool");
    arena_overlap(p, size);
    memset(SH + (p - HEAP), S_OK, size);
    if (nAB < 4096) { AB[nAB].p = p; AB[nAB++].n = size; }
    return p;
}
void vs_arena_free(void* arena, void* mem, size_t size) {
    if (arena_track && mem && in_heap(mem)) {
        int i; for (i = 0; i < nAB; i++) if (AB[i].p == mem) break;
        if (i == nAB) vs_fail("receive memory: release of a buffer that is not allocated (double release?)");
        if (size == 0 || size >= AB[i].n) { memset(SH + (AB[i].p - HEAP), S_ARENA, AB[i].n); AB[i] = AB[--nAB]; }
        else { memset(SH + (AB[i].p - HEAP) + AB[i].n - size, S_ARENA, size); AB[i].n -= size; }
    }
    in_arena[cur]++;
    gracht_arena_free(arena, mem, size);
    in_arena[cur]--;
}

/* ------------------------------------------------------------------ one execution */
extern char __start_vsdata[] __attribute__((weak)); extern char __stop_vsdata[] __attribute__((weak));
static char* data_save; static size_t data_len;
static vs_scenario_t* scenarios; static vs_scenario_t* sc;
void vs_register(vs_scenario_t* s) { s->next = scenarios; scenarios = s; }
static int main_fiber(void* a) { (void)a; sc->fn(); return 0; }

static void on_fault(int sig) {
    if (!sig_in_exec) { signal(sig, SIG_DFL); raise(sig); return; }
    snprintf(failmsg, sizeof failmsg, "crash: signal %d (%s) in %s", sig, strsignal(sig), F[cur].name);
    leave(X_FAIL);
}
static volatile uint64_t alarm_exec; static volatile int alarm_ticks; static volatile uint64_t alarm_points;
static int hang_secs = 20;
static void on_alarm(int s) {
    (void)s;
    if (!sig_in_exec) return;
    if (alarm_exec == n_exec && alarm_points == points) { if (++alarm_ticks >= hang_secs) { alarm_ticks = 0; snprintf(failmsg, sizeof failmsg, "hang: no progress in %s", F[cur].name); leave(X_FAIL); } }
    else { alarm_exec = n_exec; alarm_points = points; alarm_ticks = 0; }
}
static int run_once(void) {
    heap_reset(); sim_reset();
    if (data_len) memcpy(__start_vsdata, data_save, data_len);
    gen++; RTn = 0; nAB = 0; n_emutls = 0; vs_long(POINTS);
    for (int i = 0; i < VS_MAXF; i++) { F[i].state = F_FREE; in_arena[i] = 0; }
    nF = 0; cur = 0; points = 0; steps = 0; Rn = 0; outcome = 0x33; tracelen = 0; tracebuf[0] = 0; failmsg[0] = 0;
    allow_deadlock = false; explore_on = true; threaded = true; last_timed = 0; arena_track = true;
    memset(used_now, 0, sizeof used_now);
    spawn("main", main_fiber, NULL, false);
    n_exec++;
    int code = sigsetjmp(exec_jmp, 1);
    if (!code) {
        in_exec = true; sig_in_exec = true;
        static void* dummy;
        vs_switch(&dummy, F[0].sp);
        abort();
    }
    in_exec = false; sig_in_exec = false;
    if (steps > max_steps_seen) max_steps_seen = steps;
    if (points > max_points) max_points = points;
    if (Rn > max_choices) max_choices = Rn;
    return code;
}
static bool add_outcome(uint64_t o) {
    if (!o) o = 1;
    if ((n_outcomes + 1) * 2 > outcap) {
        size_t nc = outcap ? outcap * 2 : 1024; uint64_t* old = outtab; size_t oc = outcap;
        outtab = calloc(nc, 8); outcap = nc;
        for (size_t i = 0; i < oc; i++) if (old[i]) { size_t j = old[i] & (nc - 1); while (outtab[j]) j = (j + 1) & (nc - 1); outtab[j] = old[i]; }
        free(old);
    }
    size_t j = o & (outcap - 1);
    while (outtab[j]) { if (outtab[j] == o) return false; j = (j + 1) & (outcap - 1); }
    outtab[j] = o; n_outcomes++;
    return true;
}
static bool backtrack(void) {
    while (Rn) {
        struct rec* r = &R[Rn - 1];
        for (int c = r->chosen + 1; c < r->n; c++) {
            if (r->nc) { int k = r->cls[c]; if (k != CL_NONE && r->used[k] >= B[k]) continue; }
            r->chosen = (uint16_t)c; prefix_len = Rn; return true;
        }
        Rn--;
    }
    return false;
}
static double now(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (double)t.tv_sec + (double)t.tv_nsec / 1e9; }

/* ------------------------------------------------------------------ driver */
static void jstr(FILE* o, const char* s) {
    fputc('"', o);
    for (; *s; s++) { unsigned char c = (unsigned char)*s; if (c == '"' || c == '\\') fprintf(o, "\\%c", c); else if (c == '\n') fputs("\\n", o); else if (c < 32 || c > 126) fprintf(o, "\\u%04x", c); else fputc(c, o); }
    fputc('"', o);
}
#define NSAMP 3
static char samples[NSAMP][4096]; static int nsamp;
static void sample(void) {
    if (nsamp == NSAMP || !tracelen) return;
    size_t l = tracelen < 4000 ? tracelen : 4000;
    memcpy(samples[nsamp], tracebuf, l); samples[nsamp][l] = 0; nsamp++;
}
static int save_prefix(uint16_t** out) { *out = malloc((Rn + 1) * sizeof(uint16_t)); for (size_t i = 0; i < Rn; i++) (*out)[i] = R[i].chosen; return (int)Rn; }

int main(int argc, char** argv) {
    const char* name = NULL; const char* out = NULL; const char* replay = NULL; const char* repout = NULL;
    int P = 0, Fm = 4000, S = 0, E = 0; long maxexec = 0; double maxsec = 0; bool list = false;
    for (int i = 1; i < argc; i++) {
        if (!strcmp(argv[i], "--list")) list = true;
        else if (!strcmp(argv[i], "-P")) P = atoi(argv[++i]);
        else if (!strcmp(argv[i], "-F")) Fm = atoi(argv[++i]);
        else if (!strcmp(argv[i], "-S")) S = atoi(argv[++i]);
        else if (!strcmp(argv[i], "-E")) E = atoi(argv[++i]);
        else if (!strcmp(argv[i], "--max-exec")) maxexec = atol(argv[++i]);
        else if (!strcmp(argv[i], "--max-sec")) maxsec = atof(argv[++i]);
        else if (!strcmp(argv[i], "--out")) out = argv[++i];
        else if (!strcmp(argv[i], "--replay-out")) repout = argv[++i];
        else if (!strcmp(argv[i], "--replay")) replay = argv[++i];
        else if (!strcmp(argv[i], "-v")) verbose = true;
        else if (!strncmp(argv[i], "-D", 2)) { char* e = strchr(argv[i], '='); if (e && nparams < 64) { snprintf(params[nparams].k, 40, "%.*s", (int)(e - argv[i] - 2), argv[i] + 2); params[nparams++].v = atol(e + 1); } }
        else name = argv[i];
    }
    if (list) { for (vs_scenario_t* s = scenarios; s; s = s->next) puts(s->name); return 0; }
    uint16_t* rch = NULL; size_t rn = 0;
    if (replay) {
        FILE* f = fopen(replay, "r"); char line[512]; static char rname[128];
        if (!f) { perror(replay); return 4; }
        while (fgets(line, sizeof line, f)) {
            char k[64]; long v; char s[200];
            if (sscanf(line, "scenario %127s", rname) == 1) name = rname;
            else if (sscanf(line, "param %63s %ld", k, &v) == 2) { if (nparams < 64) { snprintf(params[nparams].k, 40, "%s", k); params[nparams++].v = v; } }
            else if (sscanf(line, "bounds %d %d %d %d", &P, &Fm, &S, &E) == 4) {}
            else if (sscanf(line, "racy 0x%lx", &v) == 1) promote((void*)v);
            else if (sscanf(line, "choice %ld", &v) == 1) { rch = realloc(rch, (rn + 1) * 2); rch[rn++] = (uint16_t)v; }
            (void)s;
        }
        fclose(f);
        prom_new = false;
    }
    for (sc = scenarios; sc; sc = sc->next) if (name && !strcmp(sc->name, name)) break;
    if (!sc) { fprintf(stderr, "no scenario %s\n", name ? name : "(none)"); return 4; }

    heap_init();
    RT = calloc(RTCAP, sizeof *RT);
    if (__start_vsdata) { data_len = (size_t)(__stop_vsdata - __start_vsdata); data_save = malloc(data_len + 1); memcpy(data_save, __start_vsdata, data_len); }
    static char alt[65536];
    stack_t ss = { .ss_sp = alt, .ss_size = sizeof alt }; sigaltstack(&ss, NULL);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_fault; sa.sa_flags = SA_ONSTACK | SA_NODEFER;
    sigaction(SIGSEGV, &sa, NULL); sigaction(SIGBUS, &sa, NULL); sigaction(SIGFPE, &sa, NULL); sigaction(SIGILL, &sa, NULL); sigaction(SIGTRAP, &sa, NULL);
    sa.sa_handler = on_alarm; sa.sa_flags = SA_ONSTACK | SA_NODEFER; sigaction(SIGALRM, &sa, NULL);
    struct itimerval it = { { 1, 0 }, { 1, 0 } }; setitimer(ITIMER_REAL, &it, NULL);

    B[CL_F] = Fm; B[CL_S] = S; B[CL_E] = E; B[CL_P] = P; B[CL_NONE] = 1 << 30;
    if (replay) {
        /* the records are rebuilt: run with a fixed list of choices */
        Rcap = rn + 4096; R = calloc(Rcap, sizeof *R);
        replaying = true;
        /* feed: the first pass discovers n for each record */
        size_t known = 0;
        int code = 0;
        for (;;) {
            prefix_len = known; code = run_once();
            if (Rn <= known || known >= rn) break;
            R[known].chosen = rch[known] < R[known].n ? rch[known] : 0; known++;
        }
        prefix_len = rn < Rn ? rn : Rn; 
        verbose = verbose && true;
        code = run_once();
        printf("%s", tracebuf);
        if (code == X_FAIL) printf("FAIL: %s\n", failmsg); else printf("no failure\n");
        return code == X_FAIL ? 1 : 0;
    }
    double t0 = now(); int completedP = -1; bool capped = false; int rc = 0; int restarts = 0;
    uint64_t execs_final = 0;
    bool unrepro = false; char first_unrepro[512] = "";
    if (verbose) {
        verbose = false; prefix_len = 0; 
    }
    for (int p = 0; p <= P && !rc && !capped; p++) {
        B[CL_P] = p;
    restart:
        if (ST) memset(ST, 0, STcap * sizeof *ST);
        STn = 0; n_states = 0; n_nodes = 0; Rn = 0; prefix_len = 0; uint64_t e0 = n_exec; prom_new = false; nsamp = 0;
        for (;;) {
            int code = run_once();
            if (code == X_DONE) { n_done++; if (add_outcome(outcome)) sample(); }
            if (prom_new) { restarts++; goto restart; }
            if (code == X_FAIL) {
                /* replay the same choices twice: the failure has to come back */
                uint16_t* ch; int n = save_prefix(&ch);
                char m0[2048]; memcpy(m0, failmsg, sizeof m0); static char tr0[1 << 16]; memcpy(tr0, tracebuf, sizeof tr0);
                bool same = true; replaying = true;
                for (int k = 0; k < 2 && same; k++) { for (int i = 0; i < n; i++) R[i].chosen = ch[i]; prefix_len = (size_t)n; int c2 = run_once(); same = c2 == X_FAIL && !strcmp(m0, failmsg); if (prom_new) break; }
                replaying = false;
                if (prom_new) { free(ch); restarts++; goto restart; }
                if (!same) { if (!unrepro) snprintf(first_unrepro, sizeof first_unrepro, "%s / %s", m0, failmsg); unrepro = true; for (int i = 0; i < n; i++) R[i].chosen = ch[i]; Rn = (size_t)n; free(ch); if (!backtrack()) break; continue; }
                rc = 1;
                if (repout) {
                    FILE* f = fopen(repout, "w");
                    if (f) {
                        fprintf(f, "# %s\nscenario %s\n", m0, sc->name);
                        for (int i = 0; i < nparams; i++) fprintf(f, "param %s %ld\n", params[i].k, params[i].v);
                        fprintf(f, "bounds %d %d %d %d\n", p, Fm, S, E);
                        for (int i = 0; i < nprom; i++) fprintf(f, "racy 0x%lx\n", (unsigned long)prom[i]);
                        for (int i = 0; i < n; i++) fprintf(f, "choice %d # of %d at %s\n", ch[i], R[i].n, R[i].what ? R[i].what : "");
                        fprintf(f, "# trace\n"); for (char* q = strtok(tr0, "\n"); q; q = strtok(NULL, "\n")) fprintf(f, "# %s\n", q);
                        fclose(f);
                    }
                }
                snprintf(failmsg, sizeof failmsg, "%s", m0);
                break;
            }
            if ((maxexec && (long)(n_exec - e0) >= maxexec) || (maxsec > 0 && now() - t0 > maxsec)) { capped = true; break; }
            if (!backtrack()) break;
        }
        execs_final = n_exec - e0;
        if (!rc && !capped) completedP = p;
    }
    FILE* o = out ? fopen(out, "w") : stdout;
    fprintf(o, "{\"scenario\":"); jstr(o, sc->name);
    fprintf(o, ",\"params\":{"); for (int i = 0; i < nparams; i++) { fprintf(o, "%s", i ? "," : ""); jstr(o, params[i].k); fprintf(o, ":%ld", params[i].v); }
    fprintf(o, "},\"bounds\":{\"preemptions\":%d,\"switch_deviations\":%d,\"spurious\":%d,\"env_deviations\":%d},\"completed_preemption_bound\":%d,\"capped\":%s", P, Fm, S, E, completedP, capped ? "true" : "false");
    fprintf(o, ",\"executions\":%llu,\"executions_last_bound\":%llu,\"completed_executions\":%llu,\"pruned\":%llu,\"transitions\":%llu,\"visible_ops\":%llu,\"states\":%llu,\"cached_states\":%llu,\"outcomes\":%zu,\"max_choices\":%zu,\"max_points\":%zu,\"racy_sites\":%d,\"restarts\":%d,\"max_steps\":%llu",
        (unsigned long long)n_exec, (unsigned long long)execs_final, (unsigned long long)n_done, (unsigned long long)n_pruned, (unsigned long long)n_points + n_visible, (unsigned long long)n_visible, (unsigned long long)(n_states + n_nodes + 1), (unsigned long long)n_states, n_outcomes, max_choices, max_points, nprom, restarts, (unsigned long long)max_steps_seen);
    fprintf(o, ",\"wall_s\":%.3f,\"unreproducible\":", now() - t0); jstr(o, unrepro ? first_unrepro : "");
    fprintf(o, ",\"counters\":{"); for (int i = 0; i < ncounters; i++) { fprintf(o, "%s", i ? "," : ""); jstr(o, counters[i].k); fprintf(o, ":%ld", counters[i].v); }
    fprintf(o, "},\"samples\":["); for (int i = 0; i < nsamp; i++) { fprintf(o, "%s", i ? "," : ""); jstr(o, samples[i]); }
    fprintf(o, "],\"violation\":"); if (rc) { jstr(o, failmsg); fprintf(o, ",\"trace\":"); jstr(o, tracebuf); } else fprintf(o, "null");
    fprintf(o, "}\n");
    if (o != stdout) fclose(o);
    return rc;
}
