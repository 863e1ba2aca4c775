/* C11 (structure level): the pool of outgoing buffers under every interleaving. */
#include "vs.h"
#include <string.h>
struct stack; /* opaque: sized by the code under test */
size_t cut_stack_size(void);
int   stack_construct(struct stack*, size_t);
void  stack_destroy(struct stack*);
void  stack_push(struct stack*, void*);
void* stack_pop(struct stack*);

static struct stack* S; static char tok[64]; static int held[64]; static int npush;
static void put(int i) { VS_CHECK(held[i] == 1, "harness"); held[i] = 0; stack_push(S, &tok[i]); }
static int take(bool must) {
    char* p = stack_pop(S);
    if (!p) { VS_CHECK(!must, "the pool lost a buffer: nothing to pop although one was returned"); return -1; }
    VS_CHECK(p >= tok && p < tok + 64, "the pool returned something that was never put in (%p)", (void*)p);
    int i = (int)(p - tok);
    VS_CHECK(!held[i], "the pool handed out buffer %d twice", i);
    held[i] = 1; return i;
}
/* sequential: every push/pop history, against a set; LIFO order is not part of the contract */
VS_SCENARIO(stack_seq) {
    int depth = (int)vs_param("depth", 10), init = vs_choose(4, "initial capacity") + 1;
    memset(held, 0, sizeof held);
    S = vs_guarded_alloc(cut_stack_size());
    VS_CHECK(!stack_construct(S, (size_t)init), "construct fails");
    int inside = 0, fresh = 0;
    for (int d = 0; d < depth; d++) {
        if (vs_choose(2, "operation") == 0) {
            int i; for (i = 0; i < fresh; i++) if (held[i]) break;
            if (i == fresh) { held[fresh++] = 1; }
            put(i); inside++; vs_trace("push %d", i);
        } else {
            int i = take(inside > 0); vs_trace("pop -> %d", i);
            if (i >= 0) inside--;
            VS_CHECK(i < 0 || inside >= 0, "the pool returned more buffers than were put in");
        }
    }
    while (inside) { take(true); inside--; }
    VS_CHECK(take(false) < 0, "a drained pool still returns a buffer");
    stack_destroy(S);
    vs_check_no_leaks("after the pool was destroyed");
}
static int worker(void* a) {
    int id = (int)(long)a, rounds = (int)vs_param("rounds", 1), width = (int)vs_param("width", 1);
    for (int r = 0; r < rounds; r++) {
        int got[4], n = 0;
        for (int k = 0; k < width; k++) {
            int i = take(false);
            if (i < 0) { i = npush++; held[i] = 1; }  /* allocate a new buffer, as the server does */
            got[n++] = i;
        }
        /* in use: nobody else may get these */
        vs_touch(&tok[id]);
        for (int k = 0; k < n; k++) VS_CHECK(held[got[k]] == 1, "buffer %d taken away while in use", got[k]);
        for (int k = 0; k < n; k++) put(got[k]);
    }
    return 0;
}
VS_SCENARIO(stack_mt) {
    int nt = (int)vs_param("threads", 2), pre = (int)vs_param("prefill", 1), init = (int)vs_param("cap", 1);
    memset(held, 0, sizeof held); npush = 0;
    S = vs_guarded_alloc(cut_stack_size());
    VS_CHECK(!stack_construct(S, (size_t)init), "construct fails");
    for (int i = 0; i < pre; i++) { held[i] = 1; put(i); npush++; }
    int t[4];
    for (int i = 0; i < nt; i++) t[i] = vs_spawn(i == 0 ? "A" : i == 1 ? "B" : "C", worker, (void*)(long)i, false);
    for (int i = 0; i < nt; i++) vs_join(t[i]);
    int n = npush;
    for (int i = 0; i < n; i++) take(true);
    VS_CHECK(take(false) < 0, "the pool holds a buffer more than were put in");
    VS_CHECK(n <= pre + nt * (int)vs_param("width", 1), "more buffers were created (%d) than were in use at once", n);
    vs_outcome((uint64_t)n);
    stack_destroy(S);
    vs_check_no_leaks("after the pool was destroyed");
}
