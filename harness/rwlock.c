/* C16 (structure level): the reader/writer lock under every interleaving. */
#include "vs.h"
#include <string.h>
struct rwlock;
size_t cut_rw_size(void);
void cut_rw_init(struct rwlock*); void cut_rw_destroy(struct rwlock*);
void cut_r_lock(struct rwlock*); void cut_r_unlock(struct rwlock*); void cut_w_lock(struct rwlock*); void cut_w_unlock(struct rwlock*);
static struct rwlock* L; static int readers, writers, done; static char cell;
static void rin(void) { cut_r_lock(L); VS_CHECK(!writers, "a reader runs together with a writer"); readers++; vs_touch(&cell); VS_CHECK(!writers, "a writer entered while a reader is inside"); }
static void rout(void) { VS_CHECK(!writers, "a writer entered while a reader is inside"); readers--; cut_r_unlock(L); }
static void win(void) { cut_w_lock(L); VS_CHECK(!writers && !readers, "a writer runs together with %s", writers ? "another writer" : "a reader"); writers++; vs_touch(&cell); VS_CHECK(writers == 1 && !readers, "a writer is not alone"); }
static void wout(void) { VS_CHECK(writers == 1 && !readers, "a writer is not alone"); writers--; cut_w_unlock(L); }
/* what a thread does: R read, W write, N nested read */
static const char* SCRIPT[] = { "R", "W", "N", "RW", "WR", "WW", "RR" };
static int worker(void* a) {
    for (const char* s = a; *s; s++) {
        if (*s == 'R') { rin(); rout(); }
        else if (*s == 'W') { win(); wout(); }
        else { rin(); rin(); rout(); rout(); }
    }
    done++; return 0;
}
VS_SCENARIO(rw_mt) { /* every combination of scripts */
    int n = (int)vs_param("threads", 3), k = (int)vs_param("scripts", 3), t[5], last = 0; static const char* N[] = { "A", "B", "C", "D", "E" };
    readers = writers = done = 0;
    L = vs_guarded_alloc(cut_rw_size()); cut_rw_init(L);
    for (int i = 0; i < n; i++) { last += vs_choose(k - last, "script"); vs_trace("thread %s: %s", N[i], SCRIPT[last]); t[i] = vs_spawn(N[i], worker, (void*)SCRIPT[last], false); }
    for (int i = 0; i < n; i++) vs_join(t[i]);
    VS_CHECK(done == n && !readers && !writers, "not every thread finished");
    cut_rw_destroy(L); vs_guarded_free(L);
}
static bool two_in(void* a) { (void)a; return readers >= (int)vs_param("readers", 2) || done; }
static int meet(void* a) { (void)a; rin(); vs_wait_until(two_in, NULL, "another reader to come in"); done = 1; rout(); return 0; }
VS_SCENARIO(rw_meet) { /* readers run together */
    int n = (int)vs_param("readers", 2), t[4]; static const char* N[] = { "A", "B", "C", "D" };
    readers = writers = done = 0;
    L = vs_guarded_alloc(cut_rw_size()); cut_rw_init(L);
    for (int i = 0; i < n; i++) t[i] = vs_spawn(N[i], meet, NULL, false);
    for (int i = 0; i < n; i++) vs_join(t[i]);
    win(); wout(); rin(); rout();
    cut_rw_destroy(L); vs_guarded_free(L);
}
