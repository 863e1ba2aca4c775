/* vsched - controlled execution of the code under test (CUT). See DESIGN.md. */
#ifndef VS_H
#define VS_H
#include <stddef.h>
#include <stdint.h>
#include <stdbool.h>

#define VS_MAXF 16

/* ---- scenarios ------------------------------------------------------- */
typedef struct vs_scenario {
    const char* name;
    void (*fn)(void);
    struct vs_scenario* next;
} vs_scenario_t;
void vs_register(vs_scenario_t*);
#define VS_SCENARIO(id) \
    static void id(void); \
    static vs_scenario_t _sc_##id = { #id, id, NULL }; \
    __attribute__((constructor)) static void _reg_##id(void) { vs_register(&_sc_##id); } \
    static void id(void)

long vs_param(const char* name, long dflt);

/* ---- choices --------------------------------------------------------- */
/* free data choice: every alternative is explored */
int  vs_choose(int n, const char* what);
/* environment choice: alternative 0 is the default, others cost one deviation */
int  vs_choose_env(int n, const char* what);
/* prune the execution if this canonical state was already explored with as much depth left */
void vs_prune(uint64_t state, int depthLeft);
/* prune this execution unconditionally (assumption violated, not a failure) */
void vs_assume(bool);

/* ---- reporting ------------------------------------------------------- */
void vs_fail(const char* fmt, ...) __attribute__((format(printf,1,2), noreturn));
#define VS_CHECK(c, ...) do { if (!(c)) vs_fail(__VA_ARGS__); } while (0)
void vs_trace(const char* fmt, ...) __attribute__((format(printf,1,2)));
void vs_outcome(uint64_t h);   /* mixes into the outcome of this execution */
void vs_count(const char* name, long n); /* named counters in the report */

/* ---- fibers ---------------------------------------------------------- */
int  vs_spawn(const char* name, int (*fn)(void*), void* arg, bool daemon);
void vs_join(int id);
bool vs_finished(int id);
void vs_yield_point(const char* what);   /* scheduling point in harness code */
void vs_touch(void* obj);                /* scheduling point + visible write on obj */
void vs_wait_until(bool (*pred)(void*), void* arg, const char* what); /* block */
void vs_wait_quiescent(void);            /* until nobody else can run */
int  vs_self(void);
int  vs_threads_alive(void);             /* threads created by the code under test (they count as daemons) */
void vs_explore(bool on);                /* off: the default schedule is followed without branching (set-up phases) */
void vs_long(uint64_t points);            /* this execution may take that many scheduling points */
void vs_set_threaded(bool on);           /* races off/on */
void vs_daemon_self(bool);
void vs_allow_deadlock(bool);            /* quiescence with blocked fibers ends the execution quietly */

/* ---- heap ------------------------------------------------------------ */
size_t vs_live_allocs(void);             /* live CUT heap chunks */
size_t vs_live_bytes(void);
void   vs_check_no_leaks(const char* when);
void   vs_refuse(bool on);               /* on: every request for memory, a thread, a descriptor, an address or a place in an epoll set may be refused, one deviation each */
long   vs_refused(void);                 /* how many were */
bool   vs_refusal(const char* what);     /* for the simulated system calls */
size_t vs_total_allocs(void);
void*  vs_guarded_alloc(size_t n);       /* CUT-visible memory owned by the harness (not leak-counted) */
void   vs_guarded_free(void* p);
uint64_t vs_heap_hash(void);             /* canonical hash of all live chunks */
bool   vs_addr_ok(const void* p, size_t n);

/* ---- hash helper ----------------------------------------------------- */
static inline uint64_t vs_mix(uint64_t h, uint64_t v) {
    h ^= v + 0x9e3779b97f4a7c15ull + (h << 12) + (h >> 4);
    h *= 0xff51afd7ed558ccdull; h ^= h >> 32; h *= 0xc4ceb9fe1a85ec53ull; h ^= h >> 29;
    return h;
}
uint64_t vs_hash_bytes(uint64_t h, const void* p, size_t n);

/* ---- engine internals used by sim.c ---------------------------------- */
struct vs_obj { uint64_t w, r; uint32_t vc[VS_MAXF]; };
void vs_visible(struct vs_obj* o, uint64_t op, bool write, bool acquire, bool release);
void vs_point(const char* what);
void vs_block(bool (*pred)(void*), void* arg, const char* what);
void vs_spin_block(const char* what);
void vs_check_access(const void* p, size_t n, bool write, void* pc);
void sim_reset(void);
extern const char* vs_where;

/* ---- simnet ---------------------------------------------------------- */
/* raw peers used by harnesses; they are not descriptors of the CUT */
struct sim_sock;
struct sim_sock* sim_raw_connect(const char* path);        /* stream connect to a listening address */
int   sim_raw_send(struct sim_sock*, const void*, size_t);
size_t sim_raw_avail(struct sim_sock*);                    /* bytes readable by the raw peer */
size_t sim_raw_room(struct sim_sock*);                     /* bytes the raw peer can send now */
size_t sim_raw_recv(struct sim_sock*, void*, size_t);
void  sim_raw_close(struct sim_sock*);
void  sim_forget(struct sim_sock*);
void  sim_raw_reset(struct sim_sock*);                     /* RST */
bool  sim_raw_eof(struct sim_sock*);                       /* peer closed */
struct sim_sock* sim_raw_listen(const char* path);         /* raw listening server */
struct sim_sock* sim_raw_accept(struct sim_sock*);         /* NULL if none pending */
struct sim_sock* sim_raw_dgram(const char* path, int addrlen); /* raw datagram peer bound to path */
int   sim_raw_sendto(struct sim_sock*, const char* path, int addrlen, const void*, size_t);
int   sim_raw_reply(struct sim_sock*, const void*, size_t);  /* to the sender of the last datagram received */
void  sim_raw_dgclose(struct sim_sock*);
long  sim_raw_recvfrom(struct sim_sock*, void*, size_t);   /* -1 none */
int   sim_open_fds(void);
bool  sim_fd_open(int fd);
int   sim_server_fd(struct sim_sock* raw);                 /* fd of the CUT side of a raw connection, -1 */
void  sim_set_capacity(size_t n);                          /* stream buffer size for new connections */
int   sim_make_addr(const char* path, int len, void* sockaddr_storage); /* fills address, returns length */
int   sim_ready_events(int ep, int* fds, unsigned* events, int max);
void sim_set_fdbase(int first); /* the descriptors given out before stay as they are */
void  sim_set_short(int mask);                              /* 1 short receives, 2 short sends, 4 EINTR, 8 short receives even with MSG_WAITALL, 16 accept fails and the connection stays pending, 32 EINTR in epoll_wait: one deviation each */
void  sim_raw_shutdown(struct sim_sock*);                  /* half close: no more data will follow */
void  sim_set_errs(int on);                                /* ECONNRESET on close with unread data */
long  sim_ctr(const char* what);                           /* "close_bad" ... */
int   sim_epoll_create(void);
void  sim_close_fd(int fd);
void  sim_fail_send(int nth, int err);                     /* nth send from now fails */
#endif
