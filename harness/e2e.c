/* The whole way: generated client stubs, the real client, simulated sockets, the real server, generated server stubs and
   back.  Every call has to reach its handler once, with its values, and the caller gets that handler's answer; every event
   reaches the clients it is for, once. */
#include "vs.h"
#include "wire.h"
#include "gracht/client.h"
#include "gracht/server.h"
#include "gracht/link/socket.h"
#include <errno.h>
#include <stdio.h>
#include <string.h>
#include <sys/socket.h>
#include <sys/un.h>
int x_serve(gracht_server_t*); int x_listen(gracht_client_t*); int x_sub(gracht_client_t*, int); int x_sub2(gracht_client_t*, int);
int x_call(gracht_client_t*, struct gracht_message_context*, int, uint32_t); int x_result(gracht_client_t*, struct gracht_message_context*, int, uint32_t);
int x_flush(uint32_t); void x_drop(uint32_t); int x_event(gracht_server_t*, int, int, uint32_t);
#define MAXCL 6
#define MAXX 48
enum { OPEN, FINISHED, FAILED, FETCHED };
static struct cl { gracht_client_t* c; int handle; bool sub, sub2, known, gone; int fd, sv; } C[MAXCL]; static int nC;
static struct xc { struct gracht_message_context* ctx; int cl, fn; uint32_t tag; int handled, state, how; int ev[MAXCL], due[MAXCL], opt[MAXCL]; bool flushed; } X[MAXX]; static int nX;
static struct sv { gracht_server_t* s; bool done, run; } SV[2]; static int nS, inner, again;
static gracht_server_t* SRV; static bool loop_done, pkt, ending; static int full, nconn, ndisc, maxm; static char where_[64];

int h_full(void) { return full; }
void h_bad(int w, uint32_t tag) { vs_fail(w >= 20 ? "the result of call %u (function %d) is not what its handler answered" : w == 6 ? "event %u (%d) arrived with other values" : "call %u reached the handler of function %d with other values", tag >> 8, w >= 20 ? w - 20 : w); }
static void chain(int fn, int shape);
int h_req(int fn, uint32_t tag, void* server, int client, int link) {
    (void)link;
    vs_yield_point("handler");
    int sv = nS > 1 && server == SV[1].s;
    VS_CHECK(server == SV[sv].s && !SV[sv].done, "a handler runs for a wrong server or after it stopped");
    if (fn == 8) { int i; for (i = 0; i < nX; i++) if (X[i].fn == 8 && !X[i].handled && C[X[i].cl].sv == sv && (C[X[i].cl].handle == client || C[X[i].cl].handle == -1)) break; VS_CHECK(i < nX, "a handler ran for a call nobody made (ping)"); tag = X[i].tag; }
    VS_CHECK((int)(tag >> 8) < nX, "a handler ran for a call nobody made (%x)", tag);
    struct xc* x = &X[tag >> 8]; struct cl* c = &C[x->cl];
    vs_trace("the handler of function %d runs: call %u from handle %d", fn, tag >> 8, client);
    VS_CHECK(x->tag == tag && x->fn == fn, "call %u of function %d reached function %d", tag >> 8, x->fn, fn);
    VS_CHECK(++x->handled == 1, "call %u was handled twice", tag >> 8);
    VS_CHECK(c->sv == sv, "call %u, made to server %d, reached server %d", tag >> 8, c->sv, sv);
    for (int i = 0; i < nC; i++) VS_CHECK(i == x->cl || C[i].sv != sv || C[i].handle != client || C[i].gone, "call %u of client %d was attributed to client %d", tag >> 8, x->cl, i);
    VS_CHECK(c->handle == -1 || c->handle == client, "call %u of client %d (handle %d) was attributed to handle %d", tag >> 8, x->cl, c->handle, client);
    c->handle = client;
    if (inner >= 0 && !sv && fn != 5 && fn != 4) chain(fn, (int)(tag & 7));
    if (fn == 8) return (int)tag;
    if (fn != 4) return 0;
    for (int i = 0; i < nC; i++) {
        bool self = i == x->cl;
        if (x->how == 0 || C[i].gone || C[i].sv != sv) continue;
        if (x->how == 5 ? C[i].sub2 : x->how <= 2 ? C[i].sub : self && (!pkt || C[i].known)) x->due[i] = 1;
    }
    return x->how;
}
void h_evt(void* client, int eid, uint32_t tag) {
    int i; for (i = 0; i < nC && C[i].c != client; i++) ;
    VS_CHECK(i < nC, "an event callback got a wrong client");
    vs_yield_point("event callback");
    vs_trace("event %d (%u) at client %d", eid, tag >> 8, i);
    VS_CHECK((int)(tag >> 8) < nX && X[tag >> 8].tag == tag, "an event arrived that nobody sent (%x)", tag);
    struct xc* x = &X[tag >> 8];
    VS_CHECK(x->how && eid == (x->how == 5 ? 9 : x->how % 2 ? 6 : 7), "event %u arrived as %d", tag >> 8, eid);
    VS_CHECK(x->due[i], "event %u reached client %d, for which it was not", tag >> 8, i);
    VS_CHECK(++x->ev[i] == 1, "event %u reached client %d twice", tag >> 8, i);
}
void h_sent(uint32_t tag, int what, int status) {
    struct xc* x = &X[tag >> 8];
    if (C[x->cl].gone || ending) return;
    if (what > 2 && what < 5 && pkt && !C[x->cl].known) { VS_CHECK(status, "sending event %u to a client the server does not know reports success", tag >> 8); return; }
    VS_CHECK(!status, "%s %u fails (%d)", what ? "sending event" : "answering call", tag >> 8, status);
}
/* ---- set-up and end */
static void on_conn(int h) { nconn++; (void)h; vs_trace("clientConnected(%d)", h); }
static void on_disc(int h) { ndisc++; (void)h; vs_trace("clientDisconnected(%d)", h); VS_CHECK(ndisc <= nconn, "clientDisconnected without a client"); }
static int loop_main(void* a) { int k = (int)(long)a; gracht_server_main_loop(SV[k].s); SV[k].done = true; if (!k) loop_done = true; return 0; }
static const char* ADR[2][2] = { { "/srv", "/srv2" }, { "inet:a", "inet:b" } };
static struct gracht_link* lnk(bool server, int sv) {
    struct gracht_link_socket* l; struct sockaddr_storage ss;
    VS_CHECK(!gracht_link_socket_create(&l), "link creation fails");
    gracht_link_socket_set_type(l, pkt ? gracht_link_packet_based : gracht_link_stream_based);
    if (server) gracht_link_socket_set_listen(l, 1);
    gracht_link_socket_set_domain(l, pkt ? AF_INET : AF_UNIX);
    int n = sim_make_addr(ADR[pkt][sv], 0, &ss);
    gracht_link_socket_set_address(l, &ss, (socklen_t)n);
    return (struct gracht_link*)l;
}
static gracht_server_t* serve(int k, int workers, int maxmsg, int set) {
    gracht_server_configuration_t c;
    gracht_server_configuration_init(&c);
    c.callbacks.clientConnected = on_conn; c.callbacks.clientDisconnected = on_disc;
    if (set >= 0) gracht_server_configuration_set_aio_descriptor(&c, set);
    if (workers) gracht_server_configuration_set_num_workers(&c, workers);
    if (maxmsg) gracht_server_configuration_set_max_msg_size(&c, maxmsg);
    VS_CHECK(!gracht_server_create(&c, &SV[k].s), "server creation fails");
    VS_CHECK(!gracht_server_add_link(SV[k].s, lnk(true, k)), "add_link fails");
    VS_CHECK(!x_serve(SV[k].s), "register_protocol fails");
    return SV[k].s;
}
static void e2_start(int workers, int maxmsg) {
    nC = nX = 0; nS = 1; inner = -1; memset(SV, 0, sizeof SV); loop_done = ending = false; full = nconn = ndisc = 0; maxm = maxmsg; pkt = vs_param("pkt", 0);
    if (vs_param("cap", 0)) sim_set_capacity((size_t)vs_param("cap", 0));
    SRV = serve(0, workers, maxmsg, -1);
    vs_spawn("server", loop_main, NULL, true);
}
static int join_at(int sv) {
    struct cl* x = &C[nC]; memset(x, 0, sizeof *x); x->handle = -1; x->sv = sv; x->sub = x->sub2 = !pkt;
    gracht_client_configuration_t c;
    gracht_client_configuration_init(&c);
    gracht_client_configuration_set_link(&c, lnk(false, sv));
    if (maxm) gracht_client_configuration_set_max_msg_size(&c, maxm);
    VS_CHECK(!gracht_client_create(&c, &x->c), "client creation fails");
    VS_CHECK(!x_listen(x->c), "register_protocol fails");
    VS_CHECK(!gracht_client_connect(x->c), "connect fails");
    return nC++;
}
static int join_(void) { return join_at(0); }
static int invoke(int cl, int fn, int shape, int how) {
    VS_CHECK(nX < MAXX, "vs-internal: calls");
    int i = nX++; struct xc* x = &X[i]; memset(x, 0, sizeof *x);
    x->ctx = vs_guarded_alloc(sizeof *x->ctx); memset(x->ctx, 0, sizeof *x->ctx);
    x->cl = cl; x->fn = fn; x->tag = (uint32_t)i << 8 | (uint32_t)shape; x->how = how;
    vs_trace("client %d calls function %d (call %d, shape %d)", cl, fn, i, shape);
    int r = x_call(C[cl].c, x->ctx, fn, x->tag);
    VS_CHECK(!r, "call %d of function %d fails (%d)", i, fn, r);
    return i;
}
static void result(int i, int want) {
    struct xc* x = &X[i]; int r = x_result(C[x->cl].c, x->ctx, x->fn, x->tag);
    vs_trace("call %d has status %d", i, r);
    VS_CHECK(r == want, "call %d of function %d has status %d instead of %d", i, x->fn, r, want);
    if (r == GRACHT_MESSAGE_COMPLETED) { VS_CHECK(x->handled == 1, "call %d has a result but was handled %d times", i, x->handled); VS_CHECK(x->fn != 5 || x->flushed, "call %d has a result before it was answered", i); x->state = FETCHED; }
}
static void wait_for(int i, int mode) {
    struct xc* x = &X[i]; gracht_client_t* c = C[x->cl].c; int r;
    switch (mode) {
    case 0: r = gracht_client_await(c, x->ctx, GRACHT_AWAIT_ALL); break;
    case 1: r = gracht_client_wait_message(c, x->ctx, GRACHT_MESSAGE_BLOCK); break;
    case 2: { struct gracht_message_context* a[1] = { x->ctx }; r = gracht_client_await_multiple(c, a, 1, GRACHT_AWAIT_ANY); break; }
    default: r = 0; for (int g = vs_param("cap", 0) ? 700 : 1; g; g--) { vs_wait_quiescent(); while (!gracht_client_wait_message(c, NULL, 0)) g = 1; }
    }
    VS_CHECK(!r, "waiting for call %d fails (%d)", i, r);
}
static void pump(int cl) { int g = 0; while (!gracht_client_wait_message(C[cl].c, NULL, 0)) VS_CHECK(++g < 100, "client %d receives without end", cl); }
static void settle(const char* when) {
    vs_wait_quiescent();
    for (int k = vs_param("cap", 0) ? 700 : 3; k; k--) { for (int i = 0; i < nC; i++) if (!C[i].gone) pump(i); vs_wait_quiescent(); }
    for (int i = 0; i < nX; i++) { struct xc* x = &X[i];
        VS_CHECK(x->handled == 1 || C[x->cl].gone, "call %d (function %d) was handled %d times %s", i, x->fn, x->handled, when);
        for (int k = 0; k < nC; k++) if (!C[k].gone) VS_CHECK(x->ev[k] == x->due[k], "event %d reached client %d %d instead of %d times %s", i, k, x->ev[k], x->due[k], when); }
    if (!pkt && !(nS > 1 && (SV[0].done || SV[1].done || again))) { int g = 0; for (int k = 0; k < nC; k++) g += C[k].gone; VS_CHECK(nconn == nC && ndisc == g, "%d clients joined and %d left, but the callbacks ran %d and %d times", nC, g, nconn, ndisc); }
}
static void leave(int cl) { vs_trace("client %d shuts down", cl); C[cl].gone = true; gracht_client_shutdown(C[cl].c); }
static void stop(void) {
    ending = true;
    gracht_server_request_shutdown(SRV);
    if (pkt) { struct sim_sock* s = sim_raw_dgram("/poke", 0); uint8_t m[16]; whdr(m, 1, HDR, 9, 9, T_SYNC); sim_raw_sendto(s, "inet:a", 0, m, HDR); } else sim_raw_connect("/srv");
    vs_wait_quiescent();
    VS_CHECK(loop_done, "the server did not stop after shutdown was requested");
}
static void e2_end(void) {
    for (int i = 0; i < nX; i++) { if (X[i].fn == 5 && !X[i].flushed) x_drop(X[i].tag); if (X[i].fn != 4 && X[i].state == OPEN && !C[X[i].cl].gone) vs_count("unfetched", 1); }
    for (int i = 0; i < nC; i++) if (!C[i].gone) leave(i);
    vs_wait_quiescent();
    if (!loop_done) { if (!pkt) VS_CHECK(ndisc == nC, "%d clients left, but clientDisconnected ran %d times", nC, ndisc); stop(); }
    vs_check_no_leaks("after shutdown of clients and server");
    VS_CHECK(sim_open_fds() == 0, "%d descriptors are still open after shutdown", sim_open_fds());
    VS_CHECK(sim_ctr("close_bad") == 0, "a descriptor was closed twice");
}
static const int FN[] = { 1, 2, 3, 4, 5, 8, 21 };

static int flush_main(void* a) { int i = (int)(long)a; X[i].flushed = true; int r = x_flush(X[i].tag); VS_CHECK(!r || C[X[i].cl].gone || ending, "answering the deferred call %d fails (%d)", i, r); return 0; }

VS_SCENARIO(e2e_values) { /* every function with every shape of values, every way of waiting; then another one */
    sim_set_short((int)vs_param("short", 0));
    e2_start((int)vs_param("workers", 0), 0); int c = join_();
    if (pkt) { VS_CHECK(!x_sub(C[c].c, 1), "subscribing fails"); C[c].sub = C[c].known = true; vs_wait_quiescent(); }
    int n = (int)vs_param("calls", 2), nsh = (int)vs_param("shapes", 8);
    for (int k = 0; k < n; k++) {
        int fn = FN[vs_choose(7, "function")], sh = vs_choose(nsh, "shape"), how = fn == 4 ? vs_choose(6, "event") : 0, mode = fn == 4 ? 0 : vs_choose(4, "waiting");
        int i = invoke(c, fn, sh, how);
        if (fn == 5) { vs_wait_quiescent(); result(i, GRACHT_MESSAGE_INPROGRESS); if (vs_param("cap", 0)) vs_spawn("answer", flush_main, (void*)(long)i, false); else flush_main((void*)(long)i); }
        if (fn != 4) { wait_for(i, mode); result(i, GRACHT_MESSAGE_COMPLETED); result(i, GRACHT_MESSAGE_ERROR); }
    }
    settle("at the end"); e2_end();
}
/* ---- histories of two clients */
static int pick(void) { int c = vs_choose(nC, "client"); vs_assume(!C[c].gone); return c; }
VS_SCENARIO(e2e_seq) {
    int depth = (int)vs_param("depth", 4), workers = (int)vs_param("workers", 0);
    e2_start(workers, 0); join_(); join_();
    vs_wait_quiescent();
    for (int d = 0; d < depth; d++) {
        int cl = 0, a = vs_choose(pkt ? 12 : 14, "step"); vs_assume(vs_param("ops", 0x3fff) >> a & 1);
        switch (a) {
        case 0: case 1: cl = pick(); invoke(cl, a ? 5 : d == 2 ? 21 : FN[(d * 2 + cl) % 3], (d + 3 * a) & 7, 0); break;
        case 2: { int i; for (i = 0; i < nX; i++) if (X[i].fn == 5 && !X[i].flushed && X[i].handled) break; vs_assume(i < nX); X[i].flushed = true; int r = x_flush(X[i].tag); VS_CHECK(!r || C[X[i].cl].gone, "answering the deferred call %d fails (%d)", i, r); break; }
        case 3: { int i; for (i = nX - 1; i >= 0; i--) if (X[i].fn == 5 && !X[i].flushed && X[i].handled) break; vs_assume(i > 0); X[i].flushed = true; int r = x_flush(X[i].tag); VS_CHECK(!r || C[X[i].cl].gone, "answering the deferred call %d fails (%d)", i, r); break; }
        case 4: case 5: { cl = a - 4; vs_assume(!C[cl].gone);
            if (cl && vs_choose(2, "service")) { VS_CHECK(!x_sub2(C[cl].c, !C[cl].sub2), "subscribing fails"); C[cl].sub2 = !C[cl].sub2; C[cl].known |= C[cl].sub2; break; }
            VS_CHECK(!x_sub(C[cl].c, !C[cl].sub), "subscribing fails"); C[cl].sub = !C[cl].sub; C[cl].known |= C[cl].sub; break; }
        case 6: case 7: cl = pick(); invoke(cl, 4, d & 7, a == 6 ? 1 : 2); break;
        case 8: cl = pick(); invoke(cl, 4, d & 7, 3 + vs_choose(3, "event")); break;
        case 9: { int i; for (i = 0; i < nX; i++) if (X[i].fn != 4 && X[i].state == OPEN && !C[X[i].cl].gone && (X[i].fn != 5 || X[i].flushed)) break; vs_assume(i < nX); wait_for(i, d % 3); result(i, GRACHT_MESSAGE_COMPLETED); break; }
        case 10: { int i; for (i = nX - 1; i >= 0; i--) if (X[i].fn != 4 && X[i].state == OPEN && !C[X[i].cl].gone && (X[i].fn != 5 || X[i].flushed)) break; vs_assume(i > 0); wait_for(i, (d + 1) % 3); result(i, GRACHT_MESSAGE_COMPLETED); break; }
        case 11: for (int i = 0; i < nC; i++) if (!C[i].gone) pump(i); break;
        case 12: cl = pick(); leave(cl); break;
        case 13: vs_assume(nC < 3); join_(); break;
        }
        if (a != 0 || workers) vs_wait_quiescent();
    }
    for (int i = 0; i < nX; i++) if (X[i].fn == 5 && !X[i].flushed && X[i].handled) { vs_wait_quiescent(); X[i].flushed = true; int r = x_flush(X[i].tag); VS_CHECK(!r == !C[X[i].cl].gone, "answering the deferred call %d of a client that is %s returns %d", i, C[X[i].cl].gone ? "gone" : "there", r); }
    settle("at the end");
    for (int i = 0; i < nX; i++) if (X[i].fn != 4 && X[i].state == OPEN && !C[X[i].cl].gone) result(i, GRACHT_MESSAGE_COMPLETED);
    e2_end();
}
/* ---- threads */
struct job { int cl, fn, shape, mode, times, base; };
static struct job J[4];
static int job_main(void* a) {
    struct job* j = a;
    for (int k = 0; k < j->times; k++) { int i = invoke(j->cl, j->fn, j->shape + k, j->fn == 4 ? 1 : 0); if (j->fn != 4) { wait_for(i, j->mode); result(i, GRACHT_MESSAGE_COMPLETED); } }
    return 0;
}
VS_SCENARIO(e2e_mt) { /* threads that share a client, and another client, call at the same time */
    int sh = (int)vs_param("share", 1), n = (int)vs_param("threads", 2), t[4];
    vs_explore(false);
    e2_start((int)vs_param("workers", 0), 0); join_(); if (!sh || n > 2) join_();
    vs_wait_quiescent();
    vs_explore(true);
    for (int k = 0; k < n; k++) { J[k] = (struct job){ .cl = k == 2 ? 1 : sh ? 0 : k & 1, .fn = FN[vs_choose(4, "function")], .shape = 1 + 2 * k, .mode = vs_choose(2, "waiting"), .times = (int)vs_param("times", 1) }; t[k] = vs_spawn("caller", job_main, &J[k], false); }
    for (int k = 0; k < n; k++) vs_join(t[k]);
    vs_explore(false);
    settle("at the end"); e2_end();
}
static int wait_main(void* a) { int i = (int)(long)a & 0xff; wait_for(i, (int)((long)a >> 8)); result(i, GRACHT_MESSAGE_COMPLETED); return 0; }
VS_SCENARIO(e2e_later) { /* deferred answers and events from other threads while the callers wait */
    vs_explore(false);
    e2_start((int)vs_param("workers", 0), 0); join_(); if (vs_param("clients", 1) > 1) join_();
    vs_wait_quiescent();
    int a = invoke(0, 5, 1, 0), b = invoke(nC - 1, 5, 2, 0); vs_wait_quiescent();
    vs_explore(true);
    int t[4];
    int ev = vs_choose(3, "event"), k = nX; (void)k;
    t[0] = vs_spawn("waiter", wait_main, (void*)(long)(a | vs_choose(2, "waiting") << 8), false);
    t[1] = vs_spawn("waiter", wait_main, (void*)(long)(b | vs_choose(2, "waiting") << 8), false);
    t[2] = vs_spawn("answer", flush_main, (void*)(long)b, false);
    if (ev) { int i = nX++; struct xc* x = &X[i]; memset(x, 0, sizeof *x); x->cl = 0; x->fn = 4; x->how = ev; x->tag = (uint32_t)i << 8 | 4; x->handled = 1; for (int c = 0; c < nC; c++) x->due[c] = 1; VS_CHECK(!x_event(SRV, ev, 0, x->tag), "sending an event fails"); }
    flush_main((void*)(long)a);
    for (int j = 0; j < 3; j++) vs_join(t[j]);
    vs_explore(false);
    settle("at the end"); e2_end();
}
/* ---- one side goes */
static int end_main(void* a) {
    int i = (int)(long)a & 0xff, mode = (int)((long)a >> 8); struct xc* x = &X[i]; gracht_client_t* c = C[x->cl].c;
    int r = mode ? gracht_client_wait_message(c, x->ctx, GRACHT_MESSAGE_BLOCK) : gracht_client_await(c, x->ctx, GRACHT_AWAIT_ALL);
    if (!r && x->flushed) { result(i, GRACHT_MESSAGE_COMPLETED); return 0; }
    VS_CHECK(r, "waiting for call %d succeeds although it was never answered", i);
    int s = x_result(c, x->ctx, x->fn, x->tag);
    VS_CHECK(s != GRACHT_MESSAGE_COMPLETED || x->flushed, "call %d has a result but was never answered", i);
    return 0;
}
VS_SCENARIO(e2e_end) { /* a client leaves with a call outstanding and another goes on; the server stops while a client waits */
    vs_explore(false);
    e2_start((int)vs_param("workers", 0), 0); join_(); join_(); vs_wait_quiescent();
    int a = invoke(0, 5, 1, 0), b = invoke(1, 5, 2, 0), what = vs_choose(pkt ? 2 : 4, "who goes"), mode = vs_choose(2, "waiting"); vs_wait_quiescent();
    vs_explore(true);
    if (what < 2) {
        leave(0); if (what == 0) vs_wait_quiescent();
        X[a].flushed = true; int r = x_flush(X[a].tag); VS_CHECK(what || pkt || r, "the answer to a client that left reports success");
        int t = vs_spawn("answer", flush_main, (void*)(long)b, false);
        wait_for(b, mode); result(b, GRACHT_MESSAGE_COMPLETED); vs_join(t);
        int i = invoke(1, 4, 3, 1); (void)i; int j = invoke(1, 1, 3, 0); wait_for(j, mode); result(j, GRACHT_MESSAGE_COMPLETED);
        vs_explore(false); settle("after a client left");
    } else {
        int t = vs_spawn("waiter", end_main, (void*)(long)(b | mode << 8), false), f = -1;
        if (what == 3) { f = vs_spawn("answer", flush_main, (void*)(long)b, false); vs_join(f); }
        stop();
        vs_join(t);
    }
    e2_end();
}
/* ---- sizes: messages up to the limit of the connection arrive whole */
static void sizes(int mm, int n) {
    e2_start((int)vs_param("workers", 0), mm); int c = join_(); full = n;
    for (int k = 0; k < 2; k++) { int i = invoke(c, 2, k, 0); wait_for(i, k); result(i, GRACHT_MESSAGE_COMPLETED); }
    settle("at the end"); e2_end();
}
#define OVERHEAD (HDR + 4 + 1 + 4)
VS_SCENARIO(e2e_sizes) {
    static const int M[] = { 0, 64, 300, 3900 }, O[] = { 0, 1, 2, 3, 8, 17 };
    int mm = M[vs_choose(4, "maximum")], n = (mm ? mm : 2048) - OVERHEAD - O[vs_choose(6, "size")];
    sizes(mm, n);
}
/* ---- two servers and their clients in one process */
static void chain(int fn, int shape) { int i = invoke(inner, fn, shape, 0); wait_for(i, 0); result(i, GRACHT_MESSAGE_COMPLETED); }
int vs_own_wait(int ep, int* fds, unsigned* ev, int max);
static int own_set;
static int both_main(void* a) { /* the application has one loop for both, on a descriptor set of its own: whoever owns a descriptor says so */
    int fds[16]; unsigned ev[16]; int first = (int)(long)a;
    for (;;) {
        int n = vs_own_wait(own_set, fds, ev, 16);
        for (int i = 0; i < n; i++) {
            int owners = 0;
            for (int j = 0; j < 2; j++) {
                int k = first ^ j; if (SV[k].done) continue;
                errno = 0;
                int r = gracht_server_handle_event(SV[k].s, fds[i], ev[i]);
                if (r == -1 && errno == EPIPE) { SV[k].done = true; if (!k) loop_done = true; j--; continue; }
                owners += !r;
            }
            VS_CHECK(owners <= 1, "both servers handled the event of descriptor %d", fds[i]);
        }
        if (SV[0].done && SV[1].done) return 0;
    }
}
static void two_start(void) {
    own_set = -1;
    if (!vs_param("own", 0)) e2_start((int)vs_param("workers", 0), 0);
    else {
        nC = nX = 0; inner = -1; memset(SV, 0, sizeof SV); loop_done = ending = false; full = nconn = ndisc = maxm = 0; pkt = vs_param("pkt", 0);
        own_set = sim_epoll_create(); SRV = serve(0, (int)vs_param("workers", 0), 0, own_set);
    }
    nS = 2; serve(1, (int)vs_param("workers2", 0), 0, own_set);
    if (own_set >= 0) vs_spawn("application", both_main, (void*)(long)vs_choose(2, "who is asked first"), true); else vs_spawn("server 2", loop_main, (void*)1L, true);
    again = 0;
}
static void stop_at(int k) {
    vs_trace("server %d shuts down", k); 
    for (int i = 0; i < nX; i++) if (X[i].fn == 5 && !X[i].flushed && X[i].handled && C[X[i].cl].sv == k) { x_drop(X[i].tag); X[i].flushed = true; }
    gracht_server_request_shutdown(SV[k].s);
    if (pkt) { struct sim_sock* p = sim_raw_dgram(k ? "/poke2" : "/poke", 0); uint8_t m[16]; whdr(m, 1, HDR, 9, 9, T_SYNC); sim_raw_sendto(p, ADR[1][k], 0, m, HDR); } else sim_raw_connect(ADR[0][k]);
    vs_wait_quiescent();
    VS_CHECK(SV[k].done, "server %d did not stop after shutdown was requested", k);
    VS_CHECK(SV[!k].done == SV[!k].run, "server %d stopped as well", !k); SV[k].run = true;
}
static void two_end(void) {
    for (int i = 0; i < nX; i++) if (X[i].fn == 5 && !X[i].flushed) x_drop(X[i].tag);
    for (int i = 0; i < nC; i++) if (!C[i].gone) leave(i);
    vs_wait_quiescent();
    for (int k = 0; k < 2; k++) if (!SV[k].done) stop_at(k);
    if (own_set >= 0) sim_close_fd(own_set);
    vs_check_no_leaks("after shutdown of clients and servers");
    VS_CHECK(sim_open_fds() == 0, "%d descriptors are still open after shutdown", sim_open_fds());
    VS_CHECK(sim_ctr("close_bad") == 0, "a descriptor was closed twice");
}
VS_SCENARIO(two_seq) { /* every history of calls, deferred answers, events, (un)subscriptions, clients that come and go, and the end of one of the servers */
    int depth = (int)vs_param("depth", 4), workers = (int)vs_param("workers", 0) + (int)vs_param("workers2", 0);
    two_start(); join_at(0); join_at(1); if (vs_param("clients", 2) > 2) join_at(1);
    vs_wait_quiescent();
    for (int d = 0; d < depth; d++) {
        int a = vs_choose(9, "step"), cl = 0; vs_assume(vs_param("ops", 511) >> a & 1);
        if (a < 4 || a == 5) { cl = vs_choose(nC, "client"); vs_assume(!C[cl].gone && !SV[C[cl].sv].done); }
        switch (a) {
        case 0: { int i = invoke(cl, FN[(d * 2 + cl) % 3], (d + cl) & 7, 0); wait_for(i, d % 3); result(i, GRACHT_MESSAGE_COMPLETED); break; }
        case 1: invoke(cl, 5, d & 7, 0); break;
        case 2: invoke(cl, 4, d & 7, 1 + vs_choose(5, "event")); break;
        case 3: VS_CHECK(!x_sub(C[cl].c, !C[cl].sub), "subscribing fails"); C[cl].sub = !C[cl].sub; C[cl].known |= C[cl].sub; break;
        case 4: { int n = 0, l[MAXX]; for (int i = 0; i < nX; i++) if (X[i].fn == 5 && !X[i].flushed && X[i].handled) l[n++] = i; vs_assume(n > 0); int i = l[n > 1 ? vs_choose(n, "which") : 0]; X[i].flushed = true; int r = x_flush(X[i].tag); VS_CHECK(!r || C[X[i].cl].gone, "answering the deferred call %d fails (%d)", i, r);
                  if (!C[X[i].cl].gone) { wait_for(i, d % 2); result(i, GRACHT_MESSAGE_COMPLETED); } break; }
        case 5: leave(cl); break;
        case 6: { int k = SV[0].done ? 0 : 1; vs_assume(SV[k].done && !(SV[0].done && SV[1].done)); vs_trace("server %d starts again", k); SV[k].done = SV[k].run = false; serve(k, 0, 0, own_set); if (!k) { SRV = SV[0].s; loop_done = false; } again++;
                  if (own_set < 0) vs_spawn("server again", loop_main, (void*)(long)k, true);
                  join_at(k); break; }
        case 7: { int k = vs_choose(2, "server"); vs_assume(!SV[k].done && nC < 5); join_at(k); break; }
        case 8: { int k = vs_choose(2, "server"); vs_assume(!SV[k].done && d < depth - 1); vs_wait_quiescent(); settle("before a server stops"); stop_at(k);
                  for (int i = 0; i < nC; i++) if (C[i].sv == k && !C[i].gone) leave(i);
                  break; }
        }
        if (a || workers) vs_wait_quiescent();
    }
    settle("at the end");
    two_end();
}
VS_SCENARIO(two_mt) { /* callers of both servers at the same time; both servers answer, send events and lose clients under every schedule */
    int t[4], n = 0;
    vs_explore(false);
    two_start(); join_at(0); join_at(1); if (vs_param("leave", 0)) join_at(1);
    vs_wait_quiescent();
    vs_explore(true);
    int f = vs_choose(4, "function");
    for (int k = 0; k < 2; k++) { J[k] = (struct job){ .cl = k, .fn = k ? FN[vs_choose(4, "function")] : FN[f], .shape = 1 + 2 * k, .mode = k, .times = 1 }; t[n++] = vs_spawn("caller", job_main, &J[k], false); }
    if (vs_param("leave", 0)) { vs_yield_point("leave"); leave(2); }
    for (int k = 0; k < n; k++) vs_join(t[k]);
    vs_explore(false);
    settle("at the end"); two_end();
}
VS_SCENARIO(two_stop) { /* one server stops while the other one serves */
    vs_explore(false);
    two_start(); join_at(0); join_at(1);
    vs_wait_quiescent();
    int k = vs_choose(2, "server");
    for (int i = 0; i < nC; i++) if (C[i].sv == k && vs_choose(2, "the client leaves first")) leave(i);
    vs_wait_quiescent();
    vs_explore(true);
    J[0] = (struct job){ .cl = !k, .fn = FN[vs_choose(4, "function")], .shape = 3, .mode = vs_choose(2, "waiting"), .times = 2 };
    int t = vs_spawn("caller", job_main, &J[0], false);
    stop_at(k);
    vs_join(t);
    for (int i = 0; i < nC; i++) if (C[i].sv == k && !C[i].gone) leave(i);
    vs_explore(false);
    settle("at the end"); two_end();
}
VS_SCENARIO(two_chain) { /* the handlers of one server call the other one, through a client that belongs to the server's process */
    int n = (int)vs_param("threads", 2), t[4], share = (int)vs_param("share", 0);
    vs_explore(false);
    two_start(); join_at(0); if (!share && n > 1) join_at(0); int in = join_at(1);
    vs_wait_quiescent(); inner = in;
    vs_explore(true);
    static const int F[] = { 1, 2, 3, 21 };
    for (int k = 0; k < n; k++) { J[k] = (struct job){ .cl = share ? 0 : k, .fn = F[vs_choose(4, "function")], .shape = 1 + 2 * k, .mode = vs_choose(2, "waiting"), .times = (int)vs_param("times", 1) }; t[k] = vs_spawn("caller", job_main, &J[k], false); }
    for (int k = 0; k < n; k++) vs_join(t[k]);
    vs_explore(false);
    settle("at the end"); inner = -1; two_end();
}
VS_SCENARIO(e2e_big) { /* arguments that do not fit a message: the call has to be refused */
    static const int O[] = { 1, 2, 50, 511, 512, 513, 1000 };
    int n = 2048 - OVERHEAD + O[vs_choose(7, "bytes too many")];
    e2_start((int)vs_param("workers", 0), 0); int c = join_(); full = n;
    static struct gracht_message_context ctx; struct xc* x = &X[nX++]; memset(x, 0, sizeof *x); x->ctx = vs_guarded_alloc(sizeof ctx); x->cl = c; x->fn = 2; x->tag = 1;
    int r = x_call(C[c].c, x->ctx, 2, x->tag); VS_CHECK(r, "a call that does not fit a message reports success");
    full = 0; nX = 0; int i = invoke(c, 1, 1, 0); wait_for(i, 0); result(i, GRACHT_MESSAGE_COMPLETED);
    e2_end();
}
