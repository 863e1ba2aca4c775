/* Client-side harness: a real gracht client on simulated sockets against a raw server, and a reference model of what every
   client operation must return and which callbacks must run. */
#ifndef CLI_H
#define CLI_H
#include "vs.h"
#include "wire.h"
#include "gracht/client.h"
#include "gracht/link/socket.h"
#include <errno.h>
#include <stdio.h>
#include <string.h>
#include <sys/socket.h>
#include <sys/un.h>
extern gracht_protocol_t cut_cprotos[];
int cut_call(gracht_client_t*, struct gracht_message_context*, int, int, int, uint16_t, uint32_t);
int cut_result(gracht_client_t*, struct gracht_message_context*, uint8_t*, uint32_t, uint32_t*);
int cut_register_many(gracht_client_t*, int); void cut_unregister_many(gracht_client_t*, int);
#define ADDR "/srv"
enum { INPROG, DONE, ERR, FETCHED };
struct call { struct gracht_message_context* ctx; uint32_t id; int sid, aid, type; uint16_t tag; uint32_t n; int state; bool answered, got; uint16_t rtag; uint32_t rn; bool live; };
enum { K_RESP, K_ERR, K_EVENT, K_OTHER };
struct wmsg { int kind, call, sid, eid; uint16_t tag; uint32_t n; };
struct evrec { int sid, eid; uint16_t tag; uint32_t n; };
#ifndef SRX
#define SRX 70000
#define OUTX 8192
#endif
#define MAXCALL 320
#define MAXMSG 1400
static struct call CA[MAXCALL]; static int nC;
static struct wmsg WM[MAXMSG]; static int nM, pos;
static struct evrec EVX[MAXMSG], EVG[MAXMSG]; static int nX, nG;
static gracht_client_t* CL; static struct sim_sock *LS, *SS; static bool dgram; static char cpath[32];
static void (*ev_hook)(int sid, int eid);
static bool regd[3]; static int conn; /* 0 open, 1 closed, 2 reset or unusable */
static bool lost; static uint16_t ev_tag, resp_tag; static uint8_t srx[SRX]; static size_t nsrx; static int call_seen; static int unordered;

static struct gracht_link* mk_clink(int type, int domain, const char* path) {
    struct gracht_link_socket* l; struct sockaddr_storage ss;
    VS_CHECK(!gracht_link_socket_create(&l), "link creation fails");
    gracht_link_socket_set_type(l, type);
    gracht_link_socket_set_domain(l, domain);
    int n = sim_make_addr(path, 0, &ss);
    gracht_link_socket_set_address(l, &ss, (socklen_t)n);
    return (struct gracht_link*)l;
}
static void cli_create(int type, int domain, const char* path, int maxmsg, int rbuf) {
    gracht_client_configuration_t c;
    gracht_client_configuration_init(&c);
    gracht_client_configuration_set_link(&c, mk_clink(type, domain, path));
    if (maxmsg) gracht_client_configuration_set_max_msg_size(&c, maxmsg);
    if (rbuf) gracht_client_configuration_set_recv_buffer(&c, NULL, rbuf);
    VS_CHECK(!gracht_client_create(&c, &CL), "client creation fails");
}
static void cmodel_reset(void) {
    nC = nM = pos = nX = nG = 0; CL = NULL; LS = SS = NULL; dgram = false; conn = 0; lost = false; ev_tag = 100; resp_tag = 500; nsrx = 0; call_seen = 0; unordered = 0; memset(regd, 0, sizeof regd); ev_hook = NULL;
}
static void reg(int p, bool on) {
    vs_trace("the client %s protocol %d", on ? "registers" : "unregisters", cut_cprotos[p].id);
    if (on) VS_CHECK(!gracht_client_register_protocol(CL, &cut_cprotos[p]), "register_protocol fails"); else gracht_client_unregister_protocol(CL, &cut_cprotos[p]);
    regd[p] = on;
}
static bool jump_ids(uint32_t);
static void cli_start(int maxmsg, int rbuf, int protos) {
    cmodel_reset();
    LS = sim_raw_listen(ADDR);
    cli_create(gracht_link_stream_based, AF_UNIX, ADDR, maxmsg, rbuf);
    VS_CHECK(!gracht_client_connect(CL), "connect fails");
    SS = sim_raw_accept(LS); VS_CHECK(SS, "no connection arrived");
    for (int i = 0; i < protos; i++) reg(i, true);
    static const uint32_t IDS[] = { 0, 0x7e, 0xfe, 0x7ffe, 0xfffe, 0xfffffe, 0x7ffffffe, 0xfffffffe };
    int f = (int)vs_param("firstid", 0); if (f) jump_ids(IDS[f == 9 ? 1 + vs_choose(7, "calls made before") : f]);
}
/* A client that has made very many calls: the counter of message ids is found in the client's memory (the one word that follows the ids it
   sends), and set. Without such a word (the ids are made otherwise) the history runs from the first id. */
static bool jump_ids(uint32_t to) {
    static uint8_t m[256]; uint8_t* base = (uint8_t*)CL; size_t n = 0; static uint32_t first[1024]; static bool ok[1024]; uint32_t id0 = 0;
    while (n < 1024 && vs_addr_ok(base + 4 * n, 4)) n++;
    memset(ok, 1, sizeof ok);
    for (int k = 0; k < 4; k++) {
        VS_CHECK(!cut_call(CL, NULL, 1, 1, T_ASYNC, 9, 3), "a call fails"); size_t a = sim_raw_avail(SS); VS_CHECK(a == HDR + 5, "a call did not reach the server"); sim_raw_recv(SS, m, a);
        uint32_t id = r32(m);
        for (size_t i = 0; i < n; i++) { uint32_t v = r32(base + 4 * i); if (!k) first[i] = v - id; else if (v - id != first[i] || id == id0) ok[i] = false; }
        id0 = id;
    }
    int hits = 0; size_t at = 0; for (size_t i = 0; i < n; i++) if (ok[i]) { hits++; at = i; }
    if (hits != 1) { vs_trace("there is no counter of message ids (%d words)", hits); return false; }
    w32(base + 4 * at, to + first[at] - 1); vs_trace("the client has made %u calls before", to); return true;
}
/* ---- what the server sends ---- */
static void srv_send(const uint8_t* m, size_t n) {
    if (dgram) VS_CHECK(!sim_raw_sendto(SS, cpath, 0, m, n) || 1, "x"); else sim_raw_send(SS, m, n);
}
static uint8_t OUT[OUTX]; static size_t nOUT;
static struct wmsg* pend_msg(int kind) { VS_CHECK(nM < MAXMSG, "vs-internal: messages"); struct wmsg* w = &WM[nM]; memset(w, 0, sizeof *w); w->kind = kind; w->call = -1; return w; }
static size_t b_resp_id(uint8_t* m, uint32_t id, int sid, int aid, uint16_t tag, uint32_t n) {
    whdr(m, id, HDR + 2 + n, (uint8_t)sid, (uint8_t)aid, T_RESPONSE); w16(m + HDR, tag);
    for (uint32_t i = 0; i < n; i++) m[HDR + 2 + i] = patt(tag + 1000u, i);
    return HDR + 2 + n;
}
static size_t b_event(uint8_t* m, int sid, int eid, uint16_t tag, uint32_t n) {
    whdr(m, 0, HDR + 2 + n, (uint8_t)sid, (uint8_t)eid, T_EVENT); w16(m + HDR, tag);
    for (uint32_t i = 0; i < n; i++) m[HDR + 2 + i] = patt(tag + 2000u, i);
    return HDR + 2 + n;
}
static size_t b_err(uint8_t* m, uint32_t id) { whdr(m, 0, HDR + 8, 0, 2, T_EVENT); w32(m + HDR, id); w32(m + HDR + 4, ENOENT); return HDR + 8; }
/* ---- what the client sent ---- */
static void srv_check_requests(void) {
    if (!SS) return;
    if (dgram) {
        long k; while ((k = sim_raw_recvfrom(SS, srx + nsrx, sizeof srx - nsrx)) >= 0) nsrx += (size_t)k;
    } else { size_t k = sim_raw_avail(SS); if (k) nsrx += sim_raw_recv(SS, srx + nsrx, k); }
    size_t o = 0;
    while (nsrx - o >= HDR) {
        uint8_t* m = srx + o; uint32_t len = r32(m + 4);
        VS_CHECK(len >= HDR && len < SRX, "the byte stream from the client is out of step (length field %u)", len);
        if (nsrx - o < len) break;
        VS_CHECK(len >= HDR + 2, "the server received a message the client did not send");
        uint16_t tag = r16(m + HDR); int i;
        for (i = 0; i < nC; i++) if (CA[i].live && CA[i].tag == tag && !CA[i].got) break;
        VS_CHECK(i < nC, "the server received a request nobody made, or twice (tag %u)", tag);
        struct call* c = &CA[i];
        VS_CHECK(m[8] == c->sid && m[9] == c->aid && m[10] == c->type && len == HDR + 2 + c->n, "call %d (%d/%d) arrived as %u/%u type %u with %u bytes", i, c->sid, c->aid, m[8], m[9], m[10], len);
        for (uint32_t j = 0; j < c->n; j++) VS_CHECK(m[HDR + 2 + j] == patt(tag, j), "call %d arrived damaged (byte %u)", i, j);
        c->id = r32(m); c->got = true; call_seen++;
        if (c->type == T_SYNC) VS_CHECK(c->ctx->message_id == c->id, "call %d has context id %u but was sent as %u", i, c->ctx->message_id, c->id);
        for (int j = 0; j < nC; j++) if (j != i && CA[j].got && CA[j].type == T_SYNC) VS_CHECK(CA[j].id != c->id, "calls %d and %d have the same message id %u", i, j, c->id);
        o += len;
    }
    memmove(srx, srx + o, nsrx - o); nsrx -= o;
}
static int new_call(int sid, int aid, int type, uint32_t n) {
    VS_CHECK(nC < MAXCALL, "vs-internal: calls");
    struct call* c = &CA[nC]; memset(c, 0, sizeof *c);
    c->ctx = vs_guarded_alloc(sizeof *c->ctx); memset(c->ctx, 0, sizeof *c->ctx);
    c->sid = sid; c->aid = aid; c->type = type; c->n = n; c->tag = (uint16_t)(10 + nC); c->state = INPROG;
    return nC++;
}
static void check_values(int i, const uint8_t* out, uint32_t n) {
    struct call* c = &CA[i];
    VS_CHECK(c->answered, "call %d has a result although nothing was sent for it", i);
    VS_CHECK(n == 2 + c->rn, "the result of call %d has %u bytes instead of %u", i, n, 2 + c->rn);
    VS_CHECK(r16(out) == c->rtag, "call %d got the result tagged %u instead of its own %u", i, r16(out), c->rtag);
    for (uint32_t j = 0; j < c->rn; j++) VS_CHECK(out[2 + j] == patt(c->rtag + 1000u, j), "the result of call %d is damaged (byte %u)", i, j);
}
/* ---- callbacks ---- */

void h_event(int sid, int eid, void* client, const uint8_t* p, uint32_t n) {
    VS_CHECK(sid >= 0, "the message of an event changed while its callback was running");
    VS_CHECK(client == CL, "an event callback got a wrong client");
    vs_yield_point("event callback");
    vs_trace("event callback %d/%d runs, %u bytes", sid, eid, n);
    VS_CHECK(nG < MAXMSG, "an event callback ran more often than events were sent");
    static const uint8_t none[2] = { 0xf0, 0xff }; if (!n) { p = none; n = 2; }   /* an event without parameters */
    VS_CHECK(n >= 2, "an event callback got a message of %u bytes that nobody sent", n);
    struct evrec* e = &EVG[nG]; e->sid = sid; e->eid = eid; e->tag = r16(p); e->n = n - 2;
    for (uint32_t i = 0; i < n - 2 && (i < 16000 || n < 300000); i++) VS_CHECK(p[2 + i] == patt(e->tag + 2000u, i), "event callback %d/%d got damaged values (byte %u)", sid, eid, i);
    nG++;
    if (ev_hook) ev_hook(sid, eid);
}
static bool known_event(int sid, int eid) {
    return (regd[0] && sid == 1 && (eid == 64 || eid == 65)) || (regd[1] && sid == 2 && (eid == 64 || eid == 0 || eid == 2)) || (regd[2] && sid == 254 && eid == 255);
}
/* the reference client: handles the next message; 1 handled, 0 ignored, -1 nothing there, -2 connection lost */
static int ref_step(void) {
    if (pos == nM) { if (conn) { lost = true; return -2; } return -1; }
    struct wmsg* w = &WM[pos++];
    if (w->kind == K_RESP && w->call >= 0 && CA[w->call].state == INPROG && CA[w->call].live) { CA[w->call].state = DONE; return 1; }
    if (w->kind == K_ERR) { if (w->call >= 0 && CA[w->call].state == INPROG && CA[w->call].live) CA[w->call].state = ERR; return 1; }
    if (w->kind == K_EVENT && known_event(w->sid, w->eid)) { EVX[nX++] = (struct evrec){ w->sid, w->eid, w->tag, w->n }; return 1; }
    return 0;
}
static void check_events(void) {
    for (int i = 0; i < nX || i < nG; i++) {
        VS_CHECK(i < nG, "event %d/%d (tag %u) was received but its callback did not run", EVX[i].sid, EVX[i].eid, EVX[i].tag);
        VS_CHECK(i < nX, "the callback %d/%d ran for an event (tag %u) that was not to be delivered", EVG[i].sid, EVG[i].eid, EVG[i].tag);
        VS_CHECK(!memcmp(&EVX[i], &EVG[i], sizeof EVX[i]), "callback %d/%d (tag %u, %u bytes) ran where %d/%d (tag %u, %u bytes) was due", EVG[i].sid, EVG[i].eid, EVG[i].tag, EVG[i].n, EVX[i].sid, EVX[i].eid, EVX[i].tag, EVX[i].n);
    }
    nX = nG = 0;
}
static void cli_end(void) {
    gracht_client_shutdown(CL); CL = NULL;
    vs_check_no_leaks("after client shutdown");
    VS_CHECK(sim_open_fds() == 0, "%d descriptors are still open after client shutdown", sim_open_fds());
    VS_CHECK(sim_ctr("close_bad") == 0, "a descriptor was closed twice");
}
#endif
