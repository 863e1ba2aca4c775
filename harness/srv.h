/* Server-side harness: a real gracht server on simulated sockets, raw peers, and a reference model of what
   every peer must receive and which handler must run. */
#ifndef SRV_H
#define SRV_H
#include "vs.h"
#include "wire.h"
#include "ops.h"
#include "gracht/server.h"
#include "gracht/link/socket.h"
#include <errno.h>
#include <stdio.h>
#include <string.h>
#include <sys/socket.h>
#include <sys/un.h>

extern gracht_protocol_t cut_protos[], cut_protos_dup[];
extern struct gracht_message* g_slots[64];
int cut_respond(struct gracht_message*, int, int, uint16_t, uint32_t);
int cut_event(gracht_server_t*, int, int, int, uint16_t, uint32_t, unsigned);
int cut_broadcast(gracht_server_t*, int, int, uint16_t, uint32_t, unsigned);
int cut_flush(int slot);
int cut_reg_many(gracht_server_t*, int id); void cut_unreg_many(gracht_server_t*, int id); int cut_reg_dup(gracht_server_t*, int id);

int vs_own_wait(int ep, int* fds, unsigned* ev, int max);
#define ADDR "/srv"
#ifndef MAXPEER
#define MAXPEER 20
#endif
#ifndef MAXREQ
#define MAXREQ  128
#endif
#ifndef MAXEXP
#define MAXEXP  256
#endif
struct peer { struct sim_sock* s; bool open, gone, quiet, dgram; int handle, nconn, ndisc; uint8_t sub[32]; uint32_t nextid; uint8_t rx[16384]; size_t nrx; int nmsgs; char path[32]; bool forgotten; bool record; };
struct req  { int peer; uint32_t id; int sid, aid, op, arg; uint32_t n; int invoked, left; bool known, optional, complete; uint8_t type; };
struct expm { int peer; uint8_t m[2600]; size_t n; bool got, optional; bool anyid; };
static struct peer PE[MAXPEER]; static int nP;
static struct req RQ[MAXREQ]; static int nR;
static struct expm EX[MAXEXP]; static int nE;
static gracht_server_t* SRV; static int loop_fiber; static int loop_ret; static bool loop_done; static bool gate_open; static int in_gate;
static bool stopped; static int ev_tag; static bool stop_ok; static int multi; static int cb_total;
static int lax_peer; static int (*lax_enter)(const uint8_t*, uint32_t);
static bool (*status_hook)(int t, int what, int st);
static bool lax_unknown;   /* a handler may be entered for bytes the model does not know (malformed scenarios) */

static bool subbed(struct peer* p, int sid) { return p->sub[sid / 8] >> (sid % 8) & 1; }
static void setsub(struct peer* p, int sid, bool on) {
    if (sid == 255) { memset(p->sub, on ? 0xff : 0, 32); return; }
    if (on) p->sub[sid / 8] |= (uint8_t)(1 << sid % 8); else p->sub[sid / 8] &= (uint8_t)~(1 << sid % 8);
}
static void expect(int peer, const uint8_t* m, size_t n, bool optional, bool anyid) {
    VS_CHECK(nE < MAXEXP, "vs-internal: too many expectations");
    struct expm* e = &EX[nE++]; e->peer = peer; memcpy(e->m, m, n); e->n = n; e->got = false; e->optional = optional; e->anyid = anyid;
}
static void expect_response(struct req* r, bool optional) {
    uint8_t m[2600]; uint32_t k = r->n ? r->n - 4 : 0; if (k > 2000) k = 64; uint16_t tag = r->n ? (uint16_t)(r - RQ) : 0xeeee;
    whdr(m, r->id, HDR + 2 + k, (uint8_t)r->sid, (uint8_t)r->aid, T_RESPONSE); w16(m + HDR, tag);
    for (uint32_t i = 0; i < k; i++) m[HDR + 2 + i] = patt(tag + 1000u, i);
    expect(r->peer, m, HDR + 2 + k, optional, false);
}
static void expect_error(struct req* r, bool optional) {
    uint8_t m[32]; whdr(m, 0, HDR + 8, 0, 2, T_EVENT); w32(m + HDR, r->id); w32(m + HDR + 4, ENOENT);
    expect(r->peer, m, HDR + 8, optional, true);
}
static void expect_event(int peer, int sid, int eid, uint16_t tag, uint32_t n, bool optional) {
    uint8_t m[2600]; whdr(m, 0, HDR + 2 + n, (uint8_t)sid, (uint8_t)eid, T_EVENT); w16(m + HDR, tag);
    for (uint32_t i = 0; i < n; i++) m[HDR + 2 + i] = patt(tag + 2000u, i);
    expect(peer, m, HDR + 2 + n, optional, true);
}
static bool match(int peer, const uint8_t* m, size_t n) {
    for (int i = 0; i < nE; i++) {
        struct expm* e = &EX[i];
        if (e->got || e->peer != peer || e->n != n) continue;
        size_t skip = e->anyid ? 4 : 0;
        if (memcmp(e->m + skip, m + skip, n - skip)) continue;
        e->got = true; return true;
    }
    return false;
}
static void describe(char* o, size_t cap, const uint8_t* m, size_t n) {
    size_t l = (size_t)snprintf(o, cap, "id %u len %u service %u function %u type %u:", r32(m), r32(m + 4), m[8], m[9], m[10]);
    for (size_t i = HDR; i < n && i < HDR + 12 && l < cap - 4; i++) l += (size_t)snprintf(o + l, cap - l, " %02x", m[i]);
}
static void peer_msg(int i, const uint8_t* m, size_t n) {
    char d[160]; describe(d, sizeof d, m, n);
    vs_trace("peer %d receives [%s]", i, d);
    PE[i].nmsgs++;
    if (lax_peer == i) return;
    if (!match(i, m, n)) vs_fail("peer %d received a message nobody sent to it (or twice, or damaged): %s", i, d);
}
static void drain(int i, size_t max) {
    struct peer* p = &PE[i];
    if (!p->s || p->gone) return;
    if (p->dgram) {
        uint8_t b[4096]; long k;
        while ((k = sim_raw_recvfrom(p->s, b, sizeof b)) >= 0) { VS_CHECK(k >= HDR && r32(b + 4) == (uint32_t)k, "peer %d received a datagram whose length field (%u) is not its size (%ld)", i, k >= 8 ? r32(b + 4) : 0, k); peer_msg(i, b, (size_t)k); }
        return;
    }
    size_t k = sim_raw_avail(p->s), room = sizeof p->rx - p->nrx, more; if (k > max) k = max;
    more = k > room ? k - room : 0; k -= more;
    if (k) p->nrx += sim_raw_recv(p->s, p->rx + p->nrx, k);
    size_t o = 0;
    while (p->nrx - o >= HDR) {
        uint32_t len = r32(p->rx + o + 4);
        VS_CHECK(len >= HDR && len <= 2600, "peer %d: the byte stream from the server is out of step (length field %u)", i, len);
        if (p->nrx - o < len) break;
        peer_msg(i, p->rx + o, len); o += len;
    }
    memmove(p->rx, p->rx + o, p->nrx - o); p->nrx -= o;
    if (more) drain(i, more);
}
static void drain_all(void) { for (int i = 0; i < nP; i++) drain(i, (size_t)-1); }
/* everything that had to happen has happened */
static void check_settled(const char* when) {
    drain_all();
    for (int i = 0; i < nP; i++) if (PE[i].open && !PE[i].gone && i != lax_peer) VS_CHECK(PE[i].nrx == 0, "peer %d is left with an incomplete message of %zu bytes %s", i, PE[i].nrx, when);
    for (int i = 0; i < nR; i++) {
        struct req* r = &RQ[i];
        if (!r->complete) { VS_CHECK(r->invoked == 0, "request %d was handled although it never arrived completely", i); continue; }
        if (!r->known) VS_CHECK(r->invoked == 0, "request %d for unknown %d/%d ran a handler", i, r->sid, r->aid);
        else VS_CHECK(r->invoked == 1 || (r->optional && r->invoked == 0), "request %d (peer %d, %d/%d) was handled %d times %s", i, r->peer, r->sid, r->aid, r->invoked, when);
    }
    for (int i = 0; i < nE; i++) if (!EX[i].got && !EX[i].optional && !PE[EX[i].peer].gone) {
        char d[160]; describe(d, sizeof d, EX[i].m, EX[i].n);
        vs_fail("peer %d never received [%s] %s", EX[i].peer, d, when);
    }
    for (int i = 0; i < nP; i++) {
        struct peer* p = &PE[i];
        if (p->dgram || i == lax_peer) continue;
        VS_CHECK(p->nconn == 1, "clientConnected ran %d times for peer %d %s", p->nconn, i, when);
        VS_CHECK(p->ndisc == (p->gone ? 1 : 0), "clientDisconnected ran %d times for peer %d which %s %s", p->ndisc, i, p->gone ? "left" : "is connected", when);
        if (p->gone) VS_CHECK(sim_server_fd(p->s) < 0, "the server still holds the connection of peer %d, which left, %s", i, when);
        else VS_CHECK(!sim_raw_eof(p->s), "the server closed the connection of peer %d %s", i, when);
    }
    /* compact */
    int k = 0; for (int i = 0; i < nE; i++) if (!EX[i].got && EX[i].optional && !PE[EX[i].peer].gone) EX[k++] = EX[i];
    nE = k;
}
/* ---- callbacks from the handlers ---- */
static int reg_expect; static int cb_acts;
static int shutdown_seen; static bool shutdown_returned;
int h_handle_of(int peer) { return PE[peer].handle; }
int h_enter(int sid, int aid, void* server, int client, int link, const uint8_t* p, uint32_t n) {
    (void)link;
    vs_yield_point("handler");
    VS_CHECK(!loop_done, "a handler runs after the server stopped");
    VS_CHECK(server == SRV, "handler got a wrong server");
    VS_CHECK(sid >= 0, "a handler of a refused registration ran");
    if (n < 4 || n > 300000) { if (lax_unknown) return lax_enter ? lax_enter(p, n) : -1; vs_fail("a handler got a message of %u bytes that nobody sent", n); }
    int tag = p[2] | p[3] << 8;
    vs_trace("handler %d/%d runs: request %d from handle %d, %u bytes", sid, aid, tag, client, n);
    if (tag >= nR) { if (lax_unknown) return lax_enter ? lax_enter(p, n) : -1; vs_fail("handler %d/%d got a request nobody sent (tag %d)", sid, aid, tag); }
    struct req* r = &RQ[tag]; struct peer* q = &PE[r->peer];
    VS_CHECK(r->sid == sid && r->aid == aid, "request %d for %d/%d reached the handler of %d/%d", tag, r->sid, r->aid, sid, aid);
    VS_CHECK(r->n == n && p[0] == r->op && p[1] == r->arg, "request %d reached its handler with %u instead of %u bytes or other values", tag, n, r->n);
    for (uint32_t i = 4; i < n; i++) VS_CHECK(p[i] == patt((uint32_t)tag, i), "request %d reached its handler with a damaged parameter (byte %u)", tag, i);
    VS_CHECK(r->complete, "request %d was handled before it arrived completely", tag);
    VS_CHECK(++r->invoked == 1, "request %d was handled twice", tag);
    if (!q->dgram) { if (q->handle >= 0) VS_CHECK(client == q->handle, "request %d of peer %d (handle %d) was attributed to handle %d", tag, r->peer, q->handle, client); }
    else { if (q->handle == -1) { q->handle = client; for (int j = 0; j < nP; j++) if (j != r->peer && PE[j].dgram && PE[j].handle != -1) VS_CHECK(PE[j].handle != client, "peers %d and %d share the identity %d", j, r->peer, client); } VS_CHECK(client == q->handle, "request %d of peer %d was attributed to %d, before to %d", tag, r->peer, client, q->handle); }
    return tag;
}
int h_zero(int sid, int aid, void* server, int client) {
    vs_yield_point("handler");
    VS_CHECK(!loop_done, "a handler runs after the server stopped");
    VS_CHECK(server == SRV, "handler got a wrong server");
    for (int i = 0; i < nR; i++) { struct req* r = &RQ[i]; struct peer* q = &PE[r->peer];
        if (r->n || r->invoked || r->sid != sid || r->aid != aid || !r->complete || (q->handle != client && !(q->dgram && q->handle == -1))) continue;
        vs_trace("handler %d/%d runs: request %d (no parameters) from handle %d", sid, aid, i, client);
        q->handle = client; r->invoked++; return i; }
    if (lax_unknown) return lax_enter ? lax_enter(NULL, 0) : -1;
    vs_fail("a handler got a message without parameters that nobody sent"); return -1;
}
void h_leave(int t) { RQ[t].left++; }
static bool pred_gate(void* a) { (void)a; return gate_open; }
void h_gate(int t) { (void)t; in_gate++; vs_wait_until(pred_gate, NULL, "handler (held by the test)"); in_gate--; }
void h_status(int t, int what, int st) {
    if (status_hook && status_hook(t, what, st)) return;
    if (what == 9) vs_fail("the message of request %d changed (byte %d) while its handler was running", t, st);
    if (what == 2 && reg_expect != st) vs_fail("registering a protocol in a handler returns %d instead of %d", st, reg_expect);
    if (st && !PE[RQ[t].peer].gone && PE[RQ[t].peer].open && !PE[RQ[t].peer].quiet && what == 0) vs_fail("answering request %d of a connected peer fails (%d)", t, st);
}
int cut_event(gracht_server_t*, int client, int sid, int eid, uint16_t tag, uint32_t n, unsigned flags);
int cut_broadcast(gracht_server_t*, int sid, int eid, uint16_t tag, uint32_t n, unsigned flags);
/* what an application does in its callbacks: greet the one who joined, tell the others (cb=1; histories without requests in flight) */
static void cb_use(int i, int h, bool joined) {
    if (!cb_acts) return;
    uint16_t t = (uint16_t)ev_tag++, u = (uint16_t)ev_tag++;
    if (joined) { expect_event(i, 1, 0x50, t, 4, false); VS_CHECK(!cut_event(SRV, h, 1, 0x50, t, 4, 0), "sending an event to the client that joined fails in the callback"); }
    else cut_event(SRV, h, 1, 0x50, t, 4, 0);
    int sid = joined ? 2 : 1;
    for (int k = 0; k < nP; k++) {
        bool self = k == i, in = PE[k].open && !PE[k].gone && PE[k].nconn > PE[k].ndisc;
        if (self ? PE[k].open && !PE[k].gone : in && subbed(&PE[k], sid)) expect_event(k, sid, 0x51, u, 5, self && (PE[k].dgram || !joined));
        if (self && !joined && PE[k].dgram && !PE[k].gone) expect_event(k, 1, 0x50, t, 4, true);
    }
    VS_CHECK(!cut_broadcast(SRV, sid, 0x51, u, 5, 0), "broadcasting in the callback fails");
}
static void cb_connected(int h) {
    vs_trace("clientConnected(%d)", h); cb_total++;
    for (int i = 0; i < nP; i++) {
        struct peer* p = &PE[i];
        if (p->dgram ? (p->handle == h || p->handle == -1) && p->record && p->nconn == p->ndisc : (p->nconn == 0 && sim_server_fd(p->s) == h)) {
            VS_CHECK(p->dgram || p->nconn == 0, "clientConnected twice for peer %d", i); p->nconn++; p->handle = h; cb_use(i, h, true); return; }
    }
    vs_fail("clientConnected(%d) for nobody who joined", h);
}
static void cb_disconnected(int h) {
    vs_trace("clientDisconnected(%d)", h); cb_total++;
    for (int i = 0; i < nP; i++) if (PE[i].handle == h && PE[i].nconn > PE[i].ndisc) {
        PE[i].ndisc++;
        VS_CHECK(PE[i].gone || PE[i].forgotten || stop_ok || vs_refused() || i == lax_peer, "clientDisconnected for peer %d, which is still connected", i);
        cb_use(i, h, false); return;
    }
    vs_fail("clientDisconnected(%d) although no such client is connected", h);
}
/* ---- set-up ---- */
static int loop_main(void* a) { (void)a; loop_ret = gracht_server_main_loop(SRV); loop_done = true; vs_trace("the main loop returned %d", loop_ret); return 0; }
static struct gracht_link* mk_link(int type, int domain, const char* path, int alen) {
    struct gracht_link_socket* l; struct sockaddr_storage ss;
    VS_CHECK(!gracht_link_socket_create(&l), "link creation fails");
    gracht_link_socket_set_type(l, type);
    gracht_link_socket_set_listen(l, 1);
    gracht_link_socket_set_domain(l, domain);
    int n = sim_make_addr(path, alen, &ss);
    gracht_link_socket_set_address(l, &ss, (socklen_t)n);
    return (struct gracht_link*)l;
}
static void model_reset(void) {
    for (int i = 0; i < nP; i++) PE[i].s = NULL;
    nP = nR = nE = 0; SRV = NULL; loop_done = false; loop_ret = -7; gate_open = false; in_gate = 0; stopped = false; stop_ok = false; ev_tag = 0x100; cb_total = 0; lax_unknown = false; lax_peer = -1; lax_enter = NULL; status_hook = NULL;
    memset(g_slots, 0, sizeof g_slots); reg_expect = 0; cb_acts = (int)vs_param("cb", 0);
}
static void server_create(int workers, int maxmsg) {
    gracht_server_configuration_t c;
    multi = workers;
    gracht_server_configuration_init(&c);
    c.callbacks.clientConnected = cb_connected; c.callbacks.clientDisconnected = cb_disconnected;
    if (workers) gracht_server_configuration_set_num_workers(&c, workers);
    if (maxmsg) gracht_server_configuration_set_max_msg_size(&c, maxmsg);
    VS_CHECK(!gracht_server_create(&c, &SRV), "server creation fails");
}
static void server_start(int workers, int maxmsg, int nprotos, bool stream) {
    model_reset();
    server_create(workers, maxmsg);
    if (stream) VS_CHECK(!gracht_server_add_link(SRV, mk_link(gracht_link_stream_based, AF_UNIX, ADDR, 0)), "add_link fails");
    for (int i = 0; i < nprotos; i++) VS_CHECK(!gracht_server_register_protocol(SRV, &cut_protos[i]), "register_protocol fails");
}
static void server_run(void) { loop_fiber = vs_spawn("server", loop_main, NULL, true); }
static int peer_connect(void) {
    VS_CHECK(nP < MAXPEER, "vs-internal: peers");
    struct peer* p = &PE[nP]; memset(p, 0, sizeof *p); p->handle = -1; p->nextid = 1;
    int i = nP++;
    p->s = sim_raw_connect(ADDR); VS_CHECK(p->s, "connect refused");
    p->open = true; setsub(p, 255, true);
    vs_trace("peer %d connects", i);
    return i;
}
static size_t build_req(int peer, int sid, int aid, int op, int arg, uint32_t n, bool known, uint8_t* m) {
    VS_CHECK(nR < MAXREQ, "vs-internal: requests");
    struct req* r = &RQ[nR]; memset(r, 0, sizeof *r);
    int tag = nR++;
    r->peer = peer; r->id = PE[peer].nextid++; r->sid = sid; r->aid = aid; r->op = op; r->arg = arg; r->n = n; r->known = known; r->complete = true;
    whdr(m, r->id, HDR + n, (uint8_t)sid, (uint8_t)aid, T_SYNC);
    if (!n) return HDR;
    m[HDR] = (uint8_t)op; m[HDR + 1] = (uint8_t)arg; w16(m + HDR + 2, (uint16_t)tag);
    for (uint32_t i = 4; i < n; i++) m[HDR + i] = patt((uint32_t)tag, i);
    return HDR + n;
}
static void send_bytes(int peer, const uint8_t* m, size_t n) {
    if (PE[peer].dgram) { sim_raw_sendto(PE[peer].s, PE[peer].path, 0, m, n); return; }
    sim_raw_send(PE[peer].s, m, n);
}
static size_t build_ctl(int peer, int aid, int proto, uint8_t* m) { whdr(m, PE[peer].nextid++, HDR + 1, 0, (uint8_t)aid, T_ASYNC); m[HDR] = (uint8_t)proto; return HDR + 1; }
/* stop: ask from the outside, then poke so that the loop looks at it (documented: takes effect at the next event) */
static void server_stop(void) {
    stop_ok = true;
    gracht_server_request_shutdown(SRV);
    struct sim_sock* s = sim_raw_connect(ADDR);
    (void)s;
    vs_wait_quiescent();
    VS_CHECK(loop_done, "the server did not stop after shutdown was requested");
}
#endif
