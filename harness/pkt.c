#include "srv.h"
/* Connectionless links: every sequence of `depth` actions of datagram peers (and, with mixed=1, a stream peer next to them). */
static int DOM; static bool overlap;   /* actions follow each other without waiting */
static const char* srv_path(void) { return DOM == 1 ? "inet:S" : DOM == 2 ? "inet6:S" : "/dg"; }
static int srv_dom(void) { return DOM == 1 ? AF_INET : DOM == 2 ? AF_INET6 : AF_UNIX; }
/* addresses of different lengths; 110 is the size of sockaddr_un */
static const char* peer_path(int i, char* b) {
    static const char* un[] = { "/p", "/a/rather/long/path/for/a/socket/of/a/peer/so/that/its/address/is/longer/than/most", "/q", "/p2" };
    if (DOM == 1) { snprintf(b, 32, "inet:%c", 'a' + i); return b; }
    if (DOM == 2) { snprintf(b, 32, "inet6:%c", 'a' + i); return b; }
    if (i >= 4) { snprintf(b, 32, "/m%d", i); return b; }
    return un[i];
}
static int dg_peer(void) {
    char b[32];
    struct peer* p = &PE[nP]; memset(p, 0, sizeof *p); p->handle = -1; p->nextid = 1; p->dgram = true; p->open = true;
    snprintf(p->path, sizeof p->path, "%s", srv_path());
    p->s = sim_raw_dgram(peer_path(nP, b), 0);
    return nP++;
}
static bool kn(int sid, int aid) { return sid == 1 ? aid == 1 || aid == 2 : sid == 2 ? aid == 1 || aid == 3 : false; }
static void bc(int sid, int eid, uint16_t tag, uint32_t n) { for (int i = 0; i < nP; i++) if (PE[i].open && !PE[i].gone && subbed(&PE[i], sid)) expect_event(i, sid, eid, tag, n, false); }
enum { A_REQ, A_UNK, A_SUB, A_UNSUB, A_BCAST, A_APIBCAST, A_TARGET, A_SELF, A_BAD, A_DEFER, A_FLUSH, A_VANISH, A_ZERO };
struct act { int k, p, x; };
static int slot_req[4];
static int list(struct act* A, int ops) {
    int n = 0;
    for (int i = 0; i < nP; i++) {
        if (PE[i].gone && (ops & 16) && PE[i].dgram && PE[i].handle != -1) A[n++] = (struct act){ A_TARGET, i, 0 };
        if (PE[i].gone) continue;
        if (ops & 1) { A[n++] = (struct act){ A_REQ, i, 1 }; A[n++] = (struct act){ A_REQ, i, 2 }; }
        if (ops & 1024) { A[n++] = (struct act){ A_ZERO, i, 1 }; A[n++] = (struct act){ A_ZERO, i, 9 }; }
        if (ops & 2) { A[n++] = (struct act){ A_UNK, i, 9 }; }
        if (ops & 4) { A[n++] = (struct act){ A_SUB, i, 1 }; A[n++] = (struct act){ A_SUB, i, 2 }; A[n++] = (struct act){ A_SUB, i, 255 }; A[n++] = (struct act){ A_UNSUB, i, 1 }; A[n++] = (struct act){ A_UNSUB, i, 255 }; }
        if (ops & 8) { A[n++] = (struct act){ A_BCAST, i, 1 }; }
        if (ops & 16) A[n++] = (struct act){ A_TARGET, i, 0 };
        if (ops & 32) A[n++] = (struct act){ A_SELF, i, 0 };
        if (ops & 64) for (int x = 0; x < 9; x++) A[n++] = (struct act){ A_BAD, i, x };
        if (ops & 128) for (int s = 0; s < 2; s++) if (!slot_req[s]) { A[n++] = (struct act){ A_DEFER, i, s }; break; }
        if ((ops & 256) && PE[i].dgram) A[n++] = (struct act){ A_VANISH, i, 0 };
    }
    if (ops & 128) for (int s = 0; s < 2; s++) if (slot_req[s]) A[n++] = (struct act){ A_FLUSH, 0, s };
    if (ops & 512) { A[n++] = (struct act){ A_APIBCAST, 0, 1 }; A[n++] = (struct act){ A_APIBCAST, 0, 2 }; }
    return n;
}
static void act(struct act a) {
    uint8_t m[4096]; size_t n; struct peer* p = &PE[a.p];
    switch (a.k) {
    case A_REQ: n = build_req(a.p, a.x, 1, OP_ECHO, 0, (uint32_t)(a.x == 1 ? 9 : 40), true, m); expect_response(&RQ[nR - 1], false); vs_trace("peer %d sends request %d", a.p, nR - 1); send_bytes(a.p, m, n); break;
    case A_ZERO: n = build_req(a.p, a.x, 1, 0, 0, 0, a.x != 9, m); vs_trace("peer %d sends request %d without parameters", a.p, nR - 1); if (a.x != 9) expect_response(&RQ[nR - 1], false); else expect_error(&RQ[nR - 1], p->dgram && !p->record); send_bytes(a.p, m, n); break;
    case A_UNK: n = build_req(a.p, 9, 1, OP_ECHO, 0, 5, false, m); expect_error(&RQ[nR - 1], p->dgram && !p->record); vs_trace("peer %d sends a request nobody serves", a.p); send_bytes(a.p, m, n); break;
    case A_SUB: case A_UNSUB:
        vs_trace("peer %d %s %d", a.p, a.k == A_SUB ? "subscribes to" : "unsubscribes from", a.x);
        n = build_ctl(a.p, a.k == A_SUB ? 0 : 1, a.x, m);
        if (!overlap) p->forgotten = false;
        if (p->dgram && a.k == A_SUB) p->record = true;
        setsub(p, a.x, a.k == A_SUB);
        if (p->dgram && a.k == A_UNSUB && a.x == 255) { p->record = false; p->forgotten = true; }
        send_bytes(a.p, m, n); break;
    case A_BCAST: n = build_req(a.p, 1, 2, OP_BCAST, a.x, 4, true, m); bc(a.x, 0x41, (uint16_t)(nR - 1), 5); vs_trace("peer %d asks for a broadcast", a.p); send_bytes(a.p, m, n); break;
    case A_APIBCAST: { uint16_t t = (uint16_t)ev_tag++; vs_trace("broadcast on %d", a.x); bc(a.x, 0x45, t, 6); VS_CHECK(!cut_broadcast(SRV, a.x, 0x45, t, 6, 0), "broadcast fails"); break; }
    case A_TARGET: { uint16_t t = (uint16_t)ev_tag++; bool ok = !p->dgram || p->record; if (p->handle == -1) { if (p->dgram) break; }
        vs_trace("targeted event to peer %d", a.p); if (p->gone) { int st = cut_event(SRV, p->handle, 2, 0x44, t, 9, a.x); VS_CHECK(st != 0 || (ok && DOM), "a targeted event to peer %d, which vanished, succeeds", a.p); break; }
        if (ok) expect_event(a.p, 2, 0x44, t, 9, false);
        int st = cut_event(SRV, p->handle, 2, 0x44, t, 9, 0); VS_CHECK(ok ? st == 0 : st == -1, "a targeted event to peer %d, which %s, returned %d", a.p, ok ? "is known" : "is not known", st); break; }
    case A_SELF: n = build_req(a.p, 1, 2, OP_EVENT_SELF, 0, 7, true, m); if (!p->dgram || p->record) expect_event(a.p, 1, 0x40, (uint16_t)(nR - 1), 3, false); vs_trace("peer %d asks for a targeted event", a.p); send_bytes(a.p, m, n); break;
    case A_BAD: {
        memset(m, 0x7a, sizeof m); n = 0;
        size_t l = build_req(a.p, 1, 1, OP_ECHO, 0, 9, true, m); RQ[nR - 1].complete = false;
        if (!p->dgram) break;
        switch (a.x) {
        case 0: n = 0; break;                       /* empty datagram */
        case 1: n = 5; break;                       /* shorter than a header */
        case 2: n = 11; break;                      /* header only, announces more */
        case 3: n = l - 1; break;                   /* cut */
        case 4: n = l + 3; break;                   /* more than announced */
        case 5: w32(m + 4, 0); n = l; break;
        case 6: w32(m + 4, 0xffffffffu); n = l; break;
        case 7: w32(m + 4, 4); n = l; break;
        case 8: w32(m + 4, 3900); n = 3900; break;  /* larger than the server accepts: cut by the transport */
        }
        vs_trace("peer %d sends a malformed datagram (%d)", a.p, a.x);
        sim_raw_sendto(p->s, p->path, 0, m, n); break; }
    case A_DEFER: n = build_req(a.p, 1, 1, OP_DEFER, a.x, 8, true, m); slot_req[a.x] = nR; vs_trace("peer %d sends request %d, deferred", a.p, nR - 1); send_bytes(a.p, m, n); break;
    case A_FLUSH: { struct req* r = &RQ[slot_req[a.x] - 1]; vs_trace("deferred request %d is answered", slot_req[a.x] - 1); bool gone = PE[r->peer].gone; if (!gone) expect_response(r, false); int st = cut_flush(a.x); slot_req[a.x] = 0; VS_CHECK(gone ? st != 0 || DOM : st == 0, gone ? "answering a deferred request of a peer that vanished succeeds" : "answering a deferred request fails"); break; }
    case A_VANISH: vs_trace("peer %d vanishes", a.p); p->gone = true; p->quiet = true; sim_raw_close(p->s); break;
    }
}
static void settled(const char* w) {
    check_settled(w);
    for (int i = 0; i < nP; i++) if (PE[i].dgram) {
        VS_CHECK(PE[i].nconn - PE[i].ndisc == (PE[i].record ? 1 : 0), "datagram peer %d (%s) saw %d connected and %d disconnected callbacks %s", i, PE[i].record ? "subscribed" : "not subscribed", PE[i].nconn, PE[i].ndisc, w);
    }
}
VS_SCENARIO(pkt_seq) {
    int depth = (int)vs_param("depth", 3), ops = (int)vs_param("ops", 1 | 2 | 4 | 8), np = (int)vs_param("peers", 2), mixed = (int)vs_param("mixed", 0), links = (int)vs_param("links", 1), workers = (int)vs_param("workers", 0);
    struct act A[128];
    vs_explore(false);
    DOM = (int)vs_param("dom", 0); memset(slot_req, 0, sizeof slot_req);
    server_start(workers, (int)vs_param("maxmsg", 128), 2, mixed);
    if (links == 1 || DOM) VS_CHECK(!gracht_server_add_link(SRV, mk_link(gracht_link_packet_based, srv_dom(), srv_path(), vs_param("short", 0) ? 2 + 4 : 0)), "add_link fails");
    else { /* several links: only the last one is used */
        VS_CHECK(!gracht_server_add_link(SRV, mk_link(gracht_link_packet_based, AF_UNIX, "/x1", 0)), "add_link fails");
        VS_CHECK(!gracht_server_add_link(SRV, mk_link(gracht_link_stream_based, AF_UNIX, "/x2", 0)), "add_link fails");
        VS_CHECK(!gracht_server_add_link(SRV, mk_link(gracht_link_packet_based, AF_UNIX, "/dg", 0)), "add_link fails");
    }
    server_run();
    if (mixed) { peer_connect(); vs_wait_quiescent(); }
    for (int i = 0; i < np; i++) dg_peer();
    vs_wait_quiescent(); settled("after set-up");
    vs_explore(true);
    for (int d = 0; d < depth; d++) {
        int n = list(A, ops);
        struct act a = A[vs_choose(n, "action")];
        act(a);
        vs_wait_quiescent();
        VS_CHECK(!loop_done, "the server stopped");
        settled("after the action");
    }
    if (vs_param("stop", 1)) {
        for (int s = 0; s < 2; s++) if (slot_req[s]) act((struct act){ A_FLUSH, 0, s });
        stop_ok = true;
        gracht_server_request_shutdown(SRV);
        struct sim_sock* s = sim_raw_dgram("/poke", 0); uint8_t m[16]; whdr(m, 1, HDR, 9, 9, T_SYNC);
        sim_raw_sendto(s, srv_path(), 0, m, HDR);
        vs_wait_quiescent();
        VS_CHECK(loop_done, "the server did not stop after shutdown was requested");
        VS_CHECK(sim_open_fds() == 0, "%d descriptors are still open after the server stopped", sim_open_fds());
        vs_check_no_leaks("after the server stopped");
    }
}

/* datagrams of all kinds while a handler runs: the table of subscribers changes (and grows, and shrinks) under the workers */
VS_SCENARIO(pkt_mt) {
    int np = (int)vs_param("peers", 3), sub = (int)vs_param("subs", np - 1), held = (int)vs_param("held", 1); uint8_t m[256]; size_t n;
    static const int O[] = { OP_ECHO, OP_EVENT_SELF, OP_EVENT_TO, OP_BCAST };
    vs_explore(false);
    overlap = false;
    DOM = (int)vs_param("dom", 0); memset(slot_req, 0, sizeof slot_req);
    server_start((int)vs_param("workers", 2), 128, 2, false);
    VS_CHECK(!gracht_server_add_link(SRV, mk_link(gracht_link_packet_based, srv_dom(), srv_path(), 0)), "add_link fails");
    server_run();
    for (int i = 0; i < np; i++) { dg_peer(); if (i < sub) act((struct act){ A_SUB, i, 255 }); vs_wait_quiescent(); }
    settled("after set-up");
    int op = vs_choose(4, "operation"), change = vs_choose(7, "change");
    VS_CHECK(sub >= 3 || np > sub, "vs-internal: peers");
    n = build_req(0, 1, 1, (held ? OP_HELD : 0) | O[op], op == 3 ? 1 : op == 2 ? 1 : 0, 6, true, m);
    if (op == 0) expect_response(&RQ[0], false); else if (op == 1) expect_event(0, 1, 0x40, 0, 3, false); else if (op == 2) expect_event(1, 1, 0x40, 0, 3, false); else bc(1, 0x41, 0, 5);
    vs_trace("peer 0 sends request 0, operation %d", O[op]);
    if (held) { send_bytes(0, m, n); vs_wait_quiescent(); VS_CHECK(in_gate == 1, "the handler does not run"); vs_explore(true); gate_open = true; }
    else { vs_explore(true); send_bytes(0, m, n); }
    overlap = true;
    int q = np - 1;   /* the last peer is not subscribed */
#define OPT(i) do { for (int e = 0; e < nE; e++) if (EX[e].peer == (i)) EX[e].optional = true; } while (0)
    switch (change) {
    case 0: act((struct act){ A_SUB, q, 1 }); act((struct act){ A_SUB, q, 255 }); break;
    case 1: for (int i = sub; i < np; i++) act((struct act){ A_SUB, i, 255 }); break;
    case 2: OPT(1); h_handle_of(1); act((struct act){ A_UNSUB, 1, 255 }); PE[1].quiet = true; break;
    case 3: OPT(1); act((struct act){ A_UNSUB, 1, 255 }); act((struct act){ A_SUB, 1, 2 }); PE[1].quiet = true; break;
    case 4: OPT(1); act((struct act){ A_UNSUB, 1, 1 }); if (op == 2) for (int e = 0; e < nE; e++) if (EX[e].peer == 1) EX[e].optional = false; break;
    case 5: act((struct act){ A_REQ, q, 1 }); act((struct act){ A_SUB, q, 2 }); act((struct act){ A_REQ, 1, 2 }); break;
    case 6: for (int i = sub; i < np; i++) act((struct act){ A_SUB, i, 255 }); OPT(1); if (op == 0 || op == 1) {} act((struct act){ A_UNSUB, 1, 255 }); PE[1].quiet = true; break;
    }
    if (op == 3 && (change <= 1 || change == 6)) for (int i = sub; i < np; i++) expect_event(i, 1, 0x41, 0, 5, true);
    vs_wait_quiescent(); VS_CHECK(!loop_done, "the server stopped"); settled("after the subscribers changed");
    overlap = false; for (int i = 0; i < np; i++) PE[i].forgotten = !PE[i].record;
    nE = 0;
    vs_explore(false);
    act((struct act){ A_APIBCAST, 0, 1 }); act((struct act){ A_APIBCAST, 0, 2 }); vs_wait_quiescent(); settled("after a broadcast");
    for (int i = 0; i < np; i++) { act((struct act){ A_REQ, i, 1 }); if (PE[i].record) act((struct act){ A_TARGET, i, 0 }); }
    vs_wait_quiescent(); settled("after every peer sent a request");
    /* unsubscribe all: nothing is held any more */
    for (int i = 0; i < np; i++) if (PE[i].record) { act((struct act){ A_UNSUB, i, 255 }); vs_wait_quiescent(); }
    act((struct act){ A_APIBCAST, 0, 1 }); vs_wait_quiescent(); settled("in the end");
    stop_ok = true; gracht_server_request_shutdown(SRV);
    struct sim_sock* s = sim_raw_dgram("/poke", 0); whdr(m, 1, HDR, 9, 9, T_SYNC); sim_raw_sendto(s, srv_path(), 0, m, HDR);
    vs_wait_quiescent(); VS_CHECK(loop_done, "the server did not stop after shutdown was requested");
    VS_CHECK(sim_open_fds() == 0, "%d descriptors are still open after the server stopped", sim_open_fds()); vs_check_no_leaks("after the server stopped");
}

/* long histories on a packet link: nothing wears out */
VS_SCENARIO(pkt_long) {
    int batches = (int)vs_param("batches", 60), per = 8; size_t warm = 0;
    vs_explore(false); vs_long(50000000);
    DOM = (int)vs_param("dom", 0); memset(slot_req, 0, sizeof slot_req);
    server_start((int)vs_param("workers", 0), 128, 2, false);
    VS_CHECK(!gracht_server_add_link(SRV, mk_link(gracht_link_packet_based, srv_dom(), srv_path(), 0)), "add_link fails");
    server_run();
    for (int i = 0; i < 2; i++) dg_peer();
    int kind = vs_choose(17, "kind"), known = vs_choose(2, "subscribed");
    if (known) { act((struct act){ A_SUB, 0, 255 }); vs_wait_quiescent(); }
    for (int b = 0; b < batches; b++) {
        for (int i = 0; i < per; i++) {
            if (kind == 0) act((struct act){ A_REQ, 0, 1 + (i & 1) });
            else if (kind == 1) act((struct act){ A_UNK, 0, 9 });
            else if (kind == 2) { act((struct act){ A_SUB, 0, 1 }); vs_wait_quiescent(); act((struct act){ A_APIBCAST, 0, 1 }); act((struct act){ A_UNSUB, 0, i & 1 ? 255 : 1 }); vs_wait_quiescent(); act((struct act){ A_APIBCAST, 0, 1 }); }
            else if (kind == 3) { act((struct act){ A_DEFER, 0, i & 1 }); vs_wait_quiescent(); act((struct act){ A_REQ, 0, 2 }); vs_wait_quiescent(); act((struct act){ A_FLUSH, 0, i & 1 }); }
            else if (kind == 4) act((struct act){ A_SELF, 0, 0 });
            else if (kind == 5) act((struct act){ A_BCAST, 0, 1 });
            else if (kind == 6) { act((struct act){ A_UNSUB, 0, 1 }); if (i == 3) { act((struct act){ A_UNSUB, 0, 255 }); vs_wait_quiescent(); } }
            else if (kind == 7) { act((struct act){ A_REQ, 1, 1 }); act((struct act){ A_BAD, 0, i }); act((struct act){ A_REQ, 0, 1 }); }
            else act((struct act){ A_BAD, 0, kind - 8 });
        }
        vs_wait_quiescent(); VS_CHECK(!loop_done, "the server stopped"); settled("after a batch of datagrams");
        act((struct act){ A_REQ, 1, 1 }); vs_wait_quiescent(); settled("after a request of another peer");
        nR = 0; nE = 0;
        if (b == 5) warm = vs_live_allocs();
        if (b > 5) VS_CHECK(vs_live_allocs() <= warm, "the server holds %zu allocations after %d batches of datagrams, %zu after 6", vs_live_allocs(), b + 1, warm);
    }
}

/* two peers whose addresses differ in a single bit, or where one is the beginning of the other */
static void addr_text(char* o, int kind, int pos, int bit) {
    uint8_t b[28] = { 0x27, 0x10, 127, 3, 2, 1 }; int n = kind == 1 ? 6 : 26, i;
    if (kind == 2) for (i = 0; i < 24; i++) b[2 + i] = i < 4 || i >= 20 ? 0 : (uint8_t)(0x20 + i);
    if (pos >= 0) b[pos] ^= (uint8_t)(1 << bit);
    o += sprintf(o, kind == 1 ? "inet:#" : "inet6:#"); for (i = 0; i < n; i++) o += sprintf(o, "%02x", b[i]);
}
VS_SCENARIO(pkt_addr) {
    char a[2][160]; static const int L[] = { 2, 3, 5, 9, 30, 64, 106, 107 };
    vs_explore(false);
    DOM = vs_choose(3, "domain"); memset(slot_req, 0, sizeof slot_req);
    if (DOM) {
        int pos = vs_choose(DOM == 1 ? 6 : 22, "byte"), bit = vs_choose(8, "bit"); if (DOM == 2 && pos >= 2) pos += 4;
        addr_text(a[0], DOM, -1, 0); addr_text(a[1], DOM, pos, bit);
    } else {
        int l = L[vs_choose(8, "length")], kind = vs_choose(4, "difference");
        for (int k = 0; k < 2; k++) { for (int i = 0; i < l; i++) a[k][i] = (char)('a' + i % 26); a[k][0] = '/'; a[k][l] = 0; }
        if (kind == 0) a[1][l - 1] ^= 1; else if (kind == 1) a[1][1] ^= 2; else if (kind == 2) a[1][l / 2 ? l / 2 : 1] ^= 4; else a[1][l - 1] = 0;
        vs_assume(a[1][1] || l > 2);
    }
    int exact = DOM ? 0 : vs_choose(2, "length of the link's address");   /* all of sockaddr_un, or as much as the path takes */
    server_start((int)vs_param("workers", 0), 128, 2, false);
    VS_CHECK(!gracht_server_add_link(SRV, mk_link(gracht_link_packet_based, srv_dom(), srv_path(), exact ? 2 + 4 : 0)), "add_link fails");
    server_run();
    for (int i = 0; i < 2; i++) { struct peer* p = &PE[nP++]; memset(p, 0, sizeof *p); p->handle = -1; p->nextid = 1; p->dgram = p->open = true; snprintf(p->path, sizeof p->path, "%s", srv_path()); p->s = sim_raw_dgram(a[i], 0); }
    vs_trace("the addresses of the peers are %s and %s", a[0], a[1]);
#define DO(k, p, x) do { act((struct act){ k, p, x }); vs_wait_quiescent(); VS_CHECK(!loop_done, "the server stopped"); settled("after the action"); } while (0)
    /* dropped packets first, from either, the next from the other right behind them */
    for (int i = 0; i < 2; i++) { static const uint8_t junk[3][12] = { { 1 }, { 1, 0, 0, 0, 40, 0, 0, 0, 1, 1, 0, 9 }, { 0 } }; static const size_t jn[3] = { 3, 12, 0 };
        for (int k = 0; k < 3; k++) { sim_raw_sendto(PE[i].s, PE[i].path, 0, junk[k], jn[k]); act((struct act){ A_REQ, 1 - i, 1 }); vs_wait_quiescent(); settled("after a dropped packet"); } }
    DO(A_REQ, 0, 1); DO(A_REQ, 1, 2); DO(A_SUB, 0, 1); DO(A_APIBCAST, 0, 1); DO(A_SUB, 1, 2); DO(A_APIBCAST, 0, 1); DO(A_APIBCAST, 0, 2); DO(A_TARGET, 0, 0); DO(A_TARGET, 1, 0); DO(A_SELF, 1, 0);
    DO(A_UNSUB, 0, 255); DO(A_APIBCAST, 0, 1); DO(A_APIBCAST, 0, 2); DO(A_TARGET, 1, 0); DO(A_UNSUB, 1, 255); DO(A_APIBCAST, 0, 2); DO(A_REQ, 1, 1); DO(A_DEFER, 0, 0); DO(A_REQ, 1, 1); DO(A_FLUSH, 0, 0);
}
