/* The system refuses something: memory, a thread, a descriptor, an address, a place in an epoll set. Every place where
   that can happen is tried (-E n: every n of them together). What the refusal hit fails, and nothing else does. */
#include "srv.h"
static int victims, prev_fd, prev_thr; static size_t prev_mem; static long prev_ref;
static void before(void) { prev_fd = sim_open_fds(); prev_mem = vs_live_allocs(); prev_ref = vs_refused(); prev_thr = vs_threads_alive(); }
/* an operation that failed: something was refused to it, and it leaves nothing behind */
static void failed(const char* what, bool clean) {
    vs_trace("%s fails", what);
    VS_CHECK(vs_refused() > prev_ref, "%s fails although nothing was refused", what);
    if (!clean) return;
    VS_CHECK(sim_open_fds() == prev_fd, "%s failed and left %d descriptor(s) open", what, sim_open_fds() - prev_fd);
    VS_CHECK(vs_live_allocs() == prev_mem, "%s failed and left %ld allocation(s) behind", what, (long)vs_live_allocs() - (long)prev_mem);
    VS_CHECK(vs_threads_alive() == prev_thr, "%s failed and left %d thread(s) running", what, vs_threads_alive() - prev_thr);
}
static int flt_answer[MAXREQ];
static void flt_create(int workers, int maxmsg, int set) {
    gracht_server_configuration_t c;
    multi = workers;
    gracht_server_configuration_init(&c);
    c.callbacks.clientConnected = cb_connected; c.callbacks.clientDisconnected = cb_disconnected;
    if (workers) gracht_server_configuration_set_num_workers(&c, workers);
    if (maxmsg) gracht_server_configuration_set_max_msg_size(&c, maxmsg);
    if (set >= 0) gracht_server_configuration_set_aio_descriptor(&c, set);
    for (;;) {
        before();
        if (!gracht_server_create(&c, &SRV)) break;
        failed("server creation", true);
        if (set >= 0) VS_CHECK(sim_fd_open(set), "server creation failed and closed the descriptor of its caller");
    }
}
static struct gracht_link* flt_link(int type, int domain, const char* path) {
    struct gracht_link_socket* l; struct sockaddr_storage ss;
    for (;;) { before(); if (!gracht_link_socket_create(&l)) break; failed("link creation", true); }
    gracht_link_socket_set_type(l, type); gracht_link_socket_set_listen(l, 1); gracht_link_socket_set_domain(l, domain);
    int n = sim_make_addr(path, 0, &ss);
    gracht_link_socket_set_address(l, &ss, (socklen_t)n);
    for (;;) { before(); if (!gracht_server_add_link(SRV, (struct gracht_link*)l)) break; int k = multi > 1 ? multi : 0; VS_CHECK(vs_threads_alive() == k, "a failed add_link left threads");
        vs_trace("add_link fails"); VS_CHECK(vs_refused() > prev_ref, "add_link fails although nothing was refused"); VS_CHECK(sim_open_fds() == prev_fd, "add_link failed and left a descriptor open"); VS_CHECK(vs_live_allocs() == prev_mem, "add_link failed and left memory behind"); }
    return (struct gracht_link*)l;
}
static int flt_dgram(const char* path) {
    struct peer* p = &PE[nP]; memset(p, 0, sizeof *p); p->handle = -1; p->nextid = 1; p->dgram = true;
    snprintf(p->path, sizeof p->path, "%s", "/pkt");
    p->s = sim_raw_dgram(path, 0); p->open = true; return nP++;
}
static void flt_req(int i, int sid, int aid, int op, int arg, uint32_t n, bool known) {
    uint8_t m[2600]; size_t k = build_req(i, sid, aid, op, arg, n, known, m);
    if (known && op == OP_ECHO) expect_response(&RQ[nR - 1], false);
    if (!known) expect_error(&RQ[nR - 1], false);
    vs_trace("peer %d sends request %d", i, nR - 1);
    send_bytes(i, m, k);
}
/* once nothing is refused any more, everybody who is connected is served */
static void flt_serves(const char* when) {
    uint16_t t = (uint16_t)ev_tag++;
    for (int i = 0; i < nP; i++) if (PE[i].open && !PE[i].gone) { flt_req(i, 1, 1, OP_ECHO, 0, 9, true); flt_req(i, 2, 3, OP_ECHO, 0, 4, true); flt_req(i, 9, 1, OP_ECHO, 0, 4, false); }
    vs_wait_quiescent();
    check_settled(when);
    for (int i = 0; i < nP; i++) if (PE[i].open && !PE[i].gone && (!PE[i].dgram || subbed(&PE[i], 1))) expect_event(i, 1, 0x50, t, 6, false);
    VS_CHECK(!cut_broadcast(SRV, 1, 0x50, t, 6, 0), "broadcasting fails %s", when);
    vs_wait_quiescent();
    check_settled(when);
}
/* ---- set-up: creation, links, registration ---- */
VS_SCENARIO(flt_setup) {
    model_reset();
    int workers = (int)vs_param("workers", 0), nproto = (int)vs_param("protos", 2), set = vs_param("own", 0) ? sim_epoll_create() : -1, fds = sim_open_fds();
    vs_set_threaded(true);
    vs_refuse(!vs_param("from", 0));
    flt_create(workers, (int)vs_param("maxmsg", 0), set);
    flt_link(gracht_link_stream_based, AF_UNIX, ADDR);
    if (vs_param("links", 2) > 1) flt_link(gracht_link_packet_based, AF_UNIX, "/pkt");
    for (int i = 0; i < 2; i++) for (;;) { before(); if (!gracht_server_register_protocol(SRV, &cut_protos[i])) break; failed("registration", false); }
    int from = (int)vs_param("from", 0);
    if (from) vs_refuse(false);
    for (int i = 2; i < nproto; i++) { if (i == from) vs_refuse(true); for (;;) { before(); if (!cut_reg_many(SRV, 40 + i)) break; failed("registration", false); } }
    vs_refuse(false);
    server_run();
    int a = peer_connect(), b = vs_param("links", 2) > 1 ? flt_dgram("/a") : -1; (void)a;
    uint8_t m[64];
    vs_wait_quiescent();
    if (b >= 0) { PE[b].record = true; setsub(&PE[b], 1, true); send_bytes(b, m, build_ctl(b, 0, 1, m)); vs_wait_quiescent(); }
    flt_serves("after set-up");
    for (int i = 2; i < nproto; i++) { uint8_t q[64]; size_t k = build_req(0, 40 + i, 1, OP_ECHO, 0, 4, true, q); expect_response(&RQ[nR - 1], false); send_bytes(0, q, k); vs_wait_quiescent(); check_settled("for a protocol that was registered"); }
    server_stop();
    vs_check_no_leaks("after the server stopped");
    VS_CHECK(sim_open_fds() == (set >= 0), "%d descriptors are still open after the server stopped", sim_open_fds()); (void)fds;
    if (set >= 0) VS_CHECK(sim_fd_open(set), "the caller's descriptor was closed");
}
/* ---- a running server ---- */
static bool flt_status(int t, int what, int st) { if (what == 0 && st) { flt_answer[t] = 1; vs_trace("answering request %d fails (%d)", t, st); VS_CHECK(vs_refused(), "answering request %d fails although nothing was refused", t); return true; } return false; }
static void drop(int peer) { for (int i = 0; i < nE; i++) if (EX[i].peer == peer) EX[i].optional = true; for (int i = 0; i < nR; i++) if (RQ[i].peer == peer) RQ[i].optional = true; }
/* what a step did: everything, except what refusals hit */
static void flt_settle(const char* when) {
    vs_wait_quiescent();
    drain_all();
    for (int i = 0; i < nP; i++) { struct peer* p = &PE[i];
        if (p->dgram || p->gone) continue;
        if (sim_raw_eof(p->s)) { vs_trace("peer %d lost its connection", i); victims++; p->gone = true; drop(i); VS_CHECK(p->ndisc == p->nconn, "peer %d was dropped: clientConnected ran %d times, clientDisconnected %d times", i, p->nconn, p->ndisc); if (!p->nconn) { p->nconn = p->ndisc = 1; } }
        else VS_CHECK(p->nconn == 1, "peer %d is connected but clientConnected ran %d times %s", i, p->nconn, when);
    }
    for (int i = 0; i < nR; i++) if (RQ[i].complete && RQ[i].known && !RQ[i].invoked && !RQ[i].optional && !PE[RQ[i].peer].gone) { vs_trace("request %d was lost", i); victims++; RQ[i].optional = true; for (int j = 0; j < nE; j++) if (EX[j].peer == RQ[i].peer && r32(EX[j].m) == RQ[i].id) { EX[j].optional = true; EX[j].got = true; } }
    for (int j = 0; j < nE; j++) if (!EX[j].got && !EX[j].optional) {
        struct expm* e = &EX[j]; bool resp = e->m[10] == T_RESPONSE, err = e->m[8] == 0; int r = -1;
        for (int i = 0; i < nR; i++) if (RQ[i].peer == e->peer && RQ[i].id == (err ? r32(e->m + HDR) : r32(e->m)) && (err || resp)) r = i;
        char d[160]; describe(d, sizeof d, e->m, e->n);
        if (r < 0 || (resp && !flt_answer[r])) vs_fail("peer %d never received [%s] %s", e->peer, d, when);
        vs_trace("%s of request %d was lost", resp ? "the answer" : "the error notification", r); victims++; e->got = e->optional = true;
    }
    int k = 0; for (int i = 0; i < nE; i++) if (!EX[i].got) EX[k++] = EX[i];
    nE = k;
    VS_CHECK(victims <= vs_refused(), "%d operations failed although only %ld were refused anything", victims, vs_refused());
}
static void flt_bcast(int sid) {
    uint16_t t = (uint16_t)ev_tag++; int r0 = nE; before();
    for (int i = 0; i < nP; i++) if (PE[i].open && !PE[i].gone && subbed(&PE[i], sid) && (!PE[i].dgram || PE[i].nconn > PE[i].ndisc)) expect_event(i, sid, 0x50, t, 6, false);
    if (cut_broadcast(SRV, sid, 0x50, t, 6, 0)) { nE = r0; victims++; failed("broadcasting", false); }
}
static void flt_event(int i) {
    uint16_t t = (uint16_t)ev_tag++; int r0 = nE; before();
    expect_event(i, 2, 0x44, t, 9, false);
    if (cut_event(SRV, PE[i].handle, 2, 0x44, t, 9, 0)) { nE = r0; victims++; failed("sending an event", false); }
}
static void flt_sub(int i, int on, int sid) {
    uint8_t m[32]; bool was = PE[i].nconn > PE[i].ndisc;
    if (PE[i].gone) return;
    PE[i].record = on; setsub(&PE[i], sid, on);
    if (PE[i].dgram && !on && sid == 255) PE[i].forgotten = true;
    vs_trace("peer %d %s %d", i, on ? "subscribes to" : "unsubscribes from", sid);
    send_bytes(i, m, build_ctl(i, !on, sid, m)); flt_settle("after a subscription changed");
    if (!PE[i].dgram) return;
    if (on && !was && PE[i].nconn == PE[i].ndisc) { vs_trace("the subscription was lost"); victims++; setsub(&PE[i], 255, false); PE[i].record = false; }
    if (!on && sid == 255) VS_CHECK(PE[i].nconn == PE[i].ndisc, "peer %d unsubscribed from everything but is still known", i);
    VS_CHECK(victims <= vs_refused(), "a subscription was lost although nothing was refused");
}
int cut_borrow(gracht_server_t*, int n, int client, int sid, int eid, uint16_t tag, uint32_t len);
VS_SCENARIO(flt_run) {
    int workers = (int)vs_param("workers", 0), n = (int)vs_param("peers", 3), hist = (int)vs_param("hist", 0), from = (int)vs_param("from", 0);
    vs_explore(false);
    server_start(workers, 0, 2, true);
    victims = 0; memset(flt_answer, 0, sizeof flt_answer); status_hook = flt_status;
    VS_CHECK(!gracht_server_add_link(SRV, mk_link(gracht_link_packet_based, AF_UNIX, "/pkt", 0)), "add_link fails");
    server_run(); vs_wait_quiescent();
    vs_explore(true);
    vs_refuse(!from);
    if (!hist) { /* joining, asking, being told, leaving, joining again */
        for (int i = 0; i < n; i++) { if (i == from) vs_refuse(true); peer_connect(); flt_settle("after a connect"); if (!PE[i].gone) { flt_req(i, 1, 1, OP_ECHO, 0, 9, true); flt_settle("after a request"); } }
        flt_bcast(1); flt_settle("after a broadcast");
        for (int i = 0; i < n && i < 2; i++) { if (!PE[i].gone) flt_event(i); flt_settle("after an event"); if (!PE[i].gone) flt_req(i, 9, 1, OP_ECHO, 0, 4, false); flt_settle("after an unknown request"); }
        if (!PE[0].gone) flt_sub(0, 0, 2);
        flt_bcast(2); flt_settle("after a broadcast");
        for (int i = 0; i < n - 1; i++) if (!PE[i].gone) { PE[i].gone = true; drop(i); sim_raw_close(PE[i].s); flt_settle("after a peer left"); VS_CHECK(PE[i].ndisc == 1 && sim_server_fd(PE[i].s) < 0, "peer %d left but is still known", i); }
        for (int i = 0; i < 2; i++) { int k = peer_connect(); flt_settle("after a connect"); if (!PE[k].gone) { flt_req(k, 2, 1, OP_ECHO, 0, 30, true); flt_settle("after a request"); } }
    } else if (hist == 1) { /* packets */
        for (int i = 0; i < n; i++) { char a[8] = { '/', (char)('a' + i), 0 }; if (i == from) vs_refuse(true); flt_dgram(a); if (i >= from) { flt_req(i, 1, 1, OP_ECHO, 0, 9, true); flt_settle("after a request"); } flt_sub(i, 1, 1); if (i & 1) flt_sub(i, 1, 2); }
        flt_bcast(1); flt_settle("after a broadcast");
        flt_bcast(2); flt_settle("after a broadcast");
        for (int i = 0; i < n - 1; i++) { flt_sub(i, 0, 255); if (i >= from) flt_req(i, 9, 9, OP_ECHO, 0, 4, false); flt_settle("after a request"); }
        flt_sub(0, 1, 1); flt_bcast(1); flt_settle("after a broadcast");
    } else if (hist == 2) { /* messages in pieces */
        for (int i = 0; i < n; i++) peer_connect();
        flt_settle("after the connects");
        for (int cut = 1; cut < 20; cut += 5) for (int i = 0; i < n; i++) {
            uint8_t m[128]; if (PE[i].gone) continue;
            size_t k = build_req(i, 1, 2, OP_ECHO, 0, 20, true, m); RQ[nR - 1].complete = false; int r = nR - 1;
            send_bytes(i, m, (size_t)cut); flt_settle("after a piece");
            if (PE[i].gone) continue;
            send_bytes(i, m + cut, 3); flt_settle("after a piece");
            if (PE[i].gone) continue;
            RQ[r].complete = true; expect_response(&RQ[r], false);
            send_bytes(i, m + cut + 3, k - (size_t)cut - 3); flt_settle("after the last piece");
        }
    } else { /* many buffers in use at once */
        for (int i = 0; i < 2; i++) peer_connect();
        flt_settle("after the connects");
        for (int round = 0; round < 2; round++) for (int i = 0; i < 2; i++) if (!PE[i].gone) {
            uint16_t t = (uint16_t)ev_tag; int want = 9 * (1 + round), got; ev_tag += want; before();
            got = cut_borrow(SRV, want, PE[i].handle, 1, 0x46, t, 5);
            vs_trace("%d of %d events sent to peer %d", got, want, i);
            for (int k = 0; k < got; k++) expect_event(i, 1, 0x46, (uint16_t)(t + k), 5, false);
            VS_CHECK(want - got <= vs_refused() - prev_ref, "%d of %d events could not be sent although %ld requests were refused", want - got, want, vs_refused() - prev_ref);
            victims += want - got;
            flt_settle("after events");
        }
    }
    vs_refuse(false);
    flt_serves("after the refusals");
    peer_connect(); vs_wait_quiescent();
    flt_serves("after another peer joined");
    server_stop();
    vs_check_no_leaks("after the server stopped");
    VS_CHECK(sim_open_fds() == 0, "%d descriptors are still open after the server stopped", sim_open_fds());
}
