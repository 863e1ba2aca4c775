/* The system refuses something to a client: memory, a socket, an address, a connection. Every place where that can happen
   is tried (-E n: every n of them together). What the refusal hit fails, leaves nothing behind and may be tried again;
   nothing else is affected and no message is lost. */
#include "cli.h"
static int prev_fd; static size_t prev_mem; static long prev_ref; static int fails;
static void before(void) { prev_fd = sim_open_fds(); prev_mem = vs_live_allocs(); prev_ref = vs_refused(); }
static void failed(const char* what, bool clean) {
    vs_trace("%s fails", what);
    VS_CHECK(++fails <= vs_refused(), "%s fails although nothing was refused to it", what);
    VS_CHECK(vs_refused() > prev_ref, "%s fails although nothing was refused to it", what);
    if (!clean) return;
    VS_CHECK(sim_open_fds() == prev_fd, "%s failed and left %d descriptor(s) open", what, sim_open_fds() - prev_fd);
    VS_CHECK(vs_live_allocs() == prev_mem, "%s failed and left %ld allocation(s) behind", what, (long)vs_live_allocs() - (long)prev_mem);
}

static void fc_start(int type, int maxmsg, int rbuf) {
    struct gracht_link_socket* l; struct sockaddr_storage ss; gracht_client_configuration_t c;
    cmodel_reset(); fails = 0;
    if (type == gracht_link_packet_based) { dgram = true; SS = sim_raw_dgram(ADDR, 0); } else LS = sim_raw_listen(ADDR);
    vs_refuse(!vs_param("from", 0));
    for (;;) { before(); if (!gracht_link_socket_create(&l)) break; failed("creating a link", true); }
    gracht_link_socket_set_type(l, type); gracht_link_socket_set_domain(l, AF_UNIX);
    int n = sim_make_addr(ADDR, 0, &ss); gracht_link_socket_set_address(l, &ss, (socklen_t)n);
    gracht_client_configuration_init(&c);
    gracht_client_configuration_set_link(&c, (struct gracht_link*)l);
    if (maxmsg) gracht_client_configuration_set_max_msg_size(&c, maxmsg);
    if (rbuf) gracht_client_configuration_set_recv_buffer(&c, NULL, rbuf);
    for (;;) { before(); if (!gracht_client_create(&c, &CL)) break; failed("creating a client", true); }
    for (;;) { before(); if (!gracht_client_connect(CL)) break; failed("connecting", true); if (vs_param("once", 0)) { gracht_client_shutdown(CL); CL = NULL; return; } }
    if (LS) { SS = sim_raw_accept(LS); VS_CHECK(SS, "no connection arrived"); VS_CHECK(!sim_raw_accept(LS), "connecting once made two connections"); }
    for (int i = 0; i < 3; i++) for (;;) { before(); if (!gracht_client_register_protocol(CL, &cut_cprotos[i])) break; failed("registering", true); }
}
static void fc_send(const uint8_t* m, size_t n) { if (dgram) VS_CHECK(sim_raw_reply(SS, m, n) >= 0, "vs-internal: answer"); else sim_raw_send(SS, m, n); }
static void fc_call(int i) {
    struct call* c = &CA[i]; c->live = true;
    for (;;) {
        before(); size_t seen = (size_t)call_seen;
        int r = cut_call(CL, c->ctx, c->sid, c->aid, c->type, c->tag, c->n);
        vs_trace("call %d returns %d", i, r);
        if (!r) break;
        failed("a call", true);
        c->live = false; srv_check_requests(); VS_CHECK((size_t)call_seen == seen, "a call that failed reached the server"); c->live = true;
        VS_CHECK(gracht_client_wait_message(CL, c->ctx, 0) == -1, "waiting for a call that failed succeeds");
    }
    srv_check_requests(); VS_CHECK(c->got, "call %d did not reach the server", i);
}
static void fc_answer(int i, uint32_t n) { CA[i].answered = true; CA[i].rtag = resp_tag++; CA[i].rn = n; nOUT = b_resp_id(OUT, CA[i].id, CA[i].sid, CA[i].aid, CA[i].rtag, n); }
/* a wait that must find something to handle, retried as long as it is refused memory */
static void fc_wait(struct gracht_message_context* x, int mode, const char* what) {
    for (;;) { before(); int r = mode == 2 ? gracht_client_await(CL, x, GRACHT_AWAIT_ALL) : gracht_client_wait_message(CL, x, mode ? GRACHT_MESSAGE_BLOCK : 0); if (!r) return; VS_CHECK(vs_refused() > prev_ref, "%s fails (errno %d) although nothing was refused", what, errno); failed(what, false); }
}
static void fc_fetch(int i) {
    uint8_t out[512]; uint32_t n = 0;
    int r = cut_result(CL, CA[i].ctx, out, sizeof out, &n);
    VS_CHECK(r == GRACHT_MESSAGE_COMPLETED, "the result of call %d has status %d", i, r);
    check_values(i, out, n); CA[i].state = FETCHED;
    VS_CHECK(cut_result(CL, CA[i].ctx, out, sizeof out, &n) == -1, "the result of call %d can be fetched twice", i);
}
static void fc_event(int sid, int eid, uint32_t n) { uint8_t m[256]; size_t k = b_event(m, sid, eid, ev_tag, n); EVX[nX++] = (struct evrec){ sid, eid, ev_tag++, n }; fc_send(m, k); }
VS_SCENARIO(flt_client) {
    int hist = (int)vs_param("hist", 0), type = vs_param("dgram", 0) ? gracht_link_packet_based : gracht_link_stream_based, n = (int)vs_param("calls", 18), mode = (int)vs_param("mode", 0), from = (int)vs_param("from", 0);
    vs_set_threaded(true);
    fc_start(type, 256, 16384);
    if (!CL) { vs_refuse(false); vs_check_no_leaks("after a client that could not connect was shut down"); VS_CHECK(sim_open_fds() == 0, "a descriptor is still open"); return; }
    if (hist != 0 || from) vs_refuse(false);
    if (hist == 0) n = 2;
    if (hist == 0 || hist == 1) { /* calls, answered and fetched in another order */
        for (int i = 0; i < n; i++) { if (i == from && hist) vs_refuse(true); fc_call(new_call(1 + (i & 1), 1, T_SYNC, (uint32_t)(i % 5))); if (i % 5 == 4) { fc_event(1, 64, 3); fc_wait(NULL, 0, "a wait"); check_events(); } }
        for (int i = 0; i < n; i++) { int j = (i + n / 2) % n; fc_answer(j, (uint32_t)(i % 4)); fc_send(OUT, nOUT); fc_wait(CA[j].ctx, mode, "a wait"); }
        for (int i = 0; i < n; i++) fc_fetch(n - 1 - i);
    } else if (hist == 2) { /* what the server sends arrives in pieces */
        vs_refuse(true);
        for (int cut = 1; cut < 16; cut += 3) {
            int i = new_call(1, 1, T_SYNC, 3); fc_call(i); fc_answer(i, 6);
            for (size_t o = 0; o < nOUT; ) {
                size_t k = nOUT - o < (size_t)cut ? nOUT - o : (size_t)cut;
                fc_send(OUT + o, k); o += k; if (o == nOUT) break;
                before(); errno = 0; int r = gracht_client_wait_message(CL, (cut & 1) ? CA[i].ctx : NULL, 0); int er = errno;
                VS_CHECK(r == -1, "a wait returns %d for part of a message", r);
                if (er != EAGAIN) failed("a wait", false);
            }
            fc_event(2, 64, 2);
            fc_wait(CA[i].ctx, mode, "a wait"); fc_fetch(i);
            fc_wait(NULL, 0, "a wait"); check_events();
        }
    } else { /* many protocols */
        for (int i = 0; i < n; i++) { if (i == from) vs_refuse(true); for (;;) { before(); if (!cut_register_many(CL, 60 + i)) break; failed("registering", true); } }
        for (int i = 0; i < n; i += 2) cut_unregister_many(CL, 60 + i);
        for (int i = 1; i < n; i += 2) { fc_event(60 + i, 77, 2); fc_wait(NULL, 0, "a wait"); check_events(); }
        for (int i = 1; i < n; i += 2) cut_unregister_many(CL, 60 + i);
    }
    vs_refuse(false);
    int i = new_call(1, 1, T_SYNC, 5); fc_call(i); fc_event(1, 64, 3); fc_event(254, 255, 1); fc_answer(i, 9); fc_send(OUT, nOUT);
    VS_CHECK(!gracht_client_wait_message(CL, CA[i].ctx, GRACHT_MESSAGE_BLOCK), "a wait fails after the refusals"); check_events(); fc_fetch(i);
    errno = 0; VS_CHECK(gracht_client_wait_message(CL, NULL, 0) == -1 && errno == EAGAIN, "a message is left over");
    cli_end();
}
