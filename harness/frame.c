#include "srv.h"
/* Framing, malformed input, exhaustion and shutdown of the server. */
static void start(int workers, int maxmsg, int peers) {
    vs_explore(false);
    server_start(workers, maxmsg, 2, true);
    server_run();
    for (int i = 0; i < peers; i++) { peer_connect(); vs_wait_quiescent(); }
    check_settled("after set-up");
    vs_explore(true);
}
static void settle(const char* w) { vs_wait_quiescent(); VS_CHECK(!loop_done, "the server stopped"); check_settled(w); }
static void echo(int p, int sid, int aid, uint32_t n) { uint8_t m[4096]; size_t k = build_req(p, sid, aid, OP_ECHO, 0, n, true, m); expect_response(&RQ[nR - 1], false); vs_trace("peer %d sends request %d", p, nR - 1); send_bytes(p, m, k); }
/* a stream of messages of several kinds; ends[] are the message boundaries */
static uint8_t ST[4096]; static size_t nST, ends[16]; static int nends, reqof[16];
static void add_req(int p, int sid, int aid, int op, uint32_t n, bool known) {
    nST += build_req(p, sid, aid, op, 0, n, known, ST + nST); RQ[nR - 1].complete = false; reqof[nends] = nR - 1; ends[nends++] = nST;
}
static void add_hdr(int p, int sid, int aid) { whdr(ST + nST, PE[p].nextid, HDR, (uint8_t)sid, (uint8_t)aid, T_SYNC); struct req* r = &RQ[nR++]; memset(r, 0, sizeof *r); r->peer = p; r->id = PE[p].nextid++; r->sid = sid; r->aid = aid; nST += HDR; reqof[nends] = nR - 1; ends[nends++] = nST; }
static void mk_stream(int p, int variant) {
    nST = 0; nends = 0;
    switch (variant) {
    case 0: add_req(p, 1, 1, OP_ECHO, 5, true); add_req(p, 2, 1, OP_ECHO, 4, true); break;                       /* two small requests */
    case 1: add_hdr(p, 9, 1); add_req(p, 1, 2, OP_ECHO, 6, true); break;                                          /* a bare header, unknown */
    case 2: add_req(p, 1, 1, OP_NOP, 4, true); add_req(p, 1, 7, OP_ECHO, 4, false); add_req(p, 2, 3, OP_ECHO, 4, true); break;
    case 3: add_req(p, 1, 1, OP_ECHO, 90, true); add_req(p, 2, 1, OP_ECHO, 4, true); break;
    }
}
static size_t sent_upto; static int done_msgs;
static void feed(int p, size_t to) { /* send the stream up to `to`, updating the model */
    if (to > sent_upto) {
        for (; done_msgs < nends && ends[done_msgs] <= to; done_msgs++) {
            struct req* r = &RQ[reqof[done_msgs]]; r->complete = true;
            if (!r->known) { uint32_t id = r->id; (void)id; expect_error(r, false); } else if (r->op == OP_ECHO) expect_response(r, false);
        }
        vs_trace("peer %d sends bytes %zu to %zu", p, sent_upto, to);
        send_bytes(p, ST + sent_upto, to - sent_upto); sent_upto = to;
    }
}
VS_SCENARIO(frame_cut) { /* every way of cutting a stream of messages into up to `cuts`+1 pieces, with another peer talking in between */
    int cuts = (int)vs_param("cuts", 2), v = (int)vs_param("stream", 0), other = (int)vs_param("other", 1), workers = (int)vs_param("workers", 0);
    start(workers, 128, 2);
    mk_stream(0, v); sent_upto = 0; done_msgs = 0;
    size_t at = 0;
    for (int c = 0; c < cuts; c++) {
        size_t left = nST - at; if (!left) break;
        at += 1 + (size_t)vs_choose((int)left, "cut");
        if (workers) vs_explore(false);
        feed(0, at);
        settle("after a piece");
        if (other && c == 0) { echo(1, 2, 1, 6); settle("after the other peer's request"); }
        if (workers) vs_explore(true);
    }
    feed(0, nST);
    settle("after the whole stream");
    echo(0, 1, 1, 5); settle("after one more request");
}
VS_SCENARIO(frame_end) { /* the connection ends after every byte of the stream, in every way, after every way of cutting it once */
    int v = (int)vs_param("stream", 0), workers = (int)vs_param("workers", 0);
    start(workers, 128, 2);
    mk_stream(0, v); sent_upto = 0; done_msgs = 0;
    size_t cut = (size_t)vs_choose((int)nST + 1, "end");
    size_t first = cut ? (size_t)vs_choose((int)cut, "first piece") : 0;
    int how = vs_choose(3, "how"), now = vs_choose(2, "at once");
    if (first) { feed(0, first); if (workers) vs_explore(false); settle("after the first piece"); if (workers) vs_explore(true); }
    feed(0, cut);
    if (!now) settle("before the end");
    for (int e = 0; e < nE; e++) if (EX[e].peer == 0) EX[e].optional = true;
    PE[0].gone = true; PE[0].quiet = true;
    static const char* H[] = { "closes", "resets", "half-closes" }; vs_trace("peer 0 %s its connection", H[how]);
    if (how == 0) sim_raw_close(PE[0].s);
    if (how == 1) { if (now) for (int i = 0; i < nR; i++) RQ[i].optional = true; sim_raw_reset(PE[0].s); }   /* a reset discards what was not read yet */
    if (how == 2) sim_raw_shutdown(PE[0].s);
    settle("after the end of the connection");
    echo(1, 1, 1, 7); settle("after the other peer's request");
    int j = peer_connect(); settle("after a new connection");
    echo(j, 2, 1, 4); settle("after the new peer's request");
}
static bool room_pred(void* a) { return sim_raw_avail(PE[(long)a].s) > 0; }
static size_t rstep;
static int slow_reader(void* a) { int p = (int)(long)a; while (1) { vs_wait_until(room_pred, a, "slow reader"); drain(p, rstep); } return 0; }
VS_SCENARIO(frame_send) { /* the transport takes any number of bytes at a time: responses and events arrive whole */
    static const int C[] = { 1, 2, 3, 5, 10, 11, 12, 13, 16, 29, 40, 64 };
    int cap = C[vs_choose(12, "capacity")]; static const int RS[] = { 1, 7, 1000 };
    rstep = (size_t)RS[vs_choose(3, "reader step")];
    sim_set_capacity((size_t)cap);
    start((int)vs_param("workers", 0), 128, 1);
    int second = vs_choose(4, "second message");
    vs_spawn("reader", slow_reader, (void*)0L, true);
    sim_set_capacity(65536);
    uint8_t m[1024]; size_t n = 0, k;
    k = build_req(0, 1, 1, OP_ECHO, 0, 40, true, m); expect_response(&RQ[nR - 1], false); n += k;
    if (second == 0) { k = build_req(0, 2, 1, OP_ECHO, 0, 4, true, m + n); expect_response(&RQ[nR - 1], false); n += k; }
    if (second == 1) { k = build_req(0, 9, 1, OP_ECHO, 0, 4, false, m + n); expect_error(&RQ[nR - 1], true); n += k; }
    if (second == 2) { k = build_req(0, 2, 1, OP_BCAST, 1, 4, true, m + n); expect_event(0, 1, 0x41, (uint16_t)(nR - 1), 5, true); n += k; }
    if (second == 3) { k = build_req(0, 2, 1, OP_TWICE_BCAST, 1, 4, true, m + n); expect_event(0, 1, 0x41, (uint16_t)(nR - 1), 5, true); expect_event(0, 1, 0x42, (uint16_t)(nR - 1), 70, true); n += k; }
    RQ[0].arg = m[HDR + 1];
    send_bytes(0, m, n);
    settle("after the messages");
    echo(0, 1, 2, 21); settle("after one more response");
}
/* ---- what sending returns is true ---- */
static int tr_st[2], tr_n; static uint32_t tr_kind, tr_len;
static bool tr_hook(int t, int what, int st) { if (what == 0 && RQ[t].peer == 0) { VS_CHECK(tr_n < 2, "vs-internal: sends"); tr_st[tr_n++] = st; return true; } return false; }
static int tr_sender(void* a) { /* another thread sends */
    (void)a;
    if (tr_kind == 1) tr_st[tr_n] = cut_flush(0);
    else tr_st[tr_n] = cut_event(SRV, PE[0].handle, 2, 0x44, 77, tr_len, tr_kind == 2 ? GRACHT_MESSAGE_BLOCK : 0);
    tr_n++;
    if (tr_kind == 4) { tr_st[tr_n] = cut_event(SRV, PE[0].handle, 2, 0x44, 78, tr_len, 0); tr_n++; }
    return 0;
}
VS_SCENARIO(frame_truth) { /* the connection takes any number of bytes, the receiver reads some and goes: sending succeeds exactly if all of the message was taken */
    static const int C[] = { 1, 4, 10, 11, 12, 22, 32, 33, 34, 55, 65, 66, 67, 200 }, RD[] = { 0, 1, 10, 11, 12, 32, 33, 34, 66 }; static uint8_t b[4096];
    int workers = (int)vs_param("workers", 0); size_t acc = 0, want = 33, sends;
    tr_len = 20; tr_n = 0; tr_st[0] = tr_st[1] = 12345;
    vs_explore(false); sim_set_capacity(65536);
    server_start(workers, 128, 2, true); server_run();
    vs_explore(true);
    tr_kind = (uint32_t)vs_choose(6, "what is sent"); int cap = C[vs_choose(14, "capacity")], rd = RD[vs_choose(9, "read")], how = vs_choose(4, "then");
    vs_explore(vs_param("sched", 0) != 0);
    sim_set_capacity((size_t)cap); peer_connect(); vs_wait_quiescent(); sim_set_capacity(65536); peer_connect(); vs_wait_quiescent();
    check_settled("after set-up"); lax_peer = 0; status_hook = tr_hook;
    sends = tr_kind == 4 || tr_kind == 5 ? 2 : 1;
    uint8_t m[1024]; size_t k;
    if (tr_kind == 0 || tr_kind == 1 || tr_kind == 5) for (size_t i = 0; i < sends; i++) { k = build_req(0, 1, 1, tr_kind == 1 ? OP_DEFER : OP_ECHO, 0, 24, true, m); send_bytes(0, m, k); if (tr_kind == 1 || (i && workers)) vs_wait_quiescent(); }
    bool late = false;
    if (how != 3 && (tr_kind == 1 || tr_kind == 2) && !vs_param("sched", 0)) { late = true; k = build_req(0, 1, 2, OP_DEFER, 1, 24, true, m); send_bytes(0, m, k); vs_wait_quiescent(); }
    if (tr_kind >= 1 && tr_kind <= 4) vs_spawn("sender", tr_sender, NULL, true);
    if (!vs_param("sched", 0)) vs_wait_quiescent();
    for (size_t got = 0; got < (size_t)rd;) { size_t g = sim_raw_recv(PE[0].s, b, (size_t)rd - got); if (!g) break; got += g; acc += g; vs_wait_quiescent(); }
    if (how == 3) { vs_wait_quiescent(); for (size_t g; (g = sim_raw_recv(PE[0].s, b, 7)); acc += g, vs_wait_quiescent()) { } }
    else {
        if (!vs_param("sched", 0)) vs_wait_quiescent();
        acc += sim_raw_avail(PE[0].s); PE[0].gone = PE[0].quiet = true;
        vs_trace("the peer, to which %zu bytes were sent, goes", acc);
        if (how == 0) sim_raw_close(PE[0].s); else if (how == 1) sim_raw_reset(PE[0].s); else { sim_set_errs(1); sim_raw_close(PE[0].s); }
    }
    vs_wait_quiescent();
    VS_CHECK(!loop_done, "the server stopped");
    if (how != 3) for (int i = 0; i < nR; i++) if (i || vs_param("sched", 0)) RQ[i].optional = true;
    VS_CHECK(tr_n == (int)sends || ((tr_kind == 5 || (vs_param("sched", 0) && !tr_kind)) && how != 3), "%d of %zu sends returned", tr_n, sends);
    size_t good = 0; for (int i = 0; i < tr_n; i++) good += !tr_st[i];
    vs_trace("%zu of %zu sends succeed, %zu bytes were taken", good, sends, acc);
    if (vs_param("sched", 0)) VS_CHECK(good * want <= acc || how != 3, "%zu sends of %zu bytes succeed, but only %zu bytes were taken", good, want, acc);
    else VS_CHECK(good == acc / want, "%zu sends of %zu bytes succeed, but the connection took %zu bytes", good, want, acc);
    if (how == 3) { VS_CHECK(acc == good * want, "%zu sends of %zu bytes succeed, but %zu bytes arrived", good, want, acc); VS_CHECK(good == sends || tr_kind == 3 || tr_kind == 4, "a blocking send to a connected peer fails"); }
    else if (tr_kind != 0 && tr_kind != 5) VS_CHECK(cut_event(SRV, PE[0].handle, 2, 0x44, 79, 4, GRACHT_MESSAGE_BLOCK) != 0, "sending an event to a client that is gone succeeds");
    if (late) {
        if (rd & 1) { peer_connect(); vs_wait_quiescent(); }   /* may get the same descriptor */
        VS_CHECK(cut_flush(1) != 0, "answering a deferred request of a client that is gone succeeds");
    }
    echo(1, 1, 2, 21); settle("after the other peer's request");
    if (how != 3) lax_peer = -1;
    settle("in the end");
}
VS_SCENARIO(frame_short) { /* receives and sends that handle fewer bytes than possible or are interrupted, at any call (bounded by -E) */
    sim_set_short((int)vs_param("mask", 7));
    start((int)vs_param("workers", 0), 128, 2);
    uint8_t m[1024]; size_t n = 0;
    int v = vs_choose(2, "stream");
    mk_stream(0, v ? 2 : 0); sent_upto = 0; done_msgs = 0;
    feed(0, nST); settle("after the stream");
    uint16_t t = (uint16_t)ev_tag++;
    for (int i = 0; i < 2; i++) expect_event(i, 1, 0x45, t, 30, false);
    VS_CHECK(!cut_broadcast(SRV, 1, 0x45, t, 30, vs_choose(2, "blocking") ? GRACHT_MESSAGE_BLOCK : 0), "broadcast fails"); settle("after the broadcast");
    (void)m; (void)n;
    echo(1, 1, 1, 7); settle("after the other peer's request");
}
/* ---- malformed input ---- */
static int mal_checked; static uint8_t mal_bytes[8192]; static size_t mal_n;
static const uint32_t LEN(int i, uint32_t cap) {
    switch (i) {
    case 0: return 0; case 1: return 1; case 2: return 4; case 3: return 10; case 4: return 11; case 5: return 12; case 6: return 15;
    case 7: return cap / 2; case 8: return 0x7fffffffu; case 9: return 0x80000000u; case 10: return 0xffffffffu; case 11: return 0xfffffff5u; case 12: return 0x10000u;
    default: return cap - 160 + (uint32_t)(i - 13);      /* every length around the end of the receive buffer */
    }
}
#define NLEN (13 + 320)
/* a handler ran for bytes outside the model: whatever it got must be one consistent message of the stream */
static void mal_check(const uint8_t* p, uint32_t n) {
    for (size_t o = 0; o + HDR <= mal_n; o++) if (r32(mal_bytes + o + 4) == n + HDR && o + HDR + n <= mal_n && !memcmp(mal_bytes + o + HDR, p, n < 8000 ? n : 8000)) { mal_checked++; return; }
    vs_fail("a handler got %u parameter bytes that are not one message of what was sent", n);
}
int mal_enter(const uint8_t* p, uint32_t n) { mal_check(p, n); return -1; }
VS_SCENARIO(mal_len) { /* every interesting announced length x amount of data that follows */
    int workers = (int)vs_param("workers", 0), maxmsg = (int)vs_param("maxmsg", 128);
    uint32_t cap = (uint32_t)(maxmsg ? maxmsg : 2048) + 512;
    start(workers, maxmsg, 2);
    lax_unknown = true; lax_enter = mal_enter;
    uint32_t len = LEN(vs_choose(NLEN, "length"), cap);
    int kind = vs_choose(3, "addressee");
    size_t follow; int f = vs_choose(4, "data");
    memset(mal_bytes, 0x7a, sizeof mal_bytes);
    whdr(mal_bytes, 77, len, (uint8_t)(kind == 0 ? 1 : kind == 1 ? 9 : 0), 1, T_SYNC); mal_bytes[HDR] = 0; mal_bytes[HDR + 1] = 0; mal_bytes[HDR + 2] = 0xff; mal_bytes[HDR + 3] = 0xff;
    if (kind == 2) mal_bytes[HDR] = 7;
    follow = f == 0 ? 0 : f == 1 ? 30 : f == 2 ? (len >= HDR && len < 6000 ? len - HDR : 100) : 4000;
    mal_n = HDR + follow;
    if (f == 3) for (size_t o = (len < 3900 && len >= HDR ? len : HDR); o + 20 < mal_n; o += 20) { whdr(mal_bytes + o, 78, 20, 1, 2, T_SYNC); mal_bytes[o + HDR] = OP_NOP; w16(mal_bytes + o + HDR + 2, 0xfff0); }
    vs_trace("peer 0 announces %u bytes for service %d and sends %zu", len, kind == 0 ? 1 : kind == 1 ? 9 : 0, mal_n);
    PE[0].quiet = true; lax_peer = 0;
    int split = vs_choose(2, "split");
    if (split) { send_bytes(0, mal_bytes, 9); vs_wait_quiescent(); if (!sim_raw_eof(PE[0].s)) send_bytes(0, mal_bytes + 9, mal_n - 9); }
    else send_bytes(0, mal_bytes, mal_n);
    vs_wait_quiescent();
    VS_CHECK(!loop_done, "the server stopped");
    bool complete = len >= HDR && len <= (uint32_t)(maxmsg ? maxmsg : 2048) && mal_n >= len;
    if (complete && kind == 0) VS_CHECK(mal_checked || 1, "x");
    echo(1, 1, 1, 7); settle("after the malformed message");
    PE[0].gone = true; sim_raw_close(PE[0].s); vs_wait_quiescent();
    echo(1, 2, 1, 9); settle("after the peer left");
    VS_CHECK(PE[0].nconn == 1 && PE[0].ndisc == 1, "the peer was reported connected %d and disconnected %d times", PE[0].nconn, PE[0].ndisc);
    if (vs_param("stop", 1)) { server_stop(); VS_CHECK(sim_open_fds() == 0, "%d descriptors are still open after the server stopped", sim_open_fds()); vs_check_no_leaks("after the server stopped"); }
}
VS_SCENARIO(mal_hdr) { /* every value of the service, function and type bytes of an otherwise proper message */
    int workers = (int)vs_param("workers", 0);
    start(workers, 128, 2);
    lax_unknown = true; lax_enter = mal_enter; lax_peer = 0; PE[0].quiet = true;
    int which = vs_choose(3, "byte"), val = vs_choose(256, "value"), n = vs_choose(3, "payload");
    static const int N[] = { 0, 1, 12 };
    memset(mal_bytes, 0x55, sizeof mal_bytes);
    whdr(mal_bytes, 5, (uint32_t)(HDR + N[n]), (uint8_t)(which == 0 ? val : which == 1 ? vs_choose(2, "service") : 1), (uint8_t)(which == 1 ? val : 1), (uint8_t)(which == 2 ? val : 0));
    w16(mal_bytes + HDR + 2, 0xffff); mal_n = HDR + (size_t)N[n];
    send_bytes(0, mal_bytes, mal_n); vs_wait_quiescent();
    VS_CHECK(!loop_done, "the server stopped");
    echo(1, 1, 1, 7); settle("after the strange message");
    PE[0].gone = true; sim_raw_close(PE[0].s); vs_wait_quiescent();
    echo(1, 2, 1, 9); settle("after the peer left");
}
VS_SCENARIO(mal_ctl) { /* control messages without (or with too many) parameters change nothing they do not name */
    start((int)vs_param("workers", 0), 128, 2);
    uint8_t m[64]; size_t n;
    /* leave every possible stale byte where the parameter would be */
    static const int STALE[] = { 0, 1, 2, 255 };
    int stale = STALE[vs_choose(4, "stale")], aid = vs_choose(2, "operation"), first = vs_choose(2, "before"), len = vs_choose(2, "length");
    lax_unknown = true; lax_enter = mal_enter;
    if (first) { n = build_ctl(0, 1, 1, m); send_bytes(0, m, n); setsub(&PE[0], 1, false); settle("after unsubscribing"); }
    memset(mal_bytes, stale, 64); whdr(mal_bytes, 9, 40, 9, 1, T_SYNC); mal_n = 40; send_bytes(0, mal_bytes, 40);
    { uint8_t e[32]; whdr(e, 0, HDR + 8, 0, 2, T_EVENT); w32(e + HDR, 9); w32(e + HDR + 4, ENOENT); expect(0, e, HDR + 8, false, true); }
    settle("after an unknown request");
    if (len == 0) { whdr(m, 10, HDR, 0, (uint8_t)aid, T_ASYNC); send_bytes(0, m, HDR); vs_trace("peer 0 sends a control message without parameter"); }
    else { whdr(m, 10, HDR + 6, 0, (uint8_t)aid, T_ASYNC); memset(m + HDR, 2, 6); setsub(&PE[0], 2, aid == 0); send_bytes(0, m, HDR + 6); vs_trace("peer 0 sends a control message with extra bytes"); }
    settle("after the control message");
    for (int sid = 1; sid <= 2; sid++) { uint16_t t = (uint16_t)ev_tag++; for (int i = 0; i < 2; i++) if (subbed(&PE[i], sid)) expect_event(i, sid, 0x45, t, 6, false); VS_CHECK(!cut_broadcast(SRV, sid, 0x45, t, 6, 0), "broadcast fails"); settle("after a broadcast"); }
}
/* ---- running out of receive memory ---- */
/* 67 requests can be queued or running with two workers; with large messages the receive memory is used up before that */
#define BIG 12000
struct fl { int peer, count, op; uint32_t n; };
static bool fl_room(void* a) { struct fl* f = a; return sim_raw_room(PE[f->peer].s) > BIG + 2000 || sim_raw_eof(PE[f->peer].s); }
static int flooder(void* a) {
    struct fl* f = a; static uint8_t m[BIG + 64];
    for (int i = 0; i < f->count; i++) {
        vs_wait_until(fl_room, f, "peer waits for room in the connection");
        size_t l = build_req(f->peer, 1, 1, f->op, 0, f->n, true, m);
        if (f->op == OP_GATE_ECHO || f->op == OP_ECHO) expect_response(&RQ[nR - 1], false);
        send_bytes(f->peer, m, l);
    }
    return 0;
}
static struct fl FL[4];
static int flood(int i, int peer, int count, int op, uint32_t n) { FL[i] = (struct fl){ peer, count, op, n }; vs_trace("peer %d sends %d requests of %u bytes", peer, count, n); return vs_spawn("flooder", flooder, &FL[i], true); }
VS_SCENARIO(exhaust) {
    int workers = (int)vs_param("workers", 2), count = (int)vs_param("burst", 70), n = (int)vs_param("n", BIG - 64);
    start(workers, BIG, 2);
    vs_explore(false);
    int op = vs_choose(2, "answered") ? OP_GATE_ECHO : OP_GATE;
    int fl = flood(0, 0, count, op, (uint32_t)n);
    vs_wait_quiescent();
    VS_CHECK(!loop_done, "the server stopped");
    vs_count("requests held back by the transport", count - nR);
    /* another peer talks, one leaves, a new one connects meanwhile */
    int other = vs_choose(4, "meanwhile");
    if (other == 1) { uint8_t m[16]; size_t k = build_ctl(1, 1, 2, m); setsub(&PE[1], 2, false); send_bytes(1, m, k); }
    if (other == 2) { PE[1].gone = true; sim_raw_close(PE[1].s); }
    if (other == 3) { peer_connect(); }
    vs_wait_quiescent();
    gate_open = true;
    settle("after the handlers finished");
    VS_CHECK(vs_finished(fl), "the server does not read the remaining requests");
    echo(0, 1, 2, 4); settle("after one more request");
}
VS_SCENARIO(exhaust_leave) { /* the peers whose requests fill the memory leave; the memory must come back */
    int workers = (int)vs_param("workers", 2), rounds = (int)vs_param("rounds", 3);
    start(workers, BIG, 1);
    vs_explore(false);
    int how = vs_choose(2, "reset");
    for (int r = 0; r < rounds; r++) {
        int p = peer_connect(); vs_wait_quiescent();
        gate_open = false;
        flood(0, p, 70, OP_GATE, BIG - 64);
        vs_wait_quiescent();
        VS_CHECK(!loop_done, "the server stopped");
        /* what the server has not read yet may be lost with the connection */
        for (int i = 0; i < nR; i++) if (RQ[i].peer == p) RQ[i].optional = true;
        PE[p].gone = PE[p].quiet = true; if (how) sim_raw_reset(PE[p].s); else sim_raw_close(PE[p].s);
        vs_wait_quiescent();
        gate_open = true;
        settle("after the peer left and the handlers finished");
        nR = 0;
    }
    echo(0, 1, 2, 4); settle("after one more request");
}
VS_SCENARIO(exhaust_sched) { /* the schedule decides when exactly memory runs out and comes back */
    int pre = (int)vs_param("pre", 64), more = (int)vs_param("more", 3);
    start(2, BIG, 2);
    vs_explore(false);
    flood(0, 0, pre, OP_GATE, BIG - 64);
    vs_wait_quiescent(); VS_CHECK(!loop_done, "the server stopped");
    int fl = flood(1, 1, more, OP_ECHO, BIG - 64);
    vs_wait_quiescent();
    vs_explore(true);
    gate_open = true;
    vs_wait_quiescent();
    settle("after the handlers finished");
    VS_CHECK(vs_finished(fl), "the server does not read the remaining requests");
    vs_explore(false);
    echo(0, 1, 2, 4); settle("after one more request");
}
/* ---- shutdown ---- */
static int asker(void* a) { (void)a; vs_trace("another thread asks for shutdown"); stop_ok = true; gracht_server_request_shutdown(SRV); stopped = true; return 0; }
static bool pred_stopreq(void* a) { (void)a; return stopped; }
static int opener(void* a) { (void)a; vs_yield_point("open the gate"); gate_open = true; return 0; }
static bool handler_asks;
void h_stop_asked(void) { stopped = true; stop_ok = true; vs_trace("a handler asks for shutdown"); }
static int poker(void* a) { (void)a; vs_wait_until(pred_stopreq, NULL, "poke after the request"); sim_raw_connect(ADDR); return 0; }
static void after_stop(int ext) {
    vs_wait_quiescent();
    VS_CHECK(loop_done, "the server did not stop after shutdown was requested");
    VS_CHECK(loop_ret == 0, "the main loop returned %d after shutdown", loop_ret);
    VS_CHECK(vs_threads_alive() == 0, "%d worker threads are still there after the server stopped", vs_threads_alive());
    VS_CHECK(sim_open_fds() == (ext ? 1 : 0), "%d descriptors are open after the server stopped, %d expected", sim_open_fds(), ext ? 1 : 0);
    for (int i = 0; i < nR; i++) VS_CHECK(RQ[i].invoked == RQ[i].left, "a handler was cut off by the shutdown");
    vs_check_no_leaks("after the server stopped");
    for (int i = 0; i < nP; i++) VS_CHECK(sim_server_fd(PE[i].s) < 0, "connection of peer %d still open", i);
}
VS_SCENARIO(stop_handler) { /* a handler asks for shutdown while other requests are queued or running */
    int workers = (int)vs_param("workers", 0), more = (int)vs_param("more", 2);
    vs_explore(false);
    server_start(workers, 128, 2, true);
    if (vs_param("links", 0)) VS_CHECK(!gracht_server_add_link(SRV, mk_link(gracht_link_packet_based, AF_UNIX, "/dg", 0)), "add_link fails");
    server_run();
    for (int i = 0; i < 2; i++) { peer_connect(); vs_wait_quiescent(); }
    vs_explore(true);
    int before = vs_choose(2, "requests before"), gate = workers ? vs_choose(2, "one handler runs long") : 0, second = vs_choose(2, "asked twice");
    vs_spawn("poker", poker, NULL, true);
    uint8_t m[1024]; size_t n = 0;
    if (gate) { n += build_req(0, 2, 1, OP_GATE, 0, 4, true, m + n); vs_spawn("opener", opener, NULL, true); }
    if (before) { n += build_req(0, 1, 1, OP_ECHO, 0, 5, true, m + n); expect_response(&RQ[nR - 1], true); }
    n += build_req(0, 1, 2, OP_SHUTDOWN, 0, 4, true, m + n);
    if (second) n += build_req(0, 1, 2, OP_SHUTDOWN, 0, 4, true, m + n);
    for (int i = 0; i < more; i++) { n += build_req(0, 2, 3, OP_ECHO, 0, 6, true, m + n); expect_response(&RQ[nR - 1], true); }
    for (int i = 0; i < nR; i++) RQ[i].optional = true;
    send_bytes(0, m, n);
    if (vs_param("other", 1)) { n = build_req(1, 1, 1, OP_ECHO, 0, 8, true, m); RQ[nR - 1].optional = true; expect_response(&RQ[nR - 1], true); send_bytes(1, m, n); }
    after_stop(0);
    drain_all();
}
VS_SCENARIO(stop_thread) { /* another thread asks, at any moment */
    int workers = (int)vs_param("workers", 0);
    vs_explore(false);
    server_start(workers, 128, 2, true);
    server_run();
    for (int i = 0; i < 2; i++) { peer_connect(); vs_wait_quiescent(); }
    vs_explore(true);
    vs_spawn("poker", poker, NULL, true);
    int t = vs_spawn("asker", asker, NULL, true); (void)t;
    uint8_t m[1024]; size_t n = 0; int k = (int)vs_param("reqs", 2);
    for (int i = 0; i < k; i++) { n += build_req(0, 1 + (i & 1), 1, OP_ECHO, 0, 5, true, m + n); expect_response(&RQ[nR - 1], true); RQ[nR - 1].optional = true; }
    if (vs_choose(2, "unsubscribe")) n += build_ctl(0, 1, 255, m + n);
    send_bytes(0, m, n);
    if (vs_choose(2, "peer leaves")) { PE[1].gone = true; sim_raw_close(PE[1].s); }
    after_stop(0);
    drain_all();
}
static int early_main(void* a) { if (a) { stop_ok = true; gracht_server_request_shutdown(SRV); stopped = true; vs_trace("shutdown is requested before the loop runs"); } return loop_main(NULL); }
VS_SCENARIO(stop_early) { /* shutdown is asked for before the workers, or even the loop, have run at all */
    int workers = (int)vs_param("workers", 2), k = (int)vs_param("reqs", 1);
    vs_explore(false);
    int who = vs_choose(3, "who asks");
    vs_explore(true);
    server_start(workers, 128, 2, true);
    peer_connect();
    uint8_t m[1024]; size_t n = 0;
    for (int i = 0; i < k; i++) { n += build_req(0, 1 + (i & 1), 1, OP_ECHO, 0, 5, true, m + n); expect_response(&RQ[nR - 1], true); RQ[nR - 1].optional = true; }
    if (who == 2) { n += build_req(0, 1, 2, OP_SHUTDOWN, 0, 4, true, m + n); RQ[nR - 1].optional = false; }
    send_bytes(0, m, n);
    vs_spawn("poker", poker, NULL, true);
    if (who == 1) vs_spawn("asker", asker, NULL, true);
    loop_fiber = vs_spawn("server", early_main, who == 0 ? (void*)1 : NULL, true);
    after_stop(0);
    drain_all();
}
/* the application runs its own loop on its own descriptor */
static int own_set, own_stray; static int own_main(void* a) { (void)a;
    int fds[16]; unsigned ev[16];
    while (1) {
        int n = vs_own_wait(own_set, fds, ev, 16);
        if (n < 0) break;
        /* a descriptor the server knows nothing about (a client that was closed, or one of the application's) */
        if (own_stray) { int r = gracht_server_handle_event(SRV, 9999, own_stray == 1 ? 0x1u : own_stray == 2 ? 0x2000u : 0x2001u); VS_CHECK(r, "the server claims the event of a descriptor it knows nothing about"); own_stray = 0; }
        for (int i = 0; i < n; i++) if (gracht_server_handle_event(SRV, fds[i], ev[i]) == -1 && errno == EPIPE) { loop_ret = 0; loop_done = true; return 0; }
    }
    return 0;
}
VS_SCENARIO(stop_own) {
    int workers = (int)vs_param("workers", 0);
    vs_explore(false);
    model_reset();
    gracht_server_configuration_t c; multi = workers;
    gracht_server_configuration_init(&c);
    c.callbacks.clientConnected = cb_connected; c.callbacks.clientDisconnected = cb_disconnected;
    if (workers) gracht_server_configuration_set_num_workers(&c, workers);
    own_set = sim_epoll_create();
    gracht_server_configuration_set_aio_descriptor(&c, own_set);
    VS_CHECK(!gracht_server_create(&c, &SRV), "server creation fails");
    VS_CHECK(gracht_server_get_aio_handle(SRV) == own_set, "the server does not use the descriptor it was given");
    VS_CHECK(!gracht_server_add_link(SRV, mk_link(gracht_link_stream_based, AF_UNIX, ADDR, 0)), "add_link fails");
    for (int i = 0; i < 2; i++) VS_CHECK(!gracht_server_register_protocol(SRV, &cut_protos[i]), "register fails");
    vs_spawn("server", own_main, NULL, true);
    for (int i = 0; i < 2; i++) { peer_connect(); vs_wait_quiescent(); }
    vs_explore(true);
    own_stray = vs_choose(4, "event of an unknown descriptor");
    echo(0, 1, 1, 5); settle("after a request");
    int leave = vs_choose(2, "peer leaves"); if (leave) { PE[1].gone = true; sim_raw_close(PE[1].s); settle("after a peer left"); }
    vs_spawn("poker", poker, NULL, true);
    if (vs_choose(2, "who asks")) vs_spawn("asker", asker, NULL, true);
    else { uint8_t m[64]; size_t n = build_req(0, 1, 2, OP_SHUTDOWN, 0, 4, true, m); send_bytes(0, m, n); }
    after_stop(1);
    sim_close_fd(own_set);
}
