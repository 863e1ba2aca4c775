/* The far ends of the dimensions the other scenarios keep small: sizes, message ids, numbers of clients, of messages and of links. */
#define MAXPEER 320
#define MAXREQ 700
#define MAXEXP 1600
#include "srv.h"
void cut_free(void*);
static bool kn(int sid, int aid) { return sid == 1 ? aid == 1 || aid == 2 : sid == 2 ? aid == 1 || aid == 3 : false; }
static void settle(const char* w) { vs_wait_quiescent(); VS_CHECK(!loop_done, "the server stopped"); check_settled(w); }
static void rq(int p, int sid, int aid, int op, int arg, uint32_t n) {
    uint8_t m[4096]; size_t k = build_req(p, sid, aid, op, arg, n, kn(sid, aid), m);
    struct req* r = &RQ[nR - 1]; uint16_t tag = (uint16_t)(nR - 1);
    if (!r->known) expect_error(r, false);
    else if (op == OP_ECHO) expect_response(r, false);
    else if (op == OP_EVENT_SELF) expect_event(p, sid, 0x40, tag, 3, false);
    else if (op == OP_BCAST) for (int i = 0; i < nP; i++) if (PE[i].open && !PE[i].gone && subbed(&PE[i], arg)) expect_event(i, arg, 0x41, tag, 5, false);
    send_bytes(p, m, k);
}
static void bcast(int sid) { uint16_t t = (uint16_t)ev_tag++; if (ev_tag > 60000) ev_tag = 0x100; for (int i = 0; i < nP; i++) if (PE[i].open && !PE[i].gone && subbed(&PE[i], sid)) expect_event(i, sid, 0x45, t, 6, false); vs_trace("broadcast on %d", sid); VS_CHECK(!cut_broadcast(SRV, sid, 0x45, t, 6, 0), "broadcast fails"); }
static void target(int p) { uint16_t t = (uint16_t)ev_tag++; expect_event(p, 2, 0x44, t, 9, false); VS_CHECK(!cut_event(SRV, PE[p].handle, 2, 0x44, t, 9, 0), "a targeted event to a connected peer fails"); }
static void stop(void) { drain_all(); server_stop(); VS_CHECK(sim_open_fds() == 0, "%d descriptors are still open after the server stopped", sim_open_fds()); vs_check_no_leaks("after the server stopped"); }

/* ---- messages of every size, up to a large configured maximum ---- */
static uint8_t BM[300000], BR[300000];
static void take(int p, uint8_t* m, size_t n, const char* what) { /* exactly these bytes arrive */
    size_t k = sim_raw_avail(PE[p].s), g = sim_raw_recv(PE[p].s, BR, k > sizeof BR ? sizeof BR : k);
    VS_CHECK(g == n, "the %s arrives with %zu instead of %zu bytes", what, g, n);
    for (size_t i = 0; i < n; i++) VS_CHECK(BR[i] == m[i], "the %s arrives damaged at byte %zu of %zu", what, i, n);
}
VS_SCENARIO(wide_big) {
    int maxmsg = (int)vs_param("maxmsg", 70000), workers = (int)vs_param("workers", 0);
    static const int L[] = { 4, 115, 116, 117, 118, 240, 243, 244, 245, 246, 500, 2036, 2037, 2038, 4084, 4085, 4086, 16000, 32755, 32756, 32757, 32758, 65523, 65524, 65525, 65526, 65527, 69000 };
    vs_explore(false); vs_long(1000000);
    sim_set_capacity(1u << 18);
    server_start(workers, maxmsg, 2, true); server_run();
    for (int i = 0; i < 2; i++) { peer_connect(); vs_wait_quiescent(); }
    int c = vs_choose((int)(sizeof L / sizeof *L) + 3, "size");
    uint32_t n = c < (int)(sizeof L / sizeof *L) ? (uint32_t)L[c] : (uint32_t)(maxmsg - HDR - (c - (int)(sizeof L / sizeof *L)));
    vs_assume(n + HDR <= (uint32_t)maxmsg);
    int cut = vs_choose(7, "cut"), again = vs_choose(2, "twice"), kind = vs_choose(2, "kind");
    size_t l = build_req(0, 1, 1, kind ? OP_NOP : OP_BIGECHO, 0, n, true, BM), first = cut == 0 ? l : cut == 1 ? 3 : cut == 2 ? HDR : cut == 3 ? HDR + 1 : cut == 4 ? l / 2 : cut == 5 ? l - 1 : l > 256 ? 256 : 1;
    if (again) l += build_req(0, 1, 2, OP_NOP, 0, n > 40 ? 40 : n, true, BM + l);
    vs_trace("a request of %u bytes is sent in %s", n + HDR, cut ? "two pieces" : "one piece");
    RQ[0].complete = first >= HDR + n; if (again) RQ[1].complete = false;
    if (first > l) first = l;
    send_bytes(0, BM, first);
    if (first < l) { vs_wait_quiescent(); VS_CHECK(!loop_done, "the server stopped"); RQ[0].complete = true; if (again) RQ[1].complete = true; send_bytes(0, BM + first, l - first); }
    else if (again) RQ[1].complete = true;
    vs_wait_quiescent();
    VS_CHECK(RQ[0].invoked == 1, "a request of %u bytes was handled %d times", n + HDR, RQ[0].invoked);
    if (!kind) {
        uint16_t tag = 0; size_t k = whdr(BM, RQ[0].id, HDR + 2 + n - 4, 1, 1, T_RESPONSE); w16(BM + k, tag); k += 2;
        for (uint32_t i = 0; i < n - 4; i++) BM[k++] = patt(tag + 1000u, i);
        take(0, BM, k, "response");
    } else if (n >= 6) { /* an event of that size, to one and to all */
        uint32_t en = n - 2; size_t k; int all = vs_choose(2, "to all");
        int st = all ? cut_broadcast(SRV, 2, 0x46, 7, en, 0) : cut_event(SRV, PE[0].handle, 2, 0x46, 7, en, GRACHT_MESSAGE_BLOCK);
        VS_CHECK(!st, "sending an event of %u bytes fails", en + 2 + HDR);
        vs_wait_quiescent();
        for (int p = 0; p < 1 + all; p++) {
            size_t q = sim_raw_avail(PE[p].s); VS_CHECK(q == HDR + 2 + en, "the event arrives with %zu instead of %u bytes", q, HDR + 2 + en);
            sim_raw_recv(PE[p].s, BR, q);
            k = whdr(BM, r32(BR), HDR + 2 + en, 2, 0x46, T_EVENT); w16(BM + k, 7); k += 2;
            for (uint32_t i = 0; i < en; i++) BM[k++] = patt(2007u, i);
            for (size_t i = 4; i < k; i++) VS_CHECK(BR[i] == BM[i], "the event arrives damaged at byte %zu of %zu", i, k);
        }
    }
    rq(0, 2, 1, OP_ECHO, 0, 6); rq(1, 1, 1, OP_ECHO, 0, 9); settle("after a large message");
    stop();
}
/* ---- every kind of message id comes back ---- */
VS_SCENARIO(wide_ids) {
    static const uint32_t I[] = { 0, 1, 2, 127, 128, 255, 256, 257, 32767, 32768, 65535, 65536, 65537, 0xffffff, 0x1000000, 0x7fffffff, 0x80000000u, 0x80000001u, 0xfffffffeu, 0xffffffffu };
    vs_explore(false);
    server_start((int)vs_param("workers", 0), 128, 2, true); server_run();
    for (int i = 0; i < 2; i++) { peer_connect(); vs_wait_quiescent(); }
    uint32_t a = I[vs_choose(20, "id")], b = I[vs_choose(20, "id of another client")]; int kind = vs_choose(3, "kind");
    PE[0].nextid = a; PE[1].nextid = b;
    if (kind == 0) { rq(0, 1, 1, OP_ECHO, 0, 6); rq(1, 2, 1, OP_ECHO, 0, 7); }
    if (kind == 1) { rq(0, 9, 1, OP_ECHO, 0, 6); rq(1, 1, 5, OP_ECHO, 0, 7); }
    if (kind == 2) {
        rq(0, 1, 1, OP_DEFER, 0, 6); rq(1, 1, 1, OP_DEFER, 1, 9); vs_wait_quiescent();
        rq(0, 1, 1, OP_ECHO, 0, 30); rq(1, 2, 3, OP_ECHO, 0, 33); settle("before the deferred answers");
        for (int s = 0; s < 2; s++) { expect_response(&RQ[s], false); VS_CHECK(!cut_flush(s), "answering a deferred request fails"); }
    }
    settle("after the requests");
}
/* ---- many clients at once ---- */
VS_SCENARIO(wide_crowd) {
    static const int N[] = { 15, 16, 17, 31, 32, 33, 34, 47, 65, 70, 250, 258, 300 };
    vs_explore(false); vs_long(2000000);
    server_start((int)vs_param("workers", 0), 128, 2, true); server_run();
    int n = N[vs_param("huge", 0) ? 10 + vs_choose(3, "clients") : vs_choose(10, "clients")], leave = vs_choose(5, "who leaves"), bunch = vs_choose(2, "joining") ? 7 : 1;
    for (int i = 0; i < n; i++) { peer_connect(); if (i % bunch == bunch - 1) vs_wait_quiescent(); }
    settle("after all clients joined");
#define CLEAR() do { nR = 0; } while (0)
    for (int i = 0; i < n; i++) rq(i, 1, 1 + (i & 1), OP_ECHO, 0, 4 + (uint32_t)(i % 5));
    settle("after every client sent a request at once"); CLEAR();
    bcast(1); settle("after a broadcast to everyone");
    for (int i = 0; i < n; i += 3) { uint8_t m[32]; size_t k = build_ctl(i, 1, i % 2 ? 1 : 255, m); setsub(&PE[i], i % 2 ? 1 : 255, false); send_bytes(i, m, k); }
    vs_wait_quiescent();
    bcast(1); bcast(2); settle("after broadcasts to some");
    rq(n - 1, 1, 1, OP_BCAST, 2, 5); settle("after a client asked for a broadcast"); CLEAR();
    for (int i = 0; i < n; i++) if (leave == 0 ? i % 2 == 0 : leave == 1 ? i < n / 2 : leave == 2 ? i >= 3 : leave == 3 ? i < n - 3 : i == 0) { if (i % 4 == 1) { rq(i, 1, 1, OP_NOP, 0, 4); } PE[i].gone = PE[i].quiet = true; sim_raw_close(PE[i].s); }
    settle("after clients left at once"); CLEAR();
    for (int i = 0; i < n; i++) if (!PE[i].gone) { rq(i, 2, 1, OP_ECHO, 0, 6); rq(i, 9, 9, OP_ECHO, 0, 6); target(i); }
    settle("after the rest sent requests"); CLEAR();
    for (int i = 0; i < 5; i++) peer_connect();
    settle("after new clients joined");
    bcast(2);
    for (int i = 0; i < nP; i++) if (!PE[i].gone) rq(i, 1, 2, OP_ECHO, 0, 6);
    settle("after everyone sent a request"); CLEAR();
    stop();
}
/* ---- long histories: nothing wears out ---- */
VS_SCENARIO(wide_long) {
    int batches = (int)vs_param("batches", 40), per = (int)vs_param("per", 20); size_t warm = 0;
    vs_explore(false); vs_long(100000000);
    server_start((int)vs_param("workers", 0), 128, 2, true); server_run();
    for (int i = 0; i < 2; i++) { peer_connect(); vs_wait_quiescent(); }
    int kind = vs_choose(8, "kind");
    PE[0].nextid = 65536u - (uint32_t)(batches * per / 2);
    for (int b = 0; b < batches; b++) {
        for (int i = 0; i < per; i++) switch (kind == 7 ? (b + i) % 6 : kind) {
            case 0: rq(0, 1, 1, OP_ECHO, 0, 5 + (uint32_t)(i % 50)); break;
            case 1: rq(0, 9, 1, OP_ECHO, 0, 5); break;
            case 2: rq(0, 1, 2, OP_EVENT_SELF, 0, 5); break;
            case 3: rq(0, 1, 2, OP_BCAST, 1 + (i & 1), 5); break;
            case 4: rq(0, 1, 1, OP_NOP, 0, 100); break;
            case 5: { uint8_t m[32]; size_t k = build_ctl(0, (b + i) & 1, 1, m); setsub(&PE[0], 1, !((b + i) & 1)); send_bytes(0, m, k); vs_wait_quiescent(); bcast(1); target(1); break; }
            case 6: { rq(0, 1, 1, OP_DEFER, i % 4, 8); if (i % 4 == 3) { vs_wait_quiescent(); for (int s = 3; s >= 0; s--) { expect_response(&RQ[nR - 4 + s], false); VS_CHECK(!cut_flush(s), "answering a deferred request fails"); } } break; }
        }
        settle("after a batch of requests");
        nR = 0;
        if (b == 5) warm = vs_live_allocs();
        if (b > 5) VS_CHECK(vs_live_allocs() <= warm, "the server holds %zu allocations after %d requests, %zu after %d", vs_live_allocs(), (b + 1) * per, warm, 6 * per);
    }
    rq(1, 2, 1, OP_ECHO, 0, 5); settle("in the end");
    stop();
}
VS_SCENARIO(wide_bursts) { /* again and again, more requests than all queues hold while every worker is held up: what does not fit is handled elsewhere, and leaves nothing behind */
    int workers = (int)vs_param("workers", 2), rounds = (int)vs_param("rounds", 40), extra = (int)vs_param("extra", 25), total = workers * 33 + extra; size_t warm = 0, k, l, room[2] = { 0, 0 }; static uint8_t m[60000];
    vs_explore(false); vs_long(100000000);
    sim_set_capacity(1u << 17);
    server_start(workers, 128, 2, true); server_run();
    for (int i = 0; i < 2; i++) { peer_connect(); vs_wait_quiescent(); }
    int kind = vs_choose(4, "kind"), two = vs_choose(2, "from two"); uint32_t n = vs_choose(2, "long") ? 60 : 6;
    for (int b = 0; b < rounds; b++) {
        nR = 0; gate_open = false;
        for (int i = 0; i < workers; i++) { rq(0, 1, 1, OP_GATE, 0, 4); vs_wait_quiescent(); }
        for (int p = 0; p < 1 + two; p++) {
            l = 0;
            for (int i = 0; i < (two ? total / 2 + 1 : total); i++) {
                int aid = kind == 1 ? 9 : 1 + (i & 1), c = kind == 3 ? i % 3 : kind; if (kind == 3 && c == 1) aid = 9;
                k = build_req(p, 1, aid, c == 2 ? OP_NOP : OP_ECHO, 0, n, aid != 9, m + l); l += k;
                struct req* r = &RQ[nR - 1]; if (aid == 9) expect_error(r, false); else if (c != 2) expect_response(r, false);
            }
            send_bytes(p, m, l);
        }
        vs_wait_quiescent(); VS_CHECK(!loop_done, "the server stopped");
        for (int p = 0; p < 2; p++) { size_t r = sim_raw_room(PE[p].s); if (b == 0) room[p] = r; VS_CHECK(r >= room[p], "in burst %d the server takes %zu bytes less from peer %d than in the first, which was the same", b + 1, room[p] - r, p); }
        gate_open = true;
        settle("after a burst");
        nR = 0; rq(1, 2, 1, OP_ECHO, 0, 100); settle("after one more request");
        if (b == 3) warm = vs_live_allocs();
        if (b > 3) VS_CHECK(vs_live_allocs() <= warm, "the server holds %zu allocations after %d bursts, %zu after 4", vs_live_allocs(), b + 1, warm);
    }
    nR = 0; stop();
}
VS_SCENARIO(wide_churn) { /* clients come and go, many times; their handles are reused all the time */
    int rounds = (int)vs_param("rounds", 80); size_t warm = 0;
    vs_explore(false); vs_long(10000000);
    server_start((int)vs_param("workers", 0), 128, 2, true); server_run();
    int keep = vs_choose(2, "another stays"), how = vs_choose(8, "how"), first = 0;
    if (keep) { peer_connect(); vs_wait_quiescent(); first = 1; }
    for (int r = 0; r < rounds; r++) {
        nP = first; nR = 0; nE = 0;
        int p = peer_connect(); settle("after a client joined");
        if (how == 1) { rq(p, 1, 1, OP_ECHO, 0, 5); rq(p, 1, 1, OP_BCAST, 1, 5); settle("after its requests"); }
        if (how == 2) { uint8_t m[64]; size_t k = build_ctl(p, 1, 1 + r % 2, m); send_bytes(p, m, k); setsub(&PE[p], 1 + r % 2, false); vs_wait_quiescent(); bcast(1); bcast(2); settle("after broadcasts"); }
        if (how == 3) { uint8_t m[64]; size_t k = build_req(p, 1, 1, OP_NOP, 0, 9, true, m); RQ[nR - 1].complete = false; send_bytes(p, m, 1 + (size_t)(r % (int)(k - 1))); vs_wait_quiescent(); }
        if (how >= 4) { static const uint32_t X[] = { 0, 10, 0x2000, 0xffffffffu }; uint8_t m[300]; memset(m, 1, sizeof m); whdr(m, 1, X[how - 4], 1, 1, T_SYNC); PE[p].gone = PE[p].quiet = true; sim_raw_send(PE[p].s, m, r % 3 ? 300 : HDR); vs_wait_quiescent(); }
        PE[p].gone = PE[p].quiet = true; sim_raw_close(PE[p].s);
        settle("after it left");
        if (keep) { rq(0, 1, 2, OP_ECHO, 0, 5); settle("after the other's request"); }
        if (r == 3) warm = vs_live_allocs();
        if (r > 3) VS_CHECK(vs_live_allocs() <= warm, "the server holds %zu allocations after %d clients came and went, %zu after 4", vs_live_allocs(), r + 1, warm);
    }
    nP = first; nE = 0; nR = 0;
    stop();
}
/* ---- a deferred request whose sender left is answered after any number of others have come and gone on the same handle ---- */
VS_SCENARIO(wide_late) {
    static const int N[] = { 0, 1, 2, 3, 14, 15, 16, 17, 31, 32, 62, 63, 64, 126, 127, 128, 129, 254, 255, 256, 257, 510, 511, 512, 1023, 1024, 65534, 65535, 65536, 65537 };
    vs_explore(false); vs_long(400000000);
    int k = N[vs_choose((int)vs_param("to", 26), "clients in between")], keep = vs_choose(2, "another stays"), with = k > 2000 ? 0 : vs_choose(3, "the others' requests"), ret;
    server_start((int)vs_param("workers", 0), 128, 2, true); server_run();
    if (keep) { peer_connect(); vs_wait_quiescent(); }
    int f = nP;
    peer_connect(); vs_wait_quiescent(); gracht_conn_t h = PE[f].handle;
    rq(f, 1, 1, OP_DEFER, 0, 8); vs_wait_quiescent(); PE[f].gone = PE[f].quiet = true; sim_raw_close(PE[f].s); vs_wait_quiescent();
    for (int r = 0; r < k; r++) {
        nP = f; nE = 0; int p = peer_connect(); vs_wait_quiescent(); VS_CHECK(PE[p].handle == h, "vs-internal: another handle");
        if (with) { nR = 1; rq(p, 1, 1, OP_ECHO, 0, 5); settle("after its request"); }
        PE[p].gone = PE[p].quiet = true; sim_raw_close(PE[p].s); vs_wait_quiescent(); sim_forget(PE[p].s);
    }
    nP = f; nE = 0; nR = 1; int p = peer_connect(); vs_wait_quiescent();
    if (with == 2) { nR = 1; rq(p, 1, 1, OP_ECHO, 0, 5); settle("before the late answer"); }
    vs_trace("the answer for a client that left %d clients ago is sent", k + 1);
    ret = cut_flush(0); vs_wait_quiescent();
    VS_CHECK(sim_raw_avail(PE[p].s) == 0, "the answer to a client that left reaches the %dth that got its handle", k + 1);
    VS_CHECK(ret, "sending an answer to a client that left succeeds");
    if (keep) VS_CHECK(sim_raw_avail(PE[0].s) == 0, "the answer to a client that left reaches another");
    stop();
}
/* ---- any mix of up to four links ---- */
static const char* LP[] = { "/l0", "/l1", "inet:C", "inet6:D" };
static const int LD[] = { AF_UNIX, AF_UNIX, AF_INET, AF_INET6 };
VS_SCENARIO(wide_links) {
    vs_explore(false); vs_long(200000);
    model_reset(); server_create((int)vs_param("workers", 0), 128);
    for (int i = 0; i < 2; i++) VS_CHECK(!gracht_server_register_protocol(SRV, &cut_protos[i]), "register_protocol fails");
    int n = 1 + vs_choose(4, "links"), kind[4], per = 2; char pp[32];
    for (int i = 0; i < n; i++) { kind[i] = vs_choose(2, "packet"); VS_CHECK(!gracht_server_add_link(SRV, mk_link(kind[i] ? gracht_link_packet_based : gracht_link_stream_based, LD[i], LP[i], 0)), "adding link %d of %d fails", i + 1, n); }
    if (n == 4) { struct gracht_link* l = mk_link(gracht_link_stream_based, AF_UNIX, "/l9", 0); VS_CHECK(gracht_server_add_link(SRV, l), "a fifth link is accepted"); cut_free(l); }
    server_run();
    for (int j = 0; j < per; j++) for (int i = 0; i < n; i++) {
        struct peer* p = &PE[nP]; memset(p, 0, sizeof *p); p->handle = -1; p->nextid = 1; p->open = true;
        if (kind[i]) { p->dgram = true; snprintf(p->path, sizeof p->path, "%s", LP[i]); snprintf(pp, sizeof pp, i < 2 ? "/c%d_%d" : i == 2 ? "inet:%c" : "inet6:%c", i < 2 ? i : 'K' + i * 4 + j, j); p->s = sim_raw_dgram(pp, 0); }
        else { p->s = sim_raw_connect(LP[i]); VS_CHECK(p->s, "connecting to link %d fails", i); setsub(p, 255, true); }
        nP++; vs_wait_quiescent();
    }
    settle("after everyone joined");
    for (int i = 0; i < nP; i++) rq(i, 1, 1, OP_ECHO, 0, 5 + (uint32_t)i);
    settle("after a request on every link");
    bcast(1); settle("after a broadcast");
    for (int i = 0; i < nP; i++) if (PE[i].dgram && i % 2 == vs_param("odd", 0)) { uint8_t m[32]; size_t k = build_ctl(i, 0, 1, m); PE[i].record = true; setsub(&PE[i], 1, true); send_bytes(i, m, k); }
    vs_wait_quiescent();
    bcast(1); bcast(2); settle("after packet peers subscribed");
    for (int i = 0; i < nP; i++) { rq(i, 1, 2, OP_BCAST, 1, 4); settle("after a broadcast asked for on one link"); if (!PE[i].dgram || PE[i].record) { target(i); settle("after a targeted event"); } }
    for (int i = 0; i < nP; i++) { rq(i, 2, 3, OP_DEFER, i, 8); }
    vs_wait_quiescent(); int base = nR - nP;
    for (int i = nP - 1; i >= 0; i--) { rq(i, 1, 1, OP_ECHO, 0, 20); vs_wait_quiescent(); expect_response(&RQ[base + i], false); VS_CHECK(!cut_flush(i), "answering a deferred request fails"); settle("after a deferred answer"); }
    /* one leaves on every link */
    for (int i = 0; i < n; i++) { if (PE[i].dgram) { uint8_t m[32]; size_t k = build_ctl(i, 1, 255, m); PE[i].forgotten = true; PE[i].record = false; setsub(&PE[i], 255, false); send_bytes(i, m, k); } else { PE[i].gone = true; sim_raw_close(PE[i].s); } settle("after one left"); bcast(1); settle("after a broadcast to the rest"); }
    for (int i = 0; i < nP; i++) if (!PE[i].gone) rq(i, 2, 1, OP_ECHO, 0, 6);
    settle("in the end");
    drain_all(); stop_ok = true; gracht_server_request_shutdown(SRV);
    if (kind[0]) { struct sim_sock* s = sim_raw_dgram("/poke", 0); uint8_t m[16]; whdr(m, 1, HDR, 9, 9, T_SYNC); sim_raw_sendto(s, LP[0], 0, m, HDR); } else sim_raw_connect(LP[0]);
    vs_wait_quiescent(); VS_CHECK(loop_done, "the server did not stop after shutdown was requested");
    VS_CHECK(sim_open_fds() == 0, "%d descriptors are still open after the server stopped", sim_open_fds()); vs_check_no_leaks("after the server stopped");
}
