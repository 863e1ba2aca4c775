#include "srv.h"

/* ------------------------------------------------------------------------------------------------
 * srv_seq: every sequence of `depth` actions from the families in `ops`, each run to quiescence.
 */
enum { F_CONNECT = 1, F_REQ = 2, F_UNKNOWN = 4, F_SUB = 8, F_BCAST = 16, F_TARGET = 32, F_CLOSE = 64, F_RESET = 128, F_DEFER = 256,
       F_BURST = 512, F_PART = 1024, F_REG = 2048, F_REQCLOSE = 4096, F_SELF = 8192, F_APIBCAST = 16384, F_NEST = 32768, F_ALLPROTO = 65536, F_HREG = 131072, F_ZERO = 262144 };
struct act { int kind, a, b, c; };
static bool reg[8]; static uint8_t part[MAXPEER][64]; static size_t npart[MAXPEER], opart[MAXPEER]; static int partreq[MAXPEER];
static int slot_used[8];
static const int protoid[] = { 1, 2, 7, 31, 33, 200, 254 };
static int pidx(int sid) { for (int i = 0; i < 7; i++) if (protoid[i] == sid) return i; return -1; }
static bool known(int sid, int aid) { int i = pidx(sid); if (i < 0 || !reg[i]) return false; return sid == 1 ? aid == 1 || aid == 2 : sid == 2 ? aid == 1 || aid == 3 : aid == 1; }
static void bcast_expect(int sid, int eid, uint16_t tag, uint32_t n) { for (int i = 0; i < nP; i++) if (PE[i].open && !PE[i].gone && subbed(&PE[i], sid)) expect_event(i, sid, eid, tag, n, false); }
static void request(int i, int sid, int aid, int op, int arg, uint32_t n, uint8_t* m, size_t* len) {
    bool k = known(sid, aid);
    *len = build_req(i, sid, aid, op, arg, n, k, m);
    struct req* r = &RQ[nR - 1]; uint16_t tag = (uint16_t)(nR - 1);
    if (!k) { expect_error(r, false); return; }
    op &= ~OP_HELD;
    if (op == OP_ECHO) expect_response(r, false);
    if (op == OP_EVENT_SELF) expect_event(i, sid, 0x40, tag, 3, false);
    if (op == OP_EVENT_TO) expect_event(arg, sid, 0x40, tag, 3, false);
    if (op == OP_BCAST) bcast_expect(arg, 0x41, tag, 5);
    if (op == OP_TWICE_BCAST) { bcast_expect(arg, 0x42, tag, 70); bcast_expect(arg, 0x41, tag, 5); }
}
static int act_list(struct act* A, int ops, int maxp) {
    int n = 0;
#define ADD(k, x, y, z) A[n++] = (struct act){ k, x, y, z }
    int nproto = ops & F_ALLPROTO ? 7 : 2;
    if ((ops & F_CONNECT) && nP < maxp) ADD(F_CONNECT, 0, 0, 0);
    for (int i = 0; i < nP; i++) {
        if (!PE[i].open || PE[i].gone) continue;
        bool mid = npart[i] > 0;
        if ((ops & F_PART) && mid) { ADD(F_PART, i, 1, 0); if (ops & F_CLOSE) ADD(F_CLOSE, i, 0, 0); if (ops & F_RESET) ADD(F_RESET, i, 0, 0); continue; }
        if (ops & F_REQ) { ADD(F_REQ, i, 1, 1); ADD(F_REQ, i, 1, 2); ADD(F_REQ, i, 2, 1); if (ops & F_ALLPROTO) ADD(F_REQ, i, 200, 1); }
        if (ops & F_ZERO) { ADD(F_ZERO, i, 1, 2); ADD(F_ZERO, i, 2, 2); ADD(F_ZERO, i, 2, 255); }
        if (ops & F_UNKNOWN) { ADD(F_REQ, i, 9, 1); ADD(F_REQ, i, 1, 3); ADD(F_REQ, i, 2, 2); ADD(F_REQ, i, 0, 9); }
        if (ops & F_BURST) { ADD(F_BURST, i, 0, 0); ADD(F_BURST, i, 1, 0); ADD(F_BURST, i, 2, 0); }
        if (ops & F_SUB) for (int on = 0; on < 2; on++) { for (int k = 0; k < nproto; k++) ADD(F_SUB, i, on, protoid[k]); ADD(F_SUB, i, on, 255); }
        if (ops & F_BCAST) { ADD(F_BCAST, i, 1, 0); ADD(F_BCAST, i, 2, 0); }
        if (ops & F_NEST) ADD(F_NEST, i, 1, 0);
        if (ops & F_SELF) ADD(F_SELF, i, 0, 0);
        if (ops & F_TARGET) ADD(F_TARGET, i, 0, 0);
        if (ops & F_CLOSE) ADD(F_CLOSE, i, 0, 0);
        if (ops & F_RESET) ADD(F_RESET, i, 0, 0);
        if (ops & F_REQCLOSE) { ADD(F_REQCLOSE, i, 0, 0); ADD(F_REQCLOSE, i, 1, 0); ADD(F_REQCLOSE, i, 2, 0); }
        if (ops & F_PART) ADD(F_PART, i, 0, 0);
        if (ops & F_DEFER) { int s; for (s = 0; s < 3; s++) if (!slot_used[s]) { ADD(F_DEFER, i, 0, s); break; } }
    }
    if (ops & F_TARGET) for (int i = 0; i < nP; i++) if (PE[i].gone) { bool reused = false; for (int j = 0; j < nP; j++) reused |= PE[j].open && !PE[j].gone && PE[j].handle == PE[i].handle; if (!reused) { ADD(F_TARGET, i, 1, 0); break; } }
    if (ops & F_HREG) for (int i = 0; i < nP; i++) if (PE[i].open && !PE[i].gone) for (int k = 1; k < 3; k++) { ADD(F_HREG, i, 0, k); ADD(F_HREG, i, 1, k); }
    if (ops & F_APIBCAST) for (int k = 0; k < nproto; k++) ADD(F_APIBCAST, protoid[k], 0, 0);
    if (ops & F_DEFER) for (int s = 0; s < 3; s++) if (slot_used[s]) ADD(F_DEFER, 0, 1, s);
    if (ops & F_REG) for (int k = 0; k < nproto; k++) { ADD(F_REG, k, 0, 0); ADD(F_REG, k, 1, 0); if (k < 2) ADD(F_REG, k, 2, 0); }
    return n;
}
static void leave_peer(int i) { PE[i].gone = true; npart[i] = 0; if (partreq[i] >= 0) { RQ[partreq[i]].complete = false; partreq[i] = -1; } for (int s = 0; s < 8; s++) if (slot_used[s] && RQ[slot_used[s] - 1].peer == i) RQ[slot_used[s] - 1].optional = true; }
static void act_do(struct act a, uint32_t paylen) {
    uint8_t m[8192]; size_t n = 0, k;
    switch (a.kind) {
    case F_CONNECT: partreq[nP] = -1; npart[nP] = 0; peer_connect(); break;
    case F_REQ: request(a.a, a.b, a.c, OP_ECHO, 0, paylen, m, &n); vs_trace("peer %d sends request %d to %d/%d", a.a, nR - 1, a.b, a.c); send_bytes(a.a, m, n); break;
    case F_ZERO: /* requests without parameters, one or three of them in one piece, the last one for nobody */
        k = 0; for (int j = 0; j < (a.c == 255 ? 3 : 1); j++) { bool kn_ = j < 2 && known(a.b, a.c == 255 ? 1 : a.c); size_t q = build_req(a.a, j < 2 ? a.b : 9, a.c == 255 ? 1 : a.c, 0, 0, 0, kn_, m + n); if (kn_) expect_response(&RQ[nR - 1], false); else expect_error(&RQ[nR - 1], false); n += q; }
        vs_trace("peer %d sends requests without parameters", a.a); send_bytes(a.a, m, n); break;
    case F_BURST: /* several messages in one piece; the second kind mixes control, unknown and known */
        request(a.a, 1, 1, OP_ECHO, 0, paylen, m, &k); n = k;
        if (a.b == 1) { request(a.a, 9, 1, OP_ECHO, 0, 6, m + n, &k); n += k; setsub(&PE[a.a], 2, false); n += build_ctl(a.a, 1, 2, m + n); request(a.a, 1, 2, OP_BCAST, 2, 5, m + n, &k); n += k; }
        if (a.b == 2) { request(a.a, 1, 1, OP_NOP, 0, 4, m + n, &k); n += k; request(a.a, 1, 2, OP_ECHO, 0, 4, m + n, &k); n += k; }
        request(a.a, 2, 1, OP_ECHO, 0, paylen + 3, m + n, &k); n += k;
        vs_trace("peer %d sends %s messages in one piece", a.a, a.b ? "four" : "two"); send_bytes(a.a, m, n); break;
    case F_SUB: n = build_ctl(a.a, a.b ? 0 : 1, a.c, m); setsub(&PE[a.a], a.c, a.b); vs_trace("peer %d %s %d", a.a, a.b ? "subscribes to" : "unsubscribes from", a.c); send_bytes(a.a, m, n); break;
    case F_BCAST: request(a.a, 1, 1, OP_BCAST, a.b, 4, m, &n); vs_trace("peer %d asks for a broadcast on %d", a.a, a.b); send_bytes(a.a, m, n); break;
    case F_NEST: request(a.a, 1, 1, OP_TWICE_BCAST, a.b, 4, m, &n); vs_trace("peer %d asks for two broadcasts", a.a); send_bytes(a.a, m, n); break;
    case F_SELF: request(a.a, 1, 2, OP_EVENT_SELF, 0, 7, m, &n); vs_trace("peer %d asks for a targeted event", a.a); send_bytes(a.a, m, n); break;
    case F_TARGET: { uint16_t t = (uint16_t)ev_tag++; vs_trace("targeted event to peer %d", a.a);
        if (!a.b) expect_event(a.a, 2, 0x44, t, 9, false);
        int st = cut_event(SRV, PE[a.a].handle, 2, 0x44, t, 9, 0);
        VS_CHECK(a.b ? st == -1 : st == 0, "a targeted event to a peer that %s returned %d", a.b ? "left" : "is connected", st); break; }
    case F_APIBCAST: { uint16_t t = (uint16_t)ev_tag++; vs_trace("broadcast on service %d", a.a); bcast_expect(a.a, 0x45, t, 6); VS_CHECK(!cut_broadcast(SRV, a.a, 0x45, t, 6, 0), "broadcast fails"); break; }
    case F_CLOSE: vs_trace("peer %d closes", a.a); leave_peer(a.a); sim_raw_close(PE[a.a].s); break;
    case F_RESET: vs_trace("peer %d resets its connection", a.a); leave_peer(a.a); for (int i = 0; i < nR; i++) if (RQ[i].peer == a.a && !RQ[i].invoked) RQ[i].optional = true; /* what was not read yet is lost */ sim_raw_reset(PE[a.a].s); break;
    case F_REQCLOSE: { /* send, and leave before the server looks */
        static const int op[] = { OP_ECHO, OP_EVENT_SELF, OP_BCAST };
        uint8_t save[8192]; size_t q;
        leave_peer(a.a);     /* its own copy of a broadcast is no longer expected */
        request(a.a, 1, 1, op[a.b], 1, 5, save, &q);
        vs_trace("peer %d sends request %d and closes at once", a.a, nR - 1);
        send_bytes(a.a, save, q); sim_raw_close(PE[a.a].s); break; }
    case F_PART: if (a.b == 0) { request(a.a, 1, 1, OP_ECHO, 0, 6, part[a.a], &npart[a.a]); partreq[a.a] = nR - 1; RQ[nR - 1].complete = false; opart[a.a] = (size_t)(vs_choose(2, "cut") ? 14 : 5); vs_trace("peer %d sends %zu bytes of request %d", a.a, opart[a.a], nR - 1); send_bytes(a.a, part[a.a], opart[a.a]); EX[nE - 1].optional = true; }
        else { vs_trace("peer %d sends the rest of its request", a.a); RQ[partreq[a.a]].complete = true; partreq[a.a] = -1; for (int e = 0; e < nE; e++) if (EX[e].peer == a.a && EX[e].optional) EX[e].optional = false; send_bytes(a.a, part[a.a] + opart[a.a], npart[a.a] - opart[a.a]); npart[a.a] = 0; } break;
    case F_DEFER: if (a.b == 0) { request(a.a, 1, 1, OP_DEFER, a.c, 8, m, &n); slot_used[a.c] = nR; vs_trace("peer %d sends request %d, deferred", a.a, nR - 1); send_bytes(a.a, m, n); }
        else { struct req* r = &RQ[slot_used[a.c] - 1]; bool gone = PE[r->peer].gone; vs_trace("deferred request %d is answered", slot_used[a.c] - 1); if (!gone) expect_response(r, false); int st = cut_flush(a.c); slot_used[a.c] = 0; VS_CHECK(gone || st == 0, "answering a deferred request fails (%d)", st); } break;
    case F_HREG: if (!reg[0]) break; request(a.a, 1, 1, a.b ? OP_REGISTER : OP_UNREGISTER, a.c, 4, m, &n); reg_expect = reg[a.c] ? -1 : 0; reg[a.c] = a.b; vs_trace("peer %d asks a handler to %s protocol %d", a.a, a.b ? "register" : "unregister", protoid[a.c]); send_bytes(a.a, m, n); break;
    case F_REG: { gracht_protocol_t* p = a.b == 2 ? &cut_protos_dup[a.a] : &cut_protos[a.a];
        if (a.b == 0) { vs_trace("unregister %d", p->id); gracht_server_unregister_protocol(SRV, p); reg[a.a] = false; }
        else { errno = 0; int st; if (reg[a.a]) { st = gracht_server_register_protocol(SRV, p); vs_trace("register %d again -> %d", p->id, st); VS_CHECK(st == -1, "registering a used id is not refused"); }
            else if (a.b == 1) { st = gracht_server_register_protocol(SRV, p); vs_trace("register %d -> %d", p->id, st); VS_CHECK(!st, "registering a free id fails"); reg[a.a] = true; } } break; }
    }
}
VS_SCENARIO(srv_seq) {
    int ops = (int)vs_param("ops", F_CONNECT | F_REQ | F_UNKNOWN | F_CLOSE), depth = (int)vs_param("depth", 4), maxp = (int)vs_param("peers", 2), workers = (int)vs_param("workers", 0), init = (int)vs_param("init", 1);
    uint32_t paylen = (uint32_t)vs_param("paylen", 9);
    bool stop = vs_param("stop", 0);
    struct act A[128];
    memset(reg, 0, sizeof reg); memset(npart, 0, sizeof npart); memset(slot_used, 0, sizeof slot_used); memset(partreq, 0xff, sizeof partreq);
    int np = (int)vs_param("protos", 2); for (int i = 0; i < np; i++) reg[i] = true;
    server_start(workers, (int)vs_param("maxmsg", 128), np, true);
    sim_set_short((int)vs_param("faults", 0));
    server_run();
    for (int i = 0; i < init; i++) { act_do((struct act){ F_CONNECT, 0, 0, 0 }, paylen); vs_wait_quiescent(); }
    check_settled("after set-up");
    for (int d = 0; d < depth; d++) {
        int n = act_list(A, ops, maxp);
        if (!n) break;
        act_do(A[vs_choose(n, "action")], paylen);
        if (vs_param("nowait", 0) && d + 1 < depth) continue;
        vs_wait_quiescent();
        VS_CHECK(!loop_done, "the server stopped");
        check_settled("after the action");
    }
    if (stop) {
        for (int s = 0; s < 3; s++) if (slot_used[s]) { struct act a = { F_DEFER, 0, 1, s }; act_do(a, paylen); }
        drain_all();
        server_stop();
        VS_CHECK(sim_open_fds() == 0, "%d descriptors are still open after the server stopped", sim_open_fds());
        vs_check_no_leaks("after the server stopped");
    }
}

/* ------------------------------------------------------------------------------------------------
 * srv_mt: short concurrent scripts with worker threads; the explorer enumerates the schedules.
 */
static void setup_mt(int workers, int maxmsg, int peers) {
    vs_explore(false);
    memset(reg, 0, sizeof reg); reg[0] = reg[1] = true; memset(slot_used, 0, sizeof slot_used);
    server_start(workers, maxmsg, 2, true);
    server_run();
    for (int i = 0; i < peers; i++) { peer_connect(); vs_wait_quiescent(); }
    check_settled("after set-up");
    vs_explore(true);
}
static void rq(int peer, int sid, int aid, int op, int arg, uint32_t n) { uint8_t m[4096]; size_t k; request(peer, sid, aid, op, arg, n, m, &k); vs_trace("peer %d sends request %d to %d/%d", peer, nR - 1, sid, aid); send_bytes(peer, m, k); }
static void settle(const char* w) { vs_wait_quiescent(); VS_CHECK(!loop_done, "the server stopped"); check_settled(w); }
/* a second sender thread */
struct burst { int peer; uint8_t m[8192]; size_t n; };
static struct burst BB[4];
static int sender(void* a) { struct burst* b = a; send_bytes(b->peer, b->m, b->n); return 0; }

VS_SCENARIO(mt_dispatch) { /* peers send to a running pool; every request exactly once */
    int workers = (int)vs_param("workers", 2), per = (int)vs_param("per", 2), peers = (int)vs_param("peers", 2); size_t k;
    setup_mt(workers, 128, peers);
    for (int p = 0; p < peers; p++) {
        BB[p].peer = p; BB[p].n = 0;
        for (int i = 0; i < per; i++) { request(p, i & 1 ? 2 : 1, 1, OP_ECHO, 0, 5 + (uint32_t)i, BB[p].m + BB[p].n, &k); BB[p].n += k; }
    }
    for (int p = 0; p < peers; p++) { vs_trace("peer %d sends %d requests in one piece", p, per); send_bytes(p, BB[p].m, BB[p].n); }
    settle("after all requests");
    if (vs_param("again", 1)) { rq(0, 1, 2, OP_ECHO, 0, 4); settle("after one more request to an idle pool"); }
}
VS_SCENARIO(mt_mixed) { /* unknown requests, control messages and events among worker requests */
    size_t k; uint8_t m[512]; size_t n = 0;
    setup_mt((int)vs_param("workers", 2), 128, 2);
    switch (vs_choose(4, "mix")) {
    case 0: request(0, 9, 1, OP_ECHO, 0, 6, m, &k); n = k; request(0, 1, 1, OP_ECHO, 0, 6, m + n, &k); n += k; break;
    case 1: request(0, 1, 1, OP_ECHO, 0, 4, m, &k); n = k; request(0, 1, 7, OP_ECHO, 0, 4, m + n, &k); n += k; break;
    case 2: request(0, 1, 1, OP_EVENT_SELF, 0, 4, m, &k); n = k; request(0, 1, 2, OP_EVENT_TO, 1, 4, m + n, &k); n += k; break;
    case 3: setsub(&PE[0], 2, false); n = build_ctl(0, 1, 2, m); request(0, 1, 1, OP_BCAST, 2, 4, m + n, &k); n += k; request(0, 2, 1, OP_BCAST, 1, 4, m + n, &k); n += k; break;
    }
    send_bytes(0, m, n);
    rq(1, 2, 3, OP_ECHO, 0, 9);
    settle("after the mix");
}
static void flood(int peer, int count, int op, uint32_t n) { uint8_t m[16384]; size_t l = 0, k; for (int i = 0; i < count; i++) { request(peer, 1, 1, op, 0, n, m + l, &k); l += k; } vs_trace("peer %d sends %d requests", peer, count); send_bytes(peer, m, l); }
VS_SCENARIO(mt_burst) { /* more requests than the queues of all workers hold, while every handler is held up */
    int count = (int)vs_param("burst", 75);
    setup_mt((int)vs_param("workers", 2), 128, 1);
    if (vs_param("quiet", 1)) vs_explore(false);
    flood(0, count, vs_choose(2, "answered") ? OP_GATE_ECHO : OP_GATE, 6);
    for (int i = 0; i < nR; i++) if (RQ[i].op == OP_GATE_ECHO) expect_response(&RQ[i], false);
    vs_wait_quiescent();
    VS_CHECK(!loop_done, "the server stopped");
    gate_open = true;
    settle("after the burst");
    rq(0, 1, 2, OP_ECHO, 0, 4);
    settle("after one more request");
}
VS_SCENARIO(mt_close) { /* a peer leaves while its requests are being handled */
    setup_mt((int)vs_param("workers", 2), 128, 2);
    int how = vs_choose(3, "leave"), op = vs_choose(3, "operation");
    static const int O[] = { OP_ECHO, OP_EVENT_SELF, OP_BCAST };
    int held = (int)vs_param("held", 0);
    if (held) { vs_explore(false); rq(0, 1, 1, OP_HELD | O[op], 1, 6); vs_wait_quiescent(); VS_CHECK(in_gate == 1, "the handler does not run"); vs_explore(true); gate_open = true; }
    else rq(0, 1, 1, O[op], 1, 6);
    for (int e = 0; e < nE; e++) if (EX[e].peer == 0) EX[e].optional = true;
    vs_trace("peer 0 leaves");
    PE[0].quiet = true; PE[0].gone = true;
    if (how == 2) { sim_raw_reset(PE[0].s); RQ[0].optional = true; for (int e = 0; e < nE; e++) if (op == 2) EX[e].optional = true; } /* a reset may discard the request */
    else sim_raw_close(PE[0].s);
    if (how == 1) { peer_connect(); }
    rq(1, 2, 1, OP_ECHO, 0, 5);
    if (how == 1) for (int e = 0; e < nE; e++) if (op == 2) EX[e].optional = EX[e].optional || EX[e].peer == 2;
    if (how == 1 && op == 2) expect_event(2, 1, 0x41, 0, 5, true);
    if (how == 1 && op == 1) expect_event(2, 1, 0x40, 0, 3, true);   /* the handle may belong to the new peer by then */
    settle("after a peer left");
}
VS_SCENARIO(mt_reuse) { /* a handler finishes after its peer left and another peer got the same descriptor */
    setup_mt((int)vs_param("workers", 2), 128, 2);
    vs_explore(false);
    int defer = vs_choose(2, "deferred");
    if (defer) rq(0, 1, 1, OP_DEFER, 0, 6); else rq(0, 1, 1, OP_GATE_ECHO, 0, 6);
    vs_wait_quiescent();
    PE[0].gone = true; sim_raw_close(PE[0].s);
    vs_wait_quiescent();
    int j = peer_connect(); vs_wait_quiescent();
    VS_CHECK(PE[j].handle >= 0, "peer not accepted");
    vs_count("descriptor_reused", PE[j].handle == PE[0].handle);
    vs_explore(true);
    if (vs_choose(2, "new peer busy")) rq(j, 2, 1, OP_ECHO, 0, 5);
    if (defer) cut_flush(0); else gate_open = true;
    settle("after the late answer");
}
VS_SCENARIO(mt_events) { /* broadcasts from workers while subscriptions change */
    setup_mt((int)vs_param("workers", 2), 128, 3);
    uint8_t m[64]; size_t n;
    int what = vs_choose(4, "change");
    int held = (int)vs_param("held", 0);
    if (held) { vs_explore(false); rq(0, 1, 1, OP_HELD | OP_BCAST, 1, 4); vs_wait_quiescent(); vs_explore(true); gate_open = true; }
    else rq(0, 1, 1, OP_BCAST, 1, 4);                  /* to everyone, tag 0 */
    if (what == 0) { n = build_ctl(1, 1, 1, m); send_bytes(1, m, n); setsub(&PE[1], 1, false); }
    if (what == 1) { n = build_ctl(1, 1, 255, m); send_bytes(1, m, n); setsub(&PE[1], 255, false); }
    if (what == 2) { n = build_ctl(1, 1, 2, m); send_bytes(1, m, n); setsub(&PE[1], 2, false); }
    if (what == 3) rq(2, 2, 1, OP_BCAST, 2, 4);
    if (what < 2) for (int e = 0; e < nE; e++) if (EX[e].peer == 1) EX[e].optional = true;
    settle("after concurrent broadcasts");
    nE = 0; /* what was optional is settled now */
    rq(0, 1, 2, OP_BCAST, 1, 5); rq(0, 1, 2, OP_BCAST, 2, 5);
    settle("after the next broadcasts");
}
static int flusher(void* a) { int s = (int)(long)a; struct req* r = &RQ[slot_used[s] - 1]; vs_trace("deferred request %d is answered by another thread", slot_used[s] - 1); expect_response(r, false); VS_CHECK(!cut_flush(s), "answering a deferred request fails"); return 0; }
VS_SCENARIO(mt_defer) { /* deferred requests answered from other threads while the server works */
    int workers = (int)vs_param("workers", 2);
    setup_mt(workers, 128, 2);
    vs_explore(false);
    rq(0, 1, 1, OP_DEFER, 0, 8); slot_used[0] = nR;
    vs_wait_quiescent();
    rq(1, 2, 1, OP_DEFER, 1, 12); slot_used[1] = nR;
    vs_wait_quiescent();
    /* the receive memory of both requests is reused now */
    rq(0, 1, 2, OP_ECHO, 0, 30); rq(1, 1, 2, OP_ECHO, 0, 31);
    vs_wait_quiescent();
    vs_explore(true);
    int order = vs_choose(2, "order");
    int t = vs_spawn("responder", flusher, (void*)(long)order, false);
    rq(0, 1, 1, OP_ECHO, 0, 7);
    flusher((void*)(long)!order);
    vs_join(t);
    settle("after the deferred answers");
}
/* several threads send to one peer whose connection takes only a few bytes at a time */
static bool room_pred(void* a) { return sim_raw_avail(PE[(long)a].s) > 0; }
static int slow_reader(void* a) { int p = (int)(long)a; size_t step = (size_t)vs_param("step", 16); while (1) { vs_wait_until(room_pred, a, "slow reader"); drain(p, step); } return 0; }
VS_SCENARIO(mt_sendmix) {
    sim_set_capacity((size_t)vs_param("cap", 24));
    setup_mt((int)vs_param("workers", 2), 256, 1);
    sim_set_capacity(65536);
    int v = vs_choose(3, "messages");
    vs_spawn("reader", slow_reader, (void*)0L, true);
    if (v == 0) { rq(0, 1, 1, OP_ECHO, 0, 60); rq(0, 1, 2, OP_ECHO, 0, 61); }
    if (v == 1) { rq(0, 1, 1, OP_ECHO, 0, 60); uint16_t t = (uint16_t)ev_tag++; expect_event(0, 2, 0x44, t, 40, true); int st = cut_event(SRV, PE[0].handle, 2, 0x44, t, 40, GRACHT_MESSAGE_BLOCK); VS_CHECK(!st, "blocking event fails"); EX[nE - 1].optional = false; }
    if (v == 2) { rq(0, 1, 1, OP_ECHO, 0, 60); uint16_t t = (uint16_t)ev_tag++; expect_event(0, 2, 0x44, t, 40, true); int st = cut_event(SRV, PE[0].handle, 2, 0x44, t, 40, 0); if (!st) for (int e = 0; e < nE; e++) EX[e].optional = false; }
    settle("after concurrent sends");
}

/* ------------------------------------------------------------------------------------------------ registry and lock ---- */
static int rg_from, rg_n; static bool rg_drop;
static int registrar(void* a) {
    (void)a;
    for (int i = 0; i < rg_n; i++) { VS_CHECK(!cut_reg_many(SRV, rg_from + i), "registering protocol %d fails", rg_from + i); }
    if (rg_drop) for (int i = 0; i < rg_n; i++) cut_unreg_many(SRV, rg_from + i);
    return 0;
}
VS_SCENARIO(mt_reg) { /* protocols come and go while requests for others are dispatched */
    setup_mt((int)vs_param("workers", 2), 128, 2);
    vs_explore(false);
    rg_n = (int)vs_param("n", 2); rg_from = 40; rg_drop = vs_choose(2, "unregister");
    for (int i = 0; i < (int)vs_param("prefill", 8); i++) { VS_CHECK(!cut_reg_many(SRV, 60 + i), "registering protocol %d fails", 60 + i); }
    int first = vs_choose(2, "first");
    vs_explore(true);
    if (first) rq(0, 1, 1, OP_ECHO, 0, 4);
    int f = vs_spawn("registrar", registrar, NULL, false);
    rq(1, 2, 1, OP_ECHO, 0, 6);
    if (!first) rq(0, 1, 2, OP_ECHO, 0, 4);
    vs_join(f);
    settle("after protocols came and went");
    vs_explore(false);
    uint8_t m[64]; size_t k;
    for (int i = 0; i < rg_n; i++) { k = build_req(0, rg_from + i, 1, OP_ECHO, 0, 5, !rg_drop, m); if (rg_drop) expect_error(&RQ[nR - 1], false); else expect_response(&RQ[nR - 1], false); send_bytes(0, m, k); settle("after a request to a protocol registered meanwhile"); }
}
static int rg_ok; static int reg_a(void* a) { int id = (int)(long)a; if (!cut_reg_many(SRV, id)) rg_ok |= id == 41 ? 1 : 4; return 0; }
static int reg_b(void* a) { (void)a; if (!cut_reg_dup(SRV, 41)) rg_ok |= 2; return 0; }
VS_SCENARIO(mt_reg2) { /* registrations by two threads: the same id once, different ids both */
    setup_mt((int)vs_param("workers", 2), 128, 1);
    vs_explore(false);
    for (int i = 0; i < (int)vs_param("prefill", 8); i++) { VS_CHECK(!cut_reg_many(SRV, 60 + i), "registering protocol %d fails", 60 + i); }
    rg_ok = 0; int same = vs_choose(2, "same id");
    vs_explore(true);
    int a = vs_spawn("registrar", reg_a, (void*)41L, false), b = same ? vs_spawn("other", reg_b, NULL, false) : vs_spawn("other", reg_a, (void*)42L, false);
    vs_join(a); vs_join(b);
    vs_explore(false);
    if (same) VS_CHECK(rg_ok == 1 || rg_ok == 2, "of two registrations of the same id %s succeed", rg_ok ? "both" : "none"); else VS_CHECK(rg_ok == 5, "a registration fails");
    for (int i = 0; i < 2; i++) {
        int id = 41 + i; if (same && (i || rg_ok == 2)) continue;
        uint8_t m[64]; size_t k = build_req(0, id, 1, OP_ECHO, 0, 5, true, m); expect_response(&RQ[nR - 1], false); send_bytes(0, m, k); settle("after a request to a new protocol");
    }
}
VS_SCENARIO(mt_clients) { /* the table of clients grows and shrinks while workers look clients up */
    int base = (int)vs_param("peers", 11);
    setup_mt((int)vs_param("workers", 2), 128, base);
    vs_explore(false);
    int op = vs_choose(4, "operation"), change = vs_choose(3, "change");
    static const int O[] = { OP_ECHO, OP_EVENT_SELF, OP_EVENT_TO, OP_BCAST };
    rq(0, 1, 1, OP_HELD | O[op], op == 3 ? 1 : 2, 6);
    vs_wait_quiescent(); VS_CHECK(in_gate == 1, "the handler does not run");
    vs_explore(true);
    gate_open = true;   /* from here on the worker and the receiving thread run at the same time */
    if (change != 1) { vs_trace("peers join"); peer_connect(); if (op == 3) expect_event(nP - 1, 1, 0x41, 0, 5, true); }
    if (change == 0) { peer_connect(); if (op == 3) expect_event(nP - 1, 1, 0x41, 0, 5, true); }
    if (change >= 1) { vs_trace("peer 1 leaves"); PE[1].gone = PE[1].quiet = true; sim_raw_close(PE[1].s); }
    settle("after the number of clients changed");
    vs_explore(false);
    rq(0, 1, 1, OP_BCAST, 1, 5); settle("after a broadcast");
    for (int i = 0; i < nP; i++) if (!PE[i].gone) rq(i, 2, 1, OP_ECHO, 0, 5);
    settle("after every peer sent a request");
}
VS_SCENARIO(srv_regs) { /* every id, any number of registered protocols */
    static const int N[] = { 1, 2, 5, 11, 12, 13, 14, 24, 25, 100, 253, 254 };
    vs_explore(false);
    memset(reg, 0, sizeof reg); server_start((int)vs_param("workers", 0), 128, 0, true); server_run(); peer_connect(); vs_wait_quiescent();
    int n = N[vs_choose(12, "number")], order = vs_choose(3, "order"), drop = vs_choose(4, "unregister");
    bool on[256] = { 0 }; uint8_t m[64];
#define ID_OF(k) (order == 0 ? 1 + (k) : order == 1 ? 254 - (k) : 1 + ((k) * 89) % 254)
    for (int k = 0; k < n; k++) { VS_CHECK(!cut_reg_many(SRV, ID_OF(k)), "registering protocol %d fails", ID_OF(k)); on[ID_OF(k)] = true; }
    for (int k = 0; k < n; k++) VS_CHECK(cut_reg_dup(SRV, ID_OF(k)) != 0, "registering protocol %d twice succeeds", ID_OF(k));
    for (int id = 1; id < 255; id++) if (on[id] && (drop == 1 ? id % 2 : drop == 2 ? id % 16 == 3 : drop == 3 ? id != 200 : 0)) { cut_unreg_many(SRV, id); on[id] = false; }
    for (int id = 1; id < 255; id++) {
        nR = 0;
        size_t k = build_req(0, id, 1, OP_ECHO, 0, 5, on[id], m); if (on[id]) expect_response(&RQ[0], false); else expect_error(&RQ[0], false);
        send_bytes(0, m, k);
        if (on[id]) { k = build_req(0, id, 2, OP_ECHO, 0, 5, false, m); expect_error(&RQ[1], false); send_bytes(0, m, k); }
        vs_wait_quiescent(); check_settled("after a request to one id");
    }
    for (int id = 1; id < 255; id++) if (on[id]) { cut_unreg_many(SRV, id); on[id] = false; }
    for (int id = 1; id < 255; id += 50) { nR = 0; size_t k = build_req(0, id, 1, OP_ECHO, 0, 5, false, m); expect_error(&RQ[0], false); send_bytes(0, m, k); vs_wait_quiescent(); check_settled("after everything was unregistered"); }
    VS_CHECK(!cut_reg_many(SRV, 77), "registering a protocol again fails");
    nR = 0; size_t k = build_req(0, 77, 1, OP_ECHO, 0, 5, true, m); expect_response(&RQ[0], false); send_bytes(0, m, k); vs_wait_quiescent(); check_settled("after registering again");
}
int cut_reg_funcs(gracht_server_t*, int sid, const int* ids, int n);
VS_SCENARIO(srv_funcs) { /* functions listed in any order: each id reaches its own */
    int ids[5] = { 1, 2, 9, 128, 255 }; static const int odd[] = { 0, 3, 8, 10, 127, 129, 254 }; uint8_t m[64];
    vs_explore(false);
    memset(reg, 0, sizeof reg); server_start((int)vs_param("workers", 0), 128, 0, true); server_run(); peer_connect(); vs_wait_quiescent();
    int n = 1 + vs_choose(5, "functions"), skip = vs_choose(6 - n, "first");
    for (int i = 0; i < n; i++) ids[i] = ids[i + skip];
    for (int i = 0; i < n - 1; i++) { int k = i + vs_choose(n - i, "order"), t = ids[i]; ids[i] = ids[k]; ids[k] = t; }
    VS_CHECK(!cut_reg_funcs(SRV, 40, ids, n), "registering fails");
    for (int i = 0; i < n; i++) { size_t k = build_req(0, 40, ids[i], OP_ECHO, 0, 5, true, m); expect_response(&RQ[nR - 1], false); send_bytes(0, m, k); vs_wait_quiescent(); check_settled("after a request"); }
    for (int i = 0; i < 7; i++) { size_t k = build_req(0, 40, odd[i], OP_ECHO, 0, 5, false, m); expect_error(&RQ[nR - 1], false); send_bytes(0, m, k); vs_wait_quiescent(); check_settled("after a request for an unknown function"); }
}
VS_SCENARIO(srv_fmany) { /* services of up to 255 functions: each id reaches its own, and no other does anything */
    static const int N[] = { 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 200, 254, 255 }; int ids[255]; uint8_t m[64]; bool on[256] = { 0 };
    vs_explore(false); vs_long(2000000);
    memset(reg, 0, sizeof reg); server_start((int)vs_param("workers", 0), 128, 0, true); server_run(); peer_connect(); vs_wait_quiescent();
    int n = N[vs_choose(15, "functions")], order = vs_choose(3, "order"), from = n == 255 ? 0 : vs_choose(2, "high ids") ? 255 - n : 0;
    for (int k = 0; k < n; k++) { ids[k] = 1 + from + (order == 0 ? k : order == 1 ? n - 1 - k : (k * 89) % n); }
    if (order == 2 && n % 89 == 0) vs_assume(false);
    for (int k = 0; k < n; k++) on[ids[k]] = true;
    VS_CHECK(!cut_reg_funcs(SRV, 40, ids, n), "registering fails");
    for (int id = 0; id < 256; id++) {
        nR = 0; size_t k = build_req(0, 40, id, OP_ECHO, 0, 5, on[id], m);
        if (on[id]) expect_response(&RQ[0], false); else expect_error(&RQ[0], false);
        send_bytes(0, m, k); vs_wait_quiescent(); check_settled("after a request");
    }
}
VS_SCENARIO(srv_subs) { /* every service id: subscribing or unsubscribing one changes exactly that one, for exactly that client */
    vs_explore(false);
    memset(reg, 0, sizeof reg); server_start((int)vs_param("workers", 0), 128, 0, true); server_run(); peer_connect(); vs_wait_quiescent(); peer_connect(); vs_wait_quiescent();
    int id = 1 + vs_choose(254, "id"), mode = vs_choose(4, "from"); uint8_t m[64]; size_t k;
    static const int O[] = { 1, 0, 1, 0 };
    if (mode & 1) { k = build_ctl(0, 1, 255, m); send_bytes(0, m, k); setsub(&PE[0], 255, false); }
    if (mode & 2) { k = build_ctl(0, O[mode], id, m); send_bytes(0, m, k); setsub(&PE[0], id, !O[mode]); k = build_ctl(0, O[mode], id == 254 ? 1 : id + 1, m); send_bytes(0, m, k); setsub(&PE[0], id == 254 ? 1 : id + 1, !O[mode]); }
    else { k = build_ctl(0, O[mode], id, m); send_bytes(0, m, k); setsub(&PE[0], id, !O[mode]); }
    vs_wait_quiescent();
    for (int s = 1; s < 255; s++) {
        nE = 0; for (int p = 0; p < 2; p++) if (subbed(&PE[p], s)) expect_event(p, s, 0x41, (uint16_t)s, 5, false);
        cut_broadcast(SRV, s, 0x41, (uint16_t)s, 5, 0);
        check_settled("after a broadcast");
    }
}
