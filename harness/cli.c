#include "cli.h"
/* ------------------------------------------------------------------------------------------------
 * cli_seq: every sequence of `depth` actions of one application thread and the server, from the families in `ops`.
 * A blocking operation runs in its own fiber; while it blocks only the server acts (plus an asynchronous await).
 */
enum { A_CALL = 1, A_ACALL = 2, A_RESP = 4, A_DUP = 8, A_UNSOL = 16, A_ERR = 32, A_ERRX = 64, A_EVENT = 128, A_EVUNK = 256, A_ODD = 512, A_WAITNB = 1024, A_WAITNBC = 2048,
       A_WAIT = 4096, A_WAITC = 8192, A_AWAIT = 16384, A_RESULT = 32768, A_CLOSE = 65536, A_REG = 131072, A_PART = 262144, A_ASYNC = 524288 };
struct act { int kind, a, b, c; };
struct op { bool active, done; int kind, call, nset, set[4], mode, ret, err; bool refdone; int refret; struct gracht_message_context* cx[4]; };
static struct op OPS[2];   /* 0: blocking operation, 1: asynchronous await */
static uint8_t rest[256]; static size_t nrest;
static int op_main(void* a) {
    struct op* o = a;
    errno = 0;
    if (o->kind == A_WAIT) o->ret = gracht_client_wait_message(CL, NULL, GRACHT_MESSAGE_BLOCK);
    else if (o->kind == A_WAITC) o->ret = gracht_client_wait_message(CL, o->cx[0], GRACHT_MESSAGE_BLOCK);
    else if (o->nset == 1 && o->mode == GRACHT_AWAIT_ANY) o->ret = gracht_client_await(CL, o->cx[0], (unsigned)o->mode);
    else o->ret = gracht_client_await_multiple(CL, o->cx, o->nset, (unsigned)o->mode);
    o->err = errno; o->done = true;
    return 0;
}
static bool await_pred(struct op* o) {
    int k = 0; for (int i = 0; i < o->nset; i++) k += CA[o->set[i]].state != INPROG;
    return k == o->nset || (!(o->mode & GRACHT_AWAIT_ALL) && k > 0);
}
/* continue the reference run of the blocking operation */
static void ref_op(struct op* o) {
    while (o->active && !o->refdone) {
        if (o->kind == A_WAITC) { int st = CA[o->call].state; if (st == FETCHED) { o->refdone = true; o->refret = -1; return; } if (st != INPROG) { o->refdone = true; o->refret = 0; return; } }
        if (o->kind == A_AWAIT && await_pred(o)) { o->refdone = true; o->refret = 0; return; }
        if (o->kind == A_ASYNC) { if (await_pred(o)) { o->refdone = true; o->refret = 0; } else if (lost) { o->refdone = true; o->refret = -1; } return; }
        int r = ref_step();
        if (r == -1) return;
        if (r == -2) { o->refdone = true; o->refret = -1; return; }
        if (r == 1 && o->kind == A_WAIT) { o->refdone = true; o->refret = 0; return; }
    }
}
static const char* opname(struct op* o) { return o->kind == A_WAIT ? "wait_message" : o->kind == A_WAITC ? "wait_message for a call" : o->kind == A_AWAIT ? "await" : "asynchronous await"; }
static void settle_ops(void) {
    vs_wait_quiescent();
    ref_op(&OPS[0]); ref_op(&OPS[1]);
    for (int k = 0; k < 2; k++) {
        struct op* o = &OPS[k];
        if (!o->active) continue;
        if (o->refdone) {
            VS_CHECK(o->done, "%s does not return although %s", opname(o), o->refret ? "the connection is lost" : "what it waits for has happened");
            VS_CHECK(o->ret == o->refret, "%s returns %d instead of %d", opname(o), o->ret, o->refret);
            o->active = false;
        } else VS_CHECK(!o->done, "%s returns %d although what it waits for has not happened", opname(o), o->ret);
    }
    check_events();
    srv_check_requests();
}
static void start_op(struct op* o) { static const char* N[] = { "waiter", "async" }; o->active = true; o->done = o->refdone = false; vs_trace("the client starts: %s (mode %d, first call %d of %d)", opname(o), o->mode, o->nset ? o->set[0] : o->call, o->nset); vs_spawn(N[o == &OPS[1]], op_main, o, false); }
static int act_list(struct act* A, int ops, int maxcalls) {
    int n = 0;
#define ADD(k, x, y, z) A[n++] = (struct act){ k, x, y, z }
    bool busy = OPS[0].active;
    if (!busy) {
        if ((ops & A_CALL) && nC < maxcalls) { ADD(A_CALL, 1, 1, 6); }
        if ((ops & A_CALL) && nC < maxcalls && nC == 0) ADD(A_CALL, 254, 0, 0);
        if ((ops & A_ACALL) && nC < maxcalls) ADD(A_ACALL, 1, 2, 4);
        if (ops & A_WAITNB) ADD(A_WAITNB, 0, 0, 0);
        if (ops & A_WAIT) ADD(A_WAIT, 0, 0, 0);
        int c[4], k = 0; for (int i = 0; i < nC && k < 4; i++) if (CA[i].live && CA[i].type == T_SYNC) c[k++] = i;
        for (int i = 0; i < k; i++) {
            if (ops & A_WAITNBC) ADD(A_WAITNBC, c[i], 0, 0);
            if (ops & A_WAITC) ADD(A_WAITC, c[i], 0, 0);
            if (ops & A_RESULT) ADD(A_RESULT, c[i], 0, 0);
        }
        for (int kind = A_AWAIT; kind; kind = kind == A_AWAIT ? A_ASYNC : 0) {
            if (!(ops & kind) || (kind == A_ASYNC && OPS[1].active)) continue;
            for (int m = 1; m < 1 << k; m++) { int bits = __builtin_popcount((unsigned)m); ADD(kind, m, GRACHT_AWAIT_ALL, 0); if (bits > 1 || k == 1) ADD(kind, m, GRACHT_AWAIT_ANY, 0); }
        }
    }
    if (conn) return n;
    if (nrest) { ADD(A_PART, 1, 0, 0); if (ops & A_CLOSE) { ADD(A_CLOSE, 0, 0, 0); ADD(A_CLOSE, 1, 0, 0); } return n; }
    bool fin = false;
    for (int i = 0; i < nC; i++) if (CA[i].live && CA[i].type == T_SYNC) {
        if (!CA[i].answered) { if (ops & A_RESP) ADD(A_RESP, i, 3 + 5 * (i & 1), 0); if (ops & A_ERR) ADD(A_ERR, i, 0, 0); if (ops & A_PART) { ADD(A_PART, 0, i, 7); ADD(A_PART, 0, i, HDR); ADD(A_PART, 0, i, HDR + 3); } }
        else { if (ops & A_DUP) ADD(A_DUP, i, 0, 0); if ((ops & A_ERRX)) ADD(A_ERRX, i, 0, 0); fin = true; }
    }
    (void)fin;
    if (ops & A_UNSOL) { ADD(A_UNSOL, vs_param("firstid", 0) ? 7777 : 0, 0, 0); ADD(A_UNSOL, 9999, 0, 0); }
    if (ops & A_ERRX) ADD(A_ERRX, -1, 0, 0);
    if (ops & A_EVENT) { ADD(A_EVENT, 1, 64, 4); ADD(A_EVENT, 2, 0, 0); }
    if (ops & A_EVUNK) { ADD(A_EVENT, 9, 64, 3); ADD(A_EVENT, 1, 66, 3); ADD(A_EVENT, 0, 7, 3); ADD(A_EVENT, 254, 255, 3); }
    if (ops & A_ODD) { ADD(A_ODD, 0, 0, 0); ADD(A_ODD, 1, 0, 0); ADD(A_ODD, 4, 0, 0); }
    if (ops & A_CLOSE) { ADD(A_CLOSE, 0, 0, 0); ADD(A_CLOSE, 1, 0, 0); }
    if (ops & A_REG) for (int k = 0; k < 2; k++) ADD(A_REG, k, !regd[k], 0);
    return n;
}
static void answer(int i, uint32_t n) { /* first answer to call i */
    CA[i].answered = true; CA[i].rtag = resp_tag++; CA[i].rn = n;
    nOUT = b_resp_id(OUT, CA[i].id, CA[i].sid, CA[i].aid, CA[i].rtag, n);
    pend_msg(K_RESP)->call = i;
}
static void act_do(struct act a) {
    struct wmsg* w; int r, er;
    switch (a.kind) {
    case A_CALL: case A_ACALL: {
        int type = a.kind == A_CALL ? T_SYNC : T_ASYNC, i = new_call(a.a, a.b, type, (uint32_t)a.c);
        CA[i].live = true;
        vs_trace("the client makes call %d (%d/%d)", i, a.a, a.b);
        r = cut_call(CL, a.kind == A_ACALL && (i & 1) ? NULL : CA[i].ctx, a.a, a.b, type, CA[i].tag, CA[i].n);
        if (conn == 2) { VS_CHECK(r, "a call on a lost connection succeeds"); CA[i].live = false; CA[i].state = FETCHED; }
        else if (conn == 1) { VS_CHECK(r, "a call on a closed connection succeeds"); CA[i].live = false; CA[i].state = FETCHED; }
        else { VS_CHECK(!r, "making a call fails (%d, errno %d)", r, errno); srv_check_requests(); VS_CHECK(CA[i].got, "call %d did not reach the server", i); }
        if (!CA[i].live && type == T_SYNC) { r = gracht_client_wait_message(CL, CA[i].ctx, 0); VS_CHECK(r == -1, "waiting for a call that could not be sent returns %d", r); }
        break; }
    case A_RESP: answer(a.a, (uint32_t)a.b); nM++; vs_trace("the server answers call %d", a.a); srv_send(OUT, nOUT); break;
    case A_PART:
        if (!a.a) { answer(a.b, 6); memcpy(rest, OUT + a.c, nOUT - (size_t)a.c); nrest = nOUT - (size_t)a.c; vs_trace("the server sends %d bytes of the answer to call %d", a.c, a.b); srv_send(OUT, (size_t)a.c); }
        else { nM++; vs_trace("the server sends the rest"); srv_send(rest, nrest); nrest = 0; }
        break;
    case A_DUP: nOUT = b_resp_id(OUT, CA[a.a].id, CA[a.a].sid, CA[a.a].aid, resp_tag++, 2); w = pend_msg(K_RESP); w->call = a.a; nM++; vs_trace("the server answers call %d once more, with other values", a.a); srv_send(OUT, nOUT); break;
    case A_UNSOL: nOUT = b_resp_id(OUT, (uint32_t)a.a, 1, 1, resp_tag++, 2); pend_msg(K_RESP); nM++; vs_trace("the server sends a response to message id %d that was never used", a.a); srv_send(OUT, nOUT); break;
    case A_ERR: CA[a.a].answered = true; CA[a.a].rtag = 0; nOUT = b_err(OUT, CA[a.a].id); w = pend_msg(K_ERR); w->call = a.a; nM++; vs_trace("the server sends an error notification for call %d", a.a); srv_send(OUT, nOUT); break;
    case A_ERRX: nOUT = b_err(OUT, a.a < 0 ? 9999 : CA[a.a].id); w = pend_msg(K_ERR); w->call = a.a; nM++; vs_trace("the server sends an error notification for %s", a.a < 0 ? "an unknown call" : "a call it already answered"); srv_send(OUT, nOUT); break;
    case A_EVENT: nOUT = b_event(OUT, a.a, a.b, ev_tag, (uint32_t)a.c); w = pend_msg(K_EVENT); w->sid = a.a; w->eid = a.b; w->tag = ev_tag++; w->n = (uint32_t)a.c; nM++; vs_trace("the server sends event %d/%d", a.a, a.b); srv_send(OUT, nOUT); break;
    case A_ODD: nOUT = b_event(OUT, 1, 64, ev_tag++, 3); OUT[10] = (uint8_t)a.a; pend_msg(K_OTHER); nM++; vs_trace("the server sends a message of type %d", a.a); srv_send(OUT, nOUT); break;
    case A_CLOSE:
        vs_trace("the server %s the connection", a.a ? "resets" : "closes");
        if (nrest) { nrest = 0; for (int i = 0; i < nC; i++) if (CA[i].answered && CA[i].state == INPROG) { bool in = false; for (int k = pos; k < nM; k++) in |= WM[k].call == i; (void)in; } }
        if (a.a) { sim_raw_reset(SS); nM = pos; conn = 2; } else { sim_raw_close(SS); conn = 1; }
        break;
    case A_REG: reg(a.a, a.b); break;
    case A_WAITNB: case A_WAITNBC: {
        errno = 0; r = gracht_client_wait_message(CL, a.kind == A_WAITNBC ? CA[a.a].ctx : NULL, 0); er = errno;
        vs_trace("the client's non-blocking wait%s returns %d", a.kind == A_WAITNBC ? " for a call" : "", r);
        int want = -9;
        while (want == -9) {
            if (a.kind == A_WAITNBC) { if (CA[a.a].state == FETCHED) { want = -1; break; } if (CA[a.a].state != INPROG) { want = 0; break; } }
            int s = ref_step();
            if (s < 0) want = -1; else if (s == 1 && a.kind == A_WAITNB) want = 0;
        }
        VS_CHECK(r == want, "a non-blocking wait%s returns %d instead of %d (errno %d)", a.kind == A_WAITNBC ? " for a call" : "", r, want, er);
        break; }
    case A_WAIT: case A_WAITC: OPS[0] = (struct op){ .kind = a.kind, .call = a.a }; OPS[0].cx[0] = a.kind == A_WAITC ? CA[a.a].ctx : NULL; start_op(&OPS[0]); break;
    case A_AWAIT: case A_ASYNC: {
        struct op* o = &OPS[a.kind == A_ASYNC];
        *o = (struct op){ .kind = a.kind, .mode = a.b | (a.kind == A_ASYNC ? GRACHT_AWAIT_ASYNC : 0) };
        int k = 0; for (int i = 0; i < nC; i++) if (CA[i].live && CA[i].type == T_SYNC) { if (a.a >> k & 1) { o->set[o->nset] = i; o->cx[o->nset++] = CA[i].ctx; } if (++k == 4) break; }
        start_op(o);
        break; }
    case A_RESULT: {
        uint8_t out[512]; uint32_t n = 0; errno = 0;
        r = cut_result(CL, CA[a.a].ctx, out, sizeof out, &n);
        vs_trace("fetching the result of call %d gives %d", a.a, r);
        static const int W[] = { GRACHT_MESSAGE_INPROGRESS, GRACHT_MESSAGE_COMPLETED, GRACHT_MESSAGE_ERROR, -1 };
        VS_CHECK(r == W[CA[a.a].state], "fetching the result of call %d gives status %d instead of %d", a.a, r, W[CA[a.a].state]);
        if (CA[a.a].state == DONE) check_values(a.a, out, n);
        if (CA[a.a].state != INPROG) CA[a.a].state = FETCHED;
        break; }
    }
}
static void finish(void) {
    struct act a;
    if (nrest) { act_do((a = (struct act){ A_PART, 1, 0, 0 }, a)); settle_ops(); }
    if (OPS[0].active || OPS[1].active) {
        /* losing the connection ends whatever still waits */
        if (!conn) { act_do((struct act){ A_CLOSE, vs_choose(2, "end"), 0, 0 }); }
        settle_ops();
        if (OPS[1].active) { act_do((struct act){ A_WAIT, 0, 0, 0 }); settle_ops(); act_do((struct act){ A_WAITNB, 0, 0, 0 }); settle_ops(); }
        for (int i = 0; i < 64 && OPS[1].active; i++) { act_do((struct act){ A_WAITNB, 0, 0, 0 }); settle_ops(); }
        VS_CHECK(!OPS[0].active && !OPS[1].active, "vs-internal: still waiting");
    }
    for (int i = 0; i < nC; i++) if (CA[i].live && CA[i].type == T_SYNC && CA[i].state != FETCHED) {
        if (!conn && !CA[i].answered) { act_do((struct act){ A_RESP, i, 4, 0 }); settle_ops(); }
        act_do((struct act){ A_WAITNBC, i, 0, 0 }); act_do((struct act){ A_RESULT, i, 0, 0 }); settle_ops();
    }
    while (pos < nM) { act_do((struct act){ A_WAITNB, 0, 0, 0 }); settle_ops(); }
    act_do((struct act){ A_WAITNB, 0, 0, 0 }); settle_ops();
}
VS_SCENARIO(cli_seq) {
    int ops = (int)vs_param("ops", A_CALL | A_RESP | A_WAITNB | A_RESULT), depth = (int)vs_param("depth", 5), maxc = (int)vs_param("calls", 2);
    struct act A[128];
    memset(OPS, 0, sizeof OPS); nrest = 0;
    cli_start((int)vs_param("maxmsg", 128), (int)vs_param("rbuf", 2048), (int)vs_param("protos", 2));
    for (int i = 0; i < (int)vs_param("init", 0); i++) { act_do((struct act){ A_CALL, 1, 1, 5 }); settle_ops(); }
    for (int d = 0; d < depth; d++) {
        int n = act_list(A, ops, maxc);
        if (!n) break;
        act_do(A[vs_choose(n, "action")]);
        settle_ops();
    }
    if (!vs_param("abrupt", 0)) finish();
    if (OPS[0].active || OPS[1].active) { finish(); }
    cli_end();
}

/* ------------------------------------------------------------------------------------------------
 * cli_mt: threads that call and wait in different ways; the server answers in every order.  The explorer enumerates the
 * schedules; m0..m3 are the modes of the threads.
 */
enum { M_AWAIT, M_WAITC, M_ASYNC, M_ALL2, M_ANY2, M_ASYNCALL2, M_ASYNCANY2, M_PUMP, M_NBTHENAWAIT, M_NONE };
static int th_mode[4], th_c[4][2], th_n; static bool srv_closed, srv_is_reset; static int ncalls_total;
static void fetch(int i, int t) {
    uint8_t out[512]; uint32_t n = 0;
    int r = cut_result(CL, CA[i].ctx, out, sizeof out, &n);
    if (r == GRACHT_MESSAGE_COMPLETED) { VS_CHECK(CA[i].rtag, "call %d completes although an error was sent for it", i); check_values(i, out, n); }
    else VS_CHECK(r == GRACHT_MESSAGE_ERROR && CA[i].answered && !CA[i].rtag, "thread %d: the result of call %d, which was awaited, gives %d", t, i, r);
    CA[i].state = FETCHED;
    r = cut_result(CL, CA[i].ctx, out, sizeof out, &n);
    VS_CHECK(r == -1, "the result of call %d can be fetched twice", i);
}
static bool make(int t, int i) {
    int r = cut_call(CL, CA[i].ctx, CA[i].sid, CA[i].aid, T_SYNC, CA[i].tag, CA[i].n);
    vs_trace("thread %d makes call %d: %d", t, i, r);
    if (r) { VS_CHECK(srv_closed, "call %d fails", i); CA[i].state = FETCHED; return false; }
    return true;
}
static void failed(int t, int r, int i) {
    VS_CHECK(r == -1, "thread %d: waiting returns %d", t, r);
    VS_CHECK(srv_closed && (srv_is_reset || !CA[i].answered), "thread %d: waiting for call %d fails although %s", t, i, srv_closed ? "it was answered" : "the connection is fine");
}
static int status_of(int i) { /* 1 when finished; fetches */
    uint8_t out[512]; uint32_t n = 0; int r = cut_result(CL, CA[i].ctx, out, sizeof out, &n);
    if (r == GRACHT_MESSAGE_INPROGRESS) return 0;
    if (r == GRACHT_MESSAGE_COMPLETED) { VS_CHECK(CA[i].rtag, "call %d completes although an error was sent for it", i); check_values(i, out, n); }
    else VS_CHECK(CA[i].answered && !CA[i].rtag, "call %d ends in an error although none was sent for it", i);
    CA[i].state = FETCHED; return 1;
}
static int th_main(void* a) {
    int t = (int)(long)a, m = th_mode[t], *c = th_c[t], r;
    struct gracht_message_context* cx[2] = { CA[c[0]].ctx, m == M_ALL2 || m == M_ANY2 || m == M_ASYNCALL2 || m == M_ASYNCANY2 ? CA[c[1]].ctx : NULL };
    if (m == M_PUMP) {
        int k = 0;
        while (!(r = gracht_client_wait_message(CL, NULL, GRACHT_MESSAGE_BLOCK))) VS_CHECK(++k < 40, "the pump receives more messages than were sent");
        VS_CHECK(srv_closed, "the pump fails although the connection is fine");
        vs_trace("thread %d: pumping ends", t);
        return 0;
    }
    if (!make(t, c[0])) return 0;
    if (cx[1] && !make(t, c[1])) { c[1] = -1; cx[1] = NULL; }
    switch (m) {
    case M_NBTHENAWAIT: r = gracht_client_wait_message(CL, cx[0], 0); if (!r) { fetch(c[0], t); return 0; } /* fall through */
    case M_AWAIT: r = gracht_client_await(CL, cx[0], GRACHT_AWAIT_ANY); break;
    case M_WAITC: r = gracht_client_wait_message(CL, cx[0], GRACHT_MESSAGE_BLOCK); break;
    case M_ASYNC: r = gracht_client_await(CL, cx[0], GRACHT_AWAIT_ASYNC); break;
    case M_ALL2: case M_ASYNCALL2: r = gracht_client_await_multiple(CL, cx, cx[1] ? 2 : 1, GRACHT_AWAIT_ALL | (m == M_ALL2 ? 0 : GRACHT_AWAIT_ASYNC)); break;
    case M_ANY2: case M_ASYNCANY2: r = gracht_client_await_multiple(CL, cx, cx[1] ? 2 : 1, GRACHT_AWAIT_ANY | (m == M_ANY2 ? 0 : GRACHT_AWAIT_ASYNC)); break;
    default: r = -5;
    }
    vs_trace("thread %d: waiting returns %d", t, r);
    if (r) {
        if (!cx[1]) failed(t, r, c[0]);
        else if (m == M_ALL2 || m == M_ASYNCALL2) VS_CHECK(r == -1 && srv_closed && (srv_is_reset || !CA[c[0]].answered || !CA[c[1]].answered), "thread %d: waiting for both calls fails although %s", t, srv_closed ? "both were answered" : "the connection is fine");
        else VS_CHECK(r == -1 && srv_closed && (srv_is_reset || (!CA[c[0]].answered && !CA[c[1]].answered)), "thread %d: waiting for one of two calls fails although %s", t, srv_closed ? "one was answered" : "the connection is fine");
        return 0;
    }
    if (!cx[1] || m == M_ALL2 || m == M_ASYNCALL2) { fetch(c[0], t); if (cx[1]) fetch(c[1], t); return 0; }
    int a0 = status_of(c[0]), a1 = status_of(c[1]);
    VS_CHECK(a0 + a1 >= 1, "thread %d: waiting for one of two calls returns although neither is finished", t);
    for (int k = 0; k < 2; k++) if (!(k ? a1 : a0)) {
        r = gracht_client_await(CL, cx[k], GRACHT_AWAIT_ALL | (m == M_ANY2 ? 0 : GRACHT_AWAIT_ASYNC));
        if (r) failed(t, r, c[k]); else fetch(c[k], t);
    }
    return 0;
}
static bool pred_req(void* a) { (void)a; return sim_raw_avail(SS) > 0 || sim_raw_eof(SS); }
static void srv_read(void) { srv_check_requests(); }
static int srv_main(void* a) {
    (void)a;
    int eager = (int)vs_param("eager", 0), errs = (int)vs_param("errs", 0), evs = (int)vs_param("events", 0), dups = (int)vs_param("dups", 0), closeat = (int)vs_param("close", 0), half = (int)vs_param("part", 0);
    int answered = 0, expect = ncalls_total;
    /* when the connection ends: 0 never, else after this many answers */
    int end = closeat ? vs_choose(expect + 1, "answers before the end") : -1; int how = closeat ? vs_choose(2, "how") : 0;
    while (answered < expect && answered != end) {
        while (call_seen < (eager ? answered + 1 : expect)) { vs_wait_until(pred_req, NULL, "server waiting for requests"); srv_read(); }
        int idx[8], n = 0; for (int i = 0; i < nC && n < 8; i++) if (CA[i].got && !CA[i].answered) idx[n++] = i;
        int i = idx[vs_choose(n, "answer which")];
        uint8_t m[1024]; size_t k = 0;
        if (evs) { int e = vs_choose(1 + evs, "event"); if (e) { k += b_event(m + k, e == 2 ? 9 : 1, 64, ev_tag, 3); if (e != 2) EVX[nX++] = (struct evrec){ 1, 64, ev_tag, 3 }; ev_tag++; } }
        CA[i].answered = true;
        int kind = errs ? vs_choose(2, "kind") : 0;
        CA[i].rtag = kind ? 0 : resp_tag++; CA[i].rn = 4 + (uint32_t)i;
        size_t k0 = k;
        k += kind ? b_err(m + k, CA[i].id) : b_resp_id(m + k, CA[i].id, CA[i].sid, CA[i].aid, CA[i].rtag, CA[i].rn);
        if (dups && vs_choose(2, "repeat")) k += b_resp_id(m + k, CA[i].id, CA[i].sid, CA[i].aid, 7777, 3);
        vs_trace("the server %s call %d", kind ? "sends an error for" : "answers", i);
        if (half) { sim_raw_send(SS, m, k0 + 5); sim_raw_send(SS, m + k0 + 5, k - k0 - 5); } else sim_raw_send(SS, m, k);
        answered++;
    }
    if (closeat) { vs_trace("the server %s", how ? "resets the connection" : "closes the connection"); srv_closed = true; srv_is_reset = how; if (how) sim_raw_reset(SS); else sim_raw_close(SS); }
    return 0;
}
VS_SCENARIO(cli_mt) {
    static const char* P[] = { "m0", "m1", "m2", "m3" }; static const char* N[] = { "T0", "T1", "T2", "T3" };
    int fib[4], early = (int)vs_param("early", 0);
    vs_explore(false);
    cli_start(128, (int)vs_param("rbuf", 2048), 1);
    th_n = 0; ncalls_total = 0; srv_closed = srv_is_reset = false;
    for (int t = 0; t < 4; t++) {
        th_mode[t] = (int)vs_param(P[t], t < 2 ? M_AWAIT : M_NONE);
        if (th_mode[t] == M_NONE) break;
        th_n++;
        if (th_mode[t] == M_PUMP) continue;
        int two = th_mode[t] >= M_ALL2 && th_mode[t] <= M_ASYNCANY2;
        for (int k = 0; k <= two; k++) { th_c[t][k] = new_call(1, 1 + k, T_SYNC, 3 + (uint32_t)t); CA[th_c[t][k]].live = true; ncalls_total++; }
    }
    (void)early;
    vs_explore(true);
    int sv = vs_spawn("server", srv_main, NULL, false);
    for (int t = 0; t < th_n; t++) fib[t] = vs_spawn(N[t], th_main, (void*)(long)t, false);
    for (int t = 0; t < th_n; t++) if (th_mode[t] != M_PUMP) vs_join(fib[t]);
    vs_join(sv);
    if (!srv_closed) {
        /* what is left to receive */
        bool pump = false; for (int t = 0; t < th_n; t++) pump |= th_mode[t] == M_PUMP;
        if (!pump) while (!gracht_client_wait_message(CL, NULL, 0)) {}
        srv_closed = true; sim_raw_close(SS);
    }
    for (int t = 0; t < th_n; t++) if (th_mode[t] == M_PUMP) vs_join(fib[t]);
    while (!gracht_client_wait_message(CL, NULL, 0)) {}
    if (!srv_is_reset) {
        VS_CHECK(nG == nX, "%d event callbacks ran for %d events", nG, nX);
        int one = 0; for (int t = 0; t < th_n; t++) one += th_mode[t] != M_ASYNC && th_mode[t] != M_ASYNCALL2 && th_mode[t] != M_ASYNCANY2;
        for (int i = 0; i < nX; i++) {
            int k = 0; for (int j = 0; j < nG; j++) k += EVG[j].tag == EVX[i].tag;
            VS_CHECK(k == 1, "the callback of event %d ran %d times", EVX[i].tag, k);
            if (one == 1) VS_CHECK(EVG[i].tag == EVX[i].tag, "events arrive in another order than they were sent");
        }
    }
    cli_end();
}

/* ------------------------------------------------------------------------------------------------ framing ---- */
static uint8_t CS[1024]; static size_t nCS, cend[8]; static int ncend;
static void cs_add(size_t n) { nCS += n; cend[ncend++] = nCS; }
static void cs_stream(int v) { /* what the server sends, in model order; call 0 and 1 are outstanding */
    nCS = 0; ncend = 0;
    struct wmsg* w;
#define EV(S_, E_, N_) do { w = pend_msg(K_EVENT); w->sid = S_; w->eid = E_; w->tag = ev_tag; w->n = N_; nM++; cs_add(b_event(CS + nCS, S_, E_, ev_tag++, N_)); } while (0)
#define RS(i, len) do { answer(i, len); memcpy(CS + nCS, OUT, nOUT); nM++; cs_add(nOUT); } while (0)
#define EX(i) do { CA[i].answered = true; CA[i].rtag = 0; w = pend_msg(K_ERR); w->call = i; nM++; cs_add(b_err(CS + nCS, CA[i].id)); } while (0)
#define BARE() do { pend_msg(K_OTHER); nM++; whdr(CS + nCS, 77, HDR, 9, 9, T_EVENT); cs_add(HDR); } while (0)
    switch (v) {
    case 0: EV(1, 64, 3); RS(0, 5); break;
    case 1: BARE(); RS(1, 1); RS(0, 0); break;
    case 2: EX(0); EV(2, 0, 0); break;
    case 3: RS(0, 90); EV(1, 65, 2); w = pend_msg(K_EVENT); w->sid = 1; w->eid = 64; w->tag = 0xfff0; nM++; whdr(CS + nCS, 0, HDR, 1, 64, T_EVENT); cs_add(HDR); break;
    }
    nM = 0; /* delivered message by message as their last byte is sent */
}
static size_t cs_sent; static void cs_feed(size_t to) { if (to <= cs_sent) return; while (nM < ncend && cend[nM] <= to) nM++; vs_trace("the server sends bytes %zu to %zu", cs_sent, to); srv_send(CS + cs_sent, to - cs_sent); cs_sent = to; }
static void cs_begin(int v) {
    vs_explore(false); memset(OPS, 0, sizeof OPS); nrest = 0;
    cli_start(128, 2048, 2);
    for (int i = 0; i < 2; i++) { act_do((struct act){ A_CALL, 1, 1, 5 }); settle_ops(); }
    vs_explore(true);
    cs_stream(v); cs_sent = 0;
}
static void cs_client(int how) { /* the client looks for messages */
    if (how == 0) { int k = 0; do { act_do((struct act){ A_WAITNB, 0, 0, 0 }); settle_ops(); } while (pos < nM && ++k < 9); act_do((struct act){ A_WAITNB, 0, 0, 0 }); }
    else if (how == 1) { if (!OPS[0].active) act_do((struct act){ A_WAIT, 0, 0, 0 }); }
    else if (how == 2) { if (!OPS[0].active) act_do((struct act){ A_AWAIT, 3, GRACHT_AWAIT_ALL, 0 }); }
    else act_do((struct act){ A_WAITNBC, 0, 0, 0 });
    settle_ops();
}
VS_SCENARIO(cli_cut) { /* every way of cutting what the server sends into up to `cuts`+1 pieces, with every kind of waiting in between */
    int cuts = (int)vs_param("cuts", 2); size_t at = 0;
    cs_begin((int)vs_param("stream", 0));
    int how = vs_choose(4, "waiting");
    for (int c = 0; c < cuts && at < nCS; c++) { at += 1 + (size_t)vs_choose((int)(nCS - at), "cut"); cs_feed(at); cs_client(how); }
    cs_feed(nCS); cs_client(how);
    finish(); cli_end();
}
VS_SCENARIO(cli_cutend) { /* the connection ends after every byte, in every way */
    cs_begin((int)vs_param("stream", 0));
    int how = vs_choose(4, "waiting"), pre = vs_choose(2, "wait first"), kind = vs_choose(3, "end");
    size_t at = (size_t)vs_choose((int)nCS + 1, "end at");
    if (pre) cs_client(how);
    cs_feed(at);
    if (pre) cs_client(how); else settle_ops();
    vs_trace("the connection ends (%d)", kind);
    if (kind == 0) { sim_raw_close(SS); conn = 1; } else if (kind == 1) { nM = pos; sim_raw_reset(SS); conn = 2; } else { sim_raw_shutdown(SS); conn = 3; }
    settle_ops();
    for (int i = 0; i < 6; i++) { cs_client(how); if (OPS[0].active) VS_CHECK(0, "waiting blocks on a connection that ended"); }
    while (pos < nM) cs_client(0);
    act_do((struct act){ A_WAIT, 0, 0, 0 }); settle_ops(); VS_CHECK(!OPS[0].active, "a blocking wait blocks on a connection that ended");
    act_do((struct act){ A_AWAIT, 3, GRACHT_AWAIT_ALL, 0 }); settle_ops(); VS_CHECK(!OPS[0].active, "an await blocks on a connection that ended");
    act_do((struct act){ A_ASYNC, 3, GRACHT_AWAIT_ALL, 0 }); settle_ops(); VS_CHECK(!OPS[1].active, "an asynchronous await blocks on a connection that ended");
    if (kind != 2) act_do((struct act){ A_CALL, 1, 1, 4 });
    cli_end();
}
VS_SCENARIO(cli_short) { /* receives and sends that handle fewer bytes than possible or are interrupted, at any call (bounded by -E) */
    vs_explore(false); memset(OPS, 0, sizeof OPS); nrest = 0;
    cli_start(128, 2048, 2);
    vs_explore(true);
    int how = vs_choose(4, "waiting"), v = vs_choose(4, "stream");
    sim_set_short((int)vs_param("mask", 15));
    for (int i = 0; i < 2; i++) { act_do((struct act){ A_CALL, 1, 1, 5 }); settle_ops(); }
    cs_stream(v); cs_sent = 0;
    cs_feed(nCS); for (int i = 0; i < 3; i++) cs_client(how);
    finish(); cli_end();
}
static bool c_avail(void* a) { (void)a; return sim_raw_avail(SS) > 0; }
static size_t cstep; static int c_reader(void* a) { (void)a; while (1) { vs_wait_until(c_avail, NULL, "slow server"); size_t k = sim_raw_avail(SS); if (k > cstep) k = cstep; nsrx += sim_raw_recv(SS, srx + nsrx, k); } return 0; }
VS_SCENARIO(cli_send) { /* the transport takes any number of bytes at a time: requests arrive whole */
    static const int C[] = { 1, 2, 3, 7, 10, 11, 12, 13, 20, 31, 64 }; static const int RS[] = { 1, 5, 1000 };
    vs_explore(false); memset(OPS, 0, sizeof OPS); nrest = 0;
    vs_explore(true);
    sim_set_capacity((size_t)C[vs_choose(11, "capacity")]); cstep = (size_t)RS[vs_choose(3, "step")];
    cli_start(128, 2048, 2);
    vs_spawn("reader", c_reader, NULL, true);
    static const uint32_t L[] = { 0, 1, 40, 115 };
    for (int i = 0; i < 3; i++) {
        int c = new_call(1, 1, T_SYNC, L[vs_choose(4, "length")]); CA[c].live = true;
        VS_CHECK(!cut_call(CL, CA[c].ctx, 1, 1, T_SYNC, CA[c].tag, CA[c].n), "making a call fails");
    }
    vs_wait_quiescent(); srv_check_requests();
    VS_CHECK(call_seen == 3 && nsrx == 0, "%d of 3 calls reached the server, %zu bytes are left", call_seen, nsrx);
    cli_end();
}
static int c_caller(void* a) { int i = (int)(long)a; VS_CHECK(!cut_call(CL, CA[i].ctx, 1, 1, T_SYNC, CA[i].tag, CA[i].n), "making a call fails"); return 0; }
VS_SCENARIO(cli_sendmix) { /* threads calling at the same time over a transport that takes few bytes at a time */
    vs_explore(false); memset(OPS, 0, sizeof OPS); nrest = 0;
    sim_set_capacity((size_t)vs_param("cap", 9)); cstep = 1000;
    cli_start(128, 2048, 0);
    int T = (int)vs_param("threads", 2), f[4];
    for (int i = 0; i < T; i++) { int c = new_call(1, 1, T_SYNC, 3 + (uint32_t)i); CA[c].live = true; }
    vs_spawn("reader", c_reader, NULL, true);
    vs_explore(true);
    for (int i = 0; i < T; i++) f[i] = vs_spawn("caller", c_caller, (void*)(long)i, false);
    for (int i = 0; i < T; i++) vs_join(f[i]);
    vs_wait_quiescent(); srv_check_requests();
    VS_CHECK(call_seen == T && nsrx == 0, "%d of %d calls reached the server whole", call_seen, T);
    cli_end();
}
VS_SCENARIO(cli_many) { /* many outstanding calls, answered and fetched in different orders */
    static const int N[] = { 1, 4, 11, 12, 13, 14, 24, 25, 26, 40, 128, 250, 258, 300 }; int huge = (int)vs_param("huge", 0);
    vs_explore(false); memset(OPS, 0, sizeof OPS); nrest = 0; if (huge) vs_long(20000000);
    cli_start(128, huge ? 100000 : 16384, 1);
    vs_explore(true);
    int n = N[huge ? 10 + vs_choose(4, "calls") : vs_choose(10, "calls")], ao = vs_choose(4, "answers"), fo = vs_choose(4, "fetches"), how = vs_choose(4, "waiting"), mix = vs_choose(2, "mixed");
    for (int i = 0; i < n; i++) { act_do((struct act){ A_CALL, 1 + (i & 1), 1 + i % 3, i % 7 }); if (mix && i % 5 == 4) act_do((struct act){ A_EVENT, 1, 64, 2 }); }
#define ORD(o, i) ((o) == 0 ? (i) : (o) == 1 ? n - 1 - (i) : (o) == 2 ? ((i) < (n + 1) / 2 ? 2 * (i) : 2 * ((i) - (n + 1) / 2) + 1) : ((i) + n / 2) % n)
    for (int k = 0; k < n; k++) { int i = ORD(ao, k); if (mix && i % 4 == 3) act_do((struct act){ A_ERR, i, 0, 0 }); else act_do((struct act){ A_RESP, i, i % 9, 0 }); if (mix && i % 6 == 1) act_do((struct act){ A_DUP, i, 0, 0 }); }
    if (how == 1) { struct gracht_message_context* cx[MAXCALL]; for (int i = 0; i < n; i++) cx[i] = CA[i].ctx; VS_CHECK(!gracht_client_await_multiple(CL, cx, n, GRACHT_AWAIT_ALL), "awaiting %d answered calls fails", n); for (int i = 0; i < n; i++) while (CA[i].state == INPROG) ref_step(); }
    for (int k = 0; k < n; k++) {
        int i = ORD(fo, k);
        if (how == 2) act_do((struct act){ A_WAITNBC, i, 0, 0 });
        if (how == 3) { VS_CHECK(!gracht_client_wait_message(CL, CA[i].ctx, GRACHT_MESSAGE_BLOCK), "waiting for an answered call fails"); while (CA[i].state == INPROG) ref_step(); }
        if (how == 0 && k == 0) while (pos < nM) act_do((struct act){ A_WAITNB, 0, 0, 0 });
        act_do((struct act){ A_RESULT, i, 0, 0 });
        act_do((struct act){ A_RESULT, i, 0, 0 });
    }
    settle_ops(); finish(); cli_end();
}
static int se_ret; static bool se_done; static int se_main(void* a) { int i = (int)(long)a; se_ret = cut_call(CL, CA[i].ctx, 1, 1, T_SYNC, CA[i].tag, CA[i].n); se_done = true; return 0; }
VS_SCENARIO(cli_sendend) { /* the connection ends while a call is being sent to a server that reads only part of it */
    vs_explore(false); memset(OPS, 0, sizeof OPS); nrest = 0; se_done = false;
    vs_explore(true);
    static const int C[] = { 1, 5, 11, 12, 30, 63, 64 };
    int kind = vs_choose(3, "end"), rd = vs_choose(3, "read");
    sim_set_capacity((size_t)C[vs_choose(7, "capacity")]);
    cli_start(128, 2048, 0);
    int i = new_call(1, 1, T_SYNC, 60); CA[i].live = true;
    vs_spawn("caller", se_main, (void*)(long)i, false);
    vs_wait_quiescent();
    uint8_t t[64]; if (rd) sim_raw_recv(SS, t, rd == 1 ? 1 : 20);
    vs_wait_quiescent();
    bool early = se_done;
    vs_trace("the connection ends (%d)", kind);
    if (kind == 0) sim_raw_close(SS); else if (kind == 1) sim_raw_reset(SS); else { sim_raw_close(SS); sim_raw_close(LS); }
    vs_wait_quiescent();
    VS_CHECK(se_done, "a call that is being sent does not return although the connection ended");
    VS_CHECK(early || se_ret == -1, "a call that could not be sent whole returns %d", se_ret);
    uint8_t out[64]; uint32_t n;
    VS_CHECK(gracht_client_wait_message(CL, NULL, 0) == -1 && gracht_client_wait_message(CL, NULL, GRACHT_MESSAGE_BLOCK) == -1, "waiting on an ended connection succeeds");
    if (se_ret) { VS_CHECK(gracht_client_wait_message(CL, CA[i].ctx, GRACHT_MESSAGE_BLOCK) == -1, "waiting for a call that was not sent succeeds"); VS_CHECK(cut_result(CL, CA[i].ctx, out, sizeof out, &n) == -1, "a call that was not sent has a result"); }
    else VS_CHECK(gracht_client_await(CL, CA[i].ctx, 0) == -1, "awaiting on an ended connection succeeds");
    CL && (gracht_client_shutdown(CL), 0); vs_check_no_leaks("after client shutdown");
}
VS_SCENARIO(cli_wait_nb) { /* a non-blocking wait returns at once, also while another thread is receiving or a message has half arrived */
    vs_explore(false); memset(OPS, 0, sizeof OPS); nrest = 0;
    cli_start(128, 2048, 1);
    for (int i = 0; i < 2; i++) { act_do((struct act){ A_CALL, 1, 1, 5 }); settle_ops(); }
    int blk = vs_choose(5, "other thread"), part = vs_choose(3, "half a message");
    struct act W[] = { { A_WAIT, 0, 0, 0 }, { A_WAITC, 0, 0, 0 }, { A_AWAIT, 3, GRACHT_AWAIT_ALL, 0 }, { A_AWAIT, 1, GRACHT_AWAIT_ANY, 0 }, { A_ASYNC, 3, GRACHT_AWAIT_ALL, 0 } };
    if (part) act_do((struct act){ A_PART, 0, 1, part == 1 ? 4 : 13 });
    vs_explore(true);
    act_do(W[blk]); int sched = vs_choose(2, "let it block"); if (sched) vs_wait_quiescent();
    for (int k = 0; k < 2; k++) {
        VS_CHECK(gracht_client_wait_message(CL, NULL, 0) == -1, "a non-blocking wait with nothing to receive succeeds");
        VS_CHECK(gracht_client_wait_message(CL, CA[k].ctx, 0) == -1, "a non-blocking wait for an unanswered call succeeds");
    }
    uint8_t out[64]; uint32_t n; VS_CHECK(cut_result(CL, CA[0].ctx, out, sizeof out, &n) == GRACHT_MESSAGE_INPROGRESS, "an unanswered call has a result");
    settle_ops();
    vs_explore(false); finish(); cli_end();
}
/* ------------------------------------------------------------------------------------------------ malformed ---- */
VS_SCENARIO(cli_mal) { /* every announced length around the limits x type x addressee x amount of data x way of waiting */
    int maxmsg = (int)vs_param("maxmsg", 64), pkt = (int)vs_param("pkt", 0);
    vs_explore(false); memset(OPS, 0, sizeof OPS); nrest = 0;
    cli_start(maxmsg, 0, 2); if (!maxmsg) maxmsg = 2048; /* the default */
    act_do((struct act){ A_CALL, 1, 1, 5 }); settle_ops();
    vs_explore(true);
    (void)pkt;
    static const uint32_t X[] = { 0x7fffffffu, 0x80000000u, 0xffffffffu, 0xfffffff5u, 0x10000u, 0x1000u };
    int li = vs_choose(maxmsg + 20 + 6, "length"); uint32_t len = li < maxmsg + 20 ? (uint32_t)li : X[li - maxmsg - 20];
    int type = vs_choose(5, "type"), who = vs_choose(5, "addressee"), data = vs_choose(3, "data"), block = vs_choose(2, "blocking");
    static const uint8_t S[] = { 1, 9, 0, 0, 2 }, A[] = { 64, 1, 2, 9, 0 };
    uint8_t m[8192]; memset(m, 0x5a, sizeof m);
    bool ok = len >= HDR && len <= (uint32_t)maxmsg;
    uint32_t body = ok ? len : data == 0 ? HDR : data == 1 ? 40 : 4000;
    if (ok && data) { vs_assume(data == 1); if (len > HDR) body = len - 1; }      /* one byte missing */
    bool complete = ok && body == len;
    whdr(m, who == 4 ? 4242 : CA[0].id, len, S[who], A[who], type == 4 ? 7 : (uint8_t)type); if (type == 4) type = T_RESPONSE; /* only the low bits are the type */
    if (len >= HDR + 2) w16(m + HDR, 900);
    for (uint32_t i = 0; i + HDR + 2 < 8000; i++) m[HDR + 2 + i] = patt(900 + (type == T_EVENT ? 2000u : 1000u), i);
    if (who == 2 && type == T_EVENT && len >= HDR + 4) w32(m + HDR, CA[0].id);
    vs_assume(!(type == T_EVENT && len < HDR + 2 && ok && (who == 0 || who == 4)));   /* the callbacks of the test need a tag */
    vs_trace("the server sends %u bytes announcing %u, type %d, %d/%d", body, len, type, S[who], A[who]);
    srv_send(m, body);
    bool isev = type == T_EVENT, evok = complete && isev && (who == 0 || who == 4), resp = complete && type == T_RESPONSE && who != 4, errn = complete && isev && who == 2 && len >= HDR + 8;
    bool blocking = block && (!ok || evok || resp);
    errno = 0;
    int r = gracht_client_wait_message(CL, NULL, blocking ? GRACHT_MESSAGE_BLOCK : 0), er = errno;
    vs_trace("waiting returns %d (errno %d)", r, er);
    if (!ok) VS_CHECK(r == -1 || (len < HDR && 0), "an impossible message is received");
    if (ok && !complete) VS_CHECK(r == -1 && nG == 0, "a message is handled before it has arrived");
    if (evok) { VS_CHECK(r == 0 && nG == 1, "a well-formed event of %u bytes is not accepted (%d)", len, r); VS_CHECK(EVG[0].n == len - HDR - 2, "event of %u bytes arrives with %u", len, EVG[0].n); }
    else VS_CHECK(nG == 0, "a callback runs for a message that is not for it");
    uint8_t out[8192]; uint32_t n = 0;
    if (resp) {
        VS_CHECK(r == 0, "a well-formed response of %u bytes is not accepted (%d)", len, r);
        int s = cut_result(CL, CA[0].ctx, out, sizeof out, &n); VS_CHECK(s == GRACHT_MESSAGE_COMPLETED && n == len - HDR && !memcmp(out, m + HDR, n), "a well-formed response of %u bytes arrives damaged (status %d, %u bytes)", len, s, n);
    } else if (errn) { VS_CHECK(r == 0, "a well-formed error notification is not accepted"); VS_CHECK(cut_result(CL, CA[0].ctx, out, sizeof out, &n) == GRACHT_MESSAGE_ERROR, "an error notification does not end its call"); }
    else VS_CHECK(cut_result(CL, CA[0].ctx, out, sizeof out, &n) == GRACHT_MESSAGE_INPROGRESS, "a message that is no answer ends a call");
    if (complete) { /* the stream is still in step: an event is received next */
        nG = nX = 0; struct act e = { A_EVENT, 1, 65, 2 }; nM = pos = 0; act_do(e); r = gracht_client_wait_message(CL, NULL, GRACHT_MESSAGE_BLOCK);
        VS_CHECK(r == 0 && nG == 1 && EVG[0].eid == 65, "the next event is not received (%d)", r);
    } else if (!ok) { for (int i = 0; i < 3; i++) { r = gracht_client_wait_message(CL, NULL, i == 1 ? GRACHT_MESSAGE_BLOCK : 0); VS_CHECK(r == -1 && nG == 0, "after an impossible message something is received"); } }
    cli_end();
}
/* ------------------------------------------------------------------------------------------------ memory ---- */
static int hold_all(bool check) { /* how many unfetched responses can be held at once; all are fetched again */
    int k = 0, c[32];
    while (k < 24) {
        struct act a = { A_CALL, 1, 1, 3 };
        act_do(a); c[k] = nC - 1; act_do((struct act){ A_RESP, c[k], 3, 0 });
        errno = 0; int r = gracht_client_wait_message(CL, CA[c[k]].ctx, k & 1 ? 0 : GRACHT_MESSAGE_BLOCK);
        if (r) { VS_CHECK(errno == ENOMEM || check, "receiving fails (errno %d)", errno); break; }
        ref_step(); k++;
    }
    VS_CHECK(k < 24, "vs-internal: receive memory too large for this scenario");
    for (int i = 0; i < k; i++) act_do((struct act){ A_RESULT, c[(i * 7) % k == i ? i : i], 0, 0 });
    /* the one that did not fit is received now */
    act_do((struct act){ A_WAITNBC, c[k], 0, 0 }); act_do((struct act){ A_RESULT, c[k], 0, 0 });
    return k;
}
VS_SCENARIO(cli_mem) { /* after any sequence of messages and fetches the client can hold as many responses as in the beginning */
    int ops = (int)vs_param("ops", A_CALL | A_RESP | A_DUP | A_UNSOL | A_ERR | A_ERRX | A_EVENT | A_EVUNK | A_ODD | A_WAITNB | A_RESULT), depth = (int)vs_param("depth", 4);
    struct act A[128];
    vs_explore(false); memset(OPS, 0, sizeof OPS); nrest = 0;
    cli_start((int)vs_param("maxmsg", 64), (int)vs_param("rbuf", 330), 2);
    int cap = hold_all(false);
    VS_CHECK(cap >= 1, "a new client can not receive at all");
    int base = nC; 
    vs_explore(true);
    for (int i = 0; i < base; i++) CA[i].live = false;
    for (int d = 0; d < depth; d++) {
        int n = act_list(A, ops, base + (int)vs_param("calls", 2));
        if (!n) break;
        act_do(A[vs_choose(n, "action")]); settle_ops();
    }
    finish();
    if (!conn) { int now = hold_all(false); VS_CHECK(now == cap, "the client can hold %d responses where it could hold %d before: receive memory is lost", now, cap); }
    cli_end();
}
static bool try_fetch(int j) {
    uint8_t out[512]; uint32_t n = 0;
    if (CA[j].state == FETCHED) return false;
    int s = cut_result(CL, CA[j].ctx, out, sizeof out, &n);
    VS_CHECK(s >= 0, "the result of call %d is an error", j);
    if (s != GRACHT_MESSAGE_COMPLETED) return false;
    check_values(j, out, n); CA[j].state = FETCHED; vs_trace("fetched the result of call %d", j); return true;
}
VS_SCENARIO(cli_full) { /* out of receive memory: the wait fails, nothing is lost, and fetching any result makes room again */
    vs_explore(false); memset(OPS, 0, sizeof OPS); nrest = 0;
    cli_start((int)vs_param("maxmsg", 64), (int)vs_param("rbuf", 240), 2);
    int total = (int)vs_param("total", 6), left = total, nomem = 0, ev = 0;
    for (int i = 0; i < total; i++) { act_do((struct act){ A_CALL, 1, 1, 3 }); settle_ops(); }
    vs_explore(true);
    int evat = vs_choose(total + 1, "event at"), how = vs_choose(4, "waiting"), first = vs_choose(3, "fetch from");
    for (int i = 0; i < total; i++) {
        if (i == evat) { act_do((struct act){ A_EVENT, 1, 64, 3 }); ev = 1; }
        int idx[16], n = 0; for (int j = 0; j < nC; j++) if (!CA[j].answered) idx[n++] = j;
        act_do((struct act){ A_RESP, idx[i < 2 ? vs_choose(n, "order") : n - 1], 2 + 3 * (i & 1), 0 });
    }
    for (int guard = 0; left; guard++) {
        VS_CHECK(guard < 60, "receiving does not go on although results are being fetched");
        int i; for (i = 0; CA[i].state == FETCHED; i++) {}
        struct gracht_message_context* cx[16]; int nx = 0; for (int j = 0; j < nC; j++) if (CA[j].state != FETCHED) cx[nx++] = CA[j].ctx;
        errno = 0;
        int r = how == 0 ? gracht_client_wait_message(CL, NULL, 0) : how == 1 ? gracht_client_wait_message(CL, CA[i].ctx, GRACHT_MESSAGE_BLOCK) : gracht_client_await_multiple(CL, cx, nx, how == 2 ? GRACHT_AWAIT_ALL : GRACHT_AWAIT_ANY), er = errno;
        vs_trace("waiting returns %d (errno %d)", r, er);
        if (!r) {
            if (how == 1) { VS_CHECK(try_fetch(i), "call %d was waited for but has no result", i); left--; }
            if (how == 2) for (int j = 0; j < nC; j++) if (CA[j].state != FETCHED) { VS_CHECK(try_fetch(j), "call %d was awaited but has no result", j); left--; }
            if (how == 3) { int g = 0; for (int j = 0; j < nC && !g; j++) g += try_fetch(j); VS_CHECK(g, "await for any call returns although none has a result"); left--; }
            continue;
        }
        if (how == 0 && er == EAGAIN) { for (int j = 0; j < nC; j++) left -= try_fetch(j); VS_CHECK(!left, "the client has received everything, but %d results are missing", left); continue; }
        VS_CHECK(r == -1 && er == ENOMEM, "waiting fails with errno %d", er);
        nomem++;
        int got = 0; for (int k = 0; k < nC && !got; k++) got += try_fetch((k + first * 2) % nC);
        VS_CHECK(got, "the client has no receive memory left although it holds no response");
        left--;
    }
    while (!gracht_client_wait_message(CL, NULL, 0)) {}
    VS_CHECK(nG == ev, "the event callback ran %d times", nG);
    vs_count("out_of_memory", nomem);
    cli_end();
}
/* ------------------------------------------------------------------------------------------------ registration ---- */
VS_SCENARIO(cli_regs) { /* every event id is delivered exactly while registered, for any number of registered protocols */
    vs_explore(false); memset(OPS, 0, sizeof OPS); nrest = 0;
    cli_start(128, 2048, 0);
    vs_explore(true);
    int n = (int)vs_param("n", 254), order = vs_choose(3, "order"), drop = vs_choose(4, "unregister");
    for (int k = 0; k < n; k++) { int id = order == 0 ? 1 + k : order == 1 ? 254 - k : 1 + (k * 89) % 254; VS_CHECK(!cut_register_many(CL, id), "registering protocol %d fails", id); }
    bool on[256] = { 0 }; for (int k = 0; k < n; k++) on[order == 0 ? 1 + k : order == 1 ? 254 - k : 1 + (k * 89) % 254] = true;
    for (int id = 1; id < 255; id++) if (on[id] && (drop == 1 ? id % 2 : drop == 2 ? id % 16 == 3 : drop == 3 ? id != 200 : 0)) { cut_unregister_many(CL, id); on[id] = false; }
    for (int id = 1; id < 256; id++) for (int e = 77; e < 79; e++) {
        uint8_t m[64]; size_t k = b_event(m, id, e, (uint16_t)id, 4); nG = 0;
        srv_send(m, k);
        while (!gracht_client_wait_message(CL, NULL, 0)) {}
        bool want = on[id] && e == 77;
        VS_CHECK(nG == want, "event %d/%d ran %d callbacks although its protocol is %sregistered", id, e, nG, on[id] ? "" : "not ");
        if (want) VS_CHECK(EVG[0].sid == id && EVG[0].tag == id, "event %d reached the callback of %d", id, EVG[0].sid);
    }
    nG = 0; cli_end();
}
int cut_register_events(gracht_client_t* c, const int* ids, int n);
VS_SCENARIO(cli_funcs) { /* events listed in any order: each id reaches its own callback */
    int ids[5] = { 1, 2, 9, 128, 255 }; static const int odd[] = { 0, 3, 8, 10, 127, 129, 254 };
    vs_explore(false); memset(OPS, 0, sizeof OPS); nrest = 0;
    cli_start(128, 2048, 0);
    int n = 1 + vs_choose(5, "events"), skip = vs_choose(6 - n, "first");
    for (int i = 0; i < n; i++) ids[i] = ids[i + skip];
    for (int i = 0; i < n - 1; i++) { int k = i + vs_choose(n - i, "order"), t = ids[i]; ids[i] = ids[k]; ids[k] = t; }
    VS_CHECK(!cut_register_events(CL, ids, n), "registering fails");
    for (int i = 0; i < n + 7; i++) {
        int id = i < n ? ids[i] : odd[i - n]; uint8_t m[64]; size_t k = b_event(m, 41, id, (uint16_t)id, 4); nG = 0;
        srv_send(m, k);
        while (!gracht_client_wait_message(CL, NULL, 0)) {}
        VS_CHECK(nG == (i < n), "event %d ran %d callbacks", id, nG);
        if (i < n) VS_CHECK(EVG[0].sid == 41 && EVG[0].eid == id, "event %d reached the callback of %d", id, EVG[0].eid);
    }
    nG = 0; cli_end();
}
VS_SCENARIO(cli_fmany) { /* services of up to 255 events */
    static const int N[] = { 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 200, 254, 255 }; int ids[255]; bool on[256] = { 0 };
    vs_explore(false); vs_long(2000000); memset(OPS, 0, sizeof OPS); nrest = 0;
    cli_start(128, 2048, 0);
    int n = N[vs_choose(15, "events")], order = vs_choose(3, "order"), from = n == 255 ? 0 : vs_choose(2, "high ids") ? 255 - n : 0;
    for (int k = 0; k < n; k++) { ids[k] = 1 + from + (order == 0 ? k : order == 1 ? n - 1 - k : (k * 89) % n); on[ids[k]] = true; }
    VS_CHECK(!cut_register_events(CL, ids, n), "registering fails");
    for (int id = 0; id < 256; id++) {
        uint8_t m[64]; size_t k = b_event(m, 41, id, (uint16_t)(id + 300), 4); nG = 0;
        srv_send(m, k);
        while (!gracht_client_wait_message(CL, NULL, 0)) {}
        VS_CHECK(nG == on[id], "event %d ran %d callbacks", id, nG);
        if (on[id]) VS_CHECK(EVG[0].sid == 41 && EVG[0].eid == id && EVG[0].tag == id + 300, "event %d reached the callback of %d", id, EVG[0].eid);
    }
    nG = 0; cli_end();
}
/* ------------------------------------------------------------------------------------------------ set-up and end ---- */
VS_SCENARIO(cli_life) { /* shutdown at any stage, and connections that fail: everything is released once */
    cmodel_reset();
    int stage = vs_choose(6, "stage"), sendbuf = vs_choose(2, "own send buffer");
    if (stage && stage != 5) LS = sim_raw_listen(ADDR);
    gracht_client_configuration_t c; uint8_t* sb = vs_guarded_alloc(256);
    gracht_client_configuration_init(&c);
    struct gracht_link* l = mk_clink(gracht_link_stream_based, AF_UNIX, ADDR);
    gracht_client_configuration_set_link(&c, l); gracht_client_configuration_set_max_msg_size(&c, 128);
    if (sendbuf) gracht_client_configuration_set_send_buffer(&c, sb);
    CL = NULL;
    int r = gracht_client_create(&c, &CL);
    VS_CHECK(!r, "client creation fails");
    if (stage == 4) { gracht_client_shutdown(CL); goto out; }
    if (stage == 5) { VS_CHECK(gracht_client_connect(CL) == -1, "connecting to nobody succeeds"); LS = sim_raw_listen(ADDR); } /* and later, once there is a server */
    errno = 0; r = gracht_client_connect(CL);
    if (!stage) { VS_CHECK(r == -1, "connecting to nobody succeeds"); VS_CHECK(gracht_client_iod(CL) == GRACHT_CONN_INVALID, "a client that is not connected has a descriptor"); gracht_client_shutdown(CL); goto out; }
    VS_CHECK(!r, "connect fails"); SS = sim_raw_accept(LS);
    VS_CHECK(sim_fd_open(gracht_client_iod(CL)), "iod is not the connection");
    VS_CHECK(gracht_client_connect(CL) == -1, "connecting twice succeeds");
    if (stage >= 2) {
        int i = new_call(1, 1, T_SYNC, 3); CA[i].live = true; VS_CHECK(!cut_call(CL, CA[i].ctx, 1, 1, T_SYNC, CA[i].tag, 3), "call fails"); srv_check_requests();
        if (stage == 3) { answer(i, 3); srv_send(OUT, nOUT); VS_CHECK(!gracht_client_wait_message(CL, CA[i].ctx, GRACHT_MESSAGE_BLOCK), "wait fails"); srv_send(OUT, 5); gracht_client_wait_message(CL, NULL, 0); }
    }
    gracht_client_shutdown(CL);
    VS_CHECK(sim_raw_eof(SS), "the connection is still open after shutdown");
out:
    vs_check_no_leaks("after client shutdown");
    VS_CHECK(sim_open_fds() == 0, "%d descriptors are still open after client shutdown", sim_open_fds());
    VS_CHECK(sim_ctr("close_bad") == 0, "a descriptor was closed twice");
    vs_guarded_free(sb);
}
/* ------------------------------------------------------------------------------------------------ packets ---- */
static void dg_start(int dom, int maxmsg) {
    cmodel_reset(); dgram = true;
    static const char* PA[] = { "/srv", "inet:a", "inet6:a" }; static const int D[] = { AF_UNIX, AF_INET, AF_INET6 };
    SS = sim_raw_dgram(PA[dom], 0);
    cli_create(gracht_link_packet_based, D[dom], PA[dom], maxmsg, 0);
    VS_CHECK(!gracht_client_connect(CL), "connect fails");
    reg(0, true); reg(1, true);
}
static void dg_send_(const uint8_t* m, size_t n) { VS_CHECK(sim_raw_reply(SS, m, n) >= 0, "the client can not be answered"); }
VS_SCENARIO(cli_pkt) { /* datagrams of every kind, in every order, between a call and its answer */
    int depth = (int)vs_param("depth", 3), maxmsg = 64;
    dg_start((int)vs_param("dom", 0), maxmsg);
    int i = new_call(1, 1, T_SYNC, 5); CA[i].live = true; VS_CHECK(!cut_call(CL, CA[i].ctx, 1, 1, T_SYNC, CA[i].tag, 5), "call fails");
    srv_check_requests(); VS_CHECK(CA[i].got, "the call did not reach the server");
    bool ans = false; int evs = 0; uint8_t m[4096]; size_t k; int how = vs_choose(3, "waiting");
    for (int d = 0; d < depth; d++) {
        int a = vs_choose(10, "datagram"); memset(m, 0x33, sizeof m);
        switch (a) {
        case 0: if (ans) vs_assume(false); answer(i, 7); dg_send_(OUT, nOUT); ans = true; break;
        case 1: k = b_event(m, 1, 64, ev_tag++, 4); dg_send_(m, k); evs++; break;
        case 2: k = b_event(m, 9, 64, ev_tag++, 4); dg_send_(m, k); break;
        case 3: k = b_event(m, 1, 64, ev_tag++, 4); w32(m + 4, (uint32_t)k + 1); dg_send_(m, k); break;       /* announces more */
        case 4: k = b_event(m, 1, 64, ev_tag++, 4); w32(m + 4, (uint32_t)k - 1); dg_send_(m, k); break;       /* announces less */
        case 5: dg_send_(m, 1 + (size_t)vs_choose(10, "size")); break;                                        /* shorter than a header */
        case 6: k = b_event(m, 1, 64, ev_tag++, (uint32_t)(maxmsg - HDR - 2)); dg_send_(m, k); evs++; break;   /* exactly the maximum */
        case 7: k = b_event(m, 1, 64, ev_tag++, (uint32_t)(maxmsg - HDR - 1 + vs_choose(3, "more"))); dg_send_(m, k); break; /* too long */
        case 8: k = b_resp_id(m, 4711, 1, 1, 1, 2); dg_send_(m, k); break;
        case 9: whdr(m, 0, HDR, 1, 65, T_EVENT); dg_send_(m, HDR); evs++; break;                               /* no parameters */
        }
        if (how == 0) { int g = 0; while (!gracht_client_wait_message(CL, NULL, 0)) VS_CHECK(++g < 20, "more messages than were sent"); VS_CHECK(nG == evs, "%d event callbacks ran for %d events", nG, evs); }
    }
    if (!ans) { answer(i, 7); dg_send_(OUT, nOUT); }
    int r = how == 2 ? gracht_client_await(CL, CA[i].ctx, GRACHT_AWAIT_ALL) : gracht_client_wait_message(CL, CA[i].ctx, how ? GRACHT_MESSAGE_BLOCK : 0);
    VS_CHECK(!r, "waiting for the answer fails (%d)", r);
    VS_CHECK(try_fetch(i), "the answer can not be fetched");
    while (!gracht_client_wait_message(CL, NULL, 0)) {}
    VS_CHECK(nG == evs, "%d event callbacks ran for %d events", nG, evs);
    cli_end();
}

static int aw_ret; static int aw_main(void* a) { aw_ret = gracht_client_await(CL, CA[(int)(long)a].ctx, GRACHT_AWAIT_ASYNC); vs_trace("the asynchronous wait returns %d", aw_ret); return 0; }
VS_SCENARIO(cli_pktlost) { /* an empty datagram ends a wait, not the connection: what arrives later counts again */
    uint8_t m[256]; memset(m, 0x33, sizeof m);
    vs_explore(false); dg_start((int)vs_param("dom", 1), 64); vs_explore(true);
    int i = new_call(1, 1, T_SYNC, 5); CA[i].live = true; VS_CHECK(!cut_call(CL, CA[i].ctx, 1, 1, T_SYNC, CA[i].tag, 5), "call fails");
    srv_check_requests();
    int n = vs_choose(3, "empty datagrams"), what = vs_choose(4, "then"), early = vs_choose(2, "waiting from the start"), t = -1; size_t k; int evs = 0;
    vs_assume(!early || !n);
    if (early) { t = vs_spawn("waiter", aw_main, (void*)(long)i, false); vs_wait_quiescent(); }
    for (int j = 0; j < n; j++) { dg_send_(m, 0); int r = gracht_client_wait_message(CL, NULL, 0); VS_CHECK(r == -1, "an empty datagram counts as a message"); }
    VS_CHECK(status_of(i) == 0, "the call was decided by an empty datagram");
    if (what == 0) { k = b_event(m, 1, 64, ev_tag++, 4); evs++; } else if (what == 1) k = b_event(m, 9, 64, ev_tag++, 4); else k = b_resp_id(m, 4711, 1, 1, 1, 2);
    if (what < 3) dg_send_(m, k);
    int r = gracht_client_wait_message(CL, NULL, 0); VS_CHECK(what == 3 ? r == -1 : what ? 1 : r == 0, "the event that follows is not received");
    VS_CHECK(nG == evs, "%d event callbacks ran for %d events", nG, evs);
    if (!early) { t = vs_spawn("waiter", aw_main, (void*)(long)i, false); }
    vs_wait_quiescent(); VS_CHECK(!vs_finished(t), "waiting asynchronously ends (%d) before the answer is there", aw_ret);
    answer(i, 7); dg_send_(OUT, nOUT);
    r = gracht_client_wait_message(CL, NULL, 0); VS_CHECK(!r, "the answer is not received");
    vs_join(t); VS_CHECK(aw_ret == 0, "waiting asynchronously for a call that was answered returns %d", aw_ret);
    VS_CHECK(try_fetch(i), "the answer can not be fetched");
    cli_end();
}
/* ---- what calling returns is true ---- */
static int ct_st[3], ct_n, ct_calls, ct_first; static bool ct_bare;   /* bare: without a place to keep an answer, for calls that have none */
static int ct_caller(void* a) { (void)a; for (int i = 0; i < ct_calls; i++) { int c = ct_first + i; ct_st[i] = cut_call(CL, ct_bare ? NULL : CA[c].ctx, 1, 1, CA[c].type, CA[c].tag, CA[c].n); ct_n++; } return 0; }
static int ct_other(void* a) { int c = (int)(long)a; ct_st[ct_n] = cut_call(CL, ct_bare ? NULL : CA[c].ctx, 1, 1, CA[c].type, CA[c].tag, CA[c].n); ct_n++; return 0; }
VS_SCENARIO(cli_truth) { /* the connection takes any number of bytes, the server reads some and goes: a call succeeds exactly if all of it was taken */
    static const int C[] = { 1, 4, 10, 11, 12, 22, 32, 33, 34, 55, 65, 66, 67, 100, 200 }, RD[] = { 0, 1, 10, 11, 12, 32, 33, 34, 66 }; static uint8_t b[1024];
    vs_explore(false); memset(OPS, 0, sizeof OPS); nrest = 0; ct_n = 0; size_t acc = 0, want = 33;
    vs_explore(true);
    int cap = C[vs_choose(15, "capacity")], rd = RD[vs_choose(9, "read")], how = vs_choose(3, "then"), kind = vs_choose(3, "type"), type = kind == 1 ? T_SYNC : T_ASYNC; ct_bare = kind == 2; ct_calls = 1 + vs_choose(3, "calls"); bool apart = ct_calls == 2 && vs_choose(2, "by two threads");
    vs_explore(vs_param("sched", 0) != 0);
    sim_set_capacity((size_t)cap); cli_start(128, 2048, 1);
    ct_first = nC; for (int i = 0; i < ct_calls; i++) new_call(1, 1, type, 20);
    if (apart) for (int i = 0; i < 2; i++) vs_spawn("caller", ct_other, (void*)(long)(ct_first + i), true); else vs_spawn("caller", ct_caller, NULL, true);
    vs_wait_quiescent();
    for (size_t got = 0; got < (size_t)rd;) { size_t g = sim_raw_recv(SS, b, (size_t)rd - got); if (!g) break; got += g; acc += g; vs_wait_quiescent(); }
    if (how == 2) { for (size_t g; (g = sim_raw_recv(SS, b, 7)); acc += g, vs_wait_quiescent()) { } }
    else { acc += sim_raw_avail(SS); vs_trace("the server, to which %zu bytes were sent, goes", acc); if (how == 0) sim_raw_close(SS); else sim_raw_reset(SS); }
    vs_wait_quiescent();
    VS_CHECK(ct_n == ct_calls, "%d of %d calls returned", ct_n, ct_calls);
    size_t good = 0; for (int i = 0; i < ct_n; i++) good += !ct_st[i];
    vs_trace("%zu of %d calls succeed, %zu bytes were taken", good, ct_calls, acc);
    VS_CHECK(good == acc / want, "%zu calls of %zu bytes succeed, but the connection took %zu bytes", good, want, acc);
    if (how == 2) VS_CHECK((int)good == ct_calls, "a call over a working connection fails");
    else {
        VS_CHECK(gracht_client_wait_message(CL, NULL, GRACHT_MESSAGE_BLOCK) == -1, "waiting succeeds although the server is gone");
        uint32_t n = 0; int c = new_call(1, 1, type, 4), r = cut_call(CL, ct_bare ? NULL : CA[c].ctx, 1, 1, type, CA[c].tag, 4);
        VS_CHECK(r != 0, "a call succeeds although the server is gone");
        for (int i = ct_first; type == T_SYNC && i < nC; i++) { int st = cut_result(CL, CA[i].ctx, b, sizeof b, &n); VS_CHECK(st != GRACHT_MESSAGE_COMPLETED, "a call that nobody answered has a result"); }
    }
    cli_end();
}
VS_SCENARIO(cli_maldg) { /* every announced length x every actual length around the limits, by datagram */
    int maxmsg = 48, hi = maxmsg + 6;
    dg_start((int)vs_param("dom", 1), maxmsg);
    int i = new_call(1, 1, T_SYNC, 5); CA[i].live = true; VS_CHECK(!cut_call(CL, CA[i].ctx, 1, 1, T_SYNC, CA[i].tag, 5), "call fails"); srv_check_requests();
    static const uint32_t X[] = { 0x7fffffffu, 0x80000000u, 0xffffffffu, 0xfffffff5u };
    int real = vs_choose(hi, "size"), ai = vs_choose(hi + 4, "announced"), kind = vs_choose(3, "kind");
    uint32_t ann = ai < hi ? (uint32_t)ai : X[ai - hi];
    uint8_t m[256]; memset(m, 0x44, sizeof m);
    if (kind == 0) b_event(m, 1, 64, 900, 100); else if (kind == 1) b_resp_id(m, CA[i].id, 1, 1, 901, 100); else { b_err(m, CA[i].id); }
    w32(m + 4, ann);
    dg_send_(m, (size_t)real);
    bool good = (uint32_t)real == ann && real >= HDR && real <= maxmsg;
    if (good && kind == 0) vs_assume(real == HDR || real >= HDR + 2);
    vs_assume(!(real > maxmsg && ann == (uint32_t)maxmsg));   /* cut to the announced length by the receiving socket: may be taken */
    errno = 0; int r = gracht_client_wait_message(CL, NULL, 0);
    vs_trace("a datagram of %d bytes announcing %u: waiting returns %d", real, ann, r);
    uint8_t out[256]; uint32_t n = 0; int st;
    bool ev = good && kind == 0, resp = good && kind == 1, er = good && kind == 2 && real >= HDR + 8;
    VS_CHECK(nG == ev, "event callback ran %d times for a datagram of %d bytes announcing %u", nG, real, ann);
    if (ev) VS_CHECK(EVG[0].n == (real == HDR ? 0 : (uint32_t)real - HDR - 2), "event of %d bytes arrives with %u", real, EVG[0].n);
    if (kind != 2 || er || !good) VS_CHECK((r == 0) == (ev || resp || er), "waiting returns %d", r); /* an error notification without parameters is ignored or refused */
    st = cut_result(CL, CA[i].ctx, out, sizeof out, &n);
    VS_CHECK(st == (resp ? GRACHT_MESSAGE_COMPLETED : er ? GRACHT_MESSAGE_ERROR : GRACHT_MESSAGE_INPROGRESS), "the call has status %d", st);
    if (resp) VS_CHECK(n == (uint32_t)real - HDR && !memcmp(out, m + HDR, n), "the response arrives damaged");
    uint8_t e[64]; size_t k = b_event(e, 1, 65, 77, 4); nG = 0; dg_send_(e, k);
    VS_CHECK(gracht_client_wait_message(CL, NULL, 0) == 0 && nG == 1 && EVG[0].tag == 77, "the next event is not received");
    nG = 0; cli_end();
}
