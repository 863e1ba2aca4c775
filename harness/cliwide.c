/* Client side: the far ends of the dimensions the other scenarios keep small (sizes, message ids, numbers of messages). */
#define SRX 300000
#define OUTX 300000
#include "cli.h"
static uint8_t RES[300000];
static void ask(int i) { /* make call i (again) and see it arrive */
    struct call* c = &CA[i];
    c->id = 0; c->got = false; c->state = INPROG; c->answered = false; c->live = true;
    VS_CHECK(!cut_call(CL, c->type == T_SYNC ? c->ctx : NULL, c->sid, c->aid, c->type, c->tag, c->n), "making a call fails (errno %d)", errno);
    srv_check_requests(); VS_CHECK(c->got, "a call did not reach the server");
}
static void say(int i, uint32_t n) {
    struct call* c = &CA[i]; if (resp_tag > 60000) resp_tag = 500;
    c->answered = true; c->rtag = resp_tag++; c->rn = n; nOUT = b_resp_id(OUT, c->id, c->sid, c->aid, c->rtag, n);
}
static void get(int i) {
    uint32_t n = 0; int st = cut_result(CL, CA[i].ctx, RES, sizeof RES, &n);
    VS_CHECK(st == GRACHT_MESSAGE_COMPLETED, "fetching the result of an answered call gives status %d", st);
    check_values(i, RES, n); CA[i].state = FETCHED;
    CA[i].id = 0; CA[i].got = CA[i].live = false;
}
static void wt(int i, int how, const char* what) {
    int r = how == 0 ? gracht_client_wait_message(CL, CA[i].ctx, GRACHT_MESSAGE_BLOCK) : how == 1 ? gracht_client_await(CL, CA[i].ctx, GRACHT_AWAIT_ANY) : gracht_client_wait_message(CL, NULL, 0);
    VS_CHECK(!r, "%s fails (errno %d)", what, errno);
}
/* as many messages as it takes to wrap any 16-bit counter; the memory must not wear out */
VS_SCENARIO(cli_long) {
    int total = (int)vs_param("total", 66200); size_t warm = 0;
    vs_explore(false); vs_long(400000000);
    cli_start(128, (int)vs_param("rbuf", 1500), 1);
    int kind = vs_choose(7, "kind"), w = kind == 2 || kind == 6 ? 4 : 1, before = 0;
    for (int i = 0; i < 5; i++) new_call(1, 1 + i % 2, T_SYNC, 3 + (uint32_t)i);
    if (kind == 5) { before = 1; ask(4); } /* this one stays open all the time */
    CA[3].type = kind == 4 ? T_ASYNC : T_SYNC;
    for (int t = 0; t < total; t += w) {
        if (kind == 3) { /* events */
            nOUT = b_event(OUT, 1, 64, (uint16_t)t, 9); srv_send(OUT, nOUT); nG = 0; wt(0, 2, "taking in an event");
            VS_CHECK(nG == 1 && EVG[0].tag == (uint16_t)t && EVG[0].n == 9, "event number %d did not reach its callback", t); nG = 0;
        } else if (kind == 4) { ask(3); CA[3].id = 0; CA[3].got = false; }
        else if (kind == 1) {
            ask(0); nOUT = b_err(OUT, CA[0].id); srv_send(OUT, nOUT); wt(0, t & 1, "waiting for a refused call");
            uint32_t n; int st = cut_result(CL, CA[0].ctx, RES, sizeof RES, &n); VS_CHECK(st == GRACHT_MESSAGE_ERROR, "the status of refused call number %d is %d", t, st); CA[0].id = 0; CA[0].got = CA[0].live = false;
        } else if (w == 1) { ask(0); say(0, 4 + (uint32_t)t % 40); srv_send(OUT, nOUT); wt(0, t & 1, "waiting for an answered call"); get(0); }
        else { /* several at a time, answered and fetched in changing orders */
            for (int i = 0; i < w; i++) ask(i);
            for (int i = 0; i < w; i++) { int j = (t / w + i * 3) % w; say(j, 4 + (uint32_t)i); srv_send(OUT, nOUT); }
            if (kind == 2) for (int i = 0; i < w; i++) wt(i, 2, "taking in a response");
            for (int i = 0; i < w; i++) { int j = (t / 16 + i) % w; if (kind == 6) wt(j, t / 16 & 1, "waiting for an answered call"); get(j); }
        }
        if (t == 64) warm = vs_live_allocs();
        if (t > 64) VS_CHECK(vs_live_allocs() <= warm, "the client holds %zu allocations after %d messages, %zu after 64", vs_live_allocs(), t, warm);
    }
    if (before) { say(4, 7); srv_send(OUT, nOUT); wt(4, 0, "waiting for the first call"); get(4); }
    cli_end();
}
/* messages of every size in both directions, up to a large configured maximum */
VS_SCENARIO(cli_big) {
    int maxmsg = (int)vs_param("maxmsg", 70000);
    static const int L[] = { 0, 1, 115, 116, 117, 240, 241, 242, 243, 244, 245, 500, 2034, 2035, 2036, 4083, 4084, 16000, 32753, 32754, 32755, 32756, 65521, 65522, 65523, 65524, 65525, 69000 };
    vs_explore(false); vs_long(2000000);
    sim_set_capacity(1u << 18);
    cli_start(maxmsg, (int)vs_param("rbuf", 4 * maxmsg), 1);
    int c = vs_choose((int)(sizeof L / sizeof *L) + 3, "size"), N = (int)(sizeof L / sizeof *L);
    uint32_t n = c < N ? (uint32_t)L[c] : (uint32_t)(maxmsg - HDR - 2 - (c - N));
    vs_assume(n + HDR + 2 <= (uint32_t)maxmsg);
    int kind = vs_choose(3, "kind"), cut = vs_choose(6, "cut"), how = vs_choose(3, "how");
    int i = new_call(1, 1, T_SYNC, kind == 0 ? n : 6), j = new_call(1, 2, T_SYNC, 9); CA[i].live = CA[j].live = true;
    vs_trace("%s of %u bytes", kind == 0 ? "a request" : kind == 1 ? "a response" : "an event", n + HDR + 2);
    ask(i); ask(j); size_t l = 0;
    if (kind == 2) { nOUT = b_event(OUT, 1, 64, 77, n); l = nOUT; }
    CA[i].answered = true; CA[i].rtag = 600; CA[i].rn = kind == 1 ? n : 5; l += b_resp_id(OUT + l, CA[i].id, CA[i].sid, CA[i].aid, 600, CA[i].rn);
    CA[j].answered = true; CA[j].rtag = 601; CA[j].rn = 8; l += b_resp_id(OUT + l, CA[j].id, CA[j].sid, CA[j].aid, 601, 8);
    size_t first = cut == 0 ? l : cut == 1 ? 5 : cut == 2 ? HDR : cut == 3 ? HDR + 1 : cut == 4 ? l / 2 : HDR + 2 + n < l ? HDR + 2 + n : l - 1;
    srv_send(OUT, first);
    if (first < l) { gracht_client_wait_message(CL, NULL, 0); srv_send(OUT + first, l - first); }
    if (how == 2) for (int t = 0; t < 3 + (kind == 2); t++) gracht_client_wait_message(CL, NULL, 0); else { wt(j, how, "waiting for the second of two answered calls"); wt(i, how, "waiting for the first of two answered calls"); }
    if (kind == 2) { VS_CHECK(nG == 1, "the callback of an event of %u bytes ran %d times", n + HDR + 2, nG); VS_CHECK(EVG[0].tag == 77 && EVG[0].n == n, "an event of %u bytes arrives with %u", n, EVG[0].n); }
    else VS_CHECK(nG == 0, "an event callback ran without an event");
    get(i); get(j);
    ask(i); say(i, 3); srv_send(OUT, nOUT); wt(i, 1, "waiting for another call"); get(i);
    cli_end();
}

/* event callbacks that make calls themselves and wait for them, while the message that called them is being handled */
static int nlevel, nways[3], nmax, nfin[8], outer_how, outer_ret, outer_done, o2_ret, o2_done; static bool nlost;
static void nested(int sid, int eid) {
    (void)sid; (void)eid; if (nlevel >= nmax) return;
    int lv = nlevel++, i = 2 + lv, way = nways[lv], r;
    vs_trace("callback %d makes call %d and waits for it (way %d)", lv, i, way);
    CA[i].live = true; r = cut_call(CL, CA[i].ctx, CA[i].sid, CA[i].aid, T_SYNC, CA[i].tag, CA[i].n); VS_CHECK(!r, "making a call from an event callback fails (errno %d)", errno);
    if (way == 0) r = gracht_client_await(CL, CA[i].ctx, GRACHT_AWAIT_ANY);
    else if (way == 1) r = gracht_client_wait_message(CL, CA[i].ctx, GRACHT_MESSAGE_BLOCK);
    else { r = 0; nfin[i] = 2; vs_trace("callback %d returns without waiting", lv); return; }
    vs_trace("callback %d waited: %d", lv, r);
    VS_CHECK(nlost || !r, "waiting in an event callback fails (errno %d)", errno);
    if (!r) get(i);
    nfin[i] = 1;
}
static int outer_main(void* a) { (void)a;
    outer_ret = outer_how == 0 ? gracht_client_wait_message(CL, NULL, GRACHT_MESSAGE_BLOCK) : outer_how == 1 ? gracht_client_wait_message(CL, CA[0].ctx, GRACHT_MESSAGE_BLOCK) : gracht_client_await(CL, CA[0].ctx, GRACHT_AWAIT_ANY);
    outer_done = 1; return 0; }
static int o2_main(void* a) { (void)a; o2_ret = gracht_client_await(CL, CA[1].ctx, GRACHT_AWAIT_ANY); o2_done = 1; return 0; }
VS_SCENARIO(cli_nested) {
    int two = (int)vs_param("two", 0);
    vs_explore(false);
    cli_start(128, 4096, 3); nlevel = 0; memset(nfin, 0, sizeof nfin); nlost = false; outer_done = o2_done = 0;
    for (int i = 0; i < 4; i++) new_call(1, 1 + i % 2, T_SYNC, 3 + (uint32_t)i);
    ask(0); if (two) ask(1);
    nmax = 1 + vs_choose(2, "levels"); for (int k = 0; k < nmax; k++) nways[k] = vs_choose(3, "way"); outer_how = two ? 1 + vs_choose(2, "outer") : vs_choose(3, "outer");
    int order = vs_choose(4, "order"), end = vs_choose(3, "end"), step = vs_choose(2, "stepwise"), which = vs_choose(4, "event");
    ev_hook = nested;
    vs_explore(true);
    vs_spawn("outer", outer_main, NULL, false);
    if (two) vs_spawn("second", o2_main, NULL, false);
    for (int k = 0; k < nmax; k++) { static const int SE[][2] = { { 1, 64 }, { 2, 2 }, { 2, 0 }, { 254, 255 } }; nOUT = b_event(OUT, SE[which][0], SE[which][1], (uint16_t)(40 + k), 5); vs_trace("the server sends event %d", k); srv_send(OUT, nOUT); if (step) vs_wait_quiescent(); }
    vs_wait_quiescent(); srv_check_requests();
    /* with nobody receiving further, only what was handled so far has called back */
    int made = nlevel;
    if (end) { nlost = true; vs_trace("the connection ends"); if (end == 1) sim_raw_close(SS); else sim_raw_reset(SS); vs_wait_quiescent();
        if (outer_how || made) VS_CHECK(outer_done, "a wait does not return although the connection is lost (callbacks made %d calls)", made);
        for (int k = 0; k < made; k++) VS_CHECK(nfin[2 + k], "a wait inside an event callback does not return although the connection is lost");
        if (outer_done && outer_how && !CA[0].answered) VS_CHECK(outer_ret == -1, "a wait returns %d on a lost connection", outer_ret);
        if (two) VS_CHECK(o2_done && o2_ret == -1, "an await does not fail although the connection is lost");
        cli_end(); return; }
    int list[8], n = 0; list[n++] = 0; if (two) list[n++] = 1; for (int k = 0; k < made; k++) list[n++] = 2 + k;
    for (int k = 0; k < n; k++) {
        int i = list[order == 0 ? k : order == 1 ? n - 1 - k : order == 2 ? (k + 1) % n : (k + 2) % n];
        VS_CHECK(CA[i].got, "a call made from an event callback did not reach the server");
        say(i, 4 + (uint32_t)i); vs_trace("the server answers call %d", i); srv_send(OUT, nOUT); if (step) vs_wait_quiescent();
    }
    vs_wait_quiescent();
    for (int k = 0; k < made; k++) if (nways[k] != 2 || nfin[2 + k]) VS_CHECK(nfin[2 + k], "a wait inside an event callback does not return although its call was answered");
    VS_CHECK(outer_done && outer_ret == 0, "the wait that received the event %s", outer_done ? "fails" : "does not return");
    if (two) VS_CHECK(o2_done && o2_ret == 0, "an await does not return although its call was answered");
    ev_hook = NULL; for (int t = 0; t < 8; t++) gracht_client_wait_message(CL, NULL, 0);
    srv_check_requests(); VS_CHECK(nG == nmax, "%d event callbacks ran for %d events", nG, nmax);
    get(0); if (two) get(1);
    for (int k = 0; k < nlevel; k++) if (nfin[2 + k] == 2 && CA[2 + k].answered) get(2 + k);
    cli_end();
}
