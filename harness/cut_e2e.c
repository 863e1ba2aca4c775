/* Instrumented: an application of the generated stubs of e2.gr.  All values of a call are a function of its tag (number of
   the call * 256 + shape), so both sides know what the other side has to see; what happened is reported to the harness. */
#include "e2_s_service_client.h"
#include "e2_s_service_server.h"
#include "e2_t_service_client.h"
#include "e2_t_service_server.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
int  h_req(int fn, uint32_t tag, void* server, int client, int link);
void h_evt(void* client, int eid, uint32_t tag);
void h_bad(int where, uint32_t tag);
void h_sent(uint32_t tag, int what, int status);
int  h_full(void);

/* ---- values */
#define MAXROWS 3
struct vals { uint32_t v; int64_t w; char* s; uint8_t* d; uint32_t dn; struct e2_row r, rs[MAXROWS]; uint32_t rn; enum e2_tone e; };
static const int SL[8] = { 8, 9, 40, 8, 11, 200, 8, 63 }, DN[8] = { 0, 1, 7, 300, 4, 0, 64, 2 }, RN[8] = { 0, 1, 2, 0, 3, 1, 2, 3 };
static uint32_t len_of(uint32_t tag, int what) { int f = h_full(); return f && !what ? (uint32_t)f : (uint32_t)(what ? f ? 0 : DN[tag & 7] : SL[tag & 7]); }
static char* str_of(uint32_t tag, uint32_t n)
{
    char* s = malloc(n + 1 < 9 ? 9 : n + 1); uint32_t i;
    sprintf(s, "%08x", tag);
    for (i = 8; i < n; i++) s[i] = (char)(1 + (tag * 31 + i * 7) % 255);
    s[n] = 0;
    return s;
}
static void row_of(uint32_t tag, uint32_t k, struct e2_row* r)
{
    uint32_t i, c = k % 3 == 1 ? 0 : 1 + (tag + k) % 5;
    e2_row_init(r);
    r->k = (uint8_t)(tag + k * 3);
    r->t = str_of(tag + k, 8 + (tag + k) % 4);
    r->d_count = c;
    r->d = c ? malloc(2 * c) : NULL;
    for (i = 0; i < c; i++) r->d[i] = (uint16_t)(tag * 5 + k + i * 257);
    if ((tag + k) % 2) e2_row_v_set_uint32(r, tag + k);
    else { char* s = str_of(tag + k, 8 + k); e2_row_v_set_string(r, s); free(s); }
}
static struct vals* vals_of(uint32_t tag)
{
    struct vals* x = malloc(sizeof *x); uint32_t i;
    memset(x, 0, sizeof *x);
    x->v = tag; x->w = -(int64_t)tag * 4294967311LL; x->s = str_of(tag, len_of(tag, 0));
    x->dn = len_of(tag, 1); x->d = x->dn ? malloc(x->dn) : NULL;
    for (i = 0; i < x->dn; i++) x->d[i] = (uint8_t)(tag + i * 11);
    row_of(tag, 0, &x->r); x->rn = (uint32_t)RN[tag & 7];
    for (i = 0; i < x->rn; i++) row_of(tag, i + 1, &x->rs[i]);
    x->e = tag % 3 == 0 ? E2_TONE_low : tag % 3 == 1 ? E2_TONE_mid : E2_TONE_high;
    return x;
}
static void vals_free(struct vals* x)
{
    uint32_t i;
    free(x->s); free(x->d); e2_row_destroy(&x->r);
    for (i = 0; i < x->rn; i++) e2_row_destroy(&x->rs[i]);
    free(x);
}
static int row_ne(const struct e2_row* a, const struct e2_row* b)
{
    if (a->k != b->k || !a->t || strcmp(a->t, b->t) || a->d_count != b->d_count || a->v_type != b->v_type) return 1;
    if (a->d_count && memcmp(a->d, b->d, 2 * a->d_count)) return 1;
    return a->v_type == E2_ROW_V_N ? a->v.n != b->v.n : a->v_type == E2_ROW_V_S ? !a->v.s || strcmp(a->v.s, b->v.s) : 0;
}
static int rows_ne(const struct e2_row* a, uint32_t n, const struct vals* x)
{
    uint32_t i;
    if (n != x->rn) return 1;
    for (i = 0; i < n; i++) if (row_ne(&a[i], &x->rs[i])) return 1;
    return 0;
}
static uint32_t tag_of_s(const char* s) { char t[9]; if (strnlen(s, 8) < 8) { h_bad(0, 0); return 0; } memcpy(t, s, 8); t[8] = 0; return (uint32_t)strtoul(t, NULL, 16); }
static uint32_t tag_of_row(const struct e2_row* r) { return r->v_type == E2_ROW_V_N ? r->v.n : tag_of_s(r->v.s); }
static uint32_t answer_of(uint32_t tag) { return (tag ^ 0x5a0000u) ^ 3u; }

/* ---- server */
static struct gracht_message* slots[64];
void e2_s_sum_invocation(struct gracht_message* m, const uint32_t a, const int64_t b)
{
    struct vals* x = vals_of(a);
    h_req(1, a, m->server, m->client, m->link);
    if (b != x->w) h_bad(1, a);
    vals_free(x); x = vals_of(answer_of(a));
    h_sent(a, 0, e2_s_sum_response(m, x->v, x->w));
    vals_free(x);
}
void e2_s_text_invocation(struct gracht_message* m, const char* s, const uint8_t* d, const uint32_t dn)
{
    uint32_t a = tag_of_s(s); struct vals* x = vals_of(a);
    h_req(2, a, m->server, m->client, m->link);
    if (strcmp(s, x->s) || dn != x->dn || (dn && memcmp(d, x->d, dn))) h_bad(2, a);
    vals_free(x); x = vals_of(answer_of(a));
    h_sent(a, 0, e2_s_text_response(m, x->s, x->d, x->dn));
    vals_free(x);
}
void e2_s_rows_invocation(struct gracht_message* m, const struct e2_row* r, const struct e2_row* rs, const uint32_t rn, const enum e2_tone e)
{
    uint32_t a = tag_of_row(r); struct vals* x = vals_of(a);
    h_req(3, a, m->server, m->client, m->link);
    if (row_ne(r, &x->r) || rows_ne(rs, rn, x) || e != x->e) h_bad(3, a);
    vals_free(x); x = vals_of(answer_of(a));
    h_sent(a, 0, e2_s_rows_response(m, &x->r, x->rs, x->rn, x->e));
    vals_free(x);
}
int x_event(gracht_server_t* sv, int how, int client, uint32_t tag)
{
    struct vals* x = vals_of(tag); int r = 0;
    if (how == 1) r = e2_s_event_tick_all(sv, x->v, x->s, x->rs, x->rn);
    if (how == 2) r = e2_s_event_bang_all(sv, x->v);
    if (how == 3) r = e2_s_event_tick_single(sv, client, x->v, x->s, x->rs, x->rn);
    if (how == 4) r = e2_s_event_bang_single(sv, client, x->v);
    if (how == 5) r = e2_t_event_note_all(sv, x->v);
    vals_free(x);
    return r;
}
void e2_s_fire_invocation(struct gracht_message* m, const uint32_t v)
{
    int how = h_req(4, v, m->server, m->client, m->link);
    if (how) h_sent(v, how, x_event(m->server, how, m->client, v));
}
void e2_s_later_invocation(struct gracht_message* m, const uint32_t v, const char* s)
{
    struct gracht_message* d; struct vals* x = vals_of(v);
    h_req(5, v, m->server, m->client, m->link);
    if (strcmp(s, x->s)) h_bad(5, v);
    vals_free(x);
    d = malloc(GRACHT_MESSAGE_DEFERRABLE_SIZE(m));
    gracht_server_defer_message(m, d);
    slots[(v >> 8) & 63] = d;
}
int x_flush(uint32_t tag)
{
    struct gracht_message* d = slots[(tag >> 8) & 63]; struct vals* x; int r;
    if (!d) return 99;
    slots[(tag >> 8) & 63] = NULL;
    x = vals_of(answer_of(tag));
    r = e2_s_later_response(d, x->v, x->s);
    vals_free(x); free(d);
    return r;
}
void x_drop(uint32_t tag) { free(slots[(tag >> 8) & 63]); slots[(tag >> 8) & 63] = NULL; }
void e2_s_ping_invocation(struct gracht_message* m)
{
    uint32_t tag = (uint32_t)h_req(8, 0, m->server, m->client, m->link);
    h_sent(tag, 0, e2_s_ping_response(m, answer_of(tag)));
}
void e2_t_sum_invocation(struct gracht_message* m, const uint32_t a)
{
    h_req(21, a, m->server, m->client, m->link);
    h_sent(a, 0, e2_t_sum_response(m, answer_of(a) + 1));
}
int x_serve(gracht_server_t* s) { return gracht_server_register_protocol(s, &e2_t_server_protocol) ? -1 : gracht_server_register_protocol(s, &e2_s_server_protocol); }

/* ---- client */
void e2_s_event_tick_invocation(gracht_client_t* c, const uint32_t v, const char* s, const struct e2_row* rs, const uint32_t rn)
{
    struct vals* x = vals_of(v);
    h_evt(c, 6, v);
    if (strcmp(s, x->s) || rows_ne(rs, rn, x)) h_bad(6, v);
    vals_free(x);
}
void e2_s_event_bang_invocation(gracht_client_t* c, const uint32_t v) { h_evt(c, 7, v); }
void e2_t_event_note_invocation(gracht_client_t* c, const uint32_t v) { h_evt(c, 9, v); }
int x_listen(gracht_client_t* c) { return gracht_client_register_protocol(c, &e2_t_client_protocol) ? -1 : gracht_client_register_protocol(c, &e2_s_client_protocol); }
int x_sub2(gracht_client_t* c, int on) { struct gracht_message_context ctx; memset(&ctx, 0, sizeof ctx); return on ? e2_t_subscribe(c, &ctx) : e2_t_unsubscribe(c, &ctx); }
int x_sub(gracht_client_t* c, int on) { struct gracht_message_context ctx; memset(&ctx, 0, sizeof ctx); return on ? e2_s_subscribe(c, &ctx) : e2_s_unsubscribe(c, &ctx); }
int x_call(gracht_client_t* c, struct gracht_message_context* ctx, int fn, uint32_t tag)
{
    struct vals* x = vals_of(tag); int r = -9;
    switch (fn) {
    case 1: r = e2_s_sum(c, ctx, x->v, x->w); break;
    case 2: r = e2_s_text(c, ctx, x->s, x->d, x->dn); break;
    case 3: r = e2_s_rows(c, ctx, &x->r, x->rs, x->rn, x->e); break;
    case 4: r = e2_s_fire(c, ctx, x->v); break;
    case 5: r = e2_s_later(c, ctx, x->v, x->s); break;
    case 8: r = e2_s_ping(c, ctx); break;
    case 21: r = e2_t_sum(c, ctx, x->v); break;
    }
    vals_free(x);
    return r;
}
/* the status; the values of a finished call are compared with what its handler answered */
int x_result(gracht_client_t* c, struct gracht_message_context* ctx, int fn, uint32_t tag)
{
    struct vals* x = vals_of(answer_of(tag)); int r = -9, ok = 1; uint32_t v = 0, i; int64_t w = 0; uint32_t cap = len_of(answer_of(tag), 0) + 3;
    char* s = malloc(cap); uint8_t* d = malloc(320); struct e2_row row, rows[MAXROWS]; enum e2_tone e = E2_TONE_low;
    memset(d, 0xcc, 320); memset(s, 0xcc, cap); e2_row_init(&row); for (i = 0; i < MAXROWS; i++) e2_row_init(&rows[i]);
    switch (fn) {
    case 1: r = e2_s_sum_result(c, ctx, &v, &w); if (r == 1) ok = v == x->v && w == x->w; break;
    case 2: r = e2_s_text_result(c, ctx, s, cap, d, 320); if (r == 1) ok = !strcmp(s, x->s) && !memcmp(d, x->d, x->dn); break;
    case 3: r = e2_s_rows_result(c, ctx, &row, rows, MAXROWS, &e); if (r == 1) { ok = !row_ne(&row, &x->r) && !rows_ne(rows, x->rn, x) && e == x->e; e2_row_destroy(&row); for (i = 0; i < x->rn; i++) e2_row_destroy(&rows[i]); } break;
    case 5: r = e2_s_later_result(c, ctx, &v, s, cap); if (r == 1) ok = v == x->v && !strcmp(s, x->s); break;
    case 8: r = e2_s_ping_result(c, ctx, &v); if (r == 1) ok = v == answer_of(tag); break;
    case 21: r = e2_t_sum_result(c, ctx, &v); if (r == 1) ok = v == answer_of(tag) + 1; break;
    }
    if (!ok) h_bad(20 + fn, tag);
    free(s); free(d); vals_free(x);
    return r;
}

#include <sys/epoll.h>
int vs_own_wait(int ep, int* fds, unsigned* ev, int max)
{
    struct epoll_event e[16];
    int i, n = epoll_wait(ep, e, max > 16 ? 16 : max, -1);
    for (i = 0; i < n; i++) {
        fds[i] = e[i].data.fd; ev[i] = e[i].events;
    }
    return n;
}

