/* Handlers of the test services, compiled and instrumented like the code under test: every access they
   make to a received message is checked. What they do is chosen by the request itself. */
#include "gracht/server.h"
#include "gracht/client.h"
#include <stdlib.h>
#include <string.h>
#include "ops.h"
#include "wire.h"

GRACHTAPI int gracht_server_get_buffer(gracht_server_t*, gracht_buffer_t*);
GRACHTAPI int gracht_server_respond(struct gracht_message*, gracht_buffer_t*);
GRACHTAPI int gracht_server_send_event(gracht_server_t*, gracht_conn_t client, gracht_buffer_t*, unsigned int flags);
GRACHTAPI int gracht_server_broadcast_event(gracht_server_t*, gracht_buffer_t*, unsigned int flags);

int  h_enter(int sid, int aid, void* server, int client, int link, const uint8_t* p, uint32_t n);
void h_leave(int token);
void h_gate(int token);
void h_status(int token, int what, int status);
void h_stop_asked(void) __attribute__((weak));
int  h_handle_of(int peer);
int  h_zero(int sid, int aid, void* server, int client);

struct gracht_message* g_slots[64];
uint32_t g_slot_len[64]; int g_slot_op[64];

/* a generated-style response: header, tag, echo of the request's pattern */
int cut_respond(struct gracht_message* m, int sid, int aid, uint16_t tag, uint32_t n)
{
    gracht_buffer_t b;
    uint32_t i;
    if (gracht_server_get_buffer(m->server, &b)) return -2;
    for (i = 0; i < 8; i++) b.data[b.index++] = 0;
    b.data[b.index++] = (char)sid; b.data[b.index++] = (char)aid; b.data[b.index++] = MESSAGE_FLAG_RESPONSE;
    b.data[b.index++] = (char)tag; b.data[b.index++] = (char)(tag >> 8);
    for (i = 0; i < n; i++) b.data[b.index++] = (char)patt(tag + 1000u, i);
    return gracht_server_respond(m, &b);
}
static int cut_event_buf(gracht_server_t* s, gracht_buffer_t* b, int sid, int eid, uint16_t tag, uint32_t n)
{
    uint32_t i;
    if (gracht_server_get_buffer(s, b)) return -2;
    for (i = 0; i < 8; i++) b->data[b->index++] = 0;
    b->data[b->index++] = (char)sid; b->data[b->index++] = (char)eid; b->data[b->index++] = MESSAGE_FLAG_EVENT;
    b->data[b->index++] = (char)tag; b->data[b->index++] = (char)(tag >> 8);
    for (i = 0; i < n; i++) b->data[b->index++] = (char)patt(tag + 2000u, i);
    return 0;
}
int cut_event(gracht_server_t* s, int client, int sid, int eid, uint16_t tag, uint32_t n, unsigned flags)
{
    gracht_buffer_t b;
    if (cut_event_buf(s, &b, sid, eid, tag, n)) return -2;
    return gracht_server_send_event(s, client, &b, flags);
}
int cut_broadcast(gracht_server_t* s, int sid, int eid, uint16_t tag, uint32_t n, unsigned flags)
{
    gracht_buffer_t b;
    if (cut_event_buf(s, &b, sid, eid, tag, n)) return -2;
    return gracht_server_broadcast_event(s, &b, flags);
}
struct slot { int sid, aid; uint16_t tag; uint32_t n; };
static struct slot g_slot_info[64];
int cut_flush(int slot)
{
    struct gracht_message* m = g_slots[slot];
    int r;
    g_slots[slot] = NULL;
    r = cut_respond(m, g_slot_info[slot].sid, g_slot_info[slot].aid, g_slot_info[slot].tag, g_slot_info[slot].n);
    free(m);
    return r;
}

extern gracht_protocol_t cut_protos[];
static void handle(int sid, int aid, struct gracht_message* m, gracht_buffer_t* b)
{
    uint8_t  small[16384], *tmp = small;
    uint32_t total, n, i;
    uint16_t tag;
    int      token, op, arg;

    memcpy(&total, &m->payload[m->index + 4], 4);
    n = total - HDR;
    if (!n) { /* a function without parameters: which request it is, is known from who asks for what */
        token = h_zero(sid, aid, m->server, m->client);
        if (token < 0) return;
        h_status(token, 0, cut_respond(m, sid, aid, 0xeeee, 0));
        h_leave(token);
        return;
    }
    if (n > sizeof small && n < 300000) tmp = malloc(n);   /* large requests are only sent on purpose */
    else if (n > sizeof small) n = sizeof small;
    memcpy(tmp, &b->data[b->index], n);   /* the access is checked as one range */
    token = h_enter(sid, aid, m->server, m->client, m->link, tmp, total - HDR);
    if (token < 0) { if (tmp != small) free(tmp); return; }
    op = tmp[0]; arg = tmp[1]; tag = (uint16_t)(tmp[2] | tmp[3] << 8);
    if (op & OP_HELD) { h_gate(token); op &= ~OP_HELD; }
    switch (op) {
        case OP_GATE_ECHO:
            h_gate(token); /* fall through */
        case OP_ECHO:
            h_status(token, 0, cut_respond(m, sid, aid, tag, n - 4 > 2000 ? 64 : n - 4));
            break;
        case OP_BIGECHO:
            h_status(token, 0, cut_respond(m, sid, aid, tag, n - 4));
            break;
        case OP_GATE:
            h_gate(token);
            break;
        case OP_DEFER: {
            struct gracht_message* d = malloc(GRACHT_MESSAGE_DEFERRABLE_SIZE(m));
            gracht_server_defer_message(m, d);
            g_slot_info[arg].sid = sid; g_slot_info[arg].aid = aid; g_slot_info[arg].tag = tag; g_slot_info[arg].n = n - 4;
            g_slots[arg] = d;
            break;
        }
        case OP_EVENT_SELF:
            h_status(token, 1, cut_event(m->server, m->client, sid, 0x40, tag, 3, 0));
            break;
        case OP_EVENT_TO:
            h_status(token, 1, cut_event(m->server, h_handle_of(arg), sid, 0x40, tag, 3, 0));
            break;
        case OP_TWICE_BCAST:
            cut_broadcast(m->server, arg, 0x42, tag, 70, 0); /* fall through */
        case OP_BCAST:
            cut_broadcast(m->server, arg, 0x41, tag, 5, 0);
            break;
        case OP_REGISTER: h_status(token, 2, gracht_server_register_protocol(m->server, &cut_protos[arg])); break;
        case OP_UNREGISTER: gracht_server_unregister_protocol(m->server, &cut_protos[arg]); break;
        case OP_SHUTDOWN:
            gracht_server_request_shutdown(m->server);
            if (h_stop_asked) h_stop_asked();
            break;
        default:
            break;
    }
    /* the message must stay readable and unchanged until the handler returns */
    if (n && memcmp(&b->data[b->index], tmp, n))
        for (i = 0; i < n; i++)
            if ((uint8_t)b->data[b->index + i] != tmp[i]) { h_status(token, 9, (int)i); break; }
    if (tmp != small) free(tmp);
    h_leave(token);
}
#define H(s, a) static void h_##s##_##a(struct gracht_message* m, gracht_buffer_t* b) { handle(s, a, m, b); }
H(1, 1) H(1, 2) H(2, 1) H(2, 3) H(7, 1) H(31, 1) H(33, 1) H(200, 1) H(254, 1)
static gracht_protocol_function_t f1[] = { { 2, h_1_2 }, { 1, h_1_1 } };   /* in no particular order */
static gracht_protocol_function_t f2[] = { { 1, h_2_1 }, { 3, h_2_3 } };
#define P1(s) static gracht_protocol_function_t f##s[] = { { 1, h_##s##_1 } };
P1(7) P1(31) P1(33) P1(200) P1(254)
gracht_protocol_t cut_protos[] = {
    GRACHT_PROTOCOL_INIT(1, "svc1", 2, f1), GRACHT_PROTOCOL_INIT(2, "svc2", 2, f2), GRACHT_PROTOCOL_INIT(7, "svc7", 1, f7),
    GRACHT_PROTOCOL_INIT(31, "svc31", 1, f31), GRACHT_PROTOCOL_INIT(33, "svc33", 1, f33), GRACHT_PROTOCOL_INIT(200, "svc200", 1, f200),
    GRACHT_PROTOCOL_INIT(254, "svc254", 1, f254),
};
/* same ids as the first two, other handlers: registering them must not change anything */
static void h_other(struct gracht_message* m, gracht_buffer_t* b) { (void)b; h_enter(-1, -1, m->server, m->client, m->link, NULL, 0); }
static gracht_protocol_function_t fo[] = { { 1, h_other }, { 2, h_other }, { 3, h_other } };
gracht_protocol_t cut_protos_dup[] = { GRACHT_PROTOCOL_INIT(1, "other1", 3, fo), GRACHT_PROTOCOL_INIT(2, "other2", 3, fo) };

/* one protocol for every id, to fill the registry */
static void h_many(struct gracht_message* m, gracht_buffer_t* b) { handle((uint8_t)m->payload[m->index + 8], 1, m, b); }
static gracht_protocol_function_t fm[] = { { 1, h_many } };
static gracht_protocol_t g_many[256];
int cut_reg_many(gracht_server_t* s, int id) { gracht_protocol_t p = GRACHT_PROTOCOL_INIT((uint8_t)id, "many", 1, fm); g_many[id] = p; return gracht_server_register_protocol(s, &g_many[id]); }
void cut_unreg_many(gracht_server_t* s, int id) { gracht_server_unregister_protocol(s, &g_many[id]); }
static gracht_protocol_t g_dup[256];
int cut_reg_dup(gracht_server_t* s, int id) { gracht_protocol_t p = GRACHT_PROTOCOL_INIT((uint8_t)id, "dup", 3, fo); g_dup[id] = p; return gracht_server_register_protocol(s, &g_dup[id]); }

/* a service with functions of the given ids, in that order */
static void h_any(struct gracht_message* m, gracht_buffer_t* b, int aid) { handle((uint8_t)m->payload[m->index + 8], aid, m, b); }
#define HA(a) static void h_any_##a(struct gracht_message* m, gracht_buffer_t* b) { h_any(m, b, a); }
EVERY_ID(HA)
#define HT(a) [a] = h_any_##a,
static void (*g_any[256])(struct gracht_message*, gracht_buffer_t*) = { EVERY_ID(HT) };
static gracht_protocol_function_t g_fn[256];
int cut_reg_funcs(gracht_server_t* s, int sid, const int* ids, int n)
{
    int i;
    for (i = 0; i < n; i++) { g_fn[i].id = (uint8_t)ids[i]; g_fn[i].address = (void*)g_any[ids[i]]; }
    gracht_protocol_t p = GRACHT_PROTOCOL_INIT((uint8_t)sid, "funcs", n, g_fn);
    g_many[sid] = p;
    return gracht_server_register_protocol(s, &g_many[sid]);
}

#include <sys/epoll.h>
int vs_own_wait(int ep, int* fds, unsigned* ev, int max)
{
    struct epoll_event e[16];
    int i, n = epoll_wait(ep, e, max > 16 ? 16 : max, -1);
    for (i = 0; i < n; i++) {
        fds[i] = e[i].data.fd; ev[i] = e[i].events;
    }
    return n;
}
void cut_free(void* p) { free(p); }

/* n buffers borrowed before the first is sent; returns how many events were sent */
int cut_borrow(gracht_server_t* s, int n, int client, int sid, int eid, uint16_t tag, uint32_t len)
{
    gracht_buffer_t b[64];
    int             i, got = 0, sent = 0;
    for (i = 0; i < n; i++) if (!cut_event_buf(s, &b[got], sid, eid, (uint16_t)(tag + got), len)) got++;
    for (i = 0; i < got; i++) if (!gracht_server_send_event(s, client, &b[i], 0)) sent++;
    return sent;
}
