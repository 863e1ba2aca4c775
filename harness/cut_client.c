/* Instrumented: what generated client stubs do with the runtime (same call sequence), and event callbacks that report
   to the harness. */
#include "gracht/client.h"
#include "wire.h"
#include <stdlib.h>
#include <string.h>

GRACHTAPI int gracht_client_get_buffer(gracht_client_t*, gracht_buffer_t*);
GRACHTAPI int gracht_client_get_status_buffer(gracht_client_t*, struct gracht_message_context*, gracht_buffer_t*);
GRACHTAPI int gracht_client_status_finalize(gracht_client_t* client, struct gracht_buffer*);
GRACHTAPI int gracht_client_invoke(gracht_client_t*, struct gracht_message_context*, gracht_buffer_t*);
void h_event(int sid, int eid, void* client, const uint8_t* p, uint32_t n);

int cut_call(gracht_client_t* c, struct gracht_message_context* ctx, int sid, int aid, int type, uint16_t tag, uint32_t n)
{
    gracht_buffer_t b;
    uint32_t        i;
    if (gracht_client_get_buffer(c, &b)) return -2;
    for (i = 0; i < 8; i++) b.data[b.index++] = 0;
    b.data[b.index++] = (char)sid; b.data[b.index++] = (char)aid; b.data[b.index++] = (char)type;
    b.data[b.index++] = (char)tag; b.data[b.index++] = (char)(tag >> 8);
    for (i = 0; i < n; i++) b.data[b.index++] = (char)patt(tag, i);
    return gracht_client_invoke(c, ctx, &b);
}
/* status, and the parameter bytes of the response (its length is taken from the message header) */
int cut_result(gracht_client_t* c, struct gracht_message_context* ctx, uint8_t* out, uint32_t cap, uint32_t* n)
{
    gracht_buffer_t b = { 0 };
    uint32_t        total;
    int             status = gracht_client_get_status_buffer(c, ctx, &b);
    if (status != GRACHT_MESSAGE_COMPLETED) return status;
    memcpy(&total, &b.data[b.index - HDR + 4], 4);
    *n = total - HDR;
    memcpy(out, &b.data[b.index], *n < cap ? *n : cap);
    gracht_client_status_finalize(c, &b);
    return status;
}
static void event(int sid, int eid, gracht_client_t* c, gracht_buffer_t* b)
{
    uint8_t  small[16384], *tmp = small;
    uint32_t total, n, k;
    memcpy(&total, &b->data[b->index - HDR + 4], 4);
    n = total - HDR;
    if (n > sizeof small && n < 300000) tmp = malloc(n);
    k = tmp != small || n < sizeof small ? n : sizeof small;
    memcpy(tmp, &b->data[b->index], k);
    h_event(sid, eid, c, tmp, n);
    if (n && memcmp(tmp, &b->data[b->index], k)) h_event(-1, eid, c, tmp, n);
    if (tmp != small) free(tmp);
}
#define E(s, e) static void e_##s##_##e(gracht_client_t* c, gracht_buffer_t* b) { event(s, e, c, b); }
E(1, 64) E(1, 65) E(2, 64) E(2, 0) E(2, 2) E(254, 255)
static gracht_protocol_function_t f1[] = { { 64, e_1_64 }, { 65, e_1_65 } };
static gracht_protocol_function_t f2[] = { { 64, e_2_64 }, { 2, e_2_2 }, { 0, e_2_0 } };
static gracht_protocol_function_t f254[] = { { 255, e_254_255 } };
gracht_protocol_t cut_cprotos[] = { GRACHT_PROTOCOL_INIT(1, "svc1", 2, f1), GRACHT_PROTOCOL_INIT(2, "svc2", 3, f2), GRACHT_PROTOCOL_INIT(254, "svc254", 1, f254) };

/* events of one service, listed in any order */
#define EA(a) static void e_any_##a(gracht_client_t* c, gracht_buffer_t* b) { event(41, a, c, b); }
EVERY_ID(EA)
#define ET(a) [a] = e_any_##a,
static void (*g_any[256])(gracht_client_t*, gracht_buffer_t*) = { EVERY_ID(ET) };
static gracht_protocol_function_t g_fn[256];
int cut_register_events(gracht_client_t* c, const int* ids, int n)
{
    int i;
    for (i = 0; i < n; i++) { g_fn[i].id = (uint8_t)ids[i]; g_fn[i].address = (void*)g_any[ids[i]]; }
    gracht_protocol_t p = GRACHT_PROTOCOL_INIT(41, "events", n, g_fn);
    return gracht_client_register_protocol(c, &p);
}

/* one protocol per id: registered in any number */
static uint8_t many_id[256];
static void e_many(gracht_client_t* c, gracht_buffer_t* b) { uint8_t sid; memcpy(&sid, &b->data[b->index - HDR + 8], 1); event(sid, 77, c, b); }
static gracht_protocol_function_t fmany[] = { { 77, e_many } };
int cut_register_many(gracht_client_t* c, int sid) { gracht_protocol_t p = GRACHT_PROTOCOL_INIT(sid, "many", 1, fmany); return gracht_client_register_protocol(c, &p); }
void cut_unregister_many(gracht_client_t* c, int sid) { gracht_protocol_t p = GRACHT_PROTOCOL_INIT(sid, "many", 1, fmany); (void)many_id; gracht_client_unregister_protocol(c, &p); }
