/* independent description of the wire format, used by every oracle */
#ifndef WIRE_H
#define WIRE_H
#include <stdint.h>
#include <string.h>
#define HDR 11
enum { T_SYNC = 0, T_ASYNC = 1, T_EVENT = 2, T_RESPONSE = 3 };
static inline void w32(uint8_t* p, uint32_t v) { p[0] = (uint8_t)v; p[1] = (uint8_t)(v >> 8); p[2] = (uint8_t)(v >> 16); p[3] = (uint8_t)(v >> 24); }
static inline uint32_t r32(const uint8_t* p) { return p[0] | (uint32_t)p[1] << 8 | (uint32_t)p[2] << 16 | (uint32_t)p[3] << 24; }
static inline uint16_t r16(const uint8_t* p) { return (uint16_t)(p[0] | p[1] << 8); }
static inline void w16(uint8_t* p, uint16_t v) { p[0] = (uint8_t)v; p[1] = (uint8_t)(v >> 8); }
static inline size_t whdr(uint8_t* p, uint32_t id, uint32_t len, uint8_t sid, uint8_t aid, uint8_t flg) {
    w32(p, id); w32(p + 4, len); p[8] = sid; p[9] = aid; p[10] = flg; return HDR;
}
static inline uint8_t patt(uint32_t tag, uint32_t i) { return (uint8_t)(tag * 37u + i * 11u + (i >> 8) + 5u); }
/* M(0x00) ... M(0xFF) */
#define ID_ROW(M, r) M(0x##r##0) M(0x##r##1) M(0x##r##2) M(0x##r##3) M(0x##r##4) M(0x##r##5) M(0x##r##6) M(0x##r##7) M(0x##r##8) M(0x##r##9) M(0x##r##A) M(0x##r##B) M(0x##r##C) M(0x##r##D) M(0x##r##E) M(0x##r##F)
#define EVERY_ID(M) ID_ROW(M, 0) ID_ROW(M, 1) ID_ROW(M, 2) ID_ROW(M, 3) ID_ROW(M, 4) ID_ROW(M, 5) ID_ROW(M, 6) ID_ROW(M, 7) ID_ROW(M, 8) ID_ROW(M, 9) ID_ROW(M, A) ID_ROW(M, B) ID_ROW(M, C) ID_ROW(M, D) ID_ROW(M, E) ID_ROW(M, F)
#endif
