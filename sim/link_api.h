#pragma once
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
// field kinds: width 1,2,4,8; be; signed; mac: through the PACK/UNPACK macros where they exist
size_t   link_put(int width, int be, int mac, uint8_t *buf, uint64_t v);
size_t   link_get(int width, int be, int sg, int mac, uint8_t *buf, uint64_t *v);     // sign-extended when sg
uint16_t link_crc16(const uint8_t *p, size_t n, uint16_t init);
uint32_t link_crc32(const uint8_t *p, size_t n, uint32_t init);
#ifdef __cplusplus
}
#endif
