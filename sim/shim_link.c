#include "gel/serializer/serializer.h"
#include "gel/crc/crc16-ccitt.h"
#include "gel/crc/crc32.h"
#include "link_api.h"
size_t link_put(int width, int be, int mac, uint8_t *buf, uint64_t v) {
    // names an application may well use
    uint64_t tmp = v;
    switch (width) {
        case 1: return mac ? PACK_UINT8(buf, tmp) : serialize_uint8(buf, (uint8_t)v);
        case 2: return be ? (mac ? PACK_UINT16_BE(buf, tmp) : serialize_uint16_be(buf, (uint16_t)v)) : serialize_uint16_le(buf, (uint16_t)v);
        case 4: return be ? serialize_uint32_be(buf, (uint32_t)v) : serialize_uint32_le(buf, (uint32_t)v);
        default: return be ? serialize_uint64_be(buf, v) : serialize_uint64_le(buf, v);
    }
}
#define GET(T, f) { T x = (T)0x5A5A5A5A5A5A5A5AULL; n = f(&x, buf); *v = (uint64_t)(int64_t)x; }
#define GETU(T, f) { T x = (T)0x5A5A5A5A5A5A5A5AULL; n = f(&x, buf); *v = (uint64_t)x; }
size_t link_get(int width, int be, int sg, int mac, uint8_t *buf, uint64_t *v) {
    size_t n = 0;
    switch (width) {
        case 1:
            if (sg) GET(int8_t, deserialize_int8) else if (mac) { uint64_t tmp = 7; n = UNPACK_UINT8(tmp, buf); *v = tmp; } else GETU(uint8_t, deserialize_uint8)
            break;
        case 2:
            if (sg) { if (be) GET(int16_t, deserialize_int16_be) else GET(int16_t, deserialize_int16_le) }
            else if (mac && be) { uint64_t size = 7; n = UNPACK_UINT16_BE(size, buf); *v = size; }
            else if (be) GETU(uint16_t, deserialize_uint16_be) else GETU(uint16_t, deserialize_uint16_le)
            break;
        case 4:
            if (sg) { if (be) GET(int32_t, deserialize_int32_be) else GET(int32_t, deserialize_int32_le) }
            else if (mac && be) { uint64_t tmp = 7; n = UNPACK_UINT32_BE(tmp, buf); *v = tmp; }
            else if (be) GETU(uint32_t, deserialize_uint32_be) else GETU(uint32_t, deserialize_uint32_le)
            break;
        default:
            if (sg) { if (be) GET(int64_t, deserialize_int64_be) else GET(int64_t, deserialize_int64_le) }
            else if (be) GETU(uint64_t, deserialize_uint64_be) else GETU(uint64_t, deserialize_uint64_le)
            break;
    }
    return n;
}
uint16_t link_crc16(const uint8_t *p, size_t n, uint16_t init) { return crc16_ccitt(p, (unsigned)n, init); }
uint32_t link_crc32(const uint8_t *p, size_t n, uint32_t init) { return crc32(p, n, init); }
