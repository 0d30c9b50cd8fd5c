#include "zharn.h"
#include "files.h"
// The checksum of every buffer is the CRC-32C polynomial checksum, with and without hardware support.
#undef __SSE4_2__
#define zdb_crc32 soft_crc32
#define zdb_crc32_engine_value soft_engine
#include "crc32.c"
#undef zdb_crc32
uint32_t zdb_crc32(const uint8_t *bytes, ssize_t length);
void zmain(void) {
    unsigned char b[40];
    uint32_t n = z_choice(z_param("max", 26), "len");
    z_bytes(b, n, "b");
    uint32_t r = ref_crc(b, n);
    z_assert(zdb_crc32(b, n) == r, "hardware-checksum-is-crc32c");
    z_assert(soft_crc32(b, n) == r, "software-checksum-is-crc32c");
    z_cover("end");
}
