#include "zharn.h"
// Keys and values at the limits of their sizes, one a prefix of the other.
static unsigned char k[2][256], v[2][600];
static const uint16_t klens[] = { 255, 254, 128, 127, 9, 8, 2 };
static const uint16_t vlens[] = { 0, 1, 8, 9, 16, 17, 255, 256, 513 };
static uint32_t kn[2], vn[2]; static int have[2];
static void verify(void) {
    for(int i = 0; i < 2; i++) {
        int64_t n;
        z_assert(CMD(0, S("GET"), B(k[i], kn[i])), "daemon-alive");
        if(have[i]) z_assert(zr_bulk_is(v[i], vn[i]) && zr_end(), "get-returns-last-value"); else z_assert(zr_nil() && zr_end(), "get-absent-is-nil");
        z_assert(CMD(0, S("LENGTH"), B(k[i], kn[i])), "daemon-alive");
        if(have[i]) z_assert(zr_int(&n) && n == vn[i] && zr_end(), "length-exact"); else z_assert(zr_nil() && zr_end(), "length-absent-nil");
        z_assert(CMD(0, S("CHECK"), B(k[i], kn[i])), "daemon-alive");
        if(have[i]) z_assert(zr_int(&n) && n == 1 && zr_end(), "check-intact"); else z_assert(zr_nil() && zr_end(), "check-absent-nil");
        z_assert(CMD(0, S("EXISTS"), B(k[i], kn[i])), "daemon-alive");
        z_assert(zr_int(&n) && n == have[i] && zr_end(), "exists-exact");
    }
}
void zmain(void) {
    env_reset();
    zh_bits = 0;
    zh_opts[0] = "--mode"; zh_opts[1] = "user"; zh_opts[2] = NULL;
    z_assert(zh_boot(), "daemon-starts");
    zh_connect(0);
    kn[0] = klens[z_choice(7, "klen")]; kn[1] = kn[0] - 1;
    for(int i = 0; i < 2; i++) { for(uint32_t j = 0; j < kn[i]; j++) k[i][j] = 'a' + j % 7; }
    // same first and (for one key) same last byte as the other, arbitrary
    uint8_t b = z_u8("k"); k[0][0] = b; k[1][0] = b; k[0][kn[0] - 1] = z_u8("kl");
    uint32_t w = z_choice(9, "vlen");
    for(int i = 0; i < 2; i++) { vn[i] = vlens[(w + i) % 9]; for(uint32_t j = 0; j < vn[i]; j++) v[i][j] = 'A' + (i + j) % 13; if(vn[i]) v[i][vn[i] - 1] = z_u8("vl"); }
    for(int i = 0; i < 2; i++) {
        z_assert(CMD(0, S("SET"), B(k[i], kn[i]), B(v[i], vn[i])), "daemon-alive");
        z_assert(zr_bulk_is(k[i], kn[i]) && zr_end(), "set-returns-key");
        have[i] = 1;
    }
    verify();
    // a key longer than 255 bytes is not stored, and does not denote a shorter one
    unsigned char big[300]; memset(big, 'a', sizeof big); memcpy(big, k[0], kn[0]);
    for(uint32_t bl = 256; bl < 256 + kn[0] + 1; bl += kn[0]) {
        z_assert(CMD(0, S("SET"), B(big, bl), S("zz")), "daemon-alive"); z_assert(zr_error(), "key-too-large-refused");
        z_assert(CMD(0, S("GET"), B(big, bl)), "daemon-alive"); z_assert(zr_error() || (zr_nil() && zr_end()), "key-too-large-reads-nothing");
        z_assert(CMD(0, S("DEL"), B(big, bl)), "daemon-alive"); z_assert(zr_error(), "key-too-large-not-deleted");
        z_assert(CMD(0, S("HISTORY"), B(big, bl)), "daemon-alive"); z_assert(zr_error(), "key-too-large-no-history");
        z_assert(CMD(0, S("KEYCUR"), B(big, bl)), "daemon-alive"); z_assert(zr_error(), "key-too-large-no-cursor");
        if(bl + kn[0] > 290) break;
    }
    verify();
    int d = z_choice(2, "del");
    z_assert(CMD(0, S("DEL"), B(k[d], kn[d])), "daemon-alive"); z_assert(zr_is("+OK\r\n"), "del-existing-ok");
    have[d] = 0;
    verify();
    z_assert(zh_boot(), "daemon-restarts"); zh_connect(0);
    verify();
    z_cover("end");
}
