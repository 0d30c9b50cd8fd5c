#include "zharn.h"
// More entries than fit any internal list growth step, in one or several pages, with keys of the maximum length.
static unsigned char k[255];
void zmain(void) {
    int total = z_param("total", 70), kl = 3;
    env_reset();
    zh_bits = 0;
    zh_opts[0] = "--mode"; zh_opts[1] = "user"; zh_opts[2] = NULL;
    z_assert(zh_boot(), "daemon-starts");
    zh_connect(0);
    if(z_choice(2, "long")) { kl = 255; total = 6; z_cover("long-keys"); }
    int hole = (int) z_choice(3, "hole") * 31;
    memset(k, 'x', sizeof k);
    uint8_t b = z_u8("b");
    for(int i = 0; i < total; i++) {
        k[0] = 'a' + i / 10; k[1] = '0' + i % 10; k[2] = b;
        z_assert(CMD(0, S("SET"), B(k, kl), B("v", 1)), "daemon-alive");
        z_assert(zr_bulk_is(k, kl) && zr_end(), "set-returns-key");
        if(i == total / 2 && z_param("jump", 1)) z_assert(CMD(0, S("NSJUMP")) && zr_is("+OK\r\n"), "jump-ok");
    }
    k[0] = 'a' + hole / 10; k[1] = '0' + hole % 10;
    z_assert(CMD(0, S("DEL"), B(k, kl)), "daemon-alive");
    int deleted = hole < total;
    z_assert(deleted ? zr_is("+OK\r\n") : zr_error(), "del-reply");
    int reverse = (int) z_choice(2, "reverse"); env.utick = (int) z_choice(2, "page") * 45;
    int at = reverse ? total - 1 : 0; unsigned char cur[17]; int cn = 0;
    for(int round = 0; ; round++) {
        const unsigned char *p; uint32_t n; int64_t a, c, l;
        if(cn) z_assert(reverse ? CMD(0, S("RSCAN"), B(cur, 17)) : CMD(0, S("SCAN"), B(cur, 17)), "daemon-alive");
        else z_assert(reverse ? CMD(0, S("RSCAN")) : CMD(0, S("SCAN")), "daemon-alive");
        if(at == hole && deleted) at += reverse ? -1 : 1;
        if(at < 0 || at >= total) { z_assert(zr_is("-No more data\r\n"), "scan-ends-after-all-entries"); break; }
        z_assert(zr_array(&a) && a == 2 && zr_bulk(&p, &n) && n == 17 && zr_array(&c) && c > 0, "scan-reply");
        memcpy(cur, p, 17); cn = 17;
        if(round) z_cover("paged");
        if(c > 64) z_cover("more-than-64-at-once");
        for(int64_t i = 0; i < c; i++) {
            if(at == hole && deleted) at += reverse ? -1 : 1;
            z_assert(at >= 0 && at < total, "scan-no-extra-entries");
            k[0] = 'a' + at / 10; k[1] = '0' + at % 10; at += reverse ? -1 : 1;
            z_assert(zr_array(&a) && a == 3 && zr_bulk_is(k, kl) && zr_int(&l) && l == 1 && zr_int(&l), "scan-key-in-order");
        }
        z_assert(zr_end(), "scan-exact");
        z_assert(round < 40, "scan-ends");
    }
    if(kl == 3) {
        // prefix search finds exactly the keys with that prefix
        int64_t a, c; int seen = 0, want = 0;
        k[0] = 'a' + (int) z_choice(4, "prefix");
        for(int i = 0; i < total; i++) if(!(deleted && i == hole) && 'a' + i / 10 == k[0]) want++;
        z_assert(CMD(0, S("KSCAN"), B(k, 1)), "daemon-alive");
        z_assert(zr_array(&a) && a == 2 && zr_bulk_is("0", 1) && zr_array(&c) && c == want, "prefix-search-count");
        for(int64_t i = 0; i < c; i++) { const unsigned char *p; uint32_t n; z_assert(zr_bulk(&p, &n) && n == 3 && p[0] == k[0], "prefix-search-match"); seen++; }
        z_assert(zr_end() && seen == want, "prefix-search-exact");
        z_assert(CMD(0, S("KSCAN"), S("~")) && zr_error(), "prefix-search-none");
    }
    z_cover("end");
}
