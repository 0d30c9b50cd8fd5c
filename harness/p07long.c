#include "zharn.h"
#include "files.h"
// The integrity check with long keys and long values: intact entries pass, any change of a byte anywhere is reported.
static unsigned char key[255], val[VALMAX];
void zmain(void) {
    int64_t n;
    env_reset();
    zh_bits = 0;
    zh_opts[0] = "--mode"; zh_opts[1] = "user"; zh_opts[2] = NULL;
    z_assert(zh_boot(), "daemon-starts");
    zh_connect(0);
    static const uint32_t kls[] = { 1, 127, 128, 129, 200, 255 }, vls[] = { 40, 127, 128, 255, 256, 300, 4096, 32768, 65535, 65536, 65560 };
    uint32_t kl = kls[z_choice(6, "klen")], l = vls[z_choice(11, "vlen")];
    if(kl != 1 && kl != 128 && l != 40 && l != 65560) z_assume(0);
    for(uint32_t i = 0; i < kl; i++) key[i] = (uint8_t) ('A' + i % 50);
    for(uint32_t i = 0; i < l; i++) val[i] = (uint8_t) (i * 7 + (i >> 8) + 1);
    z_bytes(val + l - 4, 4, "tail");
    z_assert(CMD(0, S("SET"), S("other"), S("payload")) && zr_is("$5\r\nother\r\n"), "set-ok");
    z_assert(CMD(0, S("SET"), B(key, kl), B(val, l)) && zr_bulk_is(key, kl), "set-ok");
    if(z_choice(2, "after")) z_assert(CMD(0, S("SET"), S("next"), S("p")), "set-ok");
    if(z_choice(2, "restart")) { z_assert(zh_boot(), "daemon-restarts"); zh_connect(0); z_cover("restarted"); }
    z_assert(CMD(0, S("CHECK"), B(key, kl)), "daemon-alive");
    z_assert(zr_int(&n) && zr_end() && n == 1, "intact-entry-passes");
    vnode_t *f = f_data("default", 0); uint32_t o = DHEAD; drec_t r; int found = 0;
    while(f_next(f, &o, &r)) if(r.idlen == kl && memcmp(r.id, key, kl) == 0) { found = 1; break; }
    z_assert(found && r.datalen == l, "record-found");
    uint32_t at = r.at + DREC + r.idlen;
    switch(z_choice(4, "damage")) {
        case 0: { uint32_t p = l - 1 - z_choice(20, "at"); uint8_t x = z_u8("x"); z_assume(x != 0); f->data[at + p] ^= x; z_cover("end-damaged"); break; }
        case 1: { static const uint32_t ps[] = { 0, 1, 7, 8, 31 }; f->data[at + ps[z_choice(5, "at")]] ^= (uint8_t) (1u << z_choice(8, "bit")); z_cover("start-damaged"); break; }
        case 2: { uint32_t p = l / 2 + z_choice(3, "at"); f->data[at + p] ^= (uint8_t) (1u << z_choice(8, "bit")); z_cover("middle-damaged"); break; }
        case 3: { uint32_t x = z_u32("x"); z_assume(x != 0); for(int i = 0; i < 4; i++) f->data[r.at + 9 + i] ^= (uint8_t) (x >> (8 * i)); z_cover("checksum"); break; }
    }
    z_assert(CMD(0, S("CHECK"), B(key, kl)), "daemon-alive");
    z_assert(zr_int(&n) && zr_end() && n == 0, "damage-detected");
    z_assert(CMD(0, S("CHECK"), S("other")), "daemon-alive");
    z_assert(zr_int(&n) && zr_end() && n == 1, "other-entry-still-intact");
    z_cover("end");
}
