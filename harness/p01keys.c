#include "zharn.h"
// Two keys of one length which differ in a single byte, wherever it is, are two keys.
void zmain(void) {
    static const uint32_t lens[] = { 1, 2, 4, 8, 9, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 200, 254, 255 };
    uint32_t n = lens[z_choice(19, "length")], where = z_choice(5, "where");
    uint32_t at = where == 0 ? 0 : where == 1 ? n / 2 : where == 2 ? n - 1 : where == 3 ? n / 4 : n - n / 4 - 1;
    static unsigned char a[255], b[255]; unsigned char va, vb;
    for(uint32_t i = 0; i < n; i++) a[i] = b[i] = (unsigned char) (i * 3 + 1);
    a[at] = z_u8("byte"); b[at] = z_u8("other"); z_assume(a[at] != b[at]);
    va = z_u8("va"); vb = z_u8("vb");
    env_reset(); zh_bits = 0; zh_opts[0] = NULL; z_assert(zh_boot(), "daemon-starts"); zh_connect(0);
    z_assert(CMD(0, S("SET"), B(a, n), B(&va, 1)) && zr_bulk_is(a, n), "set-ok");
    z_assert(CMD(0, S("GET"), B(b, n)) && zr_nil(), "other-key-absent");
    z_assert(CMD(0, S("EXISTS"), B(b, n)) && zr_is(":0\r\n"), "other-key-absent");
    z_assert(CMD(0, S("DEL"), B(b, n)) && zr_error(), "other-key-absent");
    z_assert(CMD(0, S("SET"), B(b, n), B(&vb, 1)) && zr_bulk_is(b, n), "set-ok");
    for(int round = 0; round < 2; round++) {
        z_assert(CMD(0, S("GET"), B(a, n)) && zr_bulk_is(&va, 1) && zr_end(), "own-value");
        z_assert(CMD(0, S("GET"), B(b, n)) && zr_bulk_is(&vb, 1) && zr_end(), "own-value");
        z_assert(CMD(0, S("DBSIZE")) && zr_is(":2\r\n"), "two-keys");
        if(!round) { z_assert(zh_boot(), "daemon-starts"); zh_connect(0); z_cover("restarted"); }
    }
    z_assert(CMD(0, S("DEL"), B(a, n)) && zr_is("+OK\r\n"), "del-ok");
    z_assert(CMD(0, S("GET"), B(a, n)) && zr_nil(), "deleted");
    z_assert(CMD(0, S("GET"), B(b, n)) && zr_bulk_is(&vb, 1) && zr_end(), "other-key-stays");
    z_assert(zh_boot(), "daemon-starts"); zh_connect(0);
    z_assert(CMD(0, S("GET"), B(a, n)) && zr_nil(), "deleted");
    z_assert(CMD(0, S("GET"), B(b, n)) && zr_bulk_is(&vb, 1) && zr_end(), "other-key-stays");
    z_cover("end");
}
