#include "zharn.h"
// smoke: SET/GET/DEL with symbolic key and value bytes
void zmain(void) {
    env_reset();
    zh_opts[0] = "--mode"; zh_opts[1] = "user"; zh_opts[2] = NULL;
    z_assert(zh_boot(), "boot");
    zh_connect(0);
    unsigned char k[2], v[3];
    z_bytes(k, 2, "k"); z_bytes(v, 3, "v");
    z_assert(CMD(0, S("SET"), B(k, 2), B(v, 3)), "alive");
    z_assert(zr_bulk_is(k, 2), "set-reply");
    z_assert(CMD(0, S("GET"), B(k, 2)), "alive");
    z_assert(zr_bulk_is(v, 3), "get-reply");
    z_cover("end");
}
