#include "model.h"
// Sequential mode: every insert is given a fresh increasing id under which exactly its value is read;
// an identifier that was never given out denotes nothing, whatever its bytes and its length.
static void foreign(void) {
    unsigned char id[9]; int64_t n;
    uint32_t w = z_choice(z_param("lens", 0) ? 4 : 1, "idlen"), l = w == 0 ? 8 : w == 1 ? 4 : w == 2 ? 7 : 9;
    z_bytes(id, l, "id");
    int m = -1;
    if(l == 8) for(int i = 0; i < MN; i++) if(memcmp(id, M[i].k, 8) == 0) m = i;
    if(m >= 0) { z_cover("known-id"); m_read(m); return; }
    z_cover("unknown-id");
    uint32_t op = z_choice(5, "fop");
    switch(op) {
        case 0: z_assert(CMD(0, S("GET"), B(id, l)), "daemon-alive"); z_assert(zr_nil() && zr_end(), "unknown-id-reads-nil"); break;
        case 1: z_assert(CMD(0, S("EXISTS"), B(id, l)), "daemon-alive"); z_assert(zr_int(&n) && n == 0 && zr_end(), "unknown-id-does-not-exist"); break;
        case 2: z_assert(CMD(0, S("SET"), B(id, l), S("xyz")), "daemon-alive"); z_assert(zr_error(), "unknown-id-cannot-be-set"); break;
        case 3: z_assert(CMD(0, S("DEL"), B(id, l)), "daemon-alive"); z_assert(zr_error(), "unknown-id-cannot-be-deleted"); break;
        case 4: z_assert(CMD(0, S("LENGTH"), B(id, l)), "daemon-alive"); z_assert(zr_nil() && zr_end(), "unknown-id-has-no-length"); break;
    }
    for(int i = 0; i < MN; i++) m_read(i);
}
void zmain(void) {
    int ops = z_param("ops", 4), lens = z_param("vlens", 2), jump = z_param("jump", 0);
    env_reset();
    zh_opts[0] = "--mode"; zh_opts[1] = "seq"; zh_opts[2] = NULL;
    z_assert(zh_boot(), "daemon-starts");
    zh_connect(0);
    m_init(1);
    for(int s = 0; s < ops; s++) {
        m_random_op(0, lens, 0);
        if(jump && s < ops - 1 && z_choice(2, "jump")) { z_note("JUMP "); z_assert(CMD(0, S("NSJUMP")), "daemon-alive"); z_assert(zr_is("+OK\r\n"), "jump-ok"); z_cover("jumped"); }
        for(int i = 0; i < MN; i++) m_read(i);
    }
    if(z_param("foreign", 1)) foreign(); else m_verify();
    z_cover("end");
}
