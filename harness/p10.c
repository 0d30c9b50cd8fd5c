#include "model.h"
// HISTORY: the versions of a key since it was created, newest first, each with its value and time; a version
// cursor of another key is refused.
void zmain(void) {
    int ops = z_param("ops", 4), seq = z_param("seq", 0), keys = z_param("keys", 2), lens = z_param("vlens", 1);
    env_reset();
    zh_bits = 0;
    zh_opts[0] = "--mode"; zh_opts[1] = seq ? "seq" : "user"; zh_opts[2] = NULL;
    z_assert(zh_boot(), "daemon-starts");
    zh_connect(0);
    m_init(seq);
    if(!seq) m_keys(keys, z_param("klens", 0));
    for(int s = 0; s < ops; s++) {
        m_random_op(keys, lens, 0);
        if(z_param("jump", 0) && s < ops - 1 && z_choice(2, "jump")) { z_note("JUMP "); z_assert(CMD(0, S("NSJUMP")) && zr_is("+OK\r\n"), "jump-ok"); z_cover("jumped"); }
    }
    if(z_param("restart", 1) && z_choice(2, "restart")) { z_assert(zh_boot(), "daemon-restarts"); zh_connect(0); z_cover("restarted"); }
    for(int i = 0; i < MN; i++) m_history(i);
    // the cursor of one key does not open another one
    for(int i = 0; i < MN; i++) if(M[i].have && M[i].nv > 1) {
        const unsigned char *p; uint32_t n; int64_t a; unsigned char cur[8];
        z_assert(CMD(0, S("HISTORY"), B(M[i].k, M[i].kn)), "daemon-alive");
        z_assert(zr_array(&a) && zr_bulk(&p, &n) && n == 8, "history-older-cursor");
        memcpy(cur, p, 8);
        for(int j = 0; j < MN; j++) if(j != i) {
            z_assert(CMD(0, S("HISTORY"), B(M[j].k, M[j].kn), B(cur, 8)), "daemon-alive");
            z_assert(zr_error(), "foreign-cursor-refused");
            z_cover("foreign-cursor");
        }
        unsigned char big[300]; memset(big, 'a', sizeof big); memcpy(big, M[i].k, M[i].kn);
        z_assert(CMD(0, S("HISTORY"), B(big, 256), B(cur, 8)), "daemon-alive"); z_assert(zr_error(), "foreign-cursor-refused");
        z_assert(CMD(0, S("HISTORY"), B(big, 256 + M[i].kn), B(cur, 8)), "daemon-alive"); z_assert(zr_error(), "foreign-cursor-refused");
    }
    z_cover("end");
}
