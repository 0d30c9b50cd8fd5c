#include "model.h"
// Key-value mode: every short history of SET/DEL over arbitrary keys and arbitrary values reads back exactly
// what a map would hold.
void zmain(void) {
    int ops = z_param("ops", 3), lens = z_param("vlens", 3), keys = z_param("keys", 2), fixed = z_param("fixed", 0);
    env_reset();
    zh_bits = z_param("bits", 0);
    zh_opts[0] = "--mode"; zh_opts[1] = "user"; zh_opts[2] = NULL;
    z_assert(zh_boot(), "daemon-starts");
    zh_connect(0);
    m_init(0);
    if(fixed) { MN = keys; for(int i = 0; i < keys; i++) { M[i].kn = 1 + i / 2; memcpy(M[i].k, i % 2 ? "ba" : "ab", 2); } }
    else m_keys(keys, 1);
    for(int s = 0; s < ops; s++) {
        m_random_op(keys, lens, 0);
        if(z_param("steps", 1) && s < ops - 1) for(int i = 0; i < MN; i++) m_read_value(i);
    }
    m_verify();
    z_cover("end");
}
