#include "model.h"
// Prefix search: exactly the live keys which start with the bytes asked for, whatever these are.
void zmain(void) {
    int n = z_param("keys", 3); unsigned char q[3]; uint32_t qn = 1 + z_choice(3, "prefix length");
    env_reset(); m_init(0); zh_bits = (int) z_param("bits", 1);
    zh_opts[0] = "--mode"; zh_opts[1] = "user";
    z_assert(zh_boot(), "daemon-starts"); zh_connect(0);
    MN = n;
    for(int i = 0; i < n; i++) {
        M[i].kn = 1 + z_choice(3, "keylen"); z_bytes(M[i].k, M[i].kn, "key");
        for(int j = 0; j < i; j++) if(M[j].kn == M[i].kn) z_assume(memcmp(M[j].k, M[i].k, M[i].kn) != 0);
        m_set(i, "v", 1);
    }
    z_bytes(q, qn, "prefix");
    switch(z_choice(4, "then")) {
        case 1: m_del(0); break;
        case 2: m_set(0, "w", 1); break;
        case 3: zh_stop(); z_assert(zh_boot(), "daemon-starts"); zh_connect(0); z_cover("restarted"); break;
    }
    int want[MKEYS], wanted = 0;
    for(int i = 0; i < n; i++) { want[i] = 0; if(M[i].have && M[i].kn >= qn && memcmp(M[i].k, q, qn) == 0) { want[i] = 1; wanted++; } }
    z_assert(CMD(0, S("KSCAN"), B(q, qn)), "daemon-alive");
    if(!wanted) { z_assert(zr_error(), "prefix-search-none"); z_cover("none"); }
    else {
        int64_t a, c;
        z_assert(zr_array(&a) && a == 2 && zr_bulk_is("0", 1) && zr_array(&c) && c == wanted, "prefix-search-count");
        for(int64_t r = 0; r < c; r++) {
            const unsigned char *p; uint32_t l; int found = 0; z_assert(zr_bulk(&p, &l), "prefix-search-reply");
            for(int i = 0; i < n && !found; i++) if(want[i] && M[i].kn == l && memcmp(M[i].k, p, l) == 0) { found = 1; want[i] = 0; }
            z_assert(found, "prefix-search-exact");
        }
        z_assert(zr_end(), "prefix-search-end");
        if(wanted > 1) z_cover("several");
        if(wanted < n) z_cover("some");
    }
    m_verify(); z_cover("end");
}
