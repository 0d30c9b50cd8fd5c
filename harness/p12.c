#include "model.h"
// Namespaces do not influence each other: operations, rotations, reloads, settings and removal of one
// leave the others as they were, also after a restart.
static const char *names[3] = { "default", NULL, NULL };
static int gone[3];
static void sel(int c, int n) { z_assert(CMD(c, S("SELECT"), B(names[n], strlen(names[n]))) && zr_is("+OK\r\n"), "select-ok"); }
static void verify_all(int nns) { for(int n = 0; n < nns; n++) if(!gone[n]) { m_switch(n); m_verify(); } }
static void boot(int nns) {
    z_assert(zh_boot(), "daemon-starts");
    for(int n = 0; n < nns; n++) if(!gone[n]) { zh_connect(n); if(n) sel(n, n); }
    zh_connect(3);
}
void zmain(void) {
    int ops = z_param("ops", 3), mixed = z_param("mix", 0), events = z_param("events", 1);
    static char long1[129], long2[129]; memset(long1, 'n', 128); memset(long2, 'n', 128); long1[127] = 'a'; if(z_param("pairs", 3) == 4) long2[127] = z_choice(2, "short") ? 0 : 'b';
    const char *pairs[][2] = { { "n", "nn" }, { "default2", "DEFAULT" }, { "a.b", "a-b" }, { long1, long2 } };
    uint32_t w = z_param("pairs", 3) == 4 ? 3 : z_choice(z_param("pairs", 3), "names");
    env_reset();
    zh_bits = 0;
    if(!mixed) { zh_opts[0] = "--mode"; zh_opts[1] = "user"; zh_opts[2] = NULL; }   // default: each namespace has its own mode
    z_assert(zh_boot(), "daemon-starts");
    zh_connect(0); zh_connect(3);
    names[1] = pairs[w][0]; names[2] = pairs[w][1];
    int nns = 3;
    for(int n = 1; n < nns; n++) {
        z_assert(CMD(3, S("NSNEW"), B(names[n], strlen(names[n]))) && zr_is("+OK\r\n"), "nsnew-ok");
        zh_connect(n); sel(n, n);
    }
    if(mixed) z_assert(CMD(3, S("NSSET"), B(names[2], strlen(names[2])), S("mode"), S("seq")) && zr_is("+OK\r\n"), "mode-ok");
    uint8_t key = z_u8("key"), key2 = z_u8("key2");
    z_assume(key != key2);
    for(int n = 0; n < nns; n++) {
        m_switch(n); m_init(mixed && n == 2); m_c = n; m_ns = names[n];
        if(!m_seq) { MN = 2; M[0].kn = 1; M[0].k[0] = key; M[1].kn = 1; M[1].k[0] = key2; }
    }
    for(int n = 0; n < nns; n++) { m_switch(n); env.now_sec++; uint8_t v = 'A' + n; if(m_seq) m_new(&v, 1); else m_set(0, &v, 1); }
    for(int s = 0; s < ops; s++) {
        int n = (int) z_choice(nns, "ns");
        if(gone[n]) z_assume(0);
        m_switch(n);
        m_random_op(1, 2, 0);
        if(!events || s != ops - 2) continue;
        // one administrative event on one namespace
        uint32_t e = z_choice(5, "event");
        n = e ? (int) z_choice(2, "on") + 1 : 0;
        if(e == 1) { sel(3, n); z_assert(CMD(3, S("NSJUMP")) && zr_is("+OK\r\n"), "jump-ok"); z_cover("jumped"); }
        if(e == 2) { z_assert(CMD(3, S("RELOAD"), B(names[n], strlen(names[n]))) && zr_is("+OK\r\n"), "reload-ok"); z_cover("reloaded"); }
        if(e == 3) { z_assert(CMD(3, S("NSSET"), B(names[n], strlen(names[n])), S("lock"), S("1")) && zr_is("+OK\r\n"), "lock-ok");
            m_switch(3 - n); if(m_seq) m_new("L", 1); else m_set(0, "L", 1);
            z_assert(CMD(3, S("NSSET"), B(names[n], strlen(names[n])), S("lock"), S("0")) && zr_is("+OK\r\n"), "lock-ok"); z_cover("locked"); }
        if(e == 4) {
            sel(3, 0);
            z_assert(CMD(3, S("NSDEL"), B(names[n], strlen(names[n]))) && zr_is("+OK\r\n"), "nsdel-ok"); z_cover("removed");
            gone[n] = 1;
            z_assert(CMD(3, S("SELECT"), B(names[n], strlen(names[n]))) && zr_error(), "removed-namespace-gone");
        }
        verify_all(nns);
    }
    verify_all(nns);
    if(z_choice(2, "restart")) { boot(nns); verify_all(nns); z_cover("restarted"); }
    z_cover("end");
}
