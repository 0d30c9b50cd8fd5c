#include "model.h"
// Removing a namespace erases all of it and nothing else; the name can be used again for an empty one.
static int under(const char *p, const char *d) { uint32_t n = strlen(d); return strncmp(p, d, n) == 0 && (p[n] == 0 || p[n] == '/'); }
static int nodes(const char *d) { int r = 0; for(int i = 0; i < VFS_NODES; i++) if(vfs[i].linked && under(vfs[i].path, d)) r++; return r; }
void zmain(void) {
    int seq = z_param("seq", 0);
    env_reset();
    zh_bits = 0;
    zh_opts[0] = "--mode"; zh_opts[1] = seq ? "seq" : "user"; zh_opts[2] = NULL;
    z_assert(zh_boot(), "daemon-starts");
    zh_connect(3);
    z_assert(CMD(3, S("NSNEW"), S("n")) && zr_is("+OK\r\n"), "nsnew-ok");
    z_assert(CMD(3, S("NSNEW"), S("nn")) && zr_is("+OK\r\n"), "nsnew-ok");
    uint8_t key = z_u8("key"), key2 = z_u8("key2"); z_assume(key != key2);
    // model 0: default, model 1: nn, model 2: the one removed
    static const char *names[3] = { "default", "nn", "n" };
    for(int i = 0; i < 3; i++) {
        m_switch(i); m_init(seq); m_c = i; m_ns = names[i];
        zh_connect(i); if(i) z_assert(CMD(i, S("SELECT"), B(names[i], strlen(names[i]))) && zr_is("+OK\r\n"), "select-ok");
        uint8_t v = 'A' + i;
        if(!seq) { MN = 2; M[0].kn = M[1].kn = 1; M[0].k[0] = key; M[1].k[0] = key2; m_set(0, &v, 1); } else m_new(&v, 1);
    }
    // the content of the one removed: entries, updates, deletions, files
    m_switch(2);
    for(int s = 0; s < z_param("ops", 2); s++) {
        m_random_op(1, 2, 0);
        if(z_choice(2, "jump")) { z_assert(CMD(2, S("NSJUMP")) && zr_is("+OK\r\n"), "jump-ok"); z_cover("jumped"); }
    }
    for(int i = 0; i < z_param("more", 0); i++) { z_assert(CMD(2, S("NSJUMP")) && zr_is("+OK\r\n"), "jump-ok"); z_cover("many-files"); }
    z_assert(CMD(3, S("NSSET"), S("n"), S("password"), S("pw")) && zr_is("+OK\r\n"), "nsset-ok");
    z_assert(CMD(3, S("NSSET"), S("n"), S("maxsize"), S("3")) && zr_is("+OK\r\n"), "nsset-ok");
    if(z_choice(2, "worm")) z_assert(CMD(3, S("NSSET"), S("n"), S("worm"), S("1")) && zr_is("+OK\r\n"), "nsset-ok");
    // refused for the namespace in use by the one asking, and for the default one
    z_assert(CMD(2, S("NSDEL"), S("n")) && zr_error(), "own-namespace-kept");
    z_assert(CMD(3, S("NSDEL"), S("default")) && zr_error(), "default-namespace-kept");
    z_assert(CMD(2, S("NSDEL"), S("default")) && zr_error(), "default-namespace-kept");
    // a session of it is idle, in the middle of a request, or waiting
    uint32_t st = z_choice(3, "session");
    if(st == 1) { zh_feed(2, "*2\r\n$3\r\nGET\r\n$1\r\n", 17); z_assert(zh_run(), "daemon-alive"); }
    if(st == 2) { z_assert(CMD(2, S("WAIT"), S("SET")) && zr.n == 0, "waiting"); z_cover("waiting"); }
    uint32_t others = nodes("/db/i/nn") + nodes("/db/d/nn") + nodes("/db/i/default") + nodes("/db/d/default");
    z_assert(CMD(3, S("NSDEL"), S("n")) && zr_is("+OK\r\n"), "nsdel-ok");
    z_assert(nodes("/db/i/n") + nodes("/db/d/n") == 0, "files-removed");
    z_assert(nodes("/db/i/nn") + nodes("/db/d/nn") + nodes("/db/i/default") + nodes("/db/d/default") == (int) others, "other-files-kept");
    int64_t n;
    z_assert(CMD(3, S("NSLIST")) && zr_array(&n) && n == 2, "no-longer-listed");
    z_assert(CMD(3, S("SELECT"), S("n"), S("pw")) && zr_error(), "no-longer-selectable");
    z_assert(CMD(3, S("NSINFO"), S("n")) && zr_error(), "no-longer-known");
    for(int i = 0; i < 2; i++) { m_switch(i); m_verify(); }
    int again = (int) z_choice(2, "again");
    if(again) z_assert(CMD(3, S("NSNEW"), S("n")) && zr_is("+OK\r\n"), "nsnew-ok");
    // sessions of the removed namespace reach nothing, not even its successor
    if(st != 2) {
        if(st == 1) zh_feed(2, "k\r\n*1\r\n$4\r\nPING\r\n", 17);
        else { zarg_t a[] = { S("SET"), B(seq ? "" : "k", !seq), S("x") }; zh_feed_cmd(2, 3, a); zh_feed(2, "*2\r\n$3\r\nGE", 10); }
        z_assert(zh_run(), "daemon-alive"); zr_take(2);
        z_assert(zr_error() && memchr(zr.p, '\n', zr.n - 1) == NULL, "session-of-removed-namespace-refused");
        z_assert(conns[2].closed, "session-of-removed-namespace-closed");
    } else {
        // still waiting; other namespaces do not wake it, time does
        z_assert(CMD(0, S("SET"), B(seq ? "" : "k", !seq), S("x")), "daemon-alive"); zr_take(2); z_assert(zr.n == 0, "not-woken-by-others");
        m_switch(0); z_assert(CMD(0, S("DBSIZE")), "daemon-alive");
        env.now_sec += 10; z_assert(zh_idle(), "daemon-alive"); zr_take(2); z_assert(zr_error(), "wait-times-out");
        z_assert(CMD(2, S("PING")) && (zr_error() || zr.n == 0), "session-of-removed-namespace-refused");
    }
    if(again) {
        for(int r = 0; r < 2; r++) {
            zh_connect(4);
            z_assert(CMD(4, S("SELECT"), S("n")) && zr_is("+OK\r\n"), "no-password-left");
            m_switch(2);
            if(!r) { int k = seq ? 0 : 2; m_init(seq); m_c = 4; m_ns = "n"; if(!seq) { MN = k; M[0].kn = M[1].kn = 1; M[0].k[0] = key; M[1].k[0] = key2; } }
            m_c = 4;
            m_verify(); if(!r) { z_assert(CMD(4, S("SCAN")) && zr_error(), "empty-again"); }
            if(seq) m_new("longer", 6); else m_set(0, r ? "longer2" : "longer", r ? 7 : 6);
            m_verify(); m_scan(0, 0); m_scan(1, 0);
            if(r || !z_choice(2, "restart")) break;
            z_assert(zh_boot(), "daemon-restarts"); zh_connect(3); zh_connect(0); zh_connect(1);
            z_assert(CMD(1, S("SELECT"), S("nn")) && zr_is("+OK\r\n"), "select-ok");
            z_cover("restarted");
        }
        z_cover("again");
    } else if(z_choice(2, "restart")) {
        z_assert(zh_boot(), "daemon-restarts"); zh_connect(3); zh_connect(0); zh_connect(1);
        z_assert(CMD(1, S("SELECT"), S("nn")) && zr_is("+OK\r\n"), "select-ok");
        z_assert(CMD(3, S("SELECT"), S("n")) && zr_error(), "stays-removed-after-restart");
    }
    m_switch(1); m_verify();
    z_cover("end");
}
