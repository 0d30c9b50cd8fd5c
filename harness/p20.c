#include "model.h"
#include "files.h"
// FLUSH erases the content of the namespace of the session, only where allowed, and nothing else.
static int nfiles(const char *ns) { int r = 0; char p[64]; for(int i = 0; i < (z_param("more", 0) ? 120 : 12); i++) { snprintf(p, sizeof p, "/db/i/%s/i%d", ns, i); vnode_t *v = vfs_find(p); r += v && v->linked; snprintf(p, sizeof p, "/db/d/%s/d%d", ns, i); v = vfs_find(p); r += v && v->linked; } return r; }
static int has(const char *w) { uint32_t n = strlen(w); for(uint32_t i = 0; i + n <= zr.n; i++) if(memcmp(zr.p + i, w, n) == 0) return 1; return 0; }
static int mixed;
static void settings(void) {
    z_assert(CMD(3, S("NSINFO"), S("n")), "daemon-alive");
    z_assert(has("public: no") && has("password: yes") && has("worm: no") && has("data_limits_bytes: 4000\n"), "settings-kept");
    z_assert(has(m_seq ? "mode: sequential" : "mode: userkey"), "mode-kept");
}
static void reconnect(void) { zh_connect(3); for(int i = 0; i < 2; i++) zh_connect(i); z_assert(CMD(1, S("SELECT"), S("n"), S("pw")) && zr_is("+OK\r\n"), "select-ok"); z_assert(CMD(0, S("SELECT"), S("nn")) && zr_is("+OK\r\n"), "select-ok"); }
void zmain(void) {
    int seq = z_param("seq", 0), crash = z_param("crash", 0), ops = z_param("ops", 2);
    mixed = z_param("mix", 0);
    env_reset();
    zh_bits = 0;
    env.allowed[0] = "/db/i"; env.allowed[1] = "/db/d";
    if(!mixed) { zh_opts[0] = "--mode"; zh_opts[1] = seq ? "seq" : "user"; zh_opts[2] = NULL; }
    z_assert(zh_boot(), "daemon-starts");
    zh_connect(3);
    z_assert(CMD(3, S("NSNEW"), S("n")) && zr_is("+OK\r\n"), "nsnew-ok");
    z_assert(CMD(3, S("NSNEW"), S("nn")) && zr_is("+OK\r\n"), "nsnew-ok");
    if(mixed && seq) z_assert(CMD(3, S("NSSET"), S("n"), S("mode"), S("seq")) && zr_is("+OK\r\n"), "mode-ok");
    z_assert(CMD(3, S("NSSET"), S("n"), S("maxsize"), S("4000")) && zr_is("+OK\r\n"), "nsset-ok");
    uint8_t key = z_u8("key"), key2 = z_u8("key2"); z_assume(key != key2);
    for(int i = 0; i < 2; i++) {     // model 0: nn, model 1: n
        m_switch(i); m_init(i ? seq : (seq && !mixed)); m_c = i; m_ns = i ? "n" : "nn";
        zh_connect(i); z_assert(CMD(i, S("SELECT"), B(m_ns, strlen(m_ns))) && zr_is("+OK\r\n"), "select-ok");
        uint8_t v = 'A' + i;
        if(!m_seq) { MN = 2; M[0].kn = M[1].kn = 1; M[0].k[0] = key; M[1].k[0] = key2; m_set(0, &v, 1); } else m_new(&v, 1);
        // others kept next to each other in the same chain, before and after the ones to be removed
        if(!i && !m_seq) { MN = 5; for(int j = 2; j < 5; j++) { M[j].kn = 2; M[j].k[0] = 'x'; M[j].k[1] = '0' + j; if(j < 4) m_set(j, &v, 1); } }
    }
    int files = 2;
    for(int s = 0; s < ops; s++) {
        m_random_op(1, 2, 0);
        if(z_choice(2, "jump")) { z_assert(CMD(1, S("NSJUMP")) && zr_is("+OK\r\n"), "jump-ok"); files += 2; z_cover("jumped"); }
    }
    m_switch(0); if(!m_seq) m_set(4, "w", 1); m_switch(1);
    for(int i = 0; i < z_param("more", 0); i++) { z_assert(CMD(1, S("NSJUMP")) && zr_is("+OK\r\n"), "jump-ok"); files += 2; z_cover("many-files"); }
    z_assert(nfiles("n") == files, "one-pair-of-files-per-rotation");
    // refused unless private and protected
    z_assert(CMD(1, S("FLUSH")) && zr_error(), "flush-of-open-namespace-refused");
    z_assert(CMD(3, S("NSSET"), S("n"), S("password"), S("pw")) && zr_is("+OK\r\n"), "nsset-ok");
    z_assert(CMD(1, S("FLUSH")) && zr_error(), "flush-of-public-namespace-refused");
    if(!crash) m_verify();
    z_assert(CMD(3, S("NSSET"), S("n"), S("password"), S("*")) && zr_is("+OK\r\n") && CMD(3, S("NSSET"), S("n"), S("public"), S("0")) && zr_is("+OK\r\n"), "nsset-ok");
    z_assert(CMD(1, S("FLUSH")) && zr_error(), "flush-of-unprotected-namespace-refused");
    z_assert(CMD(3, S("NSSET"), S("n"), S("password"), S("pw")) && zr_is("+OK\r\n"), "nsset-ok");
    if(!crash) m_verify();
    if(crash) {
        static ment_t before[MKEYS]; memcpy(before, M, sizeof before);
        env.mcrash_at = (int) env.metas + (int) z_choice(9, "crash-at");
        CMD(1, S("FLUSH"));
        int done = !env.crashed;
        vfs_crash(0); env.mcrash_at = -1;
        z_assert(zh_boot(), "daemon-starts-after-crash"); reconnect();
        // every key holds a value it had, or nothing; once confirmed, nothing
        for(int i = 0; i < MN; i++) {
            z_assert(CMD(1, S("GET"), B(M[i].k, M[i].kn)), "daemon-alive");
            int ok = zr_nil() || zr_error();
            if(!ok && !done) for(int k = 0; k < before[i].nv && !ok; k++) { uint32_t at = zr.at; ok = zr_bulk_is(before[i].ver[k].v, before[i].ver[k].n); zr.at = at; }
            z_assert(ok, "no-foreign-value");
        }
        z_cover(done ? "done" : "interrupted");
        // a second flush completes it
        z_assert(CMD(1, S("FLUSH")) && zr_is("+OK\r\n"), "flush-ok");
        z_assert(nfiles("n") == 2, "only-fresh-files-left");
    } else { z_assert(CMD(1, S("FLUSH")) && zr_is("+OK\r\n"), "flush-ok"); z_assert(nfiles("n") == 2, "only-fresh-files-left"); z_assert(f_data("n", 0)->size == 28, "nothing-left-in-files"); }
    z_assert(!env.escaped, "stays-inside-the-data-directories");
    settings();
    // empty; then used again
    const char *ns = m_ns;
    for(int i = 0; i < MN; i++) M[i].have = 0;
    if(!seq) { m_verify(); } else { for(int i = 0; i < MN; i++) { z_assert(CMD(1, S("GET"), B(M[i].k, M[i].kn)) && zr_nil(), "flushed-entries-gone"); } }
    m_init(seq); m_c = 1; m_ns = ns; if(!seq) { MN = 2; M[0].kn = M[1].kn = 1; M[0].k[0] = key; M[1].k[0] = key2; }
    z_assert(m_entries() == 0 && CMD(1, S("DBSIZE")) && zr_is(":0\r\n"), "empty-after-flush");
    z_assert(CMD(1, S("SCAN")) && zr_error(), "empty-after-flush"); z_assert(CMD(1, S("RSCAN")) && zr_error(), "empty-after-flush");
    int64_t n; z_assert(m_info("entries", &n) && n == 0 && m_info("data_size_bytes", &n) && n == 0 && m_info("index_size_bytes", &n) && n == 0, "statistics-reset");
    for(int r = 0; r < 2; r++) {
        if(seq) { m_new("long value", 10); m_new("b", 1); } else { m_set(0, r ? "long value2" : "long value", r ? 11 : 10); m_del(0); m_set(1, "b", 1); m_set(0, r ? "q" : "r", 1); }
        m_verify(); m_scan(0, 0); m_scan(1, 0); for(int i = 0; i < MN; i++) if(M[i].have) m_history(i);
        if(r || !z_choice(2, "restart")) break;
        z_assert(zh_boot(), "daemon-restarts"); reconnect(); settings(); z_cover("restarted");
        m_verify(); if(!seq) { m_set(1, "c", 1); m_set(0, "z", 1); }
    }
    m_switch(0); m_verify(); m_scan(0, 0);
    z_cover("end");
}
