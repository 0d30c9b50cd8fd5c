#include "model.h"
// A restarted (or reloaded) namespace is indistinguishable from the one that was running.
static int first;
static int other;
static int has(const char *w) { uint32_t n = strlen(w); for(uint32_t i = 0; i + n <= zr.n; i++) if(memcmp(zr.p + i, w, n) == 0) return 1; return 0; }
// a namespace of its own next to the default one
static void in_other(void) {
    z_assert(CMD(0, S("SELECT"), S("n")) && zr_is("+OK\r\n"), "select-ok"); m_ns = "n";
}
static void check_mode(void) { z_assert(CMD(0, S("NSINFO"), B(m_ns, strlen(m_ns))) && has(m_seq ? "mode: sequential\n" : "mode: userkey\n"), "mode-restored"); }
static void restart(void) {
    uint32_t how = z_param("reload", 1) ? z_choice(2, "how") : 0;
    if(how == 1) { z_note("RELOAD "); z_assert(CMD(0, S("RELOAD"), B(m_ns, strlen(m_ns))), "daemon-alive"); z_assert(zr_is("+OK\r\n"), "reload-ok"); z_cover("reloaded"); }
    else { z_note("RESTART "); z_assert(zh_boot(), "daemon-restarts"); zh_connect(0); if(other) in_other(); z_cover("restarted"); }
}
void zmain(void) {
    int ops = z_param("ops", 3), lens = z_param("vlens", 2), seq = z_param("seq", 0), keys = z_param("keys", 2);
    env_reset();
    zh_bits = z_param("bits", 0);
    zh_opts[0] = "--mode"; zh_opts[1] = seq ? "seq" : "user"; zh_opts[2] = NULL;
    other = z_param("other", 0); if(other) zh_opts[0] = NULL;
    z_assert(zh_boot(), "daemon-starts");
    zh_connect(0);
    m_init(seq);
    if(other) {
        z_assert(CMD(0, S("SET"), S("a"), S("x")) && !zr_error(), "set-ok");
        z_assert(CMD(0, S("NSNEW"), S("n")) && zr_is("+OK\r\n"), "nsnew-ok");
        if(seq || z_choice(2, "mode set")) z_assert(CMD(0, S("NSSET"), S("n"), S("mode"), B(seq ? "seq" : "user", seq ? 3 : 4)) && zr_is("+OK\r\n"), "nsset-ok");
        in_other(); ops = (int) z_choice((uint32_t) ops + 1, "ops");
    }
    if(!seq) m_keys(keys, 0);
    int jump = z_param("jump", 0);
    for(int s = 0; s < ops; s++) {
        m_random_op(keys, lens, 0);
        if(jump && s < ops - 1 && z_choice(2, "jump")) { z_note("JUMP "); z_assert(CMD(0, S("NSJUMP")), "daemon-alive"); z_assert(zr_is("+OK\r\n"), "jump-ok"); z_cover("jumped"); }
    }
    int64_t s0, s1;
    z_assert(m_info("index_size_bytes", &s0), "nsinfo");
    restart();
    m_verify();
    z_assert(m_info("index_size_bytes", &s1) && s1 == s0, "index-size-restored");
    check_mode();
    m_scan(0, 0); m_scan(1, 0);
    for(int i = 0; i < MN; i++) m_history(i);
    m_random_op(keys, other ? lens : 1, 0); m_verify();
    restart();
    m_verify(); check_mode();
    if(other) { z_assert(CMD(0, S("SELECT"), S("default")) && zr_is("+OK\r\n") && CMD(0, S("GET"), S("a")) && zr_bulk_is("x", 1), "other-namespaces-as-before"); }
    z_cover("end");
}
