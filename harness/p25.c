#include "model.h"
// The size limit of a namespace: an update is accepted exactly when the live payload stays within the limit.
static int64_t limit;
static uint8_t dg[2];
static void set_limit(void) {
    int n = z_param("digits", 1);
    limit = 0;
    if(z_param("large", 0)) { // limits around the powers of two
        static const char *most[] = { "214748364", "429496729", "109951162777", "922337203685477580" };
        const char *m = most[z_choice(4, "limit")]; char t[24]; uint32_t k = (uint32_t) strlen(m);
        memcpy(t, m, k); t[k] = (char) z_u8("digit"); t[k + 1] = 0;
        z_assume(t[k] >= '0' && t[k] <= (k == 18 ? '7' : '9'));
        for(uint32_t i = 0; i <= k; i++) limit = limit * 10 + (t[i] - '0');
        z_assert(CMD(m_c, S("NSSET"), B(m_ns, strlen(m_ns)), S("maxsize"), B(t, k + 1)) && zr_is("+OK\r\n"), "nsset-ok");
        return;
    }
    for(int i = 0; i < n; i++) { dg[i] = z_u8("digit"); z_assume(dg[i] >= '0' && dg[i] <= '9'); limit = limit * 10 + (dg[i] - '0'); }
    z_assert(CMD(m_c, S("NSSET"), B(m_ns, strlen(m_ns)), S("maxsize"), B(dg, n)) && zr_is("+OK\r\n"), "nsset-ok");
}
static void report(void) {
    int64_t v;
    z_assert(m_info("data_limits_bytes", &v) && v == limit, "limit-reported");
    if(limit) z_assert(m_info("space_available", &v) && v == (limit > m_datasize() ? limit - m_datasize() : 0), "space-available-reported");
}
static void write_(int i, const unsigned char *v, uint32_t n) {
    int64_t old = i >= 0 && M[i].have ? M[i].ver[M[i].nv - 1].n : 0, after = m_datasize() - old + n;
    if(m_seq && i >= 0 && !M[i].have) { m_set(i, v, n); return; }
    int fits = limit == 0 || after <= limit;
    if(fits) { z_cover(limit && after == limit ? "exactly-full" : "fits"); if(i < 0) m_new(v, n); else m_set(i, v, n); }
    else {
        z_cover("refused");
        z_assert(i < 0 ? CMD(m_c, S("SET"), S(""), B(v, n)) : CMD(m_c, S("SET"), B(M[i].k, M[i].kn), B(v, n)), "daemon-alive");
        z_assert(zr_is("-No space left on this namespace\r\n"), "refused-when-full");
    }
}
void zmain(void) {
    int seq = z_param("seq", 0), ops = z_param("ops", 3), other = z_param("other", 0);
    unsigned char v[16];
    env_reset(); zh_bits = 0; zh_opts[0] = "--mode"; zh_opts[1] = seq ? "seq" : "user"; zh_opts[2] = NULL;
    if(!other) { zh_opts[2] = "--maxsize"; zh_opts[3] = "7"; zh_opts[4] = NULL; limit = 7; z_cover("option"); }
    z_assert(zh_boot(), "daemon-starts"); zh_connect(0);
    m_init(seq);
    if(other) {
        z_assert(CMD(0, S("NSNEW"), S("n")) && zr_is("+OK\r\n"), "nsnew-ok"); z_assert(CMD(0, S("SELECT"), S("n")) && zr_is("+OK\r\n"), "select-ok"); m_ns = "n";
        zh_connect(1); uint8_t x[12]; memset(x, 'x', 12); // the default namespace stays unlimited and does not count
        z_assert(CMD(1, S("SET"), B("q", seq ? 0 : 1), B(x, 12)) && zr.n > 4 && zr.p[0] == '$', "others-unlimited");
    }
    if(!seq) { MN = 2; M[0].kn = M[1].kn = 1; M[0].k[0] = 'a'; M[1].k[0] = 'b'; }
    int set = 0;
    if(!z_choice(2, "early") || !other) { if(seq) m_new("old", 3); else m_set(0, "old", 3); z_cover("before"); } else { set_limit(); set = 1; }
    for(int s = 0; s < ops; s++) {
        env.now_sec++;
        uint32_t op = z_choice(4, "op");
        if(other && !set && s == 0) { set_limit(); set = 1; }
        if(op <= 1) {
            static const uint32_t len[] = { 0, 3, 7 };
            uint32_t n = len[z_choice(3, "vlen")]; memset(v, 'v', sizeof v); if(n) v[0] = (unsigned char) ('a' + s);
            int i = seq ? (int) z_choice((uint32_t) MN + 1, "slot") - 1 : (int) z_choice(2, "slot");
            write_(i, v, n);
        } else if(op == 2) { z_assume(MN > 0); m_del(0); }
        else { // the limit survives
            if(z_choice(2, "reload")) { z_assert(CMD(m_c, S("RELOAD"), B(m_ns, strlen(m_ns))) && zr_is("+OK\r\n"), "reload-ok"); }
            else { zh_opts[2] = NULL; if(!set) limit = 0; z_assert(zh_boot(), "daemon-restarts"); zh_connect(0); if(other) z_assert(CMD(0, S("SELECT"), S("n")) && zr_is("+OK\r\n"), "select-ok"); z_cover("restarted"); }
        }
        report();
    }
    m_verify();
    if(other) { zh_connect(1); uint8_t x[12]; memset(x, 'y', 12); z_assert(CMD(1, S("SET"), B("q", seq ? 0 : 1), B(x, 12)) && zr.n > 4 && zr.p[0] == '$', "others-unlimited"); }
    z_cover("end");
}
