#include "model.h"
// Any cursor presented to SCAN, RSCAN or HISTORY: answered or refused, nothing else happens.
static int reply_wellformed(void) {
    // exactly one reply: error, or an array of values
    int64_t a, k; const unsigned char *p; uint32_t n;
    if(zr.n == 0) return 0;
    if(zr.p[0] == '-') return zr_error();
    if(!zr_array(&a)) return 0;
    for(int64_t i = 0; i < a; i++) {
        if(zr_nil() || zr_bulk(&p, &n)) continue;
        if(!zr_array(&k)) return 0;
        for(int64_t j = 0; j < k; j++) { int64_t x, l, t; if(!zr_array(&x) || x != 3 || !zr_bulk(&p, &n) || !zr_int(&l) || !zr_int(&t)) return 0; }
    }
    return zr_end();
}
static void fileid(unsigned char *p) {
    static const uint32_t ids[] = { 0, 1, 2, 255, 256, 0x7fffffff, 0xffffffff };
    uint32_t v = ids[z_choice(7, "file")]; memcpy(p, &v, 4);
}
void zmain(void) {
    int seq = z_param("seq", 0), what = z_param("what", 0);
    unsigned char cur[40]; uint32_t n;
    env_reset();
    zh_bits = 0;
    zh_opts[0] = "--mode"; zh_opts[1] = seq ? "seq" : "user"; zh_opts[2] = NULL;
    z_assert(zh_boot(), "daemon-starts");
    zh_connect(0);
    m_init(seq);
    if(!seq) { MN = 2; M[0].kn = 1; M[0].k[0] = 'a'; M[1].kn = 3; memcpy(M[1].k, "abc", 3); }
    env.now_sec++; if(seq) m_new("x", 1); else m_set(0, "x", 1);
    if(z_choice(2, "jump")) z_assert(CMD(0, S("NSJUMP")) && zr_is("+OK\r\n"), "jump-ok");
    env.now_sec++; if(seq) m_new("", 0); else m_set(1, "", 0);
    uint32_t third = z_choice(3, "third");
    env.now_sec++; if(third == 1) m_set(0, "yz", 2); if(third == 2) m_del(1);
    uint32_t before[VFS_NODES], nn = 0;
    for(int i = 0; i < VFS_NODES; i++) before[i] = vfs[i].linked ? vfs[i].size + 1 : 0;
    uint32_t writes = env.writes; (void) nn;
    if(what == 0) {
        n = 17;
        if(z_choice(2, "wrong-length")) { static const uint32_t ls[] = { 0, 1, 8, 16, 18, 32 }; n = ls[z_choice(6, "cn")]; z_cover("wrong-length"); }
        z_bytes(cur, n, "cur");
        if(n == 17) { static const uint8_t ls[] = { 0, 1, 3, 8, 9, 255 }; cur[0] = ls[z_choice(6, "idlen")]; fileid(cur + 1); }
        z_assert(z_choice(2, "reverse") ? CMD(0, S("RSCAN"), B(cur, n)) : CMD(0, S("SCAN"), B(cur, n)), "daemon-alive");
    } else {
        n = 8;
        if(z_choice(2, "wrong-length")) { static const uint32_t ls[] = { 0, 1, 4, 7, 9, 17 }; n = ls[z_choice(6, "cn")]; z_cover("wrong-length"); }
        z_bytes(cur, n, "cur");
        if(n >= 4) fileid(cur);
        if(MN == 0) z_assume(0);
        int i = MN > 1 ? (int) z_choice(MN, "key") : 0;
        z_assert(CMD(0, S("HISTORY"), B(M[i].k, M[i].kn), B(cur, n)), "daemon-alive");
    }
    z_assert(reply_wellformed(), "one-wellformed-reply");
    if(zr.p[0] == '-') z_cover("refused"); else z_cover("accepted");
    z_assert(env.writes == writes, "nothing-written");
    for(int i = 0; i < VFS_NODES; i++) z_assert(before[i] == (vfs[i].linked ? vfs[i].size + 1 : 0), "no-file-changed");
    m_verify();
    z_cover("end");
}
