#include "model.h"
// Administrative commands are refused, without effect, to clients which did not authenticate.
static int contains(const char *w) { uint32_t n = strlen(w); for(uint32_t i = 0; i + n <= zr.n; i++) if(memcmp(zr.p + i, w, n) == 0) return 1; return 0; }
#define F(...) do { zarg_t t_[] = { __VA_ARGS__ }; n = (int) (sizeof(t_) / sizeof(zarg_t)); memcpy(a, t_, sizeof(t_)); } while(0)
// the k-th reserved request; variant: 0 as it is, 1 with one more argument, 2 with one less, 3 written otherwise, 4 with an empty argument
static int admin_cmd(int c, uint32_t k, uint32_t variant) {
    zarg_t a[8]; int n = 0; static char low[16];
    zarg_t key = B(M[0].k, M[0].kn), fresh = m_seq ? S("") : S("new");
    switch(k) {
    case 0: F(S("NSNEW"), S("x")); break;
    case 1: F(S("NSDEL"), S("n")); break;
    case 2: F(S("NSSET"), S("n"), S("maxsize"), S("1")); break;
    case 3: F(S("NSSET"), S("n"), S("password"), S("*")); break;
    case 4: F(S("NSSET"), S("n"), S("public"), S("0")); break;
    case 5: F(S("NSSET"), S("n"), S("worm"), S("1")); break;
    case 6: F(S("NSSET"), S("n"), S("lock"), S("1")); break;
    case 7: F(S("NSSET"), S("default"), S("freeze"), S("1")); break;
    case 8: F(S("NSJUMP")); break;
    case 9: F(S("RELOAD"), S("default")); break;
    case 10: F(S("HOOKS")); break;
    case 11: F(S("INDEX"), S("DIRTY")); break;
    case 12: F(S("INDEX"), S("DIRTY"), S("RESET")); break;
    case 13: F(S("DATA"), S("RAW"), S("0"), S("28")); break;
    case 14: F(S("MIRROR")); break;
    case 15: F(S("MASTER")); break;
    case 16: F(S("SET"), fresh, S("v"), S("5")); break;
    case 17: F(S("SET"), key, S("w"), S("5")); break;
    case 18: F(S("DEL"), key, S("5")); break;
    case 19: F(S("SETX"), key, S("w"), S("5")); break;
    default: F(S("NSSET"), S("n"), S("mode"), S("seq")); break;
    }
    // what is left must not be a request everybody may send
    if(variant == 1) a[n++] = S("7");
    if(variant == 2) { z_assume(n > 1 && !(k >= 16 && k <= 19)); n--; }
    if(variant == 3) { uint32_t l = a[0].n; memcpy(low, a[0].p, l); for(uint32_t i = 0; i < l; i++) if(z_choice(i < 3 ? 2 : 1, "lower")) low[i] |= 32; a[0] = B(low, l); }
    if(variant == 4) { z_assume(n > 1); uint32_t w = 1 + z_choice((uint32_t) n - 1, "empty"); a[w] = S(""); }
    return zh_cmdv(c, n, a);
}
#define NADMIN 21
static int wanted;
static void check_plain(int c) {
    // ordinary information does not leak what is reserved
    z_assert(CMD(c, S("NSINFO"), S("n")) && zr.n > 40, "nsinfo-ok");
    z_assert(!contains("hush") && !contains("/db/"), "nsinfo-keeps-secrets");
    z_assert(contains("password: yes") && contains("public: yes") && contains("worm: no") && contains("locked: no") && contains("data_limits_bytes: 0\n"), "settings-unchanged");
    z_assert(CMD(c, S("NSINFO"), S("default")) && !contains("/db/") && contains("locked: no"), "nsinfo-keeps-secrets");
    z_assert(CMD(c, S("NSLIST")), "daemon-alive");
    int64_t n; z_assert(zr_array(&n) && n == 2 && zr_bulk_is("default", 7) && zr_bulk_is("n", 1) && zr_end(), "namespaces-unchanged");
}
void zmain(void) {
    int two = z_param("two", 1);
    env_reset();
    zh_opts[0] = "--admin"; zh_opts[1] = "root"; zh_opts[2] = NULL;
    if(z_param("seq", 0)) { zh_opts[2] = "--mode"; zh_opts[3] = "seq"; zh_opts[4] = NULL; }
    z_assert(zh_boot(), "daemon-starts");
    zh_connect(3);
    z_assert(CMD(3, S("AUTH"), S("root")) && zr_is("+OK\r\n"), "auth-ok");
    z_assert(CMD(3, S("NSNEW"), S("n")) && zr_is("+OK\r\n"), "nsnew-ok");
    z_assert(CMD(3, S("NSSET"), S("n"), S("password"), S("hush")) && zr_is("+OK\r\n"), "nsset-ok");
    m_init(z_param("seq", 0)); m_c = 3;
    if(m_seq) m_new("v", 1); else { MN = 1; M[0].kn = 1; M[0].k[0] = z_u8("key"); m_set(0, "v", 1); }
    m_c = 0;
    uint32_t who = z_choice(5, "who");
    if(who == 0) zh_connect(0);
    if(who == 1) { // wrong password of any kind
        uint8_t pw[5]; uint32_t n = z_choice(6, "len"); z_bytes(pw, n, "pw");
        z_assume(!(n == 4 && memcmp(pw, "root", 4) == 0));
        zh_connect(0); z_assert(CMD(0, S("AUTH"), B(pw, n)) && zr_error(), "wrong-password-refused"); z_cover("wrong-password");
    }
    if(who == 2) { // takes the descriptor of a client which was administrator
        conns[3].hup = 1; conns[3].in_ready = 1; z_assert(zh_run(), "daemon-alive");
        zh_connect(0); z_cover("descriptor-reused");
    }
    if(who == 3) { // administrator elsewhere at the same time, and went through a protected namespace
        zh_connect(0); z_assert(CMD(0, S("SELECT"), S("n"), S("hush")) && zr_is("+OK\r\n"), "select-ok"); z_assert(CMD(0, S("SELECT"), S("default")) && zr_is("+OK\r\n"), "select-ok"); z_cover("selected");
    }
    if(who == 4) { // a restart forgets nobody was authenticated
        z_assert(zh_boot(), "daemon-starts"); zh_connect(0); z_cover("restarted");
    }
    for(int t = 0; t < 1 + two; t++) {
        uint32_t variant = z_param("variants", 0) ? 1 + z_choice(4, "variant") : 0;
        uint32_t k = t ? z_choice(2, "second") * 14 : z_choice(NADMIN, "command"), before = env.writes + env.metas;
        if(!t) wanted = k;
        z_assert(admin_cmd(0, k, variant), "daemon-alive");
        z_assert(zr_error(), "not-authorized");
        z_assert(env.writes + env.metas == before, "refused-command-writes-nothing");
    }
    m_verify();
    check_plain(0);
    // nothing is mirrored to it
    zh_connect(2);
    z_assert(CMD(2, S("SET"), m_seq ? S("") : S("zz"), S("v")), "daemon-alive");
    zr_take(0); z_assert(zr.n == 0, "not-mirrored");
    if(z_param("variants", 0)) { z_cover("end"); return; }
    // and the authenticated client may
    if(who == 2 || who == 4) zh_connect(3);
    z_assert(CMD(3, S("AUTH"), S("root")) && zr_is("+OK\r\n"), "auth-ok");
    z_assert(admin_cmd(3, wanted, 0), "daemon-alive");
    z_assert(wanted == 13 || (m_seq && wanted == 20) ? !zr_is("-Permission denied\r\n") : !zr_error(), "administrator-allowed");
    z_cover("end");
}
