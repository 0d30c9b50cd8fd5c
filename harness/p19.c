#include "zharn.h"
// Namespace settings are kept exactly across restarts; interrupted changes leave the old or the new settings.
typedef struct { unsigned char pw[64]; uint32_t pn; int pub, worm; char max[24]; int seq; } set_t;
static set_t cfg;
static int field(const unsigned char *p, uint32_t n, const char *name, const char *want) {
    uint32_t l = strlen(name), w = strlen(want);
    for(uint32_t i = 0; i + l + 2 + w < n; i++) if((i == 0 || p[i - 1] == '\n') && memcmp(p + i, name, l) == 0 && p[i + l] == ':') return memcmp(p + i + l + 2, want, w) == 0 && p[i + l + 2 + w] == '\n';
    return 0;
}
static int matches(const set_t *s) {
    const unsigned char *p; uint32_t n;
    z_assert(CMD(3, S("NSINFO"), S("n")) && zr_bulk(&p, &n) && zr_end(), "nsinfo-ok");
    if(!field(p, n, "password", s->pn ? "yes" : "no") || !field(p, n, "public", s->pub ? "yes" : "no") || !field(p, n, "worm", s->worm ? "yes" : "no") || !field(p, n, "data_limits_bytes", s->max)) return 0;
    if(z_param("mode", 0) && !field(p, n, "mode", s->seq ? "sequential" : "userkey")) return 0;
    zh_connect(0);
    if(s->pn) {
        z_assert(CMD(0, S("SELECT"), S("n"), B(s->pw, s->pn)), "daemon-alive");
        if(!zr_is("+OK\r\n")) return 0;
        z_assert(CMD(0, S("SELECT"), S("n")), "daemon-alive");
        if(zr_is("+OK\r\n") != s->pub) return 0;
        unsigned char bad[66]; memcpy(bad, s->pw, s->pn); bad[s->pn] = 'x';
        if(CMD(0, S("SELECT"), S("n"), B(bad, s->pn + 1)) && zr_is("+OK\r\n")) return 0;
        if(s->pn > 1 && CMD(0, S("SELECT"), S("n"), B(s->pw, s->pn - 1)) && zr_is("+OK\r\n")) return 0;
    } else { z_assert(CMD(0, S("SELECT"), S("n")), "daemon-alive"); if(!zr_is("+OK\r\n")) return 0; }
    return 1;
}
static int issue(set_t *s) {
    *s = cfg;
    char v[2] = "0";
    switch(z_choice(z_param("mode", 0) ? 5 : 4, "property")) {
    case 0: v[0] += s->pub = (int) z_choice(2, "on"); return CMD(3, S("NSSET"), S("n"), S("public"), B(v, 1));
    case 1: v[0] += s->worm = (int) z_choice(2, "on"); return CMD(3, S("NSSET"), S("n"), S("worm"), B(v, 1));
    case 2: {
        static const char *m[] = { "0", "9", "4294967296", "9223372036854775807" };
        strcpy(s->max, m[z_choice(4, "max")]);
        return CMD(3, S("NSSET"), S("n"), S("maxsize"), B(s->max, strlen(s->max))); }
    case 3: {
        static const uint32_t len[] = { 0, 1, 3, 63 };
        s->pn = len[z_choice(4, "length")];
        if(s->pn == 0) { z_cover("cleared"); return CMD(3, S("NSSET"), S("n"), S("password"), S("*")); }
        memset(s->pw, 'p', s->pn); z_bytes(s->pw, 1, "pw"); if(s->pn > 1) z_bytes(s->pw + s->pn - 1, 1, "pw");
        z_assume(s->pw[0] != 0 && s->pw[s->pn - 1] != 0); if(s->pn == 1) z_assume(s->pw[0] != '*');
        return CMD(3, S("NSSET"), S("n"), S("password"), B(s->pw, s->pn)); }
    default: s->seq = (int) z_choice(2, "seq"); return CMD(3, S("NSSET"), S("n"), S("mode"), B(s->seq ? "seq" : "user", s->seq ? 3 : 4));
    }
}
void zmain(void) {
    int ops = z_param("ops", 2), crash = z_param("crash", 0);
    env_reset();
    zh_bits = 0;
    zh_opts[0] = NULL;
    z_assert(zh_boot(), "daemon-starts");
    zh_connect(3);
    memset(&cfg, 0, sizeof cfg); cfg.pub = 1; strcpy(cfg.max, "0");
    set_t next;
    if(crash == 2) {
        // the creation itself is interrupted
        if(z_choice(2, "meta")) env.mcrash_at = (int) env.metas + (int) z_choice(7, "crash-at"); else env.crash_at = (int) env.writes + (int) z_choice(4, "crash-at");
        CMD(3, S("NSNEW"), S("n"));
        int done = !env.crashed && zr_is("+OK\r\n");
        vfs_crash(0); env.crash_at = env.mcrash_at = -1;
        z_assert(zh_boot(), "daemon-starts-after-crash"); zh_connect(3);
        z_assert(CMD(3, S("SELECT"), S("n")), "daemon-alive");
        int there = zr_is("+OK\r\n");
        z_assert(there || !done, "created-namespace-kept");
        if(!there) { z_assert(CMD(3, S("NSNEW"), S("n")) && zr_is("+OK\r\n"), "can-be-created-again"); z_cover("lost"); } else z_cover(done ? "kept" : "early");
        z_assert(matches(&cfg), "default-settings");
        zh_connect(1); z_assert(CMD(1, S("SELECT"), S("n")) && zr_is("+OK\r\n"), "select-ok");
        z_assert(CMD(1, S("SET"), S("k"), S("v")) && zr_bulk_is("k", 1), "usable"); z_assert(CMD(1, S("GET"), S("k")) && zr_bulk_is("v", 1), "usable");
        z_cover("end");
        return;
    }
    z_assert(CMD(3, S("NSNEW"), S("n")) && zr_is("+OK\r\n"), "nsnew-ok");
    int written = z_param("mode", 0) == 0 && z_choice(2, "data");
    if(written) { zh_connect(0); z_assert(CMD(0, S("SELECT"), S("n")) && CMD(0, S("SET"), S("k"), S("v")) && !zr_error(), "set-ok"); }
    for(int s = 0; s < ops; s++) {
        int last = s == ops - 1;
        if(crash && last) env.crash_at = (int) env.writes + (int) z_choice(5, "crash-at");
        int r = issue(&next);
        if(crash && last) {
            int done = r && zr_is("+OK\r\n");
            vfs_crash(0); env.crash_at = env.mcrash_at = -1;
            z_assert(zh_boot(), "daemon-starts-after-crash"); zh_connect(3);
            if(done) { z_assert(matches(&next), "confirmed-settings-kept"); z_cover("confirmed"); }
            else { z_assert(matches(&cfg) || matches(&next), "old-or-new-settings"); z_cover("interrupted"); }
            z_cover("end");
            return;
        }
        z_assert(r && zr_is("+OK\r\n"), "nsset-ok");
        cfg = next;
        if(s == 0 && ops > 2) { z_assert(matches(&cfg), "settings-effective"); }
        if(!last && z_choice(2, "restart")) { z_assert(zh_boot(), "daemon-restarts"); zh_connect(3); }
    }
    z_assert(matches(&cfg), "settings-effective");
    // refused changes
    z_assert(CMD(3, S("NSSET"), S("n"), S("colour"), S("1")) && zr_error(), "unknown-property-refused");
    z_assert(CMD(3, S("NSSET"), S("default"), S("password"), S("x")) && zr_error(), "default-namespace-kept");
    z_assert(CMD(3, S("NSSET"), S("default"), S("worm"), S("1")) && zr_error(), "default-namespace-kept");
    z_assert(CMD(3, S("NSSET"), S("default"), S("maxsize"), S("1")) && zr_error(), "default-namespace-kept");
    z_assert(CMD(3, S("NSSET"), S("n"), S("password"), S("")) && zr_error(), "empty-password-refused");
    z_assert(CMD(3, S("NSSET"), S("n"), S("password"), S("0123456789012345678901234567890123456789012345678901234567890123")) && zr_error(), "long-value-refused");
    for(int r = 0; r < 2; r++) {
        if(r == 0 && z_choice(2, "reload")) { z_assert(CMD(3, S("RELOAD"), S("n")) && zr_is("+OK\r\n"), "reload-ok"); z_cover("reloaded"); }
        else z_assert(zh_boot(), "daemon-restarts");
        zh_connect(3);
        z_assert(matches(&cfg), "settings-kept");
    }
    if(written) { zh_connect(1); z_assert(cfg.pn ? CMD(1, S("SELECT"), S("n"), B(cfg.pw, cfg.pn)) : CMD(1, S("SELECT"), S("n")), "daemon-alive"); z_assert(CMD(1, S("GET"), S("k")) && zr_bulk_is("v", 1), "content-kept"); }
    if(z_param("mode", 0)) { zh_connect(1); z_assert(cfg.pn ? CMD(1, S("SELECT"), S("n"), B(cfg.pw, cfg.pn)) : CMD(1, S("SELECT"), S("n")), "daemon-alive"); z_assert(CMD(1, S("SET"), S(""), S("v")), "daemon-alive"); z_assert(zr_error() == !cfg.seq, "mode-kept"); }
    z_cover("end");
}
