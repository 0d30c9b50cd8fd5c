#include "model.h"
// Every request of a client gets exactly one well-formed answer, in order; a refused or a reading one changes nothing.
static const char *CMDS[] = { "PING", "TIME", "AUTH", "HOOKS", "INDEX", "DATA", "SET", "SETX", "GET", "MGET", "DEL", "EXISTS", "CHECK", "SCAN", "SCANX", "RSCAN", "KSCAN", "HISTORY", "KEYCUR", "LENGTH", "KEYTIME", "INFO", "DBSIZE", "NSLIST", "NSINFO", "SELECT", "NSNEW", "NSDEL", "NSSET", "NSJUMP", "RELOAD", "FLUSH", "*" };
#define NCMD ((int) (sizeof(CMDS) / sizeof(CMDS[0])))
static int writer(const char *c) { static const char *w[] = { "SET", "SETX", "DEL", "NSNEW", "NSDEL", "NSSET", "NSJUMP", "RELOAD", "FLUSH" }; for(int i = 0; i < 9; i++) if(strcmp(c, w[i]) == 0) return 1; return 0; }
static int value(int depth) {
    const unsigned char *p; uint32_t n; int64_t v;
    if(depth > 3 || zr.at >= zr.n) return 0;
    switch(zr.p[zr.at]) {
    case '+': case '-':
        for(uint32_t i = zr.at + 1; i + 1 < zr.n; i++) { if(zr.p[i] == '\n') return 0; if(zr.p[i] == '\r') { zr.at = i + 2; return i > 1 && zr.p[i + 1] == '\n'; } }
        return 0;
    case ':': return zr_int(&v);
    case '$': return zr_nil() || zr_bulk(&p, &n);
    case '*': if(!zr_array(&v) || v < 0) return 0; while(v-- > 0) if(!value(depth + 1)) return 0; return 1;
    }
    return 0;
}
static unsigned char cursor[17], long_[300], anyb[4][4], id[8];
static zarg_t arg(uint32_t i) {
    uint32_t kinds = (uint32_t) z_param("kinds", 9), base = (uint32_t) z_param("base", 0);
    switch(base + z_choice(kinds, "arg")) {
    case 0: return S("");
    case 1: return B(M[0].k, M[0].kn);
    case 2: z_bytes(anyb[i], 2, "any"); return B(anyb[i], 2);
    case 3: return S("n");
    case 4: return B(cursor, 17);
    case 5: z_bytes(id, 8, "id"); return B(id, 8);
    case 6: return B(long_, 300);
    case 7: z_bytes(anyb[i], 1, "any"); return B(anyb[i], 1);
    case 8: return S("DIRTY");
    case 9: return S("RAW");
    case 10: return S("0");
    case 11: return S("4294967296");
    case 12: return S("maxsize");
    case 13: return S("password");
    case 14: return S("mode");
    case 15: return S("default");
    case 16: return S("-1");
    default: return B(long_, 70);
    }
}
static void unknown(zarg_t *a, char *w) {
    uint32_t l;
    if(z_choice(2, "shape")) { l = 1 + z_choice(4, "len"); z_bytes(w, l, "name"); z_cover("any-name"); }
    else { // one byte away from a command: another byte, one missing or one more
        const char *c = CMDS[z_choice((uint32_t) NCMD, "near")]; l = strlen(c); memcpy(w, c, l);
        uint32_t how = z_choice(3, "how"), at = z_choice(l, "at");
        if(how == 0) w[at] = (char) z_u8("byte"); else if(how == 1) { z_assume(l > 1); memmove(w + at, w + at + 1, l - at - 1); l--; } else w[l++] = (char) z_u8("byte");
    }
    static const char *all[] = { "WAIT", "MIRROR", "MASTER", "STOP" };
    for(int i = 0; i < NCMD + 4; i++) {
        const char *c = i < NCMD ? CMDS[i] : all[i - NCMD];
        if(strlen(c) != l) continue;
        int same = 1;
        for(uint32_t k = 0; k < l; k++) { unsigned char x = (unsigned char) w[k], y = (unsigned char) c[k]; same &= (x == y) | ((y >= 'A') & (y <= 'Z') & (x == (y | 32))); }
        z_assume(!same);
    }
    *a = B(w, l);
}
void zmain(void) {
    int seq = z_param("seq", 0), steps = z_param("steps", 1), full = z_param("unknown", 0), nargs = z_param("args", 2), state = z_param("state", 0);
    env_reset();
    zh_opts[0] = "--mode"; zh_opts[1] = seq ? "seq" : "user"; zh_opts[2] = NULL;
    if(z_param("admin", 0)) { zh_opts[2] = "--admin"; zh_opts[3] = "root"; zh_opts[4] = NULL; }
    z_assert(zh_boot(), "daemon-starts");
    zh_connect(0); zh_connect(1);
    if(z_param("admin", 0)) z_assert(CMD(1, S("AUTH"), S("root")) && zr_is("+OK\r\n"), "auth-ok");
    z_assert(CMD(1, S("NSNEW"), S("n")) && zr_is("+OK\r\n"), "nsnew-ok");
    m_init(seq); m_c = 1;
    memset(long_, 'L', sizeof(long_));
    if(!state || z_choice(2, "full")) {
        if(seq) { m_new("vv", 2); m_new("w", 1); m_del(1); } else { m_keys(2, 0); m_set(1, "w", 1); m_del(1); m_set(0, "vv", 2); }
        z_assert(CMD(1, S("NSJUMP")) && zr_is("+OK\r\n"), "nsjump-ok");
        if(seq) m_new("x", 1); else m_set(0, "x", 1);
        const unsigned char *p; uint32_t n;
        z_assert(CMD(1, S("KEYCUR"), B(M[0].k, M[0].kn)) && zr_bulk(&p, &n) && n == 17, "keycur-reply"); memcpy(cursor, p, 17);
    } else { M[0].k[0] = 'a'; M[0].kn = 1; z_cover("empty"); }
    // states of the sending client
    if(state == 1) { z_assert(CMD(1, S("NSSET"), S("n"), S("lock"), S("1")) && zr_is("+OK\r\n") && CMD(0, S("SELECT"), S("n")) && zr_is("+OK\r\n"), "select-ok"); }
    int gone = 0;
    if(state == 2) { z_assert(CMD(0, S("SELECT"), S("n")) && zr_is("+OK\r\n") && CMD(1, S("NSDEL"), S("n")) && zr_is("+OK\r\n"), "nsdel-ok"); gone = 1; }
    for(int s = 0; s < steps; s++) {
        zarg_t a[8]; int n = 1; static char w[16]; const char *c = NULL;
        if(full) unknown(&a[0], w);
        else { c = CMDS[z_choice((uint32_t) NCMD, "command")]; a[0] = B(c, strlen(c)); }
        uint32_t extra = z_choice((uint32_t) nargs + 1, "nargs");
        if(z_param("exact", 0)) z_assume(extra == (uint32_t) nargs);
        for(uint32_t i = 0; i < extra; i++) a[n++] = arg(i);
        uint32_t before = env.writes + env.metas;
        uint32_t at = conns[0].txlen;
        z_assert(zh_cmdv(0, n, a), "daemon-alive");
        if(gone) { // its namespace is no more: told so, and the connection ends
            z_assert(conns[0].closed && zr.n > 0 && value(0) && zr_end() && zr.p[0] == '-', "told-and-disconnected");
            z_assert(env.writes + env.metas == before, "refused-or-reading-changes-nothing");
            zh_connect(0); z_assert(CMD(0, S("PING")) && zr_is("+PONG\r\n"), "next-request-answered");
            break;
        }
        (void) at;
        z_assert(!conns[0].closed, "connection-kept");
        z_assert(value(0) && zr_end(), "one-well-formed-answer");
        int error = zr.p[0] == '-';
        if(full) z_assert(error, "unknown-command-refused");
        if(error) z_cover("error"); else z_cover("success");
        if(error || !writer(c)) z_assert(env.writes + env.metas == before, "refused-or-reading-changes-nothing");
        z_assert(CMD(0, S("PING")) && zr_is("+PONG\r\n"), "next-request-answered");
        if(!state && !z_param("lite", 0) && (error || !writer(c))) { m_read(0); if(MN > 1) m_read(1); }
        if(steps > 1 && !error && writer(c)) z_cover("changed");
    }
    z_assert(CMD(1, S("PING")) && zr_is("+PONG\r\n"), "other-client-served");
    z_cover("end");
}
