#include "zharn.h"
// Serving requests holds on to nothing: once a round of requests has been made, making it again (or making it
// and leaving at any point) leaves the memory and the descriptors of the process as they were.
static uint8_t b[3], c1[17], c2[17], hc[8], key[8] = "k"; static uint32_t cn, hn, kn = 1;
#define KK B(key, kn)
static int pl;
static void get_cursor(void) {
    const unsigned char *p; uint32_t n;
    z_assert(CMD(0, S("KEYCUR"), KK), "daemon-alive"); cn = 0;
    if(zr_bulk(&p, &n) && n <= sizeof c1) { memcpy(c1, p, n); memcpy(c2, p, n); cn = n; }
    int64_t a;
    z_assert(CMD(0, S("HISTORY"), KK), "daemon-alive"); hn = 0;
    if(zr_array(&a) && zr_bulk(&p, &n) && n == 8) { memcpy(hc, p, n); hn = 8; }
}
#define R(c, ...) z_assert(CMD(c, __VA_ARGS__) && zr.n > 0, "answered")
#define Q(c, ...) z_assert(CMD(c, __VA_ARGS__), "daemon-alive")
static void leave(int c, int how) { if(conns[c].closed) return; conns[c].hup = how; conns[c].in_ready = 1; z_assert(zh_run(), "daemon-alive"); z_assert(conns[c].closed, "left"); }
#define KINDS 52
static void step(uint32_t k) {
    switch(k) {
    case 0: R(0, S("GET"), B(b, 1)); break;
    case 1: R(0, S("SET"), KK, B(b, 3)); R(0, S("SET"), KK, S("abc")); break;                 // replaced, or the same
    case 2: R(0, S("DEL"), KK); R(0, S("SET"), KK, S("abc")); break;
    case 3: R(0, S("DEL"), B(b, 1)); R(0, S("SET"), KK, S("abc")); break;
    case 4: R(0, S("EXISTS"), B(b, 1)); break;
    case 5: R(0, S("CHECK"), B(b, 1)); break;
    case 6: R(0, S("LENGTH"), B(b, 1)); break;
    case 7: R(0, S("KEYTIME"), B(b, 1)); break;
    case 8: R(0, S("KEYCUR"), B(b, 1)); break;
    case 9: R(0, S("HISTORY"), B(b, 1)); break;
    case 10: R(0, S("HISTORY"), KK, B(c1, cn)); break;
    case 11: R(0, S("SCAN")); break;
    case 12: R(0, S("SCAN"), B(c1, cn)); break;
    case 13: R(0, S("RSCAN")); R(0, S("RSCAN"), B(c1, cn)); break;
    case 14: R(0, S("KSCAN"), B(b, 1)); break;
    case 15: R(0, S("MGET"), B(b, 1), KK, S("q")); break;
    case 16: R(0, S("DBSIZE")); R(0, S("NSLIST")); break;
    case 17: R(0, S("NSINFO"), B(b, 1)); R(0, S("NSINFO"), S("default")); break;
    case 18: R(0, S("INFO")); R(0, S("TIME")); break;
    case 19: R(0, S("NSNEW"), S("x")); R(0, S("NSDEL"), S("x")); break;
    case 20: R(0, S("NSSET"), S("n"), S("password"), S("one")); R(0, S("NSSET"), S("n"), S("password"), S("two")); R(0, S("NSSET"), S("n"), S("password"), S("*")); break;
    case 21: R(0, S("NSSET"), S("n"), S("password"), S("one")); R(1, S("SELECT"), S("n"), B(b, 3)); R(1, S("SELECT"), S("n"), S("one")); R(1, S("SELECT"), S("default")); R(0, S("NSSET"), S("n"), S("password"), S("*")); break;
    case 22: R(0, S("NSSET"), S("n"), S("password"), S("one")); R(1, S("AUTH"), S("SECURE"), S("CHALLENGE")); R(1, S("AUTH"), S("SECURE"), S("CHALLENGE")); R(1, S("SELECT"), S("n"), S("SECURE"), S("0123456789012345678901234567890123456789")); R(0, S("NSSET"), S("n"), S("password"), S("*")); break;
    case 23: R(0, S("RELOAD"), S("default")); break;
    case 24: R(0, S("RELOAD"), S("n")); R(0, S("RELOAD"), B(b, 1)); break;
    case 25: R(0, S("NSSET"), S("n"), S("password"), S("one")); R(1, S("SELECT"), S("n"), S("one")); R(1, S("SET"), pl ? S("k") : S(""), B(b, 3)); R(0, S("NSSET"), S("n"), S("public"), S("0")); R(1, S("FLUSH")); z_assert(zr_is("+OK\r\n"), "flush-ok"); R(1, S("SELECT"), S("default")); R(0, S("NSSET"), S("n"), S("password"), S("*")); break;
    case 26: R(0, S("INDEX"), S("DIRTY")); R(0, S("INDEX"), S("DIRTY"), B(b, 3)); break;
    case 27: R(0, S("DATA"), S("RAW"), S("0"), B(b, 2)); break;
    case 28: R(0, S("DATA"), S("RAW"), S("0"), S("26")); R(0, S("DATA"), S("RAW"), B(b, 1), S("26")); break;
    case 29: R(0, S("HOOKS")); R(0, S("INDEX"), B(b, 2)); R(0, S("DATA"), B(b, 2)); break;
    case 30: R(0, B(b, 3)); break;                                                                   // anything of three bytes
    case 31: R(0, S("SET"), KK); R(0, S("GET")); R(0, S("SCAN"), S("zz")); R(0, S("NSSET"), S("n"), B(b, 3), S("1")); break;
    case 32: Q(1, S("WAIT"), S("PING")); R(0, S("PING")); zr_take(1); break;
    case 33: Q(1, S("WAIT"), S("SET"), B(b, 3)); Q(1, S("WAIT"), S("SET"), S("100")); env.now_sec += 10; z_assert(zh_idle(), "daemon-alive"); zr_take(1); break;
    case 34: R(0, S("NSSET"), S("n"), S("lock"), S("1")); R(1, S("SELECT"), S("n")); R(1, S("SET"), KK, B(b, 3)); R(1, S("SELECT"), S("default")); R(0, S("NSSET"), S("n"), S("lock"), S("0")); break;
    case 35: R(0, S("NSSET"), S("n"), S("maxsize"), S("2")); R(1, S("SELECT"), S("n")); R(1, S("SET"), pl ? S("k") : S(""), B(b, 3)); R(1, S("SELECT"), S("default")); R(0, S("NSSET"), S("n"), S("maxsize"), S("0")); break;
    case 36: zh_connect(2); Q(2, S("MIRROR")); R(0, S("SET"), KK, B(b, 3)); R(0, S("SET"), KK, S("abc")); leave(2, 1); break;
    case 37: zh_connect(2); Q(2, S("AUTH"), S("SECURE"), S("CHALLENGE")); leave(2, 1); break;
    case 38: zh_connect(2); conns[2].txlimit = 5; Q(2, S("SCAN")); Q(2, S("GET"), KK); Q(2, S("NSINFO"), S("default")); leave(2, 1); break;
    case 39: conns[1].txlimit = 5; Q(1, S("SCAN")); Q(1, S("GET"), KK); conns[1].txlimit = -1; conns[1].out_ready = 1; z_assert(zh_run(), "daemon-alive"); zr_take(1); break;
    case 40: zh_connect(2); Q(2, S("SELECT"), S("n")); R(0, S("NSDEL"), S("n")); Q(2, S("GET"), B(b, 1)); leave(2, 1); R(0, S("NSNEW"), S("n")); break;
    case 41: R(0, S("AUTH"), B(b, 3)); R(0, S("MASTER"), B(b, 1)); leave(0, 1); zh_connect(0); break;
    case 42: R(0, S("SET"), KK, B(b, 3), S("12345")); R(0, S("SET"), KK, S("abc")); break;
    case 43: R(0, S("NSNEW"), B(b, 3)); R(0, S("NSDEL"), B(b, 3)); break;
    case 44: R(0, S("SET"), KK, S("")); R(0, S("GET"), KK); R(0, S("CHECK"), KK); R(0, S("SET"), KK, S("abc")); break;
    case 45: zh_connect(2); Q(2, S("MASTER")); Q(2, S("SET"), KK, B(b, 3), B(b, 2)); Q(2, S("PING")); leave(2, 1); R(0, S("SET"), KK, S("abc")); break;
    case 46: R(0, S("NSNEW"), S("n")); R(0, S("NSDEL"), S("default")); R(0, S("SELECT"), B(b, 1)); R(0, S("NSSET"), S("n"), S("mode"), S("user")); break;
    case 47: z_assume(hn); R(0, S("HISTORY"), KK, B(hc, hn)); R(0, S("HISTORY"), B(b, 1), B(hc, hn)); break;   // one version further, for the key and for any other
    case 48: z_assume(hn); R(0, S("HISTORY"), KK, B(c1, 8)); R(0, S("HISTORY"), S("qqq"), B(hc, hn)); break;
    case 49: memcpy(c2, c1, 17); c2[z_choice(17, "at")] = b[0]; R(0, S("SCAN"), B(c2, 17)); R(0, S("RSCAN"), B(c2, 17)); break;
    case 50: R(0, S("NSJUMP")); R(0, S("SCAN")); R(0, S("GET"), KK); R(0, S("HISTORY"), KK); R(0, S("CHECK"), KK); break;
    default: R(0, S("RELOAD"), S("default"), B(b, 1)); R(0, S("FLUSH"), B(b, 1)); R(0, S("SET"), S(""), B(b, 3)); break;
    }
}
static void none(const void *p, uint32_t n, uint32_t hup) { // sends this, then leaves
    zh_connect(2); if(n) zh_feed(2, p, n); z_assert(zh_run(), "daemon-alive");
    leave(2, (int) hup);
}
void zmain(void) {
    int what = z_param("what", 0), rounds = 2; uint64_t h = 0; int fd = 0;
    pl = !z_param("seq", 0);
    env_reset(); zh_bits = 0; zh_opts[0] = "--mode"; zh_opts[1] = pl ? "user" : "seq"; zh_opts[2] = NULL; z_assert(zh_boot(), "daemon-starts");
    for(int i = 0; i < 2; i++) zh_connect(i);
    R(0, S("NSNEW"), S("n")); if(pl) { R(0, S("SET"), KK, S("ab")); R(0, S("SET"), S("q"), S("12")); }
    else { const unsigned char *p; uint32_t n; R(0, S("SET"), S(""), S("ab")); z_assert(zr_bulk(&p, &n) && n == 8, "inserted"); memcpy(key, p, 8); kn = 8; R(0, S("SET"), S(""), S("12")); }
    R(0, S("SET"), KK, S("abc"));
    if(z_param("old", 0)) { for(uint32_t i = 0, j = 1 + z_choice(2, "jumps"); i < j; i++) R(0, S("NSJUMP")); }
    get_cursor();
    if(what == 0) { // every kind of request, twice
        uint32_t k = z_choice(KINDS, "kind");
        z_bytes(b, 3, "arg");
        for(int i = 0; i < rounds; i++) { step(k); if(i == rounds - 2) { h = z_heap(); fd = env_descriptors(); } }
        if(z_heap() != h) { char id[40]; sprintf(id, "kind %d ", (int) k); z_note(id); } z_assert(z_heap() == h, "memory-is-released"); z_assert(env_descriptors() == fd, "descriptors-are-released"); z_cover("round");
        // and after it others are served as before
        R(1, S("GET"), KK);
    } else if(what == 1) { // requests cut anywhere by a client which leaves; malformed ones
        char r[64]; uint32_t n = (uint32_t) sprintf(r, "*3\r\n$3\r\nSET\r\n$1\r\nk\r\n$3\r\nabc\r\n"), cut = z_choice(n + 1, "cut"), hup = 1 + z_choice(2, "how");
        int bad = (int) z_choice(2, "damaged"); uint32_t at = 0; uint8_t x = 0;
        if(bad) { at = z_choice(cut ? cut : 1, "at"); x = z_u8("byte"); r[at] = (char) x; }
        for(int i = 0; i < rounds; i++) { none(r, cut, hup); if(i == rounds - 2) { h = z_heap(); fd = env_descriptors(); } }
        z_assert(z_heap() == h, "memory-is-released"); z_assert(env_descriptors() == fd, "descriptors-are-released"); z_cover(cut < n ? "cut" : "whole");
    } else { // writes which fail
        static const uint32_t kinds[] = { 1, 2, 3, 20, 42, 36, 45 };
        uint32_t k = kinds[z_choice(7, "kind")], at = z_choice(5, "at"); memset(b, 'z', 3); b[0] = z_u8("arg");
        step(k); step(k);
        for(int i = 0; i < 3; i++) {
            env.fail_at = (int) (env.writes + at); env.fail_keep = 0; env.fail_errno = 28; step(k);
            env.fail_at = -1; R(0, S("SET"), KK, S("abc")); step(k);
            R(1, S("SELECT"), S("default"));
            if(i == 1) { h = z_heap(); fd = env_descriptors(); }
        }
        z_assert(z_heap() == h, "memory-is-released"); z_assert(env_descriptors() == fd, "descriptors-are-released"); z_cover("failed");
    }
    z_cover("end");
}
