#include "zharn.h"
// Directories with long paths (and a namespace with a long name in them): everything works as in short ones and
// stays inside of them.
static char idir[2200], ddir[2200], nm[130];
static void mkpath(char *p, char letter, uint32_t n) {
    p[0] = '/'; p[1] = letter;
    for(uint32_t i = 2; i < n; i++) p[i] = (i % 240 == 2 && i + 1 < n) ? '/' : letter;
    p[n] = 0;
}
static void has(const char *k, const char *v) { z_assert(CMD(0, S("GET"), B(k, strlen(k))) && zr_bulk_is(v, strlen(v)), "long-path-same-content"); }
static void all(void) {
    const unsigned char *p; uint32_t n; int64_t a, k;
    z_assert(CMD(0, S("SELECT"), B(nm, strlen(nm))) && zr_is("+OK\r\n"), "long-path-namespace-there");
    has("a", "one"); has("b", "two");
    z_assert(CMD(0, S("SCAN")) && zr_array(&a) && a == 2 && zr_bulk(&p, &n) && n == 17 && zr_array(&k) && k >= 1, "long-path-scans");
    z_assert(CMD(0, S("RSCAN")) && zr_array(&a) && a == 2 && zr_bulk(&p, &n) && n == 17 && zr_array(&k) && k >= 1, "long-path-scans");
    z_assert(CMD(0, S("CHECK"), S("a")) && zr_is(":1\r\n"), "long-path-checks");
    z_assert(CMD(0, S("HISTORY"), S("a")) && zr_array(&a) && a == 3, "long-path-history");
}
void zmain(void) {
    static const uint32_t lens[] = { 100, 238, 239, 240, 244, 255, 370, 376, 500, 502, 510, 513, 700, 1000, 1910, 2040 };
    env_reset(); zh_bits = 0;
    uint32_t n = lens[z_choice(16, "path length")], which = z_choice(3, "which"), name = z_choice(3, "name");
    mkpath(idir, 'i', which == 1 ? 8 : n); mkpath(ddir, 'd', which == 0 ? 8 : n);
    uint32_t nl = name == 0 ? 1 : name == 1 ? 60 : 128; memset(nm, 'n', nl); nm[nl] = 0;
    const char *o[] = { "--index", idir, "--data", ddir, NULL }; memcpy(zh_opts, o, sizeof(o));
    z_assert(zh_boot(), "daemon-starts"); zh_connect(0);
    env.escaped = 0; env.allowed[0] = idir; env.allowed[1] = ddir; env.allowed[2] = NULL;
    z_assert(CMD(0, S("SET"), S("z"), S("zz")) && !zr_error(), "set-ok");
    z_assert(CMD(0, S("NSNEW"), B(nm, nl)) && zr_is("+OK\r\n"), "nsnew-ok");
    z_assert(CMD(0, S("SELECT"), B(nm, nl)) && zr_is("+OK\r\n"), "select-ok");
    z_assert(CMD(0, S("SET"), S("a"), S("zero")) && !zr_error() && CMD(0, S("SET"), S("b"), S("two")) && !zr_error() && CMD(0, S("SET"), S("c"), S("three")) && !zr_error(), "set-ok");
    z_assert(CMD(0, S("NSJUMP")) && zr_is("+OK\r\n"), "jump-ok");
    z_assert(CMD(0, S("SET"), S("a"), S("one")) && !zr_error() && CMD(0, S("DEL"), S("c")) && zr_is("+OK\r\n"), "set-ok");
    all();
    uint32_t then = z_choice(3, "then");
    if(then == 0) { z_assert(zh_boot(), "daemon-restarts"); zh_connect(0); has("z", "zz"); all(); z_cover("restarted"); }
    else if(then == 1) { z_assert(CMD(0, S("RELOAD"), B(nm, nl)) && zr_is("+OK\r\n"), "reload-ok"); all(); }
    else {
        z_assert(CMD(0, S("SELECT"), S("default")) && zr_is("+OK\r\n") && CMD(0, S("NSDEL"), B(nm, nl)) && zr_is("+OK\r\n"), "nsdel-ok");
        has("z", "zz");
        z_assert(CMD(0, S("NSNEW"), B(nm, nl)) && zr_is("+OK\r\n") && CMD(0, S("SELECT"), B(nm, nl)) && zr_is("+OK\r\n") && CMD(0, S("GET"), S("a")) && zr_nil(), "nsdel-removes");
        z_cover("deleted");
    }
    z_assert(!env.escaped, "stays-inside-the-data-directories");
    z_cover("end");
}
