#include "zharn.h"
// Namespaces come and go in any order: each one keeps its own content and number of entries, the list is exact.
#define NN 4
static int have[NN], n; static unsigned char val[NN]; static int seq;
static void name(char *o, int i) { o[0] = (char) ('a' + i); o[1] = 0; }
static void all(void) {
    int cnt = 1;
    for(int i = 0; i < n; i++) {
        char nm[2]; name(nm, i); cnt += have[i];
        z_assert(CMD(0, S("SELECT"), B(nm, 1)), "alive");
        if(!have[i]) { z_assert(zr_error(), "removed-is-unknown"); continue; }
        z_assert(zr_is("+OK\r\n"), "known");
        uint64_t zero = 0; zarg_t key = seq ? B(&zero, 8) : S("k");
        z_assert(CMD(0, S("GET"), key) && zr_bulk_is(&val[i], 1) && zr_end(), "own-value");
        int64_t v; z_assert(CMD(0, S("DBSIZE")) && zr_int(&v) && v == 1 && zr_end(), "own-count");
    }
    int64_t k; z_assert(CMD(0, S("NSLIST")) && zr_array(&k) && k == cnt, "list-exact");
    int seen = 0, dup = 0;
    for(int j = 0; j < cnt; j++) { const unsigned char *p; uint32_t l; z_assert(zr_bulk(&p, &l), "list-exact"); int b = l == 7 ? 16 : l == 1 && p[0] >= 'a' && p[0] < 'a' + n && have[p[0] - 'a'] ? 1 << (p[0] - 'a') : 0; dup |= b == 0 || (seen & b); seen |= b; }
    z_assert(!dup && zr_end(), "list-exact");
    z_assert(CMD(0, S("SELECT"), S("default")) && zr_is("+OK\r\n"), "default-stays");
    z_assert(CMD(0, S("DBSIZE")) && zr_is(":0\r\n"), "default-empty");
}
void zmain(void) {
    n = z_param("names", 3); seq = z_param("seq", 0); env_reset();
    if(seq) { zh_opts[0] = "--mode"; zh_opts[1] = "seq"; }
    z_assert(zh_boot(), "daemon-starts"); zh_connect(0); zh_connect(1);
    for(int t = 0; t < z_param("steps", 5); t++) {
        int i = (int) z_choice((uint32_t) n, "which"); char nm[2]; name(nm, i);
        if(!have[i]) {
            z_assert(CMD(1, S("NSNEW"), B(nm, 1)) && zr_is("+OK\r\n"), "nsnew-ok"); have[i] = 1;
            z_assert(CMD(1, S("SELECT"), B(nm, 1)) && zr_is("+OK\r\n"), "select-ok");
            val[i] = z_u8("value");
            z_assert(CMD(1, S("SET"), seq ? S("") : S("k"), B(&val[i], 1)) && !zr_error(), "set-ok"); z_cover("created");
            z_assert(CMD(1, S("SELECT"), S("default")) && zr_is("+OK\r\n"), "select-ok");
        } else if(t < 2 || z_choice(2, "remove")) { z_assert(CMD(1, S("NSDEL"), B(nm, 1)) && zr_is("+OK\r\n"), "nsdel-ok"); have[i] = 0; z_cover("removed"); }
        else { z_assert(CMD(1, S("SELECT"), B(nm, 1)) && CMD(1, S("RELOAD"), B(nm, 1)) && zr_is("+OK\r\n"), "reload-ok"); z_cover("reloaded"); z_assert(CMD(1, S("SELECT"), S("default")) && zr_is("+OK\r\n"), "select-ok"); }
        all();
    }
    z_assert(zh_boot(), "daemon-starts"); zh_connect(0); z_cover("restarted");
    all(); z_cover("end");
}
