#include "zharn.h"
// Namespace names: exactly the legal ones are accepted, each names exactly its own directories, and no
// command ever acts outside of them or on another namespace.
static const char *have[4] = { "default", "n", "nn", NULL };
static int exists(const char *p) { vnode_t *v = vfs_find(p); return v && v->linked; }
static uint32_t nodes(void) { uint32_t r = 0; for(int i = 0; i < VFS_NODES; i++) r += vfs[i].linked != 0; return r; }
static void no_escape(void) { z_assert(!env.escaped, "stays-inside-the-data-directories"); }
static void list(int extra, const uint8_t *nm, uint32_t n) {
    int64_t k; const unsigned char *p; uint32_t l; int found = 0;
    z_assert(CMD(0, S("NSLIST")) && zr_array(&k) && k == 3 + extra, "namespaces-listed");
    for(int i = 0; i < 3 + extra; i++) { z_assert(zr_bulk(&p, &l), "namespaces-listed"); if(l == n && memcmp(p, nm, n) == 0) found++; }
    z_assert(zr_end() && found == (extra || 0), "namespaces-listed");
}
static void name(uint8_t *nm, uint32_t *n) {
    static const uint32_t longs[] = { 127, 128, 129, 255, 256, 300 };
    if(z_param("long", 0)) { *n = longs[z_choice(6, "length")]; memset(nm, 'x', *n); z_bytes(nm + *n - 1, 1, "name"); return; }
    *n = z_choice((uint32_t) z_param("max", 3) + 1, "length"); z_bytes(nm, *n, "name");
}
// two names alike but for one byte, or one the beginning of the other: never taken for each other
static void pair(void) {
    static const uint32_t lens[] = { 2, 9, 33, 65, 127, 128 }, at[] = { 0, 1, 7, 8, 15, 31, 32, 62, 63, 64, 65, 99, 100, 125, 126, 127 };
    uint8_t a[130], b[130]; uint32_t n = lens[z_choice(6, "length")], w = at[z_choice(16, "differs at")], m = n;
    z_assume(w < n);
    memset(a, 'x', n); memset(b, 'x', n);
    if(z_choice(2, "shorter")) { z_assume(w > 0); m = w; }
    else { b[w] = z_u8("byte"); z_assume(b[w] != 'x' && b[w] != '/' && b[w] != 0); }
    if(z_choice(2, "order")) { uint8_t t[130]; memcpy(t, a, 130); memcpy(a, b, 130); memcpy(b, t, 130); uint32_t u = n; n = m; m = u; }
    a[n] = 0; b[m] = 0;
    zarg_t A = B(a, n), Z = B(b, m);
    z_assert(CMD(0, S("NSNEW"), A) && zr_is("+OK\r\n"), "nsnew-ok");
    z_assert(CMD(0, S("SELECT"), Z) && zr_error(), "absent-name-refused");
    z_assert(CMD(0, S("NSDEL"), Z) && zr_error(), "absent-name-refused");
    z_assert(CMD(0, S("NSNEW"), Z) && zr_is("+OK\r\n"), "exactly-legal-names-accepted");
    z_assert(CMD(0, S("SELECT"), A) && zr_is("+OK\r\n") && CMD(0, S("SET"), S("k"), S("1")) && !zr_error(), "set-ok");
    z_assert(CMD(0, S("SELECT"), Z) && zr_is("+OK\r\n") && CMD(0, S("GET"), S("k")) && zr_nil(), "names-kept-apart");
    z_assert(CMD(0, S("SET"), S("k"), S("2")) && !zr_error(), "set-ok");
    int c = (int) z_choice(4, "then");
    if(c == 0) { z_assert(zh_boot(), "daemon-restarts"); zh_connect(0); z_cover("pair-restarted"); }
    if(c == 1) z_assert(CMD(0, S("NSSET"), A, S("lock"), S("1")) && zr_is("+OK\r\n"), "nsset-ok");
    if(c == 2) z_assert(CMD(0, S("NSDEL"), A) && zr_is("+OK\r\n"), "nsdel-ok");
    if(c == 3) z_assert(CMD(0, S("RELOAD"), Z) && zr_is("+OK\r\n"), "reload-ok");
    zh_connect(1);
    z_assert(CMD(1, S("SELECT"), Z) && zr_is("+OK\r\n") && CMD(1, S("GET"), S("k")) && zr_bulk_is("2", 1), "names-kept-apart");
    z_assert(CMD(1, S("SET"), S("k"), S("3")) && !zr_error(), "only-the-namespace-named-changed");
    z_assert(CMD(1, S("SELECT"), A), "daemon-alive");
    z_assert(zr_error() == (c == 2), "only-the-namespace-named-removed");
    if(c == 2) return;
    z_assert(CMD(1, S("GET"), S("k")) && zr_bulk_is("1", 1), "names-kept-apart");
    z_assert(CMD(1, S("SET"), S("k"), S("4")), "daemon-alive");
    z_assert(zr_error() == (c == 1), "only-the-namespace-named-changed");
    no_escape();
    z_cover("pair");
}
void zmain(void) {
    int what = z_param("what", 0);
    env_reset();
    zh_bits = 0;
    env.allowed[0] = "/db/i"; env.allowed[1] = "/db/d"; env.allowed[2] = NULL;
    zh_opts[0] = NULL;
    z_assert(zh_boot(), "daemon-starts");
    zh_connect(0);
    if(what == 2) { pair(); z_cover("end"); return; }
    for(int i = 1; i < 3; i++) z_assert(CMD(0, S("NSNEW"), B(have[i], strlen(have[i]))) && zr_is("+OK\r\n"), "nsnew-ok");
    uint8_t nm[310]; uint32_t n; name(nm, &n); nm[n] = 0;
    int known = -1; for(int i = 0; i < 3; i++) if(n == strlen(have[i]) && memcmp(nm, have[i], n) == 0) known = i;
    int slash = 0, nul = 0; for(uint32_t i = 0; i < n; i++) { if(nm[i] == '/') slash = 1; if(nm[i] == 0) nul = 1; }
    int dots = (n == 1 && nm[0] == '.') || (n == 2 && nm[0] == '.' && nm[1] == '.');
    uint32_t before = nodes(), wr = env.writes + env.metas;
    if(what == 0) {
        int legal = n > 0 && n <= 128 && !slash && !nul && !dots && known < 0;
        z_assert(CMD(0, S("NSNEW"), B(nm, n)), "daemon-alive");
        int ok = zr_is("+OK\r\n"); z_assert(ok || zr_error(), "answer");
    z_assert(ok == legal, "exactly-legal-names-accepted");
        no_escape();
        if(!ok) { z_assert(env.writes + env.metas == wr && nodes() == before, "refused-name-changes-nothing"); z_cover("refused"); return; }
        // exactly the directories of that name
        char p[400];
        strcpy(p, "/db/i/"); memcpy(p + 6, nm, n + 1); z_assert(exists(p), "directory-named-exactly");
        strcpy(p, "/db/d/"); memcpy(p + 6, nm, n + 1); z_assert(exists(p), "directory-named-exactly");
        z_assert(nodes() == before + 5, "nothing-else-created");
        z_assert(CMD(0, S("SELECT"), B(nm, n)) && zr_is("+OK\r\n"), "select-ok");
        z_assert(CMD(0, S("SET"), S("k"), S("v")) && !zr_error(), "set-ok");
        z_assert(CMD(0, S("NSINFO"), B(nm, n)) && !zr_error(), "nsinfo-ok");
        const unsigned char *inf; uint32_t il;
        z_assert(zr_bulk(&inf, &il) && il > 18 + n && memcmp(inf, "# namespace\nname: ", 18) == 0 && memcmp(inf + 18, nm, n) == 0 && inf[18 + n] == '\n', "nsinfo-names-it");
        // listed under exactly that name, also after a restart, and usable
        if(z_param("listing", 1)) list(1, nm, n);
        if(z_choice(2, "restart")) {
            z_assert(zh_boot(), "daemon-restarts"); zh_connect(0);
            list(1, nm, n);
            z_assert(CMD(0, S("SELECT"), B(nm, n)) && zr_is("+OK\r\n"), "select-ok");
            z_assert(CMD(0, S("GET"), S("k")) && zr_bulk_is("v", 1), "content-kept");
            z_cover("restarted");
        }
        z_assert(CMD(0, S("SELECT"), S("default")) && zr_is("+OK\r\n"), "select-ok");
        z_assert(CMD(0, S("NSDEL"), B(nm, n)) && zr_is("+OK\r\n"), "nsdel-ok");
        z_assert(nodes() == before, "exactly-its-files-removed"); no_escape();
        list(0, nm, n);
        z_cover("created");
    } else {
        uint32_t c = z_choice(5, "command"); int ok;
        zarg_t a = B(nm, n);
        switch(c) {
        case 0: z_assert(CMD(0, S("NSDEL"), a), "daemon-alive"); break;
        case 1: z_assert(CMD(0, S("SELECT"), a), "daemon-alive"); break;
        case 2: z_assert(CMD(0, S("NSSET"), a, S("lock"), S("1")), "daemon-alive"); break;
        case 3: z_assert(CMD(0, S("RELOAD"), a), "daemon-alive"); break;
        default: z_assert(CMD(0, S("NSINFO"), a), "daemon-alive"); break;
        }
        ok = zr_is("+OK\r\n") || (c == 4 && !zr_error());
        z_assert(ok || zr_error(), "answer");
        z_assert(ok == (known >= 0 && !(c == 0 && known == 0)), "acts-exactly-on-the-namespace-named");
        no_escape();
        if(!ok) { z_assert(env.writes + env.metas == wr && nodes() == before, "refused-name-changes-nothing"); z_cover("unknown"); }
        else z_cover("known");
        // the others are as they were
        for(int i = 0; i < 3; i++) {
            zh_connect(1);
            z_assert(CMD(1, S("SELECT"), B(have[i], strlen(have[i]))), "daemon-alive");
            z_assert(zr_is("+OK\r\n") == !(ok && c == 0 && i == known), "only-the-namespace-named-removed");
            if(zr_error()) continue;
            z_assert(CMD(1, S("SET"), S("k"), S("v")), "daemon-alive");
            z_assert(zr_error() == (ok && c == 2 && i == known), "only-the-namespace-named-changed");
        }
        if(c == 1) {
            z_assert(CMD(0, S("NSDEL"), S("nn")), "daemon-alive");
            z_assert(zr_error() == (ok && known == 2), "only-the-namespace-named-selected");
        }
    }
    z_cover("end");
}
