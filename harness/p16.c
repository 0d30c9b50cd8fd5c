#include "zharn.h"
#include "sha1.h"
// SELECT: the session moves exactly when allowed, with exactly the rights it obtained; a refusal changes nothing.
static const char *names[4] = { "default", "n", "m", "missing" };
static const char *pws[3];
static int pub[3];
static int cur, rw;
static void check(void) {
    char v[2] = { (char) ('0' + cur), 0 };
    z_assert(CMD(0, S("GET"), S("k")) && zr_bulk_is(v, 1) && zr_end(), "session-is-in-the-namespace-selected");
    z_assert(CMD(0, S("SET"), S("w"), B(rw ? "y" : "n", 1)), "daemon-alive");
    z_assert(zr_error() == !rw, "writable-exactly-with-the-rights-obtained");
    if(!rw) { z_cover("read-only"); z_assert(CMD(0, S("DEL"), S("k")) && zr_error(), "writable-exactly-with-the-rights-obtained"); return; }
    z_assert(CMD(0, S("DEL"), S("w")) && zr_is("+OK\r\n"), "writable-exactly-with-the-rights-obtained");
}
static void try_select(int sym) {
    int t = (int) z_choice(4, "target"), ok; uint32_t how = z_choice(sym ? 4 : 5, "how");
    zarg_t name = B(names[t], strlen(names[t]));
    const char *pw = t < 3 ? pws[t] : NULL; int right = 0, want = 0, wrw = 1;
    unsigned char in[300]; char n[17], d[41];
    if(how == 0) {
        z_assert(CMD(0, S("SELECT"), name), "daemon-alive");
        want = t < 3 && (!pw || pub[t]); wrw = !pw;
    } else if(how == 1) {
        uint32_t l = pw ? strlen(pw) : 3, k = z_choice(4, "length"); 
        if(sym) { l = k == 0 ? l : k == 1 ? l - 1 : k == 2 ? l + 1 : 256; z_bytes(in, l, "in"); }
        else { if(k > 1) z_assume(0); if(!pw) { memcpy(in, "xyz", 3); } else { strcpy((char *) in, pw); if(k) in[l - 1] ^= 1; } }
        right = pw && l == strlen(pw) && memcmp(in, pw, l) == 0;
        z_assert(CMD(0, S("SELECT"), name, B(in, l)), "daemon-alive");
        want = t < 3 && right;
    } else if(how == 2) {
        challenge(0, n); digest(n, pw ? pw : "none", d);
        if(sym) z_bytes(in, 40, "in"); else { memcpy(in, d, 40); if(z_choice(2, "wrong")) in[39] ^= 1; }
        right = pw && memcmp(in, d, 40) == 0;
        z_assert(CMD(0, S("SELECT"), name, S("SECURE"), B(in, 40)), "daemon-alive");
        want = t < 3 && right;
        if(pw) {
            // the challenge is spent
            int o = zr_is("+OK\r\n");
            z_assert(o == want, "granted-exactly-for-the-password");
            if(o) { cur = t; rw = 1; check(); }
            z_assert(CMD(0, S("SELECT"), name, S("SECURE"), B(d, 40)) && zr_error(), "challenge-usable-once"); z_cover("spent");
            want = 0;
        }
    } else if(how == 3) {
        // without challenge
        digest("0000000000000000", pw ? pw : "none", d);
        z_assert(CMD(0, S("SELECT"), name, S("SECURE"), B(d, 40)), "daemon-alive");
    } else {
        // the password itself is not an answer to a challenge, nor is the method a password
        challenge(0, n);
        if(z_choice(2, "form")) z_assert(CMD(0, S("SELECT"), name, S("SECURE"), B(pw ? pw : "x", pw ? strlen(pw) : 1)), "daemon-alive");
        else z_assert(CMD(0, S("SELECT"), name, S("PLAIN"), B(pw ? pw : "x", pw ? strlen(pw) : 1)), "daemon-alive");
    }
    ok = zr_is("+OK\r\n");
    if(!pw && t < 3) { if(how) { if(ok) { cur = t; rw = 1; } return; } }      // password for a namespace without one: either is fine
    z_assert(ok || zr_error(), "answer");
    z_assert(ok == want, "granted-exactly-for-the-password");
    if(ok) { cur = t; rw = wrw; z_cover("granted"); } else z_cover("refused");
}
void zmain(void) {
    int ops = z_param("ops", 1), sym = z_param("sym", 1), protect = z_param("protect", 0);
    env_reset();
    zh_opts[0] = "--admin"; zh_opts[1] = "root"; zh_opts[2] = protect ? "--protect" : NULL; zh_opts[3] = NULL;
    z_assert(zh_boot(), "daemon-starts");
    zh_connect(3);
    z_assert(CMD(3, S("AUTH"), S("root")) && zr_is("+OK\r\n"), "auth-ok");
    pws[0] = protect ? "root" : NULL; pub[0] = 1; pws[1] = sym && z_choice(2, "long") ? "012345678901234567890123456789012345678901234567890123456789abc" : "pw"; pws[2] = NULL; pub[2] = 1;
    pub[1] = (int) z_choice(2, "public");
    if(protect) z_assert(CMD(3, S("SELECT"), S("default"), S("root")) && zr_is("+OK\r\n"), "select-ok");
    z_assert(CMD(3, S("SET"), S("k"), S("0")) && !zr_error(), "set-ok");
    for(int t = 1; t < 3; t++) {
        z_assert(CMD(3, S("NSNEW"), B(names[t], 1)) && zr_is("+OK\r\n"), "nsnew-ok");
        z_assert(CMD(3, S("SELECT"), B(names[t], 1)) && zr_is("+OK\r\n"), "select-ok");
        z_assert(CMD(3, S("SET"), S("k"), B(t == 1 ? "1" : "2", 1)) && !zr_error(), "set-ok");
    }
    z_assert(CMD(3, S("NSSET"), S("n"), S("password"), B(pws[1], strlen(pws[1]))) && zr_is("+OK\r\n"), "nsset-ok");
    if(!pub[1]) z_assert(CMD(3, S("NSSET"), S("n"), S("public"), S("0")) && zr_is("+OK\r\n"), "nsset-ok");
    if(sym && z_choice(2, "restart")) { z_assert(zh_boot(), "daemon-starts"); z_cover("restarted"); }
    zh_connect(0);
    if(sym && z_choice(2, "admin")) z_assert(CMD(0, S("AUTH"), S("root")) && zr_is("+OK\r\n"), "auth-ok");
    cur = 0; rw = !protect;
    check();
    for(int s = 0; s < ops; s++) { try_select(sym); check(); }
    z_cover("end");
}
