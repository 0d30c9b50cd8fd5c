#include "zharn.h"
// A password is set exactly as given or refused: afterwards exactly its bytes open the namespace.
void zmain(void) {
    static const uint32_t len[] = { 0, 1, 2, 3, 62, 63, 64 };
    unsigned char pw[70], in[70], old[3] = "pw"; uint32_t n = 2, k;
    env_reset(); zh_opts[0] = "--admin"; zh_opts[1] = "root"; zh_opts[2] = NULL;
    z_assert(zh_boot(), "daemon-starts"); zh_connect(3);
    z_assert(CMD(3, S("AUTH"), S("root")) && zr_is("+OK\r\n"), "auth-ok");
    z_assert(CMD(3, S("NSNEW"), S("n")) && zr_is("+OK\r\n"), "nsnew-ok");
    int had = (int) z_choice(2, "had a password"), locked = had;
    if(had) z_assert(CMD(3, S("NSSET"), S("n"), S("password"), S("pw")) && zr_is("+OK\r\n") && CMD(3, S("NSSET"), S("n"), S("public"), S("0")) && zr_is("+OK\r\n"), "nsset-ok");
    uint32_t l = len[z_choice(7, "length")];
    memset(pw, 'p', sizeof pw);
    if(l) { pw[0] = z_u8("first"); pw[l - 1] = z_u8("last"); if(l == 3) pw[1] = z_u8("second"); }
    int clear = l == 1 && pw[0] == '*';
    z_assert(CMD(3, S("NSSET"), S("n"), S("password"), B(pw, l)), "daemon-alive");
    int ok = zr_is("+OK\r\n"); z_assert(ok || zr_error(), "answer");
    if(ok && clear) { locked = 0; z_cover("cleared"); }
    else if(ok) { locked = 1; memcpy(old, pw, 3); n = l; z_cover("set"); }
    else z_cover("refused");
    z_assert(l > 0 || !ok, "empty-password-refused");
    if(ok && locked && !had) z_assert(CMD(3, S("NSSET"), S("n"), S("public"), S("0")) && zr_is("+OK\r\n"), "nsset-ok");
    if(z_choice(2, "restart")) { z_assert(zh_boot(), "daemon-starts"); }
    zh_connect(0);
    if(!locked) { z_assert(CMD(0, S("SELECT"), S("n")) && zr_is("+OK\r\n"), "open-namespace-selectable"); z_assert(CMD(0, S("SET"), S("k"), S("v")) && !zr_error(), "writable-exactly-with-the-rights-obtained"); return; }
    // the current password
    if(!ok || clear) { memset(pw, 0, sizeof pw); memcpy(pw, "pw", 2); n = 2; }
    memset(in, 'p', sizeof in);
    uint32_t how = z_choice(5, "attempt"); k = how == 0 ? n : how == 1 ? n - 1 : how == 2 ? n + 1 : how == 3 ? n : 3;
    memcpy(in, pw, n);
    if(how == 2) in[n] = z_u8("in");
    if(how >= 3) { if(k) in[0] = z_u8("in"); if(k > 1) in[k - 1] = z_u8("in"); }
    int same = k == n && memcmp(in, pw, n) == 0;
    z_assert(CMD(0, S("SELECT"), S("n")) && zr_error(), "granted-exactly-for-the-password");
    z_assert(CMD(0, S("SELECT"), S("n"), B(in, k)), "daemon-alive");
    int in_ok = zr_is("+OK\r\n"); z_assert(in_ok || zr_error(), "answer");
    z_assert(in_ok == same, "granted-exactly-for-the-password");
    if(in_ok) { z_assert(CMD(0, S("SET"), S("k"), S("v")) && !zr_error(), "writable-exactly-with-the-rights-obtained"); z_cover("granted"); }
    else z_cover("denied");
    z_cover("end");
}
