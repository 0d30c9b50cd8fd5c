#include "zharn.h"
#include "sha1.h"
// Authentication is granted exactly for the password; a challenge works once, for the session that asked.
static int admin(int c) { z_assert(CMD(c, S("HOOKS")), "daemon-alive"); return !zr_is("-Permission denied\r\n"); }
static int secure(int c, const void *d, uint32_t n) { z_assert(CMD(c, S("AUTH"), S("SECURE"), B(d, n)), "daemon-alive"); int ok = zr_is("+OK\r\n"); z_assert(ok || zr_error(), "answer"); return ok; }
void zmain(void) {
    int what = z_param("what", 0);
    static const char *pws[] = { "sesame", "x", "pass word:with:colon", "0123456789012345678901234567890123456789012345678901234567890123456789" };
    const char *pw = pws[z_choice(what == 2 ? 2 : 4, "password")]; uint32_t pn = strlen(pw);
    char n0[17], n1[17], d[41]; unsigned char in[320];
    env_reset();
    zh_opts[0] = "--admin"; zh_opts[1] = pw; zh_opts[2] = NULL;
    if(what == 3) {
        // every bit of randomness reaches the challenge: different randomness, different challenge
        z_bytes(env.entropy[0], 8, "rnd"); z_bytes(env.entropy[1], 8, "rnd"); env.entropy_set = 1;
        z_assert(zh_boot(), "daemon-starts");
        env.nonces = 0;
        zh_connect(0); zh_connect(1);
        challenge(0, n0); challenge(z_choice(2, "client"), n1);
        if(memcmp(env.entropy[0], env.entropy[1], 8) != 0) { z_assert(memcmp(n0, n1, 16) != 0, "challenges-differ"); z_cover("end"); }
        return;
    }
    env.entropy_seed = (int) z_choice(2, "entropy") * 113;
    z_assert(zh_boot(), "daemon-starts");
    zh_connect(0); zh_connect(1);
    z_assert(!admin(0), "not-yet-admin");
    if(what == 0) {
        // plain
        uint32_t n = z_choice(3, "length"); n = n == 0 ? pn : n == 1 ? pn - 1 : pn + 1;
        uint32_t far = z_choice(5, "far"); if(far) { static const uint32_t w[] = { 0, 128, 129, 255, 300 }; n = w[far]; }
        z_bytes(in, n, "in");
        z_assert(CMD(0, S("AUTH"), B(in, n)), "daemon-alive");
        int ok = zr_is("+OK\r\n"); z_assert(ok || zr_error(), "answer");
        int right = n == pn && memcmp(in, pw, pn) == 0;
        z_assert(ok == right, "granted-exactly-for-the-password");
        z_assert(admin(0) == right, "admin-exactly-when-granted");
        z_cover(right ? "right" : "wrong");
        z_assert(!admin(1), "other-client-not-admin");
    } else if(what == 1) {
        // secure: any answer to the challenge
        challenge(0, n0); digest(n0, pw, d);
        static const uint32_t len[] = { 40, 39, 41, 0, 16 };
        uint32_t n = len[z_choice(5, "length")];
        z_bytes(in, n, "in");
        int right = n == 40 && memcmp(in, d, 40) == 0, ok = n == 9 && !memcmp(in, "CHALLENGE", 9) ? 0 : secure(0, in, n);
        z_assert(ok == right, "granted-exactly-for-the-digest");
        z_assert(admin(0) == right, "admin-exactly-when-granted");
        z_cover(right ? "right" : "wrong");
        z_assert(!admin(1), "other-client-not-admin");
        if(n == 40) z_assert(!secure(1, in, 40), "digest-of-another-session-refused");
    } else {
        // sequences: c0/c1 hold the challenges still usable
        int ops = z_param("ops", 4), usable[2] = { 0, 0 }, adm[2] = { 0, 0 }; char cur[2][17], last[2][17];
        memset(cur, 0, sizeof cur); strcpy(last[0], "0000000000000000"); strcpy(last[1], last[0]);
        for(int s = 0; s < ops; s++) {
            int c = (int) z_choice(2, "client");
            switch(z_choice(5, "op")) {
            case 0: challenge(c, cur[c]); for(int j = 0; j < 2; j++) z_assert(strcmp(cur[c], last[j]) != 0, "challenge-fresh"); usable[c] = 1; strcpy(last[c], cur[c]); break;
            case 1: { // answers the latest challenge of this client
                digest(last[c], pw, d); int ok = secure(c, d, 40);
                z_assert(ok == usable[c], "challenge-usable-once"); if(ok) { adm[c] = 1; z_cover("granted"); } else z_cover("replay-refused"); usable[c] = 0; break; }
            case 2: // answers the challenge of the other client
                digest(last[1 - c], pw, d); z_assert(!secure(c, d, 40), "challenge-of-another-session"); usable[c] = 0; z_cover("foreign-refused"); break;
            case 3: // wrong answer
                digest(last[c], "wrong", d); z_assert(!secure(c, d, 40), "wrong-digest-refused"); usable[c] = 0; break;
            default: // spent on another service
                if(!usable[c]) z_assume(0);
                z_assert(CMD(c, S("AUTH"), S("SECURE")), "daemon-alive"); z_assert(zr_error(), "incomplete-refused");
                z_assert(CMD(c, S("AUTH"), S("BASIC"), S("x")), "daemon-alive"); z_assert(zr_error(), "unknown-method-refused");
                break;
            }
            for(int j = 0; j < 2; j++) z_assert(admin(j) == adm[j], "admin-exactly-when-granted");
        }
    }
    z_cover("end");
}
