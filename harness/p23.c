#include "zharn.h"
// WAIT: woken once, by the first matching command another client of the same namespace executes, or by its timeout.
static const char *name[] = { "SET", "GET", "PING", "SETX", "DEL", "NSINFO" };
static struct { int on, what; uint32_t timeout; uint64_t since; } w[4];
static int ns[4] = { 0, 0, 0, 1 };
static uint64_t clock_us(void) { return (uint64_t) env.now_sec * 1000000 + (uint64_t) env.now_usec; }
static int sent(int c, const char *s) { zr_take(c); return s ? zr_is(s) : zr.n == 0; }
static char buf[32];
static const char *note(const char *n) { sprintf(buf, "+%s\r\n", n); return buf; }
// another client executed command k (or something unknown: k < 0)
static void woken(int by, int k) {
    for(int c = 0; c < 4; c++) {
        if(c == by) continue;
        if(w[c].on && k >= 0 && ns[c] == ns[by] && (w[c].what == 6 || w[c].what == k)) { z_assert(sent(c, note(name[k])), "woken"); w[c].on = 0; z_cover(w[c].what == 6 ? "woken-by-any" : "woken"); }
        else z_assert(sent(c, NULL), "not-woken");
    }
}
static void run(int c, int k) {
    zarg_t a[3]; int n = 1; const char *u = name[k < 0 ? 0 : k]; a[0] = B(u, strlen(u));
    if(k < 0) { a[0] = k == -1 ? S("SE") : S("SETXX"); }
    else if(k == 0 || k == 3) { a[1] = S("k"); a[2] = S("v"); n = 3; } else if(k == 1 || k == 4) { a[1] = S("k"); n = 2; } else if(k == 5) { a[1] = S("default"); n = 2; }
    if(k == 0 && z_choice(2, "lowercase")) a[0] = S("set");
    zh_feed_cmd(c, n, a); z_assert(zh_run(), "daemon-alive");
    zr_take(c); z_assert(zr.n >= 4, "answered");
    woken(c, k);
}
static void wait_(int c, int what, const char *t) {
    char low[8]; const char *u = what == 6 ? "*" : name[what]; uint32_t n = strlen(u); memcpy(low, u, n);
    if(z_param("lower", 0)) for(uint32_t i = 0; i < n; i++) if(low[i] >= 'A') low[i] += 32;
    w[c].since = clock_us();
    z_assert(t ? CMD(c, S("WAIT"), B(low, n), B(t, strlen(t))) : CMD(c, S("WAIT"), B(low, n)), "daemon-alive");
    z_assert(zr.n == 0, "nothing-until-woken");
    w[c].on = 1; w[c].what = what; w[c].timeout = t ? (uint32_t) atoi(t) : 5000;
    for(int o = 0; o < 4; o++) if(o != c) {
        if(w[o].on && ns[o] == ns[c] && w[o].what == 6) { z_assert(sent(o, "+WAIT\r\n"), "woken-by-wait"); w[o].on = 0; }
        else z_assert(sent(o, NULL), "not-woken");
    }
}
static void pass(uint64_t us) {
    uint64_t t = clock_us() + us; env.now_sec = (int64_t) (t / 1000000); env.now_usec = (int64_t) (t % 1000000);
    z_assert(zh_idle(), "daemon-alive");
    for(int c = 0; c < 4; c++) {
        zr_take(c);
        if(!w[c].on) { z_assert(zr.n == 0, "nothing-to-say"); continue; }
        uint64_t e = clock_us() - w[c].since;
        if(zr.n) { z_assert(zr_is("-Timeout\r\n"), "timeout-message"); z_assert(e >= (uint64_t) w[c].timeout * 1000, "not-before-the-timeout"); w[c].on = 0; z_cover("timed-out"); }
        else { z_assert(e < (uint64_t) w[c].timeout * 1000 + 3000, "not-long-after-the-timeout"); z_cover("still-waiting"); }
    }
}
void zmain(void) {
    int what = z_param("what", 0), ops = z_param("ops", 3);
    env_reset(); zh_opts[0] = NULL; z_assert(zh_boot(), "daemon-starts");
    for(int i = 0; i < 4; i++) zh_connect(i);
    z_assert(CMD(0, S("NSNEW"), S("n")) && zr_is("+OK\r\n"), "nsnew-ok"); z_assert(CMD(3, S("SELECT"), S("n")) && zr_is("+OK\r\n"), "select-ok");
    if(what == 0) { // histories of waits and commands by four clients, one in another namespace
        wait_(0, z_choice(2, "first") ? 6 : 0, NULL);
        for(int i = 0; i < ops; i++) {
            uint32_t s = z_choice(12, "step");
            if(s < 6) run(1, (int) s); else if(s == 6) run(1, -1); else if(s == 7) run(1, -2);
            else if(s == 8) run(3, 0);                       // from another namespace
            else if(s == 9) run(0, z_choice(2, "own") ? 1 : 0); // the waiting client itself
            else if(s == 10) wait_(2, z_choice(2, "which") ? 6 : 1, "100");
            else if(s == 11) { if(z_choice(2, "how")) { conns[0].hup = 1; conns[0].in_ready = 1; z_assert(zh_run(), "daemon-alive"); z_assert(conns[0].closed, "left"); w[0].on = 0; zh_connect(0); z_cover("left"); } else pass(4900000); }
        }
        pass(5100000);
        pass(5100000);
        for(int c = 0; c < 4; c++) z_assert(!w[c].on, "every-wait-ends");
    }
    if(what == 1) { // any time
        uint64_t base = 999999 - z_range(0, 999999, "start"); env.now_usec = (int64_t) base;
        static const char *t[] = { NULL, "100", "1800000", "999" };
        wait_(0, 0, t[z_choice(4, "timeout")]);
        uint64_t us = z_u64("elapsed"); z_assume(us < 4000000000ull);
        uint64_t tt = clock_us() + us; int64_t sec = (int64_t) z_u32("sec"), usec = (int64_t) z_u32("usec"); z_assume(usec < 1000000 && (uint64_t) sec < 5000 && (uint64_t) (1600000000 + sec) * 1000000 + (uint64_t) usec == tt);
        env.now_sec = 1600000000 + sec; env.now_usec = usec;
        z_assert(zh_idle(), "daemon-alive"); zr_take(0);
        if(zr.n) { z_assert(zr_is("-Timeout\r\n") && us >= (uint64_t) w[0].timeout * 1000, "not-before-the-timeout"); z_cover("timed-out"); z_assert(zh_idle(), "daemon-alive"); z_assert(sent(0, NULL), "once"); }
        else { z_assert(us < (uint64_t) w[0].timeout * 1000 + 3000, "not-long-after-the-timeout"); z_cover("still-waiting"); run(1, 0); }
    }
    if(what == 2) { // any timeout argument of up to 8 digits
        char t[9]; uint32_t n = z_choice(9, "digits"); uint64_t v = 0;
        for(uint32_t i = 0; i < n; i++) { t[i] = (char) z_u8("digit"); z_assume(t[i] >= '0' && t[i] <= '9'); v = v * 10 + (uint64_t) (t[i] - '0'); } t[n] = 0;
        z_assert(CMD(0, S("WAIT"), S("SET"), B(t, n)), "daemon-alive");
        if(v >= 100 && v <= 1800000) {
            z_assert(zr.n == 0, "accepted"); z_cover("accepted");
            env.now_sec += 1801; z_assert(zh_idle(), "daemon-alive"); z_assert(sent(0, "-Timeout\r\n"), "times-out");
        } else { z_assert(zr_error(), "refused"); z_cover("refused"); env.now_sec += 1801; z_assert(zh_idle(), "daemon-alive"); z_assert(sent(0, NULL), "not-waiting"); }
    }
    if(what == 3) { // any command name of up to 4 bytes
        uint8_t m[4]; uint32_t n = z_choice(5, "len"); z_bytes(m, n, "name");
        z_assert(CMD(0, S("WAIT"), B(m, n)), "daemon-alive");
        if(zr.n) { z_assert(zr_error(), "refused"); z_cover("refused"); z_assume(n == 3); z_assert(CMD(1, S("SET"), S("k"), S("v")), "daemon-alive"); z_assert(sent(0, NULL), "not-waiting"); }
        else {
            z_cover("accepted");
            z_assert(CMD(1, S("SET"), S("k"), S("v")), "daemon-alive"); zr_take(0);
            int set = n == 3 && (m[0] | 32) == 's' && (m[1] | 32) == 'e' && (m[2] | 32) == 't', any = n == 1 && m[0] == '*';
            z_assert(zr.n ? (set || any) && zr_is("+SET\r\n") : !set && !any, "woken-by-that-name");
        }
    }
    z_cover("end");
}
